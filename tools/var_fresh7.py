import runpy,os
g=runpy.run_path(os.path.dirname(os.path.abspath(__file__))+"/var_fresh5.py")
globals().update({k:v for k,v in g.items() if k in ("SC","ST","PT","PP","ALL","HEAD","whole","sub","sc","st","pt","body","TR","NS","LF","imp")})
GOOD={}; BAD={}
GOOD['runestart']=(ALL,[body(PT,LF,'''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	first := p[0]
	if first < utf8.RuneSelf {
		return lookupProps[first], 1
	}
	length = bits.LeadingZeros8(^first)
	if length < 2 || length > utf8.UTFMax {
		return Error, 1
	}
	if length > len(p) {
		return zeroProperties, 0
	}
	seq := p[1:length]
	if slices.ContainsFunc(seq, utf8.RuneStart) {
		return Error, 1
	}
	last := len(seq) - 1
	idx := lookupIndices[first&0x3f]
	for _, b := range seq[:last] {
		idx = lookupIndices[int(idx)<<6|int(b&0x3f)]
	}
	return lookupProps[int(idx)<<6|int(seq[last]&0x3f)], length
}
'''),imp(PT,"math/bits","slices","unicode/utf8")])
DR='''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if r, n := utf8.DecodeRune(p); n > 1 {
		// Well-formed, which is what nearly all text is.
		return lookupRune(r, n), n
	}
	return lookupSequence(p)
}

func lookupRune(r rune, n int) CharProperties {
	block := 0
	for shift := 6 * (n - 1); shift > 0; shift -= 6 {
		i := int(r>>shift) & 0x3f
		if shift == 6*(n-1) {
			i |= [...]int{2: 0x00, 3: 0x20, 4: 0x30}[n]
		}
		block = int(lookupIndices[block<<6|i])
	}
	return lookupProps[block<<6|int(r&0x3f)]
}

'''
def dr(text):
    def f(r):
        p=r+"/"+PT; s=open(p).read()
        s=s.replace("package charprops\n",'package charprops\n\nimport "unicode/utf8"\n',1)
        i=s.index("// LookupFirstChar identifies")
        s=s.replace("func LookupFirstChar(p","func lookupSequence(p")
        s=s[:i]+text+s[i:].replace("// LookupFirstChar identifies","// lookupSequence identifies")
        open(p,'w').write(s)
    return f
GOOD['decoderune']=(ALL,[dr(DR)])
BAD['decoderune-mask']=("C08",[dr(DR.replace("i |= [...]int{2: 0x00, 3: 0x20, 4: 0x30}[n]","i |= [...]int{2: 0x00, 3: 0x20, 4: 0x20}[n]"))])
BAD['decoderune-err']=("C08 C06",[dr(DR.replace("n > 1 {","n > 0 && r != 'x' {").replace("return lookupRune(r, n), n","return lookupRune(r, max(n, 2)), n"))])
RF='''func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	var (
		state machine.State
		prev  charprops.CharProperties
		end   int
	)
	for next, n := range characters(data) {
		switch {
		case next == charprops.Error && end == 0:
			return 1, data[:1], nil
		case next == charprops.Error:
			return end, data[:end], nil
		case n == 0 && !atEOF:
			return 0, nil, nil
		case n == 0:
			end = max(end, 1)
			return end, data[:end], nil
		}
		if end == 0 {
			state = machine.Begin(next)
		} else {
			split, after := state.Transition(prev, next)
			if split {
				return end, data[:end], nil
			}
			state = after
		}
		prev = next
		end += n
	}
	if end == 0 || !atEOF {
		return 0, nil, nil
	}
	return end, data[:end], nil
}

// characters yields the properties and the length of each character. An
// incomplete one at the end has the length zero.
func characters(data []byte) iter.Seq2[charprops.CharProperties, int] {
	return func(yield func(charprops.CharProperties, int) bool) {
		for len(data) > 0 {
			props, n := charprops.LookupFirstChar(data)
			if !yield(props, n) || n == 0 {
				return
			}
			data = data[n:]
		}
	}
}
'''
def rf(t): return sc(t)[0],[whole(SC,HEAD.replace('import (\n','import (\n\t"iter"\n\n',1)+t)]
GOOD['rangefunc']=rf(RF)
BAD['rangefunc-max']=("C05 C02",rf(RF.replace("			end = max(end, 1)\n",""))[1])
BAD['rangefunc-eof']=("C03",rf(RF.replace("if end == 0 || !atEOF {","if end == 0 || !atEOF && prev != 0 {"))[1])
RULES='''// A rule decides about a boundary from the characters around it, or leaves
// that to those after it.
type rule func(s State, prev, next charprops.CharProperties) verdict

type verdict uint8

const (
	undecided verdict = iota
	join
	separate
)

func joinIf(is bool) verdict {
	if is {
		return join
	}
	return undecided
}

var rules = [...]rule{
	func(_ State, prev, next charprops.CharProperties) verdict {
		return joinIf(prev.GCBProperty() == charprops.GCBCR && next.GCBProperty() == charprops.GCBLF)
	},
	func(_ State, prev, next charprops.CharProperties) verdict {
		if prev.GCBProperty().IsAnyControl() || next.GCBProperty().IsAnyControl() {
			return separate
		}
		return undecided
	},
	func(_ State, prev, next charprops.CharProperties) verdict {
		switch n := next.GCBProperty(); prev.GCBProperty() {
		case charprops.GCBL:
			return joinIf(n == charprops.GCBL || n == charprops.GCBV || n == charprops.GCBLV || n == charprops.GCBLVT)
		case charprops.GCBLV, charprops.GCBV:
			return joinIf(n == charprops.GCBV || n == charprops.GCBT)
		case charprops.GCBLVT, charprops.GCBT:
			return joinIf(n == charprops.GCBT)
		}
		return undecided
	},
	func(_ State, prev, next charprops.CharProperties) verdict {
		n := next.GCBProperty()
		return joinIf(n == charprops.GCBExtend || n == charprops.GCBZWJ || n == charprops.GCBSpacingMark || prev.GCBProperty() == charprops.GCBPrepend)
	},
	func(s State, prev, next charprops.CharProperties) verdict {
		if !s.gb9cActive() || next.InCBProperty() != charprops.InCBConsonant {
			return undecided
		}
		return joinIf(prev.InCBProperty() == charprops.InCBLinker || prev.InCBProperty() == charprops.InCBExtend)
	},
	func(s State, prev, next charprops.CharProperties) verdict {
		return joinIf(s.gb11Active() && prev.GCBProperty() == charprops.GCBZWJ && next.GCBProperty() == charprops.GCBExtendedPictographic)
	},
	func(s State, prev, next charprops.CharProperties) verdict {
		return joinIf(s.gb13Active() && prev.GCBProperty() == charprops.GCBRegionalIndicator && next.GCBProperty() == prev.GCBProperty())
	},
}

func (s State) Transition(prev, next charprops.CharProperties) (bool, State) {
	for _, decide := range rules {
		if v := decide(s, prev, next); v != undecided {
			return v == separate, s.nextState(next)
		}
	}
	return true, s.nextState(next)
}
'''
GOOD['rulefuncs']=(ALL,[body(ST,TR,RULES)])
BAD['rulefuncs-order']=("C01",[body(ST,TR,RULES.replace("return v == separate,","return v == separate && s != StateGB9cLinker,"))])
GOOD['window']=(ALL,[sub(SC,("		next, moreCount := charprops.LookupFirstChar(remain)\n","		window := remain[:min(len(remain), 4)]\n		next, moreCount := charprops.LookupFirstChar(window)\n"))])
BAD['window-3']=("C01 C17",[sub(SC,("		next, moreCount := charprops.LookupFirstChar(remain)\n","		window := remain[:min(len(remain), 3)]\n		next, moreCount := charprops.LookupFirstChar(window)\n"))])
