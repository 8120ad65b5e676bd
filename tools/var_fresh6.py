import runpy,os
g=runpy.run_path(os.path.dirname(os.path.abspath(__file__))+"/var_fresh5.py")
globals().update({k:v for k,v in g.items() if k in ("SC","ST","PT","PP","ALL","HEAD","whole","sub","sc","st","pt","body","TR","NS","LF","imp")})
GOOD={}; BAD={}
# the bytes of a sequence as an array
AR='''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	switch first := p[0]; {
	case first < 0x80:
		return lookupProps[first], 1
	case first>>5 == 0b110:
		if len(p) < 2 {
			return zeroProperties, 0
		}
		s := [2]byte(p)
		if !continues(s[1]) {
			return Error, 1
		}
		return find(lookupIndices[s[0]&0x3f], s[1]), len(s)
	case first>>4 == 0b1110:
		if len(p) < 3 {
			return zeroProperties, 0
		}
		s := (*[3]byte)(p)
		if !continues(s[1]) || !continues(s[2]) {
			return Error, 1
		}
		return find(next(lookupIndices[s[0]&0x3f], s[1]), s[2]), len(s)
	case first>>3 == 0b11110:
		if len(p) < 4 {
			return zeroProperties, 0
		}
		s := [4]byte(p[:4])
		for _, b := range s[1:] {
			if !continues(b) {
				return Error, 1
			}
		}
		return find(next(next(lookupIndices[s[0]&0x3f], s[1]), s[2]), s[3]), len(s)
	}
	return Error, 1
}

func continues(b byte) bool { return b&0xc0 == 0x80 }

func next[T uint8 | uint16](block T, b byte) T {
	return T(lookupIndices[int(block)<<6|int(b&0x3f)])
}

func find[T uint8 | uint16](block T, b byte) CharProperties {
	return lookupProps[int(block)<<6|int(b&0x3f)]
}
'''
GOOD['arrays']=(ALL,[body(PT,LF,AR)])
for k,p,a,b in [('cont','C06','!continues(s[1]) || !continues(s[2])','!continues(s[2])'),('range','C06','range s[1:]','range s[2:]'),('short','C04','		if len(p) < 3 {','		if len(p) < 2 {'),('mid','C08','next(next(lookupIndices[s[0]&0x3f], s[1]), s[2]), s[3])','next(next(lookupIndices[s[0]&0x3f], s[2]), s[1]), s[3])')]:
    assert AR.count(a)==1,a
    BAD['arrays-'+k]=(p,[body(PT,LF,AR.replace(a,b))])
# a constant string as a table, slices.ContainsFunc
GOOD['conststr']=(ALL,[body(PT,LF,'''const sizes = "\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01\\x01" +
	"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x02\\x02\\x02\\x02\\x03\\x03\\x04\\x00"

func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	length = int(sizes[p[0]>>3])
	if length == 0 {
		return Error, 1
	}
	if length > len(p) {
		return zeroProperties, 0
	}
	if slices.ContainsFunc(p[1:length], func(b byte) bool { return b < 0x80 || b >= 0xc0 }) {
		return Error, 1
	}
	if length == 1 {
		return lookupProps[p[0]], length
	}
	at := int(p[0] & 0x3f)
	for i := range length - 1 {
		at = int(lookupIndices[at])<<6 | int(p[i+1]&0x3f)
	}
	return lookupProps[at], length
}
'''),imp(PT,'slices')])
# pairs of classes in one number
GOOD['pairword']=(ALL,[sub(ST,('''	// GB6: Do not break Hangul syllable or other conjoining sequences.
	if prevC == charprops.GCBL && (nextC == charprops.GCBL || nextC == charprops.GCBV || nextC == charprops.GCBLV || nextC == charprops.GCBLVT) {
		return false, nextState
	}
	// GB7: Do not break Hangul syllable or other conjoining sequences.
	if (prevC == charprops.GCBLV || prevC == charprops.GCBV) && (nextC == charprops.GCBV || nextC == charprops.GCBT) {
		return false, nextState
	}
	// GB8: Do not break Hangul syllable or other conjoining sequences.
	if (prevC == charprops.GCBLVT || prevC == charprops.GCBT) && nextC == charprops.GCBT {
		return false, nextState
	}
''','''	// GB6 to GB8: Do not break Hangul syllables.
	switch uint16(prevC)<<8 | uint16(nextC) {
	case ll, lv, llv, llvt, lvv, lvt, vv, vt, lvtt, tt:
		return false, nextState
	}
'''),('func Begin(','''const (
	ll   = uint16(charprops.GCBL)<<8 | uint16(charprops.GCBL)
	lv   = uint16(charprops.GCBL)<<8 | uint16(charprops.GCBV)
	llv  = uint16(charprops.GCBL)<<8 | uint16(charprops.GCBLV)
	llvt = uint16(charprops.GCBL)<<8 | uint16(charprops.GCBLVT)
	lvv  = uint16(charprops.GCBLV)<<8 | uint16(charprops.GCBV)
	lvt  = uint16(charprops.GCBLV)<<8 | uint16(charprops.GCBT)
	vv   = uint16(charprops.GCBV)<<8 | uint16(charprops.GCBV)
	vt   = uint16(charprops.GCBV)<<8 | uint16(charprops.GCBT)
	lvtt = uint16(charprops.GCBLVT)<<8 | uint16(charprops.GCBT)
	tt   = uint16(charprops.GCBT)<<8 | uint16(charprops.GCBT)
)

func Begin('''))])
# recursion: the stack grows with the cluster
REC='''func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	if len(data) == 0 {
		return 0, nil, nil
	}
	prev, count := charprops.LookupFirstChar(data)
	if prev == charprops.Error || count == 0 && atEOF {
		return 1, data[:1], nil
	}
	if count == 0 {
		return 0, nil, nil
	}
	if n := extend(data, count, atEOF, machine.Begin(prev), prev); n > 0 {
		return n, data[:n], nil
	}
	return 0, nil, nil
}

func extend(data []byte, count int, atEOF bool, state machine.State, prev charprops.CharProperties) int {
	next, size := charprops.LookupFirstChar(data[count:])
	if next == charprops.Error {
		return count
	}
	if size == 0 {
		if atEOF {
			return count
		}
		return 0
	}
	split, follow := state.Transition(prev, next)
	if split {
		return count
	}
	return extend(data, count+size, atEOF, follow, next)
}
'''
BAD['recursion']=('C18',sc(REC)[1])
# the split function as a value made from a configuration
GOOD['config']=sc('''// mode says how the scanning treats the end of the buffer.
type mode struct {
	final bool
}

func (m mode) wait(count int, data []byte) (int, []byte, error) {
	if m.final {
		return emit(max(count, 1), data)
	}
	return emit(0, nil)
}

func emit(n int, data []byte) (int, []byte, error) {
	if n == 0 {
		return 0, nil, nil
	}
	return n, data[:n], nil
}

func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	if len(data) == 0 {
		return emit(0, nil)
	}
	m := mode{final: atEOF}
	prev, count := charprops.LookupFirstChar(data)
	switch {
	case prev == charprops.Error:
		return emit(1, data)
	case count == 0:
		return m.wait(0, data)
	}
	for state, rest := machine.Begin(prev), data[count:]; ; rest = data[count:] {
		next, size := charprops.LookupFirstChar(rest)
		if next == charprops.Error {
			return emit(count, data)
		}
		if size == 0 {
			return m.wait(count, data)
		}
		var split bool
		if split, state = state.Transition(prev, next); split {
			return emit(count, data)
		}
		prev = next
		count += size
	}
}
''')
# the state and the previous properties packed into one word
GOOD['packed']=(ALL,[sub(SC,('''	state := machine.Begin(properties)
	prev := properties
''','''	track := uint32(machine.Begin(properties))<<8 | uint32(properties)
'''),('''		split, nextState := state.Transition(prev, next)
''','''		split, nextState := machine.State(track>>8).Transition(charprops.CharProperties(track), next)
'''),('''		state = nextState
		prev = next
''','''		track = uint32(nextState)<<8 | uint32(next)
'''))])
BAD['packed-narrow']=('C01',[sub(SC,('''	state := machine.Begin(properties)
	prev := properties
''','''	track := uint16(machine.Begin(properties))<<6 | uint16(properties)
'''),('''		split, nextState := state.Transition(prev, next)
''','''		split, nextState := machine.State(track>>6).Transition(charprops.CharProperties(track&0x3f), next)
'''),('''		state = nextState
		prev = next
''','''		track = uint16(nextState)<<6 | uint16(next)
		if len(remain) > 256 {
			track &= 0x7f
		}
'''))])
BAD['arrays-write']=('C07',[body(PT,LF,AR.replace('''		s := (*[3]byte)(p)
''','''		s := (*[3]byte)(p)
		s[2] |= 0
		if s[1] == 0xff {
			s[1] = 0xbf
		}
'''))])
