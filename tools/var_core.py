SC="textseg/grapheme_clusters.go"; ST="textseg/internal/machine/state.go"; PT="textseg/internal/charprops/property_table.go"; PP="textseg/internal/charprops/properties.go"
ALL="C01 C02 C03 C04 C05 C06 C07 C08 C10 C17 C18 C22"
HEAD='''package textseg

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/machine"
)

'''
def whole(file, text):
    def f(r): open(r+"/"+file,"w").write(text)
    return f
def sub(file,*pairs):
    def f(r):
        p=r+"/"+file; s=open(p).read()
        for a,b in pairs:
            assert a in s,(file,a)
            s=s.replace(a,b)
        open(p,'w').write(s)
    return f
def sc(body): return (ALL,[whole(SC,HEAD+body)])
def st(*p): return (ALL,[sub(ST,*p)])
def pt(*p): return (ALL,[sub(PT,*p)])
def body(file,sig,new):
    """replaces the body of a function"""
    def f(r):
        p=r+"/"+file; s=open(p).read()
        i=s.index(sig); j=s.index("\n}\n",i)+3
        s=s[:i]+new+s[j:]
        open(p,'w').write(s)
    return f
TR='func (s State) Transition('
NS='func (s State) nextState('
LF='func LookupFirstChar('
GOOD={
 "pos":sc('''func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	first, n := charprops.LookupFirstChar(data)
	switch {
	case len(data) == 0:
		return 0, nil, nil
	case first == charprops.Error:
		return 1, data[:1], nil
	case n == 0 && atEOF:
		return 1, data[:1], nil
	case n == 0:
		return 0, nil, nil
	}
	st := machine.Begin(first)
	prev := first
	pos := n
	for pos < len(data) {
		next, size := charprops.LookupFirstChar(data[pos:])
		if next == charprops.Error {
			return pos, data[:pos], nil
		}
		if size == 0 {
			break
		}
		split, ns := st.Transition(prev, next)
		if split {
			return pos, data[:pos], nil
		}
		st, prev = ns, next
		pos += size
	}
	if !atEOF {
		return 0, nil, nil
	}
	return pos, data[:pos], nil
}
'''),
 "helpers":sc('''func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	n := clusterLen(data, atEOF)
	if n == 0 {
		return more()
	}
	return token(data, n)
}

func more() (int, []byte, error) { return 0, nil, nil }

func token(data []byte, n int) (advance int, tok []byte, err error) {
	advance = n
	tok = data[:n]
	return
}

func clusterLen(data []byte, atEOF bool) int {
	if len(data) == 0 {
		return 0
	}
	props, count := charprops.LookupFirstChar(data)
	if props == charprops.Error || count == 0 && atEOF {
		return 1
	}
	if count == 0 {
		return 0
	}
	state := machine.Begin(props)
	for prev := props; ; {
		remain := data[count:]
		if len(remain) == 0 {
			return atEnd(count, atEOF)
		}
		next, more := charprops.LookupFirstChar(remain)
		if next == charprops.Error {
			return count
		}
		if more == 0 {
			return atEnd(count, atEOF)
		}
		var split bool
		if split, state = state.Transition(prev, next); split {
			return count
		}
		count += more
		prev = next
	}
}

func atEnd(count int, atEOF bool) int {
	if atEOF {
		return count
	}
	return 0
}
'''),
 "segmenter":sc('''type segmenter struct {
	state machine.State
	prev  charprops.CharProperties
}

func (s *segmenter) step(next charprops.CharProperties) bool {
	split, st := s.state.Transition(s.prev, next)
	s.state = st
	s.prev = next
	return split
}

type char struct {
	props charprops.CharProperties
	n     int
}

func decode(p []byte) char {
	props, n := charprops.LookupFirstChar(p)
	return char{props: props, n: n}
}

func (c char) bad() bool { return c.props == charprops.Error }

func ScanGraphemeClusters(data []byte, atEOF bool) (advance int, token []byte, err error) {
	if len(data) == 0 {
		return
	}
	c := decode(data)
	if c.bad() || (c.n == 0 && atEOF) {
		return 1, data[:1], nil
	}
	if c.n == 0 {
		return
	}
	seg := segmenter{state: machine.Begin(c.props), prev: c.props}
	for advance = c.n; advance < len(data); advance += c.n {
		c = decode(data[advance:])
		if c.bad() {
			return advance, data[:advance], nil
		}
		if c.n == 0 {
			break
		}
		if seg.step(c.props) {
			return advance, data[:advance], nil
		}
	}
	if !atEOF {
		return 0, nil, nil
	}
	return advance, data[:advance:advance], nil
}
'''),
 "goto":sc('''func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	if len(data) == 0 {
		return 0, nil, nil
	}
	var (
		state machine.State
		next  charprops.CharProperties
		size  int
		split bool
	)
	prev, count := charprops.LookupFirstChar(data)
	if prev == charprops.Error {
		count = 1
		goto done
	}
	if count == 0 {
		if !atEOF {
			goto more
		}
		count = 1
		goto done
	}
	state = machine.Begin(prev)
again:
	if len(data) <= count {
		if atEOF {
			goto done
		}
		goto more
	}
	next, size = charprops.LookupFirstChar(data[count:])
	if next == charprops.Error {
		goto done
	}
	if size == 0 {
		if atEOF {
			goto done
		}
		goto more
	}
	split, state = state.Transition(prev, next)
	if !split {
		count += size
		prev = next
		goto again
	}
done:
	return count, data[:count], nil
more:
	return 0, nil, nil
}
'''),
 "asciifast":(ALL,[sub(SC,('''	properties, count := charprops.LookupFirstChar(data)
''','''	// Two printable ASCII characters never belong together.
	if len(data) > 1 && printable(data[0]) && printable(data[1]) {
		return 1, data[:1], nil
	}

	properties, count := charprops.LookupFirstChar(data)
'''),('''// ScanGraphemeClusters is''','''func printable(b byte) bool { return b >= 0x20 && b < 0x7f }

// ScanGraphemeClusters is'''))]),
 "closure":(ALL,[sub(SC,('''	properties, count := charprops.LookupFirstChar(data)
''','''	lookup := charprops.LookupFirstChar
	properties, count := lookup(data)
'''),('charprops.LookupFirstChar(remain)','lookup(remain)'))]),
 "emitclosure":(ALL,[sub(SC,('''	state := machine.Begin(properties)
''','''	emit := func() (int, []byte, error) { return count, data[:count], nil }
	state := machine.Begin(properties)
'''),('''			return count, data[:count], nil
		}
		if moreCount''','''			return emit()
		}
		if moreCount'''))]),
 "whilerest":(ALL,[sub(SC,('''	for {
		if len(remain) == 0 {
			if atEOF {
				// If we're at the end of the file then whatever we've
				// accumulated so far is a grapheme cluster.
				return count, data[:count], nil
			}
			// If we're not at the end of the file then we'll need more
			// bytes before we can decide if we've reached the end of a
			// grapheme cluster.
			return 0, nil, nil
		}
''','''	for len(remain) > 0 {
'''),('''		prev = next
	}
}''','''		prev = next
	}
	if atEOF {
		return count, data[:count], nil
	}
	return 0, nil, nil
}'''))]),
 "switchloop":sc('''func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	var (
		count int
		state machine.State
		prev  charprops.CharProperties
	)
scan:
	for {
		if len(data[count:]) == 0 {
			break
		}
		next, size := charprops.LookupFirstChar(data[count:])
		switch {
		case next == charprops.Error && count == 0, size == 0 && atEOF && count == 0:
			count = 1
			break scan
		case next == charprops.Error, size == 0 && atEOF:
			break scan
		case size == 0:
			return 0, nil, nil
		case count == 0:
			state = machine.Begin(next)
		default:
			split, ns := state.Transition(prev, next)
			if split {
				break scan
			}
			state = ns
		}
		prev = next
		count += size
		if count == len(data) && !atEOF {
			return 0, nil, nil
		}
	}
	if count == 0 {
		return 0, nil, nil
	}
	return count, data[:count], nil
}
'''),
 "table":(ALL,[body(ST,NS,'''func (s State) nextState(next charprops.CharProperties) State {
	if next.GCBProperty() == charprops.GCBExtendedPictographic {
		return StateGB11BeforeZWJ
	}
	if next.InCBProperty() == charprops.InCBConsonant {
		return StateGB9cConsonant
	}
	return follow[s][next.GCBProperty()][next.InCBProperty()>>4]
}

var follow = [...][16][4]State{
	StateBase:           {charprops.GCBRegionalIndicator: {StateAwaitEmojiFlag, StateAwaitEmojiFlag, StateAwaitEmojiFlag, StateAwaitEmojiFlag}},
	StateAwaitEmojiFlag: {},
	StateGB11BeforeZWJ: {
		charprops.GCBZWJ:    {StateGB11AfterZWJ, StateGB11AfterZWJ, StateGB11AfterZWJ, StateGB11AfterZWJ},
		charprops.GCBExtend: {StateGB11BeforeZWJ, StateGB11BeforeZWJ, StateGB11BeforeZWJ, StateGB11BeforeZWJ},
	},
	StateGB11AfterZWJ: {},
	StateGB9cConsonant: {
		0: {2: StateGB9cConsonant, 3: StateGB9cLinker}, 1: {2: StateGB9cConsonant, 3: StateGB9cLinker},
		2: {2: StateGB9cConsonant, 3: StateGB9cLinker}, 3: {2: StateGB9cConsonant, 3: StateGB9cLinker},
		5: {2: StateGB9cConsonant, 3: StateGB9cLinker}, 6: {2: StateGB9cConsonant, 3: StateGB9cLinker},
		7: {2: StateGB9cConsonant, 3: StateGB9cLinker}, 8: {2: StateGB9cConsonant, 3: StateGB9cLinker},
		9: {2: StateGB9cConsonant, 3: StateGB9cLinker}, 10: {2: StateGB9cConsonant, 3: StateGB9cLinker},
		11: {2: StateGB9cConsonant, 3: StateGB9cLinker}, 12: {2: StateGB9cConsonant, 3: StateGB9cLinker},
		13: {2: StateGB9cConsonant, 3: StateGB9cLinker}, 14: {2: StateGB9cConsonant, 3: StateGB9cLinker},
	},
	StateGB9cLinker: {
		0: {2: StateGB9cLinker, 3: StateGB9cLinker}, 3: {2: StateGB9cLinker, 3: StateGB9cLinker},
		14: {2: StateGB9cLinker, 3: StateGB9cLinker}, 11: {2: StateGB9cLinker, 3: StateGB9cLinker},
	},
}
''')]),
 "bitsets":(ALL,[body(ST,TR,'''func (s State) Transition(prev, next charprops.CharProperties) (bool, State) {
	return !s.joins(prev, next), s.nextState(next)
}

type set uint16

func setOf(ps ...charprops.GCBProperty) (r set) {
	for _, p := range ps {
		r |= 1 << p
	}
	return r
}

func (s set) has(p charprops.GCBProperty) bool { return s>>p&1 != 0 }

const (
	afterL    = set(1<<charprops.GCBL | 1<<charprops.GCBV | 1<<charprops.GCBLV | 1<<charprops.GCBLVT)
	afterV    = set(1<<charprops.GCBV | 1<<charprops.GCBT)
	extenders = set(1<<charprops.GCBExtend | 1<<charprops.GCBZWJ | 1<<charprops.GCBSpacingMark)
)

func (s State) joins(prev, next charprops.CharProperties) bool {
	p, n := prev.GCBProperty(), next.GCBProperty()
	switch {
	case p == charprops.GCBCR && n == charprops.GCBLF:
		return true
	case p.IsAnyControl(), n.IsAnyControl():
		return false
	case extenders.has(n), p == charprops.GCBPrepend:
		return true
	}
	switch p {
	case charprops.GCBL:
		if afterL.has(n) {
			return true
		}
	case charprops.GCBV, charprops.GCBLV:
		if afterV.has(n) {
			return true
		}
	case charprops.GCBT, charprops.GCBLVT:
		if n == charprops.GCBT {
			return true
		}
	}
	switch s {
	case StateGB9cLinker:
		return next.InCBProperty() == charprops.InCBConsonant && (prev.InCBProperty() == charprops.InCBExtend || prev.InCBProperty() == charprops.InCBLinker)
	case StateGB11AfterZWJ:
		return n == charprops.GCBExtendedPictographic && p == charprops.GCBZWJ
	case StateAwaitEmojiFlag:
		return p == n && n == charprops.GCBRegionalIndicator
	}
	return false
}
''')]),
 "loopset":(ALL,[sub(ST,('''	if prevC == charprops.GCBL && (nextC == charprops.GCBL || nextC == charprops.GCBV || nextC == charprops.GCBLV || nextC == charprops.GCBLVT) {
		return false, nextState
	}
''','''	if prevC == charprops.GCBL {
		for _, c := range [...]charprops.GCBProperty{charprops.GCBL, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT} {
			if nextC == c {
				return false, nextState
			}
		}
	}
'''))]),
 "map":(ALL,[sub(ST,('''	if nextC == charprops.GCBExtend || nextC == charprops.GCBZWJ {
''','''	if isExtender[nextC] {
'''),('''// Begin init''','''var isExtender = [16]bool{charprops.GCBExtend: true, charprops.GCBZWJ: true}

// Begin init'''))]),
 "reorder":(ALL,[sub(ST,('''	StateBase State = iota
''','''	StateGB9cLinker State = iota
'''),('''	StateGB9cLinker
)''','''	StateBase
)'''),('StateBase State = iota','StateBase State = iota') if False else ('type State int','type State uint8'))]),
 "nopanic":st(('		panic("invalid state")\n','		return StateBase\n')),
 "begin":st(('	return StateBase.nextState(first)\n','''	switch {
	case first.GCBProperty() == charprops.GCBExtendedPictographic:
		return StateGB11BeforeZWJ
	case first.InCBProperty() == charprops.InCBConsonant:
		return StateGB9cConsonant
	case first.GCBProperty() == charprops.GCBRegionalIndicator:
		return StateAwaitEmojiFlag
	}
	return StateBase
''')),
 "lookup_loop":(ALL,[body(PT,LF,'''func LookupFirstChar(p []byte) (CharProperties, int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	n := seqLen(p[0])
	if n == 0 {
		return Error, 1
	}
	if len(p) < n {
		return zeroProperties, 0
	}
	if n == 1 {
		return lookupProps[p[0]], 1
	}
	for _, b := range p[1:n] {
		if !isCont(b) {
			return Error, 1
		}
	}
	block := 0
	for _, b := range p[:n-1] {
		block = int(lookupIndices[block<<6|int(b&0x3f)])
	}
	return lookupProps[block<<6|int(p[n-1]&0x3f)], n
}

func isCont(b byte) bool { return b>>6 == 2 }

func seqLen(b byte) int {
	switch {
	case b < 0x80:
		return 1
	case b < 0xC0:
		return 0
	case b < 0xE0:
		return 2
	case b < 0xF0:
		return 3
	case b < 0xF8:
		return 4
	}
	return 0
}
''')]),
 "lookup_bits":(ALL,[body(PT,LF,'''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	switch ones := bits.LeadingZeros8(^p[0]); ones {
	case 0:
		return lookupProps[p[0]], 1
	case 2, 3, 4:
		length = ones
	default:
		return Error, 1
	}
	if len(p) < length {
		return zeroProperties, 0
	}
	p = p[:length]
	for i := range p[1:] {
		if p[i+1]&0xC0 != 0x80 {
			return Error, 1
		}
	}
	return lookupProps[at(p[:length-1])<<6+uint32(p[length-1]&0x3f)], length
}

func at(p []byte) uint32 {
	var idx uint32
	for i := 0; i < len(p); i++ {
		idx = uint32(lookupIndices[idx*64+uint32(p[i])%64])
	}
	return idx
}
'''),sub(PT,('package charprops\n','package charprops\n\nimport "math/bits"\n'))]),
 "lookup_recursive":(ALL.replace(" C18",""),[body(PT,LF,'''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	first := p[0]
	switch {
	case first&0x80 == 0:
		return lookupProps[first], 1
	case first&0xE0 == 0xC0:
		length = 2
	case first&0xF0 == 0xE0:
		length = 3
	case first&0xF8 == 0xF0:
		length = 4
	default:
		return Error, 1
	}
	if len(p) < length {
		return zeroProperties, 0
	}
	if !continued(p[1:length]) {
		return Error, 1
	}
	return descend(int(lookupIndices[first&0x3f]), p[1:length]), length
}

func continued(p []byte) bool {
	return len(p) == 0 || p[0]&0xC0 == 0x80 && continued(p[1:])
}

func descend(block int, p []byte) CharProperties {
	i := block<<6 + int(p[0]&0x3f)
	if len(p) == 1 {
		return lookupProps[i]
	}
	return descend(int(lookupIndices[i]), p[1:])
}
''')]),
 "early_error":("C01 C02 C03 C04 C05 C06 C07 C08 C17 C18",[sub(PT,('''	if len(p) < length {
		// Buffer begins with incomplete UTF-8 sequence.
		return zeroProperties, 0
	}
	// All of the subsequent bytes of the sequence we're decoding (if any)
	// must be UTF-8 continuation bytes.
	for i := 1; i < length; i++ {
		if (p[i] & 0b11000000) != 0b10000000 {
			return Error, 1
		}
	}
''','''	for i := 1; i < length; i++ {
		if i >= len(p) {
			return zeroProperties, 0
		}
		if (p[i] & 0b11000000) != 0b10000000 {
			return Error, 1
		}
	}
'''))]),
 "propsstruct":(ALL,[sub(PP,('	return GCBProperty(cp & 0x0f)','	return GCBProperty(uint8(cp) % 16)'),('	return InCBProperty(cp & 0xf0)','	return InCBProperty(cp >> 4 << 4)'))]),
 "isany":(ALL,[body(PP,'func (p GCBProperty) IsAnyControl() bool','func (p GCBProperty) IsAnyControl() bool {\n	return p == GCBCR || p == GCBLF || p == GCBControl\n}\n')]),
 "noop":(ALL,[sub(SC,('	remain := data[count:]\n','	_ = len(data)\n	remain := data[count:]\n')),sub(ST,('	nextState := s.nextState(next)\n','	_ = s\n	nextState := s.nextState(next)\n')),sub(PT,('	first := p[0]\n','	first := p[0]\n	_ = first\n'))]),
 "generic":(ALL,[sub(SC,('''// ScanGraphemeClusters is''','''func cut[T any](s []T, n int) (int, []T, error) { return n, s[:n], nil }

// ScanGraphemeClusters is'''),('return count, data[:count], nil','return cut(data, count)'),('return 1, data[:1], nil','return cut(data, 1)'))]),
 "iface":(ALL.replace(" C18",""),[sub(SC,('''	state := machine.Begin(properties)
''','''	var state transitioner = machine.Begin(properties)
'''),('''// ScanGraphemeClusters is''','''type transitioner interface {
	Transition(prev, next charprops.CharProperties) (bool, machine.State)
}

// ScanGraphemeClusters is'''))]),
 "moved":(ALL,[sub(ST,('''func (s State) gb9cActive() bool {''','''func join(active bool, a, b bool) bool { return active && a && b }

func (s State) gb9cActive() bool {'''),('''	if s.gb13Active() {
		if prevC == charprops.GCBRegionalIndicator && nextC == charprops.GCBRegionalIndicator {
			return false, nextState
		}
	}''','''	if join(s.gb13Active(), prevC == charprops.GCBRegionalIndicator, nextC == charprops.GCBRegionalIndicator) {
		return false, nextState
	}'''))]),
 "maxprocs":(ALL,[sub(SC,('		remain = remain[moreCount:]\n\n		split','		split'),('		count += moreCount\n','		count += moreCount\n		remain = data[count:]\n'))]),
 "errvar":(ALL,[sub(SC,('	remain := data[count:]\n','	var err error\n	remain := data[count:]\n'),('			return count, data[:count], nil\n		}\n		count','			return count, data[:count], err\n		}\n		count'))]),
 "funcs_table":(ALL,[sub(ST,('''	if s.gb9cActive() {''','''	if active[0](s) {'''),('''// Begin init''','''var active = [...]func(State) bool{State.gb9cActive, State.gb11Active}

// Begin init'''))]),
}
BAD={}
