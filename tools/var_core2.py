import runpy,os
g=runpy.run_path(os.path.dirname(os.path.abspath(__file__))+"/var_core.py")
globals().update({k:v for k,v in g.items() if k in ("SC","ST","PT","PP","ALL","HEAD","whole","sub","sc","st","pt","body","TR","NS","LF")})
ALL+=" C23"
def sc(b,imp=""): return (ALL,[whole(SC,HEAD.replace("import (\n","import (\n"+imp) +b)])
GOOD={}
# range-over-func iterator of characters
GOOD['iter']=sc('''func chars(b []byte) iter.Seq2[charprops.CharProperties, int] {
	return func(yield func(charprops.CharProperties, int) bool) {
		for {
			p, n := charprops.LookupFirstChar(b)
			if !yield(p, n) || n == 0 || p == charprops.Error {
				return
			}
			b = b[n:]
		}
	}
}

func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	if len(data) == 0 {
		return 0, nil, nil
	}
	var state machine.State
	var prev charprops.CharProperties
	count := 0
	for p, n := range chars(data) {
		if p == charprops.Error {
			if count == 0 {
				count = 1
			}
			return count, data[:count], nil
		}
		if n == 0 {
			break
		}
		if count == 0 {
			state = machine.Begin(p)
		} else {
			split, next := state.Transition(prev, p)
			if split {
				return count, data[:count], nil
			}
			state = next
		}
		prev = p
		count += n
	}
	if !atEOF {
		return 0, nil, nil
	}
	if count == 0 {
		count = 1
	}
	return count, data[:count], nil
}
''','	"iter"\n\n')
# named results, one exit
GOOD['named']=sc('''func ScanGraphemeClusters(data []byte, atEOF bool) (advance int, token []byte, err error) {
	if len(data) == 0 {
		return
	}
	first, n := charprops.LookupFirstChar(data)
	switch {
	case first == charprops.Error, n == 0 && atEOF:
		advance = 1
		token = data[:advance]
		return
	case n == 0:
		return
	}
	state, prev := machine.Begin(first), first
	done := false
scan:
	for !done {
		next, m := charprops.LookupFirstChar(data[n:])
		switch {
		case next == charprops.Error:
			done = true
			continue scan
		case m == 0:
			if !atEOF {
				return
			}
			break scan
		}
		done, state = state.Transition(prev, next)
		if !done {
			n += m
			prev = next
		}
	}
	advance, token = n, data[:n]
	return
}
''')
# a tracker that remembers state and previous
GOOD['tracker']=sc('''type tracker struct {
	state machine.State
	prev  charprops.CharProperties
	began bool
}

func (t *tracker) feed(p charprops.CharProperties) (boundary bool) {
	if !t.began {
		*t = tracker{machine.Begin(p), p, true}
		return false
	}
	boundary, t.state = t.state.Transition(t.prev, p)
	t.prev = p
	return boundary
}

type verdict uint8

const (
	wait verdict = iota
	emit
)

func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	n, v := scan(data, atEOF)
	if v == wait {
		return 0, nil, nil
	}
	return n, data[:n], nil
}

func scan(data []byte, atEOF bool) (n int, v verdict) {
	var t tracker
	for n < len(data) {
		p, w := charprops.LookupFirstChar(data[n:])
		if p == charprops.Error {
			return max(n, 1), emit
		}
		if w == 0 {
			if atEOF {
				return max(n, 1), emit
			}
			return 0, wait
		}
		if t.feed(p) {
			return n, emit
		}
		n += w
	}
	if n > 0 && atEOF {
		return n, emit
	}
	return 0, wait
}
''')
# pair switch
GOOD['pairs']=(ALL,[body(ST,TR,'''type gcbPair struct{ prev, next charprops.GCBProperty }

func (s State) Transition(prev, next charprops.CharProperties) (bool, State) {
	nextState := s.nextState(next)
	p := gcbPair{prev.GCBProperty(), next.GCBProperty()}
	switch p {
	case gcbPair{charprops.GCBCR, charprops.GCBLF}:
		return false, nextState
	}
	if p.prev.IsAnyControl() || p.next.IsAnyControl() {
		return true, nextState
	}
	switch p {
	case gcbPair{charprops.GCBL, charprops.GCBL},
		gcbPair{charprops.GCBL, charprops.GCBV},
		gcbPair{charprops.GCBL, charprops.GCBLV},
		gcbPair{charprops.GCBL, charprops.GCBLVT},
		gcbPair{charprops.GCBLV, charprops.GCBV},
		gcbPair{charprops.GCBLV, charprops.GCBT},
		gcbPair{charprops.GCBV, charprops.GCBV},
		gcbPair{charprops.GCBV, charprops.GCBT},
		gcbPair{charprops.GCBLVT, charprops.GCBT},
		gcbPair{charprops.GCBT, charprops.GCBT}:
		return false, nextState
	}
	switch p.next {
	case charprops.GCBExtend, charprops.GCBZWJ, charprops.GCBSpacingMark:
		return false, nextState
	}
	if p.prev == charprops.GCBPrepend {
		return false, nextState
	}
	switch s {
	case StateGB9cLinker:
		if prev.InCBProperty() != charprops.InCBNone && prev.InCBProperty() != charprops.InCBConsonant && next.InCBProperty() == charprops.InCBConsonant {
			return false, nextState
		}
	case StateGB11AfterZWJ:
		return p != gcbPair{charprops.GCBZWJ, charprops.GCBExtendedPictographic}, nextState
	case StateAwaitEmojiFlag:
		return !(p.prev == charprops.GCBRegionalIndicator && p.next == p.prev), nextState
	}
	return true, nextState
}
''')])
GOOD['contains']=(ALL,[sub(ST,('nextC == charprops.GCBL || nextC == charprops.GCBV || nextC == charprops.GCBLV || nextC == charprops.GCBLVT','slices.Contains(afterL[:], nextC)'),('func Begin(','var afterL = [...]charprops.GCBProperty{charprops.GCBL, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT}\n\nfunc Begin('),('import (\n','import (\n	"slices"\n\n'))])
GOOD['contains-local']=(ALL,[sub(ST,('nextC == charprops.GCBL || nextC == charprops.GCBV || nextC == charprops.GCBLV || nextC == charprops.GCBLVT','oneOf(nextC, charprops.GCBL, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT)'),('func Begin(','func oneOf(p charprops.GCBProperty, list ...charprops.GCBProperty) bool {\n	for _, q := range list {\n		if p == q {\n			return true\n		}\n	}\n	return false\n}\n\nfunc Begin('))])
GOOD['fallthrough']=(ALL,[body(ST,NS,'''func (s State) nextState(next charprops.CharProperties) State {
	gcb, incb := next.GCBProperty(), next.InCBProperty()
	switch {
	case gcb == charprops.GCBExtendedPictographic:
		return StateGB11BeforeZWJ
	case incb == charprops.InCBConsonant:
		return StateGB9cConsonant
	}
	switch s {
	case StateBase:
		if gcb == charprops.GCBRegionalIndicator {
			return StateAwaitEmojiFlag
		}
		fallthrough
	case StateAwaitEmojiFlag, StateGB11AfterZWJ:
		return StateBase
	case StateGB11BeforeZWJ:
		if gcb == charprops.GCBZWJ {
			return StateGB11AfterZWJ
		} else if gcb == charprops.GCBExtend {
			return s
		}
		return StateBase
	case StateGB9cConsonant:
		if incb == charprops.InCBLinker {
			return StateGB9cLinker
		}
		fallthrough
	case StateGB9cLinker:
		if incb == charprops.InCBExtend || incb == charprops.InCBLinker {
			return s
		}
		return StateBase
	}
	panic("invalid state")
}
''')])
GOOD['matrix']=(ALL,[sub(ST,('func Begin(','''// joins[p][n] says that rules GB6 to GB9b forbid a break.
var joins [16][16]bool

func init() {
	set := func(p charprops.GCBProperty, ns ...charprops.GCBProperty) {
		for _, n := range ns {
			joins[p][n] = true
		}
	}
	set(charprops.GCBL, charprops.GCBL, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT)
	set(charprops.GCBLV, charprops.GCBV, charprops.GCBT)
	set(charprops.GCBV, charprops.GCBV, charprops.GCBT)
	set(charprops.GCBLVT, charprops.GCBT)
	set(charprops.GCBT, charprops.GCBT)
	for p := range joins {
		set(charprops.GCBProperty(p), charprops.GCBExtend, charprops.GCBZWJ, charprops.GCBSpacingMark)
		joins[charprops.GCBPrepend][p] = true
	}
}

func Begin('''),('''	// GB6: Do not break Hangul syllable or other conjoining sequences.
	if prevC == charprops.GCBL &&''','''	if joins[prevC][nextC] {
		return false, nextState
	}
	// GB6: Do not break Hangul syllable or other conjoining sequences.
	if prevC == charprops.GCBL &&'''))])
GOOD['transition-consts']=(ALL.replace("C22",""),[body(ST,NS,'''type key struct {
	s State
	g charprops.GCBProperty
}

var emoji = map[key]State{
	{StateBase, charprops.GCBRegionalIndicator}:     StateAwaitEmojiFlag,
	{StateGB11BeforeZWJ, charprops.GCBZWJ}:          StateGB11AfterZWJ,
	{StateGB11BeforeZWJ, charprops.GCBExtend}:       StateGB11BeforeZWJ,
}

func (s State) nextState(next charprops.CharProperties) State {
	if next.GCBProperty() == charprops.GCBExtendedPictographic {
		return StateGB11BeforeZWJ
	}
	if next.InCBProperty() == charprops.InCBConsonant {
		return StateGB9cConsonant
	}
	incbProp := next.InCBProperty()
	switch s {
	case StateGB9cConsonant:
		switch incbProp {
		case charprops.InCBLinker:
			return StateGB9cLinker
		case charprops.InCBExtend:
			return StateGB9cConsonant
		}
		return StateBase
	case StateGB9cLinker:
		switch incbProp {
		case charprops.InCBLinker, charprops.InCBExtend:
			return StateGB9cLinker
		}
		return StateBase
	}
	return emoji[key{s, next.GCBProperty()}]
}
''')])
GOOD['lookup-tables']=(ALL,[body(PT,LF,'''var seqLen = [32]uint8{
	0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
	16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
}

func seqLength(b byte) int {
	switch b >> 4 {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		return 1
	case 0xc, 0xd:
		return 2
	case 0xe:
		return 3
	case 0xf:
		if seqLen[b>>3] == 30 {
			return 4
		}
	}
	return 0
}

func LookupFirstChar(p []byte) (CharProperties, int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	n := seqLength(p[0])
	if n == 0 {
		return Error, 1
	}
	if n > len(p) {
		return zeroProperties, 0
	}
	p = p[:n]
	for _, b := range p[1:] {
		if b&0xc0 != 0x80 {
			return Error, 1
		}
	}
	if n == 1 {
		return lookupProps[p[0]], 1
	}
	block := uint8(0)
	for len(p) > 1 {
		block = lookupIndices[uint(block)<<6|uint(p[0]&0x3f)]
		p = p[1:]
	}
	return lookupProps[uint(block)<<6|uint(p[0]&0x3f)], n
}
''')])
GOOD['isContinuation']=(ALL,[body(PT,LF,'''func isContinuation(b byte) bool { return int8(b) < -0x40 }

func child(block int, b byte) int { return int(lookupIndices[block*64+int(b%64)]) }

func LookupFirstChar(p []byte) (props CharProperties, length int) {
	switch {
	case len(p) == 0:
		return
	case p[0] < 0x80:
		length = 1
	case p[0] < 0xc0 || p[0] >= 0xf8:
		return Error, 1
	case p[0] < 0xe0:
		length = 2
	case p[0] < 0xf0:
		length = 3
	default:
		length = 4
	}
	if len(p) < length {
		return 0, 0
	}
	p = p[:length:length]
	for i := length - 1; i > 0; i-- {
		if !isContinuation(p[i]) {
			return Error, 1
		}
	}
	last := int(p[length-1])
	if length > 1 {
		block := 0
		for _, b := range p[:length-1] {
			block = child(block, b)
		}
		last = block*64 + last%64
	}
	return lookupProps[last], length
}
''')])
GOOD['classes']=(ALL,[sub(SC,('		next, moreCount := charprops.LookupFirstChar(remain)','		c := classify(remain)\n		next, moreCount := c.props, c.size'),('// ScanGraphemeClusters is','type char struct {\n	props charprops.CharProperties\n	size  int\n}\n\nfunc classify(b []byte) (c char) {\n	c.props, c.size = charprops.LookupFirstChar(b)\n	return c\n}\n\n// ScanGraphemeClusters is'))])
GOOD['moved-type']=(ALL,[sub(SC,('	state := machine.Begin(properties)\n	prev := properties\n','	m := machine.New(properties)\n'),('		split, nextState := state.Transition(prev, next)\n','		split := m.Step(next)\n'),('		state = nextState\n		prev = next\n','')),sub(ST,('func Begin(','''// Machine is a state with the properties that lead to it.
type Machine struct {
	state State
	last  charprops.CharProperties
}

func New(first charprops.CharProperties) *Machine {
	return &Machine{Begin(first), first}
}

// Step reports whether there is a boundary before next.
func (m *Machine) Step(next charprops.CharProperties) bool {
	split, s := m.state.Transition(m.last, next)
	m.state, m.last = s, next
	return split
}

func Begin('''))])
GOOD['ptr-state']=(ALL,[sub(ST,('func Begin(','''// Advance is Transition in place.
func (s *State) Advance(prev, next charprops.CharProperties) (split bool) {
	split, *s = s.Transition(prev, next)
	return
}

func Begin(''')),sub(SC,('		split, nextState := state.Transition(prev, next)\n		if split {','		if split := state.Advance(prev, next); split {'),('		state = nextState\n',''))])
GOOD['bool-rules']=(ALL,[sub(ST,('	if prevC.IsAnyControl() || nextC.IsAnyControl() {\n		return true, nextState\n	}\n','	if prevC.IsAnyControl() || nextC.IsAnyControl() {\n		return true, nextState\n	}\n	for _, joined := range rules {\n		if joined(prevC, nextC) {\n			return false, nextState\n		}\n	}\n'),('func Begin(','''type rule func(prev, next charprops.GCBProperty) bool

var rules = []rule{
	func(prev, next charprops.GCBProperty) bool { return next == charprops.GCBExtend },
	func(prev, next charprops.GCBProperty) bool { return next == charprops.GCBZWJ || next == charprops.GCBSpacingMark },
	fromPrepend,
}

func fromPrepend(prev, _ charprops.GCBProperty) bool { return prev == charprops.GCBPrepend }

func Begin('''))])
BAD={}
