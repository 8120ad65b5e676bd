import runpy,os
g=runpy.run_path(os.path.dirname(os.path.abspath(__file__))+"/var_core.py")
globals().update({k:v for k,v in g.items() if k in ("SC","ST","PT","PP","ALL","HEAD","whole","sub","sc","st","pt","body","TR","NS","LF")})
ALL+=" C09 C23 C24"
GOOD={}; BAD={}
def imp(file,*pk): return sub(file,('package charprops\n' if file==PT else 'import (\n', ('package charprops\n\nimport (\n' if file==PT else 'import (\n')+''.join('\t"%s"\n'%p for p in pk)+(')\n' if file==PT else '\n')))
def multi(name,props,text,make,bads):
    GOOD[name]=(props,make(text))
    for k,(p,a,b) in bads.items():
        assert text.count(a)==1,(name,k,text.count(a))
        BAD[name+'-'+k]=(p,make(text.replace(a,b)))

# the state as a function of the next character
FN='''package machine

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

// State is what the characters so far say about the next ones.
type State func(next charprops.CharProperties) (joined bool, follow State)

// Begin initializes the state machine with the first character.
func Begin(first charprops.CharProperties) State {
	return enter(first)
}

// Transition tells whether there is a boundary between prev and next.
func (s State) Transition(prev, next charprops.CharProperties) (bool, State) {
	joined, follow := s(next)
	return !joined && !connected(prev.GCBProperty(), next.GCBProperty()), follow
}

func enter(first charprops.CharProperties) State {
	switch {
	case first.GCBProperty() == charprops.GCBExtendedPictographic:
		return pictograph
	case first.InCBProperty() == charprops.InCBConsonant:
		return consonant
	case first.GCBProperty() == charprops.GCBRegionalIndicator:
		return oddIndicator
	}
	return plain
}

func plain(next charprops.CharProperties) (bool, State) {
	return false, enter(next)
}

func oddIndicator(next charprops.CharProperties) (bool, State) {
	if next.GCBProperty() == charprops.GCBRegionalIndicator {
		return true, plain
	}
	return false, enter(next)
}

func pictograph(next charprops.CharProperties) (bool, State) {
	switch next.GCBProperty() {
	case charprops.GCBExtend:
		return true, pictograph
	case charprops.GCBZWJ:
		return true, pictographZWJ
	}
	return false, enter(next)
}

func pictographZWJ(next charprops.CharProperties) (bool, State) {
	return next.GCBProperty() == charprops.GCBExtendedPictographic, enter(next)
}

func consonant(next charprops.CharProperties) (bool, State) {
	switch next.InCBProperty() {
	case charprops.InCBLinker:
		return false, linked
	case charprops.InCBExtend:
		return false, consonant
	}
	return false, enter(next)
}

func linked(next charprops.CharProperties) (bool, State) {
	switch next.InCBProperty() {
	case charprops.InCBLinker, charprops.InCBExtend:
		return false, linked
	}
	return next.InCBProperty() == charprops.InCBConsonant, enter(next)
}

// connected is true if the rules GB3 to GB9b forbid a break.
func connected(a, b charprops.GCBProperty) bool {
	if a.IsAnyControl() || b.IsAnyControl() {
		return a == charprops.GCBCR && b == charprops.GCBLF
	}
	switch b {
	case charprops.GCBExtend, charprops.GCBZWJ, charprops.GCBSpacingMark:
		return true
	case charprops.GCBL, charprops.GCBLV, charprops.GCBLVT:
		if a == charprops.GCBL {
			return true
		}
	case charprops.GCBV:
		if a == charprops.GCBL || a == charprops.GCBLV || a == charprops.GCBV {
			return true
		}
	case charprops.GCBT:
		if a == charprops.GCBLV || a == charprops.GCBV || a == charprops.GCBLVT || a == charprops.GCBT {
			return true
		}
	}
	return a == charprops.GCBPrepend
}
'''
# a Linker or an InCB Extend is never anything but GCB Extend or ZWJ, so that
# the first conjunct in linked() is joined by GB9 anyway
multi('statefn',ALL,FN,lambda t:(whole(ST,t),),{
 'third':('C01','		return true, plain\n	}','		return true, oddIndicator\n	}'),
 'zwjstay':('C01','return true, pictographZWJ\n','return true, pictograph\n'),
 'prep':('C01','	return a == charprops.GCBPrepend','	return a == charprops.GCBPrepend && b != charprops.GCBRegionalIndicator'),
 'linkercons':('C01','	case charprops.InCBLinker, charprops.InCBExtend:\n		return false, linked','	case charprops.InCBLinker, charprops.InCBExtend, charprops.InCBNone:\n		return false, linked'),
})

# the state as an interface of empty structs
IF='''package machine

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

// State is the state of the machine.
type State struct{ phase phase }

type phase interface {
	// continues is true if the character belongs to what the phase has seen.
	continues(next charprops.CharProperties) bool
	// after is the phase after the character, or nil if it starts afresh.
	after(next charprops.CharProperties) phase
}

type (
	neutral   struct{}
	indicator struct{}
	emoji     struct{ joiner bool }
	conjunct  struct{ linker bool }
)

func (neutral) continues(charprops.CharProperties) bool { return false }
func (neutral) after(charprops.CharProperties) phase    { return nil }

func (indicator) continues(next charprops.CharProperties) bool {
	return next.GCBProperty() == charprops.GCBRegionalIndicator
}
func (indicator) after(next charprops.CharProperties) phase {
	if next.GCBProperty() == charprops.GCBRegionalIndicator {
		return neutral{}
	}
	return nil
}

func (e emoji) continues(next charprops.CharProperties) bool {
	return e.joiner && next.GCBProperty() == charprops.GCBExtendedPictographic
}
func (e emoji) after(next charprops.CharProperties) phase {
	if e.joiner {
		return nil
	}
	switch next.GCBProperty() {
	case charprops.GCBZWJ:
		return emoji{true}
	case charprops.GCBExtend:
		return e
	}
	return nil
}

func (c conjunct) continues(next charprops.CharProperties) bool {
	return c.linker && next.InCBProperty() == charprops.InCBConsonant
}
func (c conjunct) after(next charprops.CharProperties) phase {
	switch next.InCBProperty() {
	case charprops.InCBLinker:
		return conjunct{true}
	case charprops.InCBExtend:
		return c
	}
	return nil
}

// Begin initializes the state machine with the first character.
func Begin(first charprops.CharProperties) State {
	return State{neutral{}}.follow(first)
}

func (s State) follow(next charprops.CharProperties) State {
	if p := s.phase.after(next); p != nil {
		return State{p}
	}
	switch {
	case next.InCBProperty() == charprops.InCBConsonant:
		return State{conjunct{}}
	case next.GCBProperty() == charprops.GCBExtendedPictographic:
		return State{emoji{}}
	case next.GCBProperty() == charprops.GCBRegionalIndicator:
		return State{indicator{}}
	default:
		return State{neutral{}}
	}
}

// Transition tells whether there is a boundary between prev and next.
func (s State) Transition(prev, next charprops.CharProperties) (bool, State) {
	p, n := prev.GCBProperty(), next.GCBProperty()
	split := true
	switch {
	case p == charprops.GCBCR && n == charprops.GCBLF:
		split = false
	case p.IsAnyControl(), n.IsAnyControl():
	case p == charprops.GCBL && (n == charprops.GCBL || n == charprops.GCBV || n == charprops.GCBLV || n == charprops.GCBLVT),
		(p == charprops.GCBLV || p == charprops.GCBV) && (n == charprops.GCBV || n == charprops.GCBT),
		(p == charprops.GCBLVT || p == charprops.GCBT) && n == charprops.GCBT,
		n == charprops.GCBExtend, n == charprops.GCBZWJ, n == charprops.GCBSpacingMark,
		p == charprops.GCBPrepend,
		s.phase.continues(next):
		split = false
	}
	return split, s.follow(next)
}
'''
multi('phases',ALL.replace(' C18',''),IF,lambda t:(whole(ST,t),),{
 'keep':('C01','		return neutral{}\n	}\n	return nil','		return indicator{}\n	}\n	return nil'),
 'joined':('C01','	return e.joiner && next','	return next'),
 'joiner':('C01','		return emoji{true}','		return emoji{joiner: e.joiner}'),
 'toggle':('C01','		return conjunct{true}','		return conjunct{!c.linker}'),
})

# a struct of one bool is boxed on the heap
BAD['phases-boxed']=('C18',GOOD['phases'][1])

# the lookup through the code point
RN='''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	length = sequenceLength(p[0])
	if length == 0 {
		return Error, 1
	}
	if len(p) < length {
		return zeroProperties, 0
	}
	c := int(p[0]) & (0xff >> length)
	for _, b := range p[1:length] {
		if b>>6 != 0b10 {
			return Error, 1
		}
		c = c<<6 | int(b&0x3f)
	}
	return properties(c, length), length
}

// sequenceLength is the number of bytes that the first one announces.
func sequenceLength(first byte) int {
	switch n := bits.LeadingZeros8(^first); n {
	case 0:
		return 1
	case 2, 3, 4:
		return n
	}
	return 0
}

// properties looks the properties of a code point up.
func properties(c, length int) CharProperties {
	if length == 1 {
		return lookupProps[c]
	}
	// The root of the tree is indexed with the low bits of the first byte.
	block := 0
	for level := length - 1; level > 0; level-- {
		i := c >> (6 * level) & 0x3f
		if level == length-1 {
			i |= [...]int{0, 0, 0b000000, 0b100000, 0b110000}[length]
		}
		block = int(lookupIndices[block<<6|i])
	}
	return lookupProps[block<<6|c&0x3f]
}
'''
multi('codepoint',ALL,RN,lambda t:(body(PT,LF,t),imp(PT,'math/bits')),{
 'five':('C06 C04 C02 C05','	case 2, 3, 4:\n		return n','	case 2, 3, 4, 5:\n		return n'),
 'cont':('C06','		if b>>6 != 0b10 {','		if b>>7 != 0b1 {'),
 'root':('C08','0b100000, 0b110000}','0b110000, 0b110000}'),
})

# four bytes at a time
BE='''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	var four [4]byte
	have := copy(four[:], p)
	if have == 0 {
		return zeroProperties, 0
	}
	w := binary.BigEndian.Uint32(four[:])
	for _, s := range shapes {
		if w&s.leadMask != s.lead {
			continue
		}
		if have < s.length {
			return zeroProperties, 0
		}
		if w&s.tailMask != s.tail {
			return Error, 1
		}
		if s.length == 1 {
			return lookupProps[four[0]], 1
		}
		idx := int(four[0] & 0x3f)
		for _, b := range four[1:s.length] {
			if s.length > 1 {
				idx = step(idx, b, b == four[s.length-1])
			}
		}
		return lookupProps[walk(four[:s.length])], s.length
	}
	return Error, 1
}

func step(idx int, b byte, last bool) int { return idx }

// walk finds the place of the properties.
func walk(seq []byte) int {
	idx := int(seq[0] & 0x3f)
	for _, b := range seq[1:] {
		idx = int(lookupIndices[idx])<<6 + int(b&0x3f)
	}
	return idx
}

var shapes = [...]struct {
	leadMask, lead, tailMask, tail uint32
	length                         int
}{
	{0x80000000, 0x00000000, 0x00000000, 0x00000000, 1},
	{0xe0000000, 0xc0000000, 0x00c00000, 0x00800000, 2},
	{0xf0000000, 0xe0000000, 0x00c0c000, 0x00808000, 3},
	{0xf8000000, 0xf0000000, 0x00c0c0c0, 0x00808080, 4},
}
'''
BE=BE.replace('''		idx := int(four[0] & 0x3f)
		for _, b := range four[1:s.length] {
			if s.length > 1 {
				idx = step(idx, b, b == four[s.length-1])
			}
		}
''','').replace('func step(idx int, b byte, last bool) int { return idx }\n\n','')
multi('bigendian',ALL,BE,lambda t:(body(PT,LF,t),imp(PT,'encoding/binary')),{
 'tail3':('C06','0x00c0c000, 0x00808000, 3','0x00c00000, 0x00800000, 3'),
 'lead4':('C06','{0xf8000000, 0xf0000000, ','{0xf0000000, 0xf0000000, '),
 'early':('C03','		if have < s.length {\n			return zeroProperties, 0\n		}\n		if w&s.tailMask != s.tail {\n			return Error, 1\n		}\n','		if w&s.tailMask != s.tail {\n			return Error, 1\n		}\n		if have < s.length {\n			return zeroProperties, 0\n		}\n'),
})

# a cursor with peek and take
CU=HEAD+'''type cursor struct {
	data  []byte
	end   int
	final bool
}

type outcome uint8

const (
	character outcome = iota
	broken
	wanting
	over
)

// peek looks at the character at the cursor.
func (c *cursor) peek() (props charprops.CharProperties, size int, what outcome) {
	if c.end >= len(c.data) {
		return 0, 0, over
	}
	props, size = charprops.LookupFirstChar(c.data[c.end:])
	switch {
	case props == charprops.Error:
		what = broken
	case size == 0 && c.final:
		what, size = broken, 1
	case size == 0:
		what = wanting
	}
	return props, size, what
}

func (c *cursor) token() (int, []byte, error) {
	return c.end, c.data[:c.end], nil
}

// ScanGraphemeClusters is a split function for [bufio.Scanner] that splits
// on grapheme cluster boundaries.
func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	c := cursor{data: data, final: atEOF}
	prev, size, what := c.peek()
	if what == over || what == wanting {
		return 0, nil, nil
	}
	c.end += size
	if what == broken {
		return c.token()
	}
	for state := machine.Begin(prev); ; {
		next, size, what := c.peek()
		switch what {
		case wanting:
			return 0, nil, nil
		case over:
			if !c.final {
				return 0, nil, nil
			}
			return c.token()
		case broken:
			return c.token()
		}
		split, follow := state.Transition(prev, next)
		if split {
			return c.token()
		}
		c.end += size
		prev, state = next, follow
	}
}
'''
multi('cursor',ALL,CU,lambda t:(whole(SC,t),),{
 'over':('C03','			if !c.final {\n				return 0, nil, nil\n			}\n			return c.token()','			return c.token()'),
 'size':('C06','		what, size = broken, 1','		what, size = broken, len(c.data)-c.end'),
 'wait':('C05','	case size == 0 && c.final:\n		what, size = broken, 1\n',''),
 'swallow':('C06','		case broken:\n			return c.token()\n		}','		case broken:\n			c.end += size\n			return c.token()\n		}'),
})

# the transition table is computed when the package is initialised
DF='''package machine

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

// State is a row of the table.
type State uint8

const (
	start State = iota
	flag
	pict
	pictJoin
	cons
	consLink
	states
)

const breakBit = 0x80

// table has for each state and each character the state that follows, with
// breakBit set if the multi-character rules do not forbid a break.
var table = makeTable()

func makeTable() (t [states][256]uint8) {
	for s := range t {
		for p := range t[s] {
			t[s][p] = rule(State(s), charprops.CharProperties(p))
		}
	}
	return t
}

func rule(s State, p charprops.CharProperties) uint8 {
	c, i := p.GCBProperty(), p.InCBProperty()
	next, join := start, uint8(breakBit)
	switch {
	case s == flag && c == charprops.GCBRegionalIndicator:
		join = 0
	case s == pictJoin && c == charprops.GCBExtendedPictographic:
		next, join = pict, 0
	case c == charprops.GCBExtendedPictographic:
		next = pict
	case s == pict && c == charprops.GCBExtend:
		next = pict
	case s == pict && c == charprops.GCBZWJ:
		next = pictJoin
	case c == charprops.GCBRegionalIndicator:
		next = flag
	case i == charprops.InCBConsonant:
		next = cons
		if s == consLink {
			join = 0
		}
	case s == cons && i == charprops.InCBLinker:
		next = consLink
	case s == cons && i == charprops.InCBExtend:
		next = cons
	case s == consLink && (i == charprops.InCBLinker || i == charprops.InCBExtend):
		next = consLink
	}
	return uint8(next) | join
}

// Begin initializes the state machine with the first character.
func Begin(first charprops.CharProperties) State {
	return State(table[start][first] &^ breakBit)
}

// Transition tells whether there is a boundary between prev and next.
func (s State) Transition(prev, next charprops.CharProperties) (bool, State) {
	e := table[s][next]
	return e&breakBit != 0 && !together(prev.GCBProperty(), next.GCBProperty()), State(e &^ breakBit)
}

func together(p, n charprops.GCBProperty) bool {
	if p == charprops.GCBCR {
		return n == charprops.GCBLF
	}
	if p.IsAnyControl() || n.IsAnyControl() {
		return false
	}
	switch p {
	case charprops.GCBPrepend:
		return true
	case charprops.GCBL:
		switch n {
		case charprops.GCBL, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT:
			return true
		}
	case charprops.GCBLV, charprops.GCBV:
		if n == charprops.GCBV || n == charprops.GCBT {
			return true
		}
	case charprops.GCBLVT, charprops.GCBT:
		if n == charprops.GCBT {
			return true
		}
	}
	return n == charprops.GCBExtend || n == charprops.GCBZWJ || n == charprops.GCBSpacingMark
}
'''
DA=' '.join(x for x in ALL.split() if x!='C22')
multi('inittable',DA,DF,lambda t:(whole(ST,t),),{
 'order':('C01','	case s == pictJoin && c == charprops.GCBExtendedPictographic:\n		next, join = pict, 0\n','	case s == pictJoin && c == charprops.GCBExtendedPictographic:\n		join = 0\n'),
 'consext':('C01','	case s == cons && i == charprops.InCBExtend:\n		next = cons\n',''),
 'crcontrol':('C01','		return n == charprops.GCBLF\n','		return n == charprops.GCBLF || n == charprops.GCBExtend\n'),
 'rewrite':('C07','	e := table[s][next]\n','	e := table[s][next]\n	if e&breakBit != 0 {\n		table[s][next] = e\n	}\n'),
})
