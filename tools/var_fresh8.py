import runpy,os
g=runpy.run_path(os.path.dirname(os.path.abspath(__file__))+"/var_fresh5.py")
globals().update({k:v for k,v in g.items() if k in ("SC","ST","PT","PP","ALL","HEAD","whole","sub","sc","st","pt","body","TR","NS","LF","imp")})
GOOD={}; BAD={}
GEN='''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	return lookup(p)
}

// lookup is LookupFirstChar for anything made of bytes.
func lookup[T ~[]byte | ~string](p T) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	first := p[0]
	length = sequenceLength(first)
	switch {
	case length == 0:
		return Error, 1
	case length > len(p):
		return zeroProperties, 0
	case length == 1:
		return lookupProps[first], 1
	}
	pos := int(first & 0b111111)
	for i := range length - 1 {
		b := p[i+1]
		if b&0b11000000 != 0b10000000 {
			return Error, 1
		}
		pos = int(lookupIndices[pos])<<6 + int(b&0b111111)
	}
	return lookupProps[pos], length
}

func sequenceLength(first byte) int {
	for _, l := range lengths {
		if first&l.mask == l.bits {
			return l.length
		}
	}
	return 0
}

var lengths = []struct {
	mask, bits byte
	length     int
}{
	{0b10000000, 0b00000000, 1},
	{0b11100000, 0b11000000, 2},
	{0b11110000, 0b11100000, 3},
	{0b11111000, 0b11110000, 4},
}
'''
GOOD['generic']=(ALL,[body(PT,LF,GEN)])
BAD['generic-mask']=("C06 C08",[body(PT,LF,GEN.replace("{0b11111000, 0b11110000, 4}","{0b11110000, 0b11110000, 4}"))])
BAD['generic-order']=("C06",[body(PT,LF,GEN.replace("b&0b11000000 != 0b10000000","b&0b10000000 == 0"))])
AS='''	if len(data) == 0 {
		return 0, nil, nil
	}
	if n := len(data); n > 1 && isPlain(data[0]) && isPlain(data[1]) {
		// Two printable ASCII characters are never joined.
		return 1, data[:1:n], nil
	}
'''
ISP='''
func isPlain(b byte) bool { return b >= ' ' && b < 0x7f }
'''
def asc(a,i): return [sub(SC,("	if len(data) == 0 {\n		return 0, nil, nil\n	}\n",a)),(SC,None,i)]
GOOD['ascii']=(ALL,asc(AS,ISP))
BAD['ascii-cr']=("C01",asc(AS,ISP.replace("b >= ' '","b >= '\\n'")))
BAD['ascii-cap']=("C02 C04 C05",asc(AS.replace("data[:1:n]","data[:1:n+1]"),ISP))
# one step of the scan as a method with a pointer receiver, driven by a loop with a label
STEP='''type scan struct {
	data  []byte
	atEOF bool
	pos   int
	state machine.State
	prev  charprops.CharProperties
}

type step int

const (
	advance step = iota
	boundary
	needMore
	bad
)

func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	s := &scan{data: data, atEOF: atEOF}
	if len(data) == 0 {
		return 0, nil, nil
	}
	switch s.first() {
	case bad:
		return s.report(1)
	case needMore:
		return 0, nil, nil
	}
scanning:
	for s.pos < len(s.data) {
		switch s.next() {
		case advance:
			continue scanning
		case needMore:
			return 0, nil, nil
		default:
			return s.report(s.pos)
		}
	}
	if !s.atEOF {
		return 0, nil, nil
	}
	return s.report(s.pos)
}

func (s *scan) report(n int) (int, []byte, error) { return n, s.data[:n], nil }

func (s *scan) look() (charprops.CharProperties, int, step) {
	props, n := charprops.LookupFirstChar(s.data[s.pos:])
	switch {
	case props == charprops.Error, n == 0 && s.atEOF:
		return props, 1, bad
	case n == 0:
		return props, 0, needMore
	}
	return props, n, advance
}

func (s *scan) first() step {
	props, n, st := s.look()
	if st == advance {
		s.state, s.prev = machine.Begin(props), props
		s.pos += n
	}
	return st
}

func (s *scan) next() step {
	props, n, st := s.look()
	if st != advance {
		return st
	}
	var split bool
	if split, s.state = s.state.Transition(s.prev, props); split {
		return boundary
	}
	s.prev = props
	s.pos += n
	return advance
}
'''
GOOD['steps']=sc(STEP)
BAD['steps-pos']=("C01 C06",sc(STEP.replace("	case bad:\n		return s.report(1)","	case bad:\n		return s.report(min(2, len(data)))"))[1])
BAD['steps-prev']=("C01",sc(STEP.replace("	s.prev = props\n	s.pos += n\n	return advance","	if props.GCBProperty() != charprops.GCBZWJ {\n		s.prev = props\n	}\n	s.pos += n\n	return advance"))[1])
