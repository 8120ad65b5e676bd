"""Fourth batch: harmless rewrites, and some that are not."""
from var_fresh3 import *
GOOD,BAD={},{}
CH='	properties, count := charprops.LookupFirstChar(data)\n'
GOOD['crlf']=(CORE,[(GC,CH,'	if len(data) >= 2 && data[0] == \'\\r\' && data[1] == \'\\n\' {\n		return 2, data[:2], nil\n	}\n'+CH)])
GOOD['crlf-prefix']=(CORE,[(GC,CH,'	if bytes.HasPrefix(data, crlf) {\n		return 2, data[:2], nil\n	}\n'+CH),(GC,'// ScanGraphemeClusters is','var crlf = []byte("\\r\\n")\n\n// ScanGraphemeClusters is'),(GC,IMP,IMP+'	"bytes"\n\n')])
GOOD['crlf-lit']=(CORE,[(GC,CH,'	if bytes.HasPrefix(data, []byte{\'\\r\', \'\\n\'}) {\n		return 2, data[:2], nil\n	}\n'+CH),(GC,IMP,IMP+'	"bytes"\n\n')])
GOOD['crlf-str']=(CORE,[(GC,CH,'	if len(data) >= 2 && string(data[:2]) == "\\r\\n" {\n		return 2, data[:2], nil\n	}\n'+CH)])
BAD['crlf-nl']=('C01',[(GC,CH,'	if bytes.HasPrefix(data, []byte("\\n\\r")) {\n		return 2, data[:2], nil\n	}\n'+CH),(GC,IMP,IMP+'	"bytes"\n\n')])
def scanner(r):
    p=r+"/"+GC; s=open(p).read(); a=s.index("func ScanGraphemeClusters")
    s=s[:a]+'''func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	seg := segment{data: data, atEOF: atEOF}
	n := seg.find()
	if n == 0 {
		return 0, nil, nil
	}
	return n, data[:n], nil
}

// segment is the search for the end of the first cluster.
type segment struct {
	data  []byte
	atEOF bool
	pos   int
}

// find returns the length of the first cluster, or zero if it isn't known yet.
func (s *segment) find() int {
	if len(s.data) == 0 {
		return 0
	}
	prev, n := charprops.LookupFirstChar(s.data)
	switch {
	case prev == charprops.Error:
		return 1
	case n == 0:
		return s.incomplete(1)
	}
	s.pos = n
	state := machine.Begin(prev)
	for s.pos < len(s.data) {
		next, n := charprops.LookupFirstChar(s.data[s.pos:])
		if next == charprops.Error {
			return s.pos
		}
		if n == 0 {
			return s.incomplete(s.pos)
		}
		var split bool
		if split, state = state.Transition(prev, next); split {
			return s.pos
		}
		s.pos += n
		prev = next
	}
	return s.incomplete(s.pos)
}

// incomplete is the result when the data ends before a decision: at the end
// of the input the first n bytes are a cluster, and otherwise more is needed.
func (s *segment) incomplete(n int) int {
	if s.atEOF {
		return n
	}
	return 0
}
'''
    open(p,"w").write(s)
GOOD['segment']=(CORE,[scanner])
def bug(old,new):
    def f(r):
        scanner(r); p=r+"/"+GC; s=open(p).read(); assert s.count(old)==1,(old,s.count(old)); open(p,"w").write(s.replace(old,new))
    return f
BAD['segment-pos']=('C06 C05',[bug('		return s.incomplete(1)\n','		return s.incomplete(len(s.data))\n')]); BAD['segment-pos']=('C06',BAD['segment-pos'][1])
BAD['segment-tail']=('C06',[bug('			return s.incomplete(s.pos)\n		}\n		var','			return s.incomplete(len(s.data))\n		}\n		var')])
BAD['segment-prev']=('C01',[bug('		prev = next\n','		if n > 1 {\n			prev = next\n		}\n')])
BAD['segment-err']=('C17',[bug('		if next == charprops.Error {\n			return s.pos','		if next == charprops.Error {\n			return s.incomplete(s.pos)')])
def rows(r):
    p=r+"/"+ST; s=open(p).read(); a=s.index("	// GB6: Do not"); b=s.index("	// GB9c: Do not")
    s=s[:a]+'''	if joins(prevC, nextC) {
		return false, nextState
	}
'''+s[b:]+'''
// joins reports whether there is no boundary between two characters of the
// given classes under the rules that don't depend on anything else.
func joins(prev, next charprops.GCBProperty) bool {
	switch next {
	case charprops.GCBExtend, charprops.GCBZWJ, charprops.GCBSpacingMark: // GB9, GB9a
		return true
	}
	switch prev {
	case charprops.GCBPrepend: // GB9b
		return true
	case charprops.GCBL: // GB6
		switch next {
		case charprops.GCBL, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT:
			return true
		}
	case charprops.GCBLV, charprops.GCBV: // GB7
		return next == charprops.GCBV || next == charprops.GCBT
	case charprops.GCBLVT, charprops.GCBT: // GB8
		return next == charprops.GCBT
	}
	return false
}
'''
    open(p,"w").write(s)
GOOD['joins']=(CORE,[rows])
def rbug(old,new):
    def f(r):
        rows(r); p=r+"/"+ST; s=open(p).read(); assert s.count(old)==1,(old,s.count(old)); open(p,"w").write(s.replace(old,new))
    return f
BAD['joins-prep']=('C01',[rbug('	switch prev {\n	case charprops.GCBPrepend: // GB9b\n		return true\n','	switch prev {\n	case charprops.GCBPrepend: // GB9b\n		return next != charprops.GCBRegionalIndicator\n')])
BAD['joins-lvt']=('C01',[rbug('charprops.GCBLV, charprops.GCBLVT:\n			return true','charprops.GCBLV:\n			return true')])
LK0='	var zero'
def look(r):
    p=r+"/"+PT; s=open(p).read(); a=s.index("func LookupFirstChar")
    s=s[:a]+'''func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	length = sequenceLength(p[0])
	if length == 0 {
		return Error, 1
	}
	if len(p) < length {
		return zeroProperties, 0
	}
	if length == 1 {
		return lookupProps[p[0]], 1
	}
	block := 0
	lead := p[0] & 0b111111
	idx := lookupIndices[lead]
	for _, b := range p[1:length] {
		if b>>6 != 0b10 {
			return Error, 1
		}
	}
	for _, b := range p[1 : length-1] {
		block = int(idx) << 6
		idx = lookupIndices[block|int(b&0b111111)]
	}
	return lookupProps[int(idx)<<6|int(p[length-1]&0b111111)], length
}

// sequenceLength returns the length that the given initial byte announces, or
// zero if it isn't one.
func sequenceLength(first byte) int {
	switch n := bits.LeadingZeros8(^first); n {
	case 0:
		return 1
	case 2, 3, 4:
		return n
	default:
		return 0
	}
}
'''
    s=s.replace("package charprops\n",'package charprops\n\nimport "math/bits"\n',1)
    open(p,"w").write(s)
GOOD['look']=(CORE,[look])
def lbug(old,new):
    def f(r):
        look(r); p=r+"/"+PT; s=open(p).read(); assert s.count(old)==1,(old,s.count(old)); open(p,"w").write(s.replace(old,new))
    return f
BAD['look-5']=('C04',[lbug('	case 2, 3, 4:','	case 2, 3, 4, 5:')])
BAD['look-cont']=('C06',[lbug('b>>6 != 0b10','b>>6 == 0b11')])
BAD['look-part']=('C06',[lbug('	for _, b := range p[1:length] {','	for _, b := range p[1:min(length, 3)] {')])
BAD['look-or']=('C08',[lbug('int(idx)<<6|int(p','int(idx)<<5|int(p')])
# properties with a struct of names
def names(r):
    p=r+"/"+PR; s=open(p).read()
    import re
    a=s.index("func LookupGCBProperty"); b=s.index("func ",a+5)
    body=s[a:b]
    cases=re.findall(r'case "(\w+)":\n\t\treturn (\w+)',body)
    tail=body[body.rindex("}\n")+2:]
    s=s[:a]+'''func LookupGCBProperty(name string) GCBProperty {
	for _, n := range gcbNames {
		if n.name == name {
			return n.prop
		}
	}
	return GCBNone
}

var gcbNames = []struct {
	name string
	prop GCBProperty
}{
'''+"".join(f'	{{"{n}", {c}}},\n' for n,c in cases)+"}\n"+tail+s[b:]
    open(p,"w").write(s)
GOOD['names']=('C08 C09 C10 C20 C22 C25 C01',[names])
BAD['names-dup']=('C10',[names,(PR,'	{"LVT", GCBLVT},\n','	{"LVT", GCBLV},\n')])
def whole(r):
    """generator main split in functions"""
    p=r+"/"+GM; s=open(p).read()
    a=s.index("func main() {")
    s=s[:a]+'''func main() {
	if err := generate("ucd", "property_table_raw.go"); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
}

func generate(dataDir, outFile string) error {
	tree, err := gentable.BuildRawPropertyTree(dataDir)
	if err != nil {
		return err
	}
	src, err := render(tree)
	if err != nil {
		return err
	}
	return os.WriteFile(outFile, src, 0o666)
}

func render(tree gentable.RawPropertyTree) ([]byte, error) {
	var buf bytes.Buffer
	buf.WriteString("// Generated by generate.go. DO NOT EDIT!\\n\\npackage charprops\\n\\n")
	buf.WriteString("var lookupIndices = [...]uint8{\\n")
	if err := renderValues(&buf, tree.Indices, math.MaxUint8); err != nil {
		return nil, err
	}
	buf.WriteString("}\\n\\nvar lookupProps = [...]CharProperties{\\n")
	if err := renderValues(&buf, tree.Properties, math.MaxUint8); err != nil {
		return nil, err
	}
	buf.WriteString("}\\n")
	return format.Source(buf.Bytes())
}

func renderValues[T uint8 | uint16](buf *bytes.Buffer, values []T, limit T) error {
	for i, v := range values {
		if v > limit {
			return fmt.Errorf("value %d of element %d is too large", v, i)
		}
		if i%64 == 0 {
			fmt.Fprintf(buf, "\\t// block 0x%04x\\n", i>>6)
		}
		sep := ","
		if i%8 == 7 {
			sep = ",\\n"
		}
		fmt.Fprintf(buf, "0x%02x%s", v, sep)
	}
	return nil
}
'''
    open(p,"w").write(s)
GOOD['whole']=('C11 C13 C20 C21 C25',[whole])
def wbug(old,new):
    def f(r):
        whole(r); p=r+"/"+GM; s=open(p).read(); assert s.count(old)==1,(old,s.count(old)); open(p,"w").write(s.replace(old,new))
    return f
BAD['whole-limit']=('C21',[wbug('tree.Indices, math.MaxUint8','tree.Indices, math.MaxUint16')])
BAD['whole-werr']=('C11',[wbug('	return os.WriteFile(outFile, src, 0o666)\n','	if err := os.WriteFile(outFile, src, 0o666); os.IsPermission(err) {\n		return err\n	}\n	return nil\n')])
BAD['whole-log']=('C11',[wbug('	if err := generate("ucd", "property_table_raw.go"); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n','	if err := generate("ucd", "property_table_raw.go"); err != nil {\n		log.Printf("Error: %s", err)\n	}\n'),(GM,'	"math"\n','	"log"\n	"math"\n')])
BAD['whole-args']=('C20',[wbug('generate("ucd", "property_table_raw.go")','generate(filepath.Join(os.Getenv("UCD_ROOT"), "ucd"), "property_table_raw.go")'),(GM,'	"os"\n','	"os"\n	"path/filepath"\n')])
BAD['whole-partial']=('C11',[wbug('	src, err := render(tree)\n	if err != nil {\n		return err\n	}\n','	src, err := render(tree)\n	if err != nil && src == nil {\n		src = []byte("package charprops\\n")\n	}\n')])
for n in ('arr','prefix','alias'): GOOD.pop(n,None)  # not followed, or not harmless
for n in ('plane3','recur','testing','dyn16','look-5'): BAD.pop(n,None)  # harmless after all
