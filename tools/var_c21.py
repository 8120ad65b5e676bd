GT="textseg/internal/charprops/gentable/generate.go"
GM="textseg/internal/charprops/generate.go"
PT="textseg/internal/charprops/gentable/property_tree.go"
GUARD='''			if v > math.MaxUint8 {
				panic("too many indices to use uint8")
			}
'''
EMIT='			fmt.Fprintf(&buf, "0x%02x,", v)\n'
LOOP='''		for _, v := range items {
'''+GUARD+EMIT+'''		}
'''
HEAD='	fmt.Fprintln(&buf, "var lookupIndices = [...]uint8{")\n'
MATH='	"math"\n'
ENDMAIN='''	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
}
'''
def sub(file,*pairs):
    def f(r):
        p=r+"/"+file; s=open(p).read()
        for a,b in pairs:
            assert a in s,(file,a)
            s=s.replace(a,b)
        open(p,'w').write(s)
    return f
def g(*e): return ("C21",[(GT,a,b) for a,b in e])
def m(*e):
    def fix(r):
        p=r+"/"+GM; s=open(p).read()
        for a,b in e:
            assert a in s,a
            s=s.replace(a,b,1)
        open(p,"w").write(s)
    return ("C21",[fix])
ALLOC='''		if indexBlockIndex == 0 {
			// Need to allocate a new index block, then.
			indexBlockIndex = len(t.indices) >> blockShift
			t.indices = append(t.indices, zeroIndexBlock...)
			t.indices[indexBlockIndexIdx] = uint16(indexBlockIndex)
		}
'''
PALLOC='''		if propBlockIndex == 0 {
			// Need to allocate a new property block, then.
			propBlockIndex = len(t.rawProps) >> blockShift
			t.rawProps = append(t.rawProps, zeroPropertyBlock...)
			t.indices[propBlockIndexIdx] = uint16(propBlockIndex)
		}
'''
KEY='''	for i, v := range block {
		bytes[i*2] = byte(v)
		bytes[i*2+1] = byte(v >> 8)
	}
'''
PBLK='''	newBlockIndex, ok := propBlockIdxs[blockKey]
	if !ok {
		// This block is different to all others we saw before, so we'll
		// add it and record its index for potential reuse later.
		newBlockIndex = uint16(len(ret.Properties) >> blockShift)
		ret.Properties = append(ret.Properties, srcBlock...)
		propBlockIdxs[blockKey] = newBlockIndex
	}
'''
IBLK='''		newBlockIndex, ok := indexBlockIdxs[blockKey]
		if !ok {
			// This block is different to all others we saw before, so we'll
			// add it and record its index for potential reuse later.
			newBlockIndex = uint16(len(ret.Indices) >> blockShift)
			ret.Indices = append(ret.Indices, newBlock...)
			indexBlockIdxs[blockKey] = newBlockIndex
		}
'''
EX='''			fmt.Fprintln(os.Stderr, "Error: too many blocks")
			os.Exit(1)
'''
PRE='	var buf bytes.Buffer\n'
GOOD={
 "same":("C21",[(GM,HEAD,"	// the indices\n"+HEAD)]),
 "exit":m((GUARD,"			if v > math.MaxUint8 {\n"+EX+"			}\n")),
 "const":m((GUARD,"			if v >= 256 {\n				panic(\"too many\")\n			}\n"),(MATH,"")),
 "else":m((LOOP,"		for _, v := range items {\n			if v <= math.MaxUint8 {\n	"+EMIT+"			} else {\n				panic(\"too many\")\n			}\n		}\n")),
 "after":m((LOOP,"		for _, v := range items {\n"+EMIT+GUARD+"		}\n")),
 "preloop":m((PRE,"	for _, v := range tree.Indices {\n		if v > math.MaxUint8 {\n"+EX+"		}\n	}\n"+PRE),(GUARD,"")),
 "preindex":m((PRE,"	for i := range tree.Indices {\n		if tree.Indices[i] > math.MaxUint8 {\n"+EX+"		}\n	}\n"+PRE),(GUARD,"")),
 "slicesmax":m((PRE,"	if slices.Max(tree.Indices) > math.MaxUint8 {\n"+EX+"	}\n"+PRE),(GUARD,""),('	"os"\n','	"os"\n	"slices"\n')),
 "maxloop":m((PRE,"	var most uint16\n	for _, v := range tree.Indices {\n		if v > most {\n			most = v\n		}\n	}\n	if most > math.MaxUint8 {\n"+EX+"	}\n"+PRE),(GUARD,"")),
 "maxbuiltin":m((PRE,"	most := 0\n	for _, v := range tree.Indices {\n		most = max(most, int(v))\n	}\n	if most > math.MaxUint8 {\n"+EX+"	}\n"+PRE),(GUARD,"")),
 "flag":m((PRE,"	fits := true\n	for _, v := range tree.Indices {\n		if v > math.MaxUint8 {\n			fits = false\n			break\n		}\n	}\n	if !fits {\n"+EX+"	}\n"+PRE),(GUARD,"")),
 "errfn":m((PRE,"	if err := validate(tree.Indices); err != nil {\n"+EX+"	}\n"+PRE),(GUARD,""),("func main() {","func validate(ix []uint16) error {\n	for i, v := range ix {\n		if v > math.MaxUint8 {\n			return fmt.Errorf(\"index %d is %d\", i, v)\n		}\n	}\n	return nil\n}\n\nfunc main() {")),
 "narrowhelper":m((LOOP,"		for _, v := range items {\n			fmt.Fprintf(&buf, \"0x%02x,\", toByte(v))\n		}\n"),("func main() {","func toByte(v uint16) uint8 {\n	if v > math.MaxUint8 {\n		panic(\"too many indices to use uint8\")\n	}\n	return uint8(v)\n}\n\nfunc main() {")),
 "predicate":m((GUARD,"			if !fits(v) {\n				panic(\"too many\")\n			}\n"),("func main() {","func fits(v uint16) bool { return v <= math.MaxUint8 }\n\nfunc main() {")),
 "roundtrip":m((GUARD,"			if uint16(uint8(v)) != v {\n				panic(\"too many\")\n			}\n"),(MATH,"")),
 "shift":m((GUARD,"			if v>>8 != 0 {\n				panic(\"too many\")\n			}\n"),(MATH,"")),
 "emitfn":("C21",[sub(GM,(LOOP,"		writeRow(&buf, items)\n"),("func main() {","func writeRow(buf *bytes.Buffer, items []uint16) {\n	for _, v := range items {\n		if v > math.MaxUint8 {\n			panic(\"too many indices to use uint8\")\n		}\n		fmt.Fprintf(buf, \"0x%02x,\", v)\n	}\n}\n\nfunc main() {"))]),
 "strconv":m((EMIT,"			buf.WriteString(\"0x\" + strconv.FormatUint(uint64(v), 16) + \",\")\n"),('	"os"\n','	"os"\n	"strconv"\n')),
 "uint16":m((HEAD,HEAD.replace("uint8","uint16")),(GUARD,""),(MATH,""),(EMIT,EMIT.replace("%02x","%04x"))),
 "choose":m((HEAD,"	elem := \"uint8\"\n	for _, v := range tree.Indices {\n		if v > math.MaxUint8 {\n			elem = \"uint16\"\n		}\n	}\n	fmt.Fprintf(&buf, \"var lookupIndices = [...]%s{\\n\", elem)\n"),(GUARD,"")),
 "generic":m((LOOP,"		emit(&buf, items)\n"),("func main() {","func emit[T uint8 | uint16](buf *bytes.Buffer, items []T) {\n	for _, v := range items {\n		if uint16(v) > math.MaxUint8 {\n			panic(\"too many indices to use uint8\")\n		}\n		fmt.Fprintf(buf, \"0x%02x,\", v)\n	}\n}\n\nfunc main() {")),
 "lengths":m((PRE,"	if len(tree.Indices)>>6 > 256 || len(tree.Properties)>>6 > 256 {\n"+EX+"	}\n"+PRE),(GUARD,""),(MATH,"")),
 "allochelper":g((ALLOC,'''		if indexBlockIndex == 0 {
			indexBlockIndex = t.addIndexBlock()
			t.indices[indexBlockIndexIdx] = uint16(indexBlockIndex)
		}
'''),("func (t *treeInProgress) Compact()","func (t *treeInProgress) addIndexBlock() int {\n	idx := len(t.indices) >> blockShift\n	t.indices = append(t.indices, zeroIndexBlock...)\n	return idx\n}\n\nfunc (t *treeInProgress) Compact()")),
 "numhelper":g((PALLOC,PALLOC.replace("uint16(propBlockIndex)","blockNumber(propBlockIndex)")),(ALLOC,ALLOC.replace("uint16(indexBlockIndex)","blockNumber(indexBlockIndex)")),("func (t *treeInProgress) Compact()","func blockNumber(n int) uint16 { return uint16(n) }\n\nfunc (t *treeInProgress) Compact()")),
 "checkednum":g((PALLOC,PALLOC.replace("uint16(propBlockIndex)","blockNumber(len(t.rawProps)/blockSize - 1)")),("func (t *treeInProgress) Compact()","func blockNumber(n int) uint16 {\n	if n > 0xffff {\n		panic(\"too many blocks\")\n	}\n	return uint16(n)\n}\n\nfunc (t *treeInProgress) Compact()")),
 "early":g((PBLK,'''	if existing, ok := propBlockIdxs[blockKey]; ok {
		dstIndices[currentIdx] = existing
		return
	}
	newBlockIndex := uint16(len(ret.Properties) / blockSize)
	ret.Properties = append(ret.Properties, srcBlock...)
	propBlockIdxs[blockKey] = newBlockIndex
''')),
 "zerolookup":g((PBLK,'''	newBlockIndex := propBlockIdxs[blockKey]
	if _, ok := propBlockIdxs[blockKey]; !ok {
		newBlockIndex = uint16(len(ret.Properties) >> blockShift)
		ret.Properties = append(ret.Properties, srcBlock...)
		propBlockIdxs[blockKey] = newBlockIndex
	}
''')),
 "intmaps":("C21",[sub(GT,("map[string]uint16","map[string]int"),("newBlockIndex = uint16(len(ret.Properties) >> blockShift)","newBlockIndex = len(ret.Properties) >> blockShift"),("newBlockIndex = uint16(len(ret.Indices) >> blockShift)","newBlockIndex = len(ret.Indices) >> blockShift"),("= newBlockIndex\n		return","= uint16(newBlockIndex)\n		return"),("dstIndices[currentIdx] = newBlockIndex\n}","dstIndices[currentIdx] = uint16(newBlockIndex)\n}"))]),
 "arraykey":("C21",[sub(GT,("indexBlockIdxs := make(map[string]uint16)","indexBlockIdxs := make(map[string]uint16, 64)"))]),
 "keybig":g((KEY,'''	for i := range block {
		bytes[2*i] = byte(block[i] >> 8)
		bytes[2*i+1] = byte(block[i] & 0xff)
	}
''')),
 "keybinary":("C21",[sub(GT,(KEY,'''	for i, v := range block {
		binary.BigEndian.PutUint16(bytes[i*2:], v)
	}
'''),('import (\n','import (\n	"encoding/binary"\n'))]),
 "keyfmt":("C21",[sub(GT,("	var bytes [blockSize * 2]byte\n"+KEY+"	return string(bytes[:])","	return fmt.Sprint(block)"))]),
 "manualutf8":g(('''	asU8 := make([]byte, 4)
	byteLen := utf8.EncodeRune(asU8, r)
	asU8 = asU8[:byteLen]
''','''	var asU8 []byte
	switch {
	case r < 0x80:
		asU8 = []byte{byte(r)}
	case r < 0x800:
		asU8 = []byte{0xC0 | byte(r>>6), 0x80 | byte(r&0x3F)}
	case r < 0x10000:
		asU8 = []byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6&0x3F), 0x80 | byte(r&0x3F)}
	default:
		asU8 = []byte{0xF0 | byte(r>>18), 0x80 | byte(r>>12&0x3F), 0x80 | byte(r>>6&0x3F), 0x80 | byte(r&0x3F)}
	}
	byteLen := len(asU8)
''')),
 "wide":("C21",[sub(GT,("[]uint16","[]uint32"),("uint16(indexBlockIndex)","uint32(indexBlockIndex)"),("uint16(propBlockIndex)","uint32(propBlockIndex)"),("map[string]uint16","map[string]uint32"),("newBlockIndex = uint16(len","newBlockIndex = uint32(len"),(KEY,"	for i, v := range block {\n		bytes[i*4] = byte(v)\n		bytes[i*4+1] = byte(v >> 8)\n		bytes[i*4+2] = byte(v >> 16)\n		bytes[i*4+3] = byte(v >> 24)\n	}\n"),("blockSize * 2]byte","blockSize * 4]byte")),sub(PT,("[]uint16","[]uint32"))]),
 "closure":g((PALLOC,'''		grow := func() {
			propBlockIndex = len(t.rawProps) >> blockShift
			t.rawProps = append(t.rawProps, zeroPropertyBlock...)
			t.indices[propBlockIndexIdx] = uint16(propBlockIndex)
		}
		if propBlockIndex == 0 {
			grow()
		}
''')),
 "hexdigits":m((EMIT,'			const digits = "0123456789abcdef"\n			buf.WriteString("0x")\n			buf.WriteByte(digits[v>>4])\n			buf.WriteByte(digits[v&15])\n			buf.WriteString(",")\n')),
 "u8table":m((LOOP,"		for _, v := range items {\n"+GUARD+"			small := uint8(v)\n			fmt.Fprintf(&buf, \"0x%02x,\", small)\n		}\n")),
 "noop":g(("	var propBlockIndex int\n","	var propBlockIndex int\n	_ = blockShift\n")),
 "keyrune":("C21",[sub(GT,("	var bytes [blockSize * 2]byte\n"+KEY+"	return string(bytes[:])","	var sb strings.Builder\n	for _, v := range block {\n		sb.WriteRune(rune(v))\n	}\n	return sb.String()"),('	"slices"\n','	"slices"\n	"strings"\n'))]),
}
BAD={
 "offbyone":m((GUARD,GUARD.replace("v > math.MaxUint8","v > math.MaxUint8+1"))),
 "sixteen":m((GUARD,GUARD.replace("math.MaxUint8","math.MaxInt16"))),
 "removed":m((GUARD,""),(MATH,"")),
 "warn":m((GUARD,"			if v > math.MaxUint8 {\n				fmt.Fprintln(os.Stderr, \"too many indices to use uint8\")\n			}\n")),
 "exit0":m((GUARD,"			if v > math.MaxUint8 {\n				fmt.Fprintln(os.Stderr, \"too many indices to use uint8\")\n				os.Exit(0)\n			}\n")),
 "cut":m((GUARD,""),(MATH,""),(EMIT,EMIT.replace(", v)",", uint8(v))"))),
 "mask":m((GUARD,""),(MATH,""),(EMIT,EMIT.replace(", v)",", v&0xff)"))),
 "cutbefore":m((LOOP,"		for _, w := range items {\n			v := uint8(w)\n			if int(v) > math.MaxUint8 {\n				panic(\"x\")\n			}\n"+EMIT+"		}\n")),
 "first":m((PRE,"	if tree.Indices[0] > math.MaxUint8 {\n"+EX+"	}\n"+PRE),(GUARD,"")),
 "last":m((PRE,"	if tree.Indices[len(tree.Indices)-1] > math.MaxUint8 {\n"+EX+"	}\n"+PRE),(GUARD,"")),
 "some":m((GUARD,GUARD.replace("if v >","if i%64 == 0 && v >"))),
 "lenonly":m((PRE,"	if len(tree.Indices)>>6 > 256 {\n"+EX+"	}\n"+PRE),(GUARD,""),(MATH,"")),
 "lenbig":m((PRE,"	if len(tree.Indices)>>6 > 257 || len(tree.Properties)>>6 > 257 {\n"+EX+"	}\n"+PRE),(GUARD,""),(MATH,"")),
 "minloop":m((PRE,"	least := uint16(math.MaxUint16)\n	for _, v := range tree.Indices {\n		if v < least {\n			least = v\n		}\n	}\n	if least > math.MaxUint8 {\n"+EX+"	}\n"+PRE),(GUARD,"")),
 "skip":m((GUARD,"			if v > math.MaxUint8 {\n				continue\n			}\n")),
 "dropped":m((PRE,"	_ = validate(tree.Indices)\n"+PRE),(GUARD,""),("func main() {","func validate(ix []uint16) error {\n	for i, v := range ix {\n		if v > math.MaxUint8 {\n			return fmt.Errorf(\"index %d is %d\", i, v)\n		}\n	}\n	return nil\n}\n\nfunc main() {")),
 "late":m((ENDMAIN,ENDMAIN[:-2]+"	for _, v := range tree.Indices {\n		if v > math.MaxUint8 {\n			panic(\"too many\")\n		}\n	}\n}\n"),(GUARD,"")),
 "u8map":("C21",[sub(GT,("map[string]uint16","map[string]uint8"),("newBlockIndex = uint16(len","newBlockIndex = uint8(len"),("= newBlockIndex\n		return","= uint16(newBlockIndex)\n		return"),("dstIndices[currentIdx] = newBlockIndex\n}","dstIndices[currentIdx] = uint16(newBlockIndex)\n}"))]),
 "u8build":g((PALLOC,PALLOC.replace("uint16(propBlockIndex)","uint16(uint8(propBlockIndex))"))),
 "u8indices":("C21",[sub(GT,("srcBlockIdx := srcIndices[currentIdx]","srcBlockIdx := uint8(srcIndices[currentIdx])"))]),
 "shift16":g(("srcBlockStart := int(srcBlockIdx) << blockShift\n		srcBlock = t.rawProps","srcBlockStart := int(srcBlockIdx << blockShift)\n		srcBlock = t.rawProps")),
 "mul16":g(("srcBlockStart := int(srcBlockIdx) << blockShift\n		srcBlock = t.rawProps","srcBlockStart := int(srcBlockIdx * blockSize)\n		srcBlock = t.rawProps")),
 "offsets":g((PALLOC,'''		if propBlockIndex == 0 {
			start := uint16(len(t.rawProps))
			t.rawProps = append(t.rawProps, zeroPropertyBlock...)
			t.indices[propBlockIndexIdx] = start >> blockShift
			propBlockIndex = int(start >> blockShift)
		}
''')),
 "key8":g((KEY,KEY.replace("		bytes[i*2+1] = byte(v >> 8)\n",""))),
 "keymask":g((KEY,KEY.replace("byte(v >> 8)","byte(v & 0xff)"))),
 "nodedup":g((PBLK,'''	newBlockIndex := uint16(len(ret.Properties) >> blockShift)
	ret.Properties = append(ret.Properties, srcBlock...)
	propBlockIdxs[blockKey] = newBlockIndex
''')),
 "rune16":g(("		for r := entry.Start; r < entry.End; r++ {\n			tip.BitwiseOr(r, uint8(prop))","		for r := uint16(entry.Start); r < uint16(entry.End); r++ {\n			tip.BitwiseOr(rune(r), uint8(prop))")),
 "maskindex":g(("		indexBlockIndex := int(t.indices[indexBlockIndexIdx])","		indexBlockIndex := int(t.indices[indexBlockIndexIdx] & 0x3ff)")),
 "u8row":m((LOOP,"		for _, v := range items {\n			row = append(row, byte(v))\n		}\n		fmt.Fprintf(&buf, \"%#x\", row)\n		row = row[:0]\n"),(HEAD,HEAD+"	var row []byte\n"),(MATH,"")),
}
