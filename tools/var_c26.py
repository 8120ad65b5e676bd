"""C26: what the generator writes of the built tables."""
GM="textseg/internal/charprops/generate.go"
P='C26'
GOOD,BAD={},{}
S=open('/repo/'+GM).read()
A=S.index('	fmt.Fprintln(&buf, "var lookupIndices'); B=S.index('	src, err := format.Source')
BODY=S[A:B]
def whole(new, extra='', imports=()):
    def f(r):
        p=r+'/'+GM; s=S[:A]+new+S[B:]+extra
        for i in imports: s=s.replace('	"fmt"\n','	"fmt"\n	"%s"\n'%i,1)
        if 'math.' not in s: s=s.replace('	"math"\n','')
        open(p,'w').write(s)
    return f
def bug(body, extra, old, new, imports=()):
    assert (body+extra).count(old)>=1,old
    if old in body: return whole(body.replace(old,new,1),extra,imports)
    return whole(body,extra.replace(old,new,1),imports)
HEAD='''	fmt.Fprintln(&buf, "var lookupIndices = [...]uint8{")
'''
MID='''	fmt.Fprintln(&buf, "}")

	fmt.Fprintln(&buf, "var lookupProps = [...]CharProperties{")
'''
END='''	fmt.Fprintln(&buf, "}")

'''
def two(t,t2=None):
    return HEAD+t.replace('TAB','tree.Indices')+MID+(t2 or t).replace('TAB','tree.Properties')+END
# plain range
plain='''	for i, v := range TAB {
		if i%64 == 0 {
			fmt.Fprintf(&buf, "  // block 0x%04x\\n", i>>6)
		}
		fmt.Fprintf(&buf, "0x%02x,", v)
		if i%8 == 7 {
			fmt.Fprint(&buf, "\\n")
		}
	}
'''
V={}
def v(name, body, extra='', imports=(), bads=()):
    GOOD[name]=(P,[whole(body,extra,imports)])
    for i,(o,n) in enumerate(bads): BAD[f'{name}-{i}']=(P,[bug(body,extra,o,n,imports)])
v('orig',BODY,bads=[('i += 8','i += 16'),('min(len(items), 8)','min(len(items), 7)'),('i := 0; i < len(tree.Properties)','i := 8; i < len(tree.Properties)'),
  ('i < len(tree.Indices)','i+8 < len(tree.Indices)'),('tree.Properties[i:]','tree.Properties[max(i-1, 0):]'),('i += 8','i += 4'),
  ('		for _, v := range items {\n			fmt','		for _, v := range items {\n			if v == 0 && len(items) < 8 {\n				continue\n			}\n			fmt'),
  ('		items := tree.Properties[i:]\n','		if i == 64 {\n			continue\n		}\n		items := tree.Properties[i:]\n')])
v('plain',two(plain),bads=[('		fmt.Fprintf(&buf, "0x%02x,", v)\n','		if i > 0 {\n			fmt.Fprintf(&buf, "0x%02x,", v)\n		}\n'),
  ('i, v := range tree.Indices','i, v := range tree.Indices[1:]'),('range tree.Properties','range tree.Properties[:len(tree.Properties)-1]'),
  ('		if i%8 == 7 {\n			fmt.Fprint(&buf, "\\n")','		if i%8 == 7 {\n			fmt.Fprintf(&buf, "0x%02x,\\n", v)')])
idx='''	for i := 0; i < len(TAB); i++ {
		if i&63 == 0 {
			fmt.Fprintf(&buf, "  // block 0x%04x\\n", i>>6)
		}
		fmt.Fprintf(&buf, "0x%02x,", TAB[i])
		if i&7 == 7 {
			fmt.Fprintln(&buf)
		}
	}
'''
v('index',two(idx),bads=[('i < len(tree.Indices)','i < len(tree.Indices)-1'),('tree.Properties[i])','tree.Properties[i&^1])'),('i := 0','i := 1')])
block='''	for block := 0; block < len(TAB)/64; block++ {
		fmt.Fprintf(&buf, "  // block 0x%04x\\n", block)
		for row := 0; row < 8; row++ {
			for _, v := range TAB[block*64+row*8 : block*64+row*8+8] {
				fmt.Fprintf(&buf, "0x%02x,", v)
			}
			fmt.Fprintln(&buf)
		}
	}
'''
v('block',two(block),bads=[('row < 8','row < 7'),('len(tree.Properties)/64','len(tree.Properties)/64-1'),('row*8+8]','row*8+7]'),('block := 0','block := 1'),('block*64+row*8 :','block*64+row*8+1 :')])
chunk='''	for rest := TAB; len(rest) > 0; {
		n := min(len(rest), 8)
		for _, v := range rest[:n] {
			fmt.Fprintf(&buf, "0x%02x,", v)
		}
		fmt.Fprintln(&buf)
		rest = rest[n:]
	}
'''
v('rest',two(chunk),bads=[('len(rest) > 0','len(rest) > 8'),('rest[n:]','rest[min(n+1, len(rest)):]'),('rest[:n]','rest[:n-1]')])
sl='''	for row := range slices.Chunk(TAB, 8) {
		for _, v := range row {
			fmt.Fprintf(&buf, "0x%02x,", v)
		}
		fmt.Fprintln(&buf)
	}
'''
v('chunk',two(sl),imports=['slices'],bads=[('range row {','range row[1:] {'),('		for _, v := range row {','		if len(row) < 8 {\n			break\n		}\n		for _, v := range row {')])
H='''
// writeTable writes the entries in rows of eight.
func writeTable[T ~uint8 | ~uint16](w *bytes.Buffer, decl string, items []T) {
	fmt.Fprintln(w, decl)
	for i, v := range items {
		if i%64 == 0 {
			fmt.Fprintf(w, "  // block 0x%04x\\n", i>>6)
		}
		fmt.Fprintf(w, "0x%02x,", v)
		if i%8 == 7 {
			w.WriteByte('\\n')
		}
	}
	fmt.Fprintln(w, "}")
}
'''
HB='''	writeTable(&buf, "var lookupIndices = [...]uint8{", tree.Indices)
	writeTable(&buf, "var lookupProps = [...]CharProperties{", tree.Properties)

'''
v('generic',HB,H,bads=[('tree.Properties)','tree.Properties[64:])'),('		fmt.Fprintf(w, "0x%02x,", v)','		if v == 0 {\n			continue\n		}\n		fmt.Fprintf(w, "0x%02x,", v)')])
H2='''
func writeTable(w io.Writer, decl string, n int, at func(int) int) {
	fmt.Fprintln(w, decl)
	for i := 0; i < n; i += 8 {
		if (i % 64) == 0 {
			fmt.Fprintf(w, "  // block 0x%04x\\n", i>>6)
		}
		fmt.Fprint(w, "\\t")
		for j := i; j < i+8 && j < n; j++ {
			fmt.Fprintf(w, "0x%02x,", at(j))
		}
		fmt.Fprint(w, "\\n")
	}
	fmt.Fprintln(w, "}")
}
'''
HB2='''	writeTable(&buf, "var lookupIndices = [...]uint8{", len(tree.Indices), func(i int) int {
		return int(tree.Indices[i])
	})
	writeTable(&buf, "var lookupProps = [...]CharProperties{", len(tree.Properties), func(i int) int {
		return int(tree.Properties[i])
	})

'''
v('closure',HB2,H2,imports=['io'],bads=[('j < i+8','j < i+7'),('j := i;','j := i + 1;'),('j < n;','j < n-1;'),('len(tree.Properties), func','len(tree.Properties)-64, func')])
H3='''
// formatRow is one line of a table.
func formatRow[T ~uint8 | ~uint16](items []T) string {
	var parts []string
	for _, v := range items {
		parts = append(parts, fmt.Sprintf("0x%02x", v))
	}
	return "\\t" + strings.Join(parts, ",") + ",\\n"
}
'''
HB3=two('''	for i := 0; i < len(TAB); i += 8 {
		if i%64 == 0 {
			fmt.Fprintf(&buf, "  // block 0x%04x\\n", i/64)
		}
		buf.WriteString(formatRow(TAB[i:min(i+8, len(TAB))]))
	}
''')
v('row',HB3,H3,imports=['strings'],bads=[('i += 8','i += 9'),('min(i+8, len','min(i+7, len'),('range items {','range items[:len(items)-1] {')])
H4='''
func appendRow[T ~uint8 | ~uint16](out []byte, items []T) []byte {
	for _, v := range items {
		out = fmt.Appendf(out, "0x%02x,", v)
	}
	return append(out, '\\n')
}
'''
HB4=two('''	for i := 0; i < len(TAB); i += 8 {
		buf.Write(appendRow(nil, TAB[i:min(i+8, len(TAB))]))
	}
''')
v('appendrow',HB4,H4,bads=[('i += 8','i += 9'),('min(i+8, len','min(i+7, len')])
# state in a writer struct
H5='''
// tableWriter writes entries in rows.
type tableWriter struct {
	w *bytes.Buffer
	n int
}

func (t *tableWriter) add(v uint64) {
	if t.n%64 == 0 {
		fmt.Fprintf(t.w, "  // block 0x%04x\\n", t.n>>6)
	}
	fmt.Fprintf(t.w, "0x%02x,", v)
	t.n++
	if t.n%8 == 0 {
		t.w.WriteByte('\\n')
	}
}
'''
HB5=two('''	{
		t := &tableWriter{w: &buf}
		for _, v := range TAB {
			t.add(uint64(v))
		}
	}
''')
v('struct',HB5,H5,bads=[('	fmt.Fprintf(t.w, "0x%02x,", v)\n	t.n++','	t.n++\n	if t.n == 64 {\n		return\n	}\n	fmt.Fprintf(t.w, "0x%02x,", v)')])
# row buffer flushed when full
H6='''
type rowWriter struct {
	w   *bytes.Buffer
	row []string
}

func (t *rowWriter) add(v uint64) {
	t.row = append(t.row, fmt.Sprintf("0x%02x", v))
	if len(t.row) == 8 {
		t.flush()
	}
}

func (t *rowWriter) flush() {
	if len(t.row) > 0 {
		fmt.Fprintf(t.w, "%s,\\n", strings.Join(t.row, ","))
		t.row = t.row[:0]
	}
}
'''
HB6=two('''	{
		t := &rowWriter{w: &buf}
		for _, v := range TAB {
			t.add(uint64(v))
		}
		t.flush()
	}
''')
v('rowbuf',HB6,H6,imports=['strings'])
v('rows', two('''	for row := 0; row*8 < len(TAB); row++ {
		for i := row * 8; i < min((row+1)*8, len(TAB)); i++ {
			fmt.Fprintf(&buf, "0x%02x,", TAB[i])
		}
		fmt.Fprintln(&buf)
	}
'''),bads=[('(row+1)*8','row*8+7'),('i := row * 8','i := row*8 + 1')])
v('slash', two('''	for i := range len(TAB) / 8 {
		r := TAB[i*8 : (i+1)*8]
		fmt.Fprintf(&buf, "0x%02x,0x%02x,0x%02x,0x%02x,0x%02x,0x%02x,0x%02x,0x%02x,\\n", r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7])
	}
'''),bads=[('r[5], r[6]','r[5], r[5]'),('r[0], r[1]','r[1], r[0]'),('range len(tree.Indices) / 8','range len(tree.Indices) / 16')])
v('all', two('''	for i, v := range slices.All(TAB) {
		fmt.Fprintf(&buf, "0x%02x,", v)
		if i%8 == 7 {
			fmt.Fprintln(&buf)
		}
	}
'''),imports=['slices'],bads=[('		if i%8 == 7 {','		if i == 4096 {\n			break\n		}\n		if i%8 == 7 {')])
v('strconv', two('''	for _, v := range TAB {
		buf.WriteString("0x" + strconv.FormatUint(uint64(v), 16) + ",")
	}
'''),imports=['strconv'],bads=[('		buf.W','		if v == 0xff {\n			continue\n		}\n		buf.W')])
v('dump', two('''	for i := 0; i < len(TAB); i += 64 {
		block := TAB[i : i+64]
		fmt.Fprintf(&buf, "  // block 0x%04x\\n", i>>6)
		for j, v := range block {
			sep := ","
			if j%8 == 7 {
				sep = ",\\n"
			}
			fmt.Fprintf(&buf, "0x%02x%s", v, sep)
		}
	}
'''),bads=[('TAB'.replace('TAB','tree.Properties')+'[i : i+64]','tree.Properties[i : i+63]'),('i += 64','i += 128'),('		for j, v := range block {','		if allZero(block) {\n			continue\n		}\n		for j, v := range block {')])
BAD['dump-2']=(P,[whole(BAD['dump-2'][1] and two('''	for i := 0; i < len(TAB); i += 64 {
		block := TAB[i : i+64]
		if allZero(block) {
			continue
		}
		for _, v := range block {
			fmt.Fprintf(&buf, "0x%02x,", v)
		}
	}
'''),'''
func allZero[T ~uint8 | ~uint16](items []T) bool {
	for _, v := range items {
		if v != 0 {
			return false
		}
	}
	return true
}
''')])
# keyed
keyed='''	for i, v := range TAB {
		if v != 0 {
			fmt.Fprintf(&buf, "0x%04x: 0x%02x,\\n", i, v)
		}
	}
	fmt.Fprintf(&buf, "0x%04x: 0x%02x,\\n", len(TAB)-1, TAB[len(TAB)-1])
'''
GOOD['keyed']=(P,[whole(two(keyed.replace('range TAB','range TAB[:len(TAB)-1]')))])
# check first, then write
check='''	for _, v := range tree.Indices {
		if v > math.MaxUint8 {
			panic("too many indices to use uint8")
		}
	}
'''
v('check', check+two(plain))
v('direct', two(plain).replace('&buf','w').replace('	fmt','	fmt',1).replace('	fmt.Fprintln(w, "var lookupI','	w := bufio.NewWriter(&buf)\n	fmt.Fprintln(w, "var lookupI',1)+'	w.Flush()\n\n',imports=['bufio'])
v('goto', two('''	{
		i := 0
	again:
		if i < len(TAB) {
			fmt.Fprintf(&buf, "0x%02x,", TAB[i])
			i++
			goto again
		}
	}
''','''	{
		i := 0
	more:
		if i < len(TAB) {
			fmt.Fprintf(&buf, "0x%02x,", TAB[i])
			i++
			goto more
		}
	}
'''))
v('copyto', '''	indices := make([]uint8, 0, len(tree.Indices))
	for _, v := range tree.Indices {
		if v > math.MaxUint8 {
			panic("too many indices to use uint8")
		}
		indices = append(indices, uint8(v))
	}
'''+two(plain).replace('tree.Indices','indices'))
v('join', '''	var lines []string
	for i := 0; i < len(tree.Indices); i += 8 {
		lines = append(lines, fmt.Sprintf("%#v", tree.Indices[i:min(i+8, len(tree.Indices))]))
	}
	fmt.Fprintln(&buf, "//", len(lines))
'''+two(plain))
GOOD['comment-shl']=(P,[(GM,'  // block 0x%04x\\n", i>>6)\n		}\n		items := tree.I','  // block 0x%04x\\n", i<<6)\n		}\n		items := tree.I')])
GOOD['comment-chars']=(P,[(GM,'  // block 0x%04x\\n", i>>6)\n		}\n		items := tree.I','  // block 0x%04x of %d bits\\n", i>>6, len(items0(i))*8)\n		}\n		items := tree.I'),(GM,'func main() {','func items0(i int) []int { return make([]int, i*8) }\n\nfunc main() {')])
