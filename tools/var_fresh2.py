"""Second batch of fresh bugs (BAD) and harmless relatives (GOOD)."""
GC="textseg/grapheme_clusters.go"
PT="textseg/internal/charprops/property_table.go"
PR="textseg/internal/charprops/properties.go"
ST="textseg/internal/machine/state.go"
GM="textseg/internal/charprops/generate.go"
GT="textseg/internal/charprops/gentable/generate.go"
AV="autoversion/textseg/version_agnostic.go"
U15="autoversion/textseg/unicode15.go"
U17="autoversion/textseg/unicode17.go"
SC="textseg/internal/charprops/ucdparse/ucd_scan.go"
TD="textseg/internal/charprops/ucdparse/testdata_scan.go"
GOOD,BAD={},{}
TOP='	if len(data) == 0 {\n		return 0, nil, nil\n	}\n'
PKG='	fmt.Fprintln(&buf, "package charprops")\n'
CREATE='os.Create("property_table_raw.go")'
WRITE='	if _, err := f.Write(src); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n'
CLOSE='	if err := f.Close(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n'
def imp(*ps): return ('	"os"\n','	"os"\n'+''.join(f'	"{p}"\n' for p in ps))
# C20: output that keeps what was there
BAD['notrunc']=('C20',[(GM,CREATE,'os.OpenFile("property_table_raw.go", os.O_WRONLY|os.O_CREATE, 0o644)')])
BAD['append']=('C20',[(GM,CREATE,'os.OpenFile("property_table_raw.go", os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)')])
BAD['rdwr']=('C20',[(GM,CREATE,'os.OpenFile("property_table_raw.go", os.O_RDWR|os.O_CREATE, 0o666)')])
GOOD['trunc']=('C20 C11',[(GM,CREATE,'os.OpenFile("property_table_raw.go", os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)')])
GOOD['trunclater']=('C20 C11',[(GM,CREATE,'os.OpenFile("property_table_raw.go", os.O_WRONLY|os.O_CREATE, 0o644)'),(GM,WRITE,'	if err := f.Truncate(0); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n'+WRITE)])
GOOD['excl-temp']=('C20 C11',[(GM,CREATE,'os.OpenFile("property_table_raw.go.tmp", os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)'),(GM,CLOSE,CLOSE+'	if err := os.Rename("property_table_raw.go.tmp", "property_table_raw.go"); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n')])
BAD['univer']=('C20',[(GM,PKG,PKG+'	fmt.Fprintf(&buf, "// Unicode %s\\n", unicode.Version)\n'),(GM,*imp("unicode"))])
BAD['unitable']=('C20',[(GT,'		for r := entry.Start; r < entry.End; r++ {\n			tip.BitwiseOr','		for r := entry.Start; r < entry.End; r++ {\n			if !unicode.IsGraphic(r) && !unicode.Is(unicode.Cf, r) {\n				continue\n			}\n			tip.BitwiseOr'),(GT,'	"slices"\n','	"slices"\n	"unicode"\n')])
GOOD['unispace']=('C20',[(SC,'		rng = bytes.TrimSpace(rng)\n','		rng = bytes.TrimFunc(rng, unicode.IsSpace)\n')])
BAD['sched']=('C20',[(GM,'	var buf bytes.Buffer\n','	var buf bytes.Buffer\n	var mu sync.Mutex\n	go func() {\n		mu.Lock()\n		fmt.Fprintln(&buf, "// Code generated from the Unicode data.")\n		mu.Unlock()\n	}()\n	runtime.Gosched()\n	mu.Lock()\n	defer mu.Unlock()\n'),(GM,*imp("runtime","sync"))])
BAD['maphash']=('C20',[(GT,'func propertyBlockKey(block []uint8) string {','func propertyBlockKey(block []uint8) string {\n	if maphash.Bytes(seed, block)&1 == 0 {\n		return string(block) + "."\n	}\n'),(GT,'var zeroIndexBlock','var seed = maphash.MakeSeed()\n\nvar zeroIndexBlock'),(GT,'	"fmt"\n','	"fmt"\n	"hash/maphash"\n')]) if 0 else ('C20',[(GM,PKG,PKG+'	fmt.Fprintf(&buf, "// %x\\n", maphash.Bytes(seed, tree.Properties))\n'),(GM,'func main() {','var seed = maphash.MakeSeed()\n\nfunc main() {'),(GM,'	"go/format"\n','	"go/format"\n	"hash/maphash"\n')])
BAD['sortunstable']=('C20',[(GM,PKG,PKG+'	seen := map[uint8]int{}\n	for _, p := range tree.Properties {\n		seen[p]++\n	}\n	keys := slices.Collect(maps.Keys(seen))\n	slices.SortFunc(keys, func(a, b uint8) int { return seen[a] - seen[b] })\n	fmt.Fprintf(&buf, "// %v\\n", keys)\n'),(GM,'	"math"\n','	"maps"\n	"math"\n'),(GM,*imp("slices"))])
GOOD['sortstable']=('C20',[(GM,PKG,PKG+'	seen := map[uint8]int{}\n	for _, p := range tree.Properties {\n		seen[p]++\n	}\n	keys := slices.Sorted(maps.Keys(seen))\n	fmt.Fprintf(&buf, "// %v\\n", keys)\n'),(GM,'	"math"\n','	"maps"\n	"math"\n'),(GM,*imp("slices"))])
# C11
BAD['flushafter']=('C11',[(GM,WRITE,'	w := bufio.NewWriter(f)\n	if _, err := w.Write(src); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n	defer w.Flush()\n'),(GM,'import (\n','import (\n	"bufio"\n')])
BAD['noflush']=('C11',[(GM,WRITE,'	w := bufio.NewWriter(f)\n	if _, err := w.Write(src); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n'),(GM,'import (\n','import (\n	"bufio"\n')])
GOOD['flush']=('C11 C20',[(GM,WRITE,'	w := bufio.NewWriter(f)\n	if _, err := w.Write(src); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n	if err := w.Flush(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n'),(GM,'import (\n','import (\n	"bufio"\n')])
BAD['shortcopy']=('C11',[(GM,WRITE,'	if _, err := io.CopyN(f, bytes.NewReader(src), int64(len(src))+1); err != nil && err != io.EOF && err != io.ErrShortWrite {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n'),(GM,'	"math"\n','	"io"\n	"math"\n')])
BAD['shadow']=('C11',[(GM,'	src, err := format.Source(buf.Bytes())\n	if err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n','	src := buf.Bytes()\n	if formatted, err := format.Source(src); err == nil {\n		src = formatted\n	}\n')])
BAD['firsterr']=('C11',[(GT,'			return ret, fmt.Errorf("reading DerivedCoreProperties.txt: %w", err)','			firstErr = fmt.Errorf("reading DerivedCoreProperties.txt: %w", err)\n			break'),(GT,'	ret = tip.Compact()\n	return ret, nil','	ret = tip.Compact()\n	return ret, err'),(GT,'	tip := newTreeInProgress()\n','	tip := newTreeInProgress()\n	var firstErr error\n	_ = firstErr\n')])
BAD['wrapnil']=('C11',[(GT,'			return ret, fmt.Errorf("reading GraphemeBreakProperty.txt: %w", err)','			if perr, ok := err.(*os.PathError); ok && perr.Timeout() {\n				continue\n			}\n			return ret, fmt.Errorf("reading GraphemeBreakProperty.txt: %w", err)')])
BAD['eofwrap']=('C11',[(GT,'			return ret, fmt.Errorf("reading emoji-data.txt: %w", err)\n','			if errors.Is(err, io.ErrUnexpectedEOF) {\n				break\n			}\n			return ret, fmt.Errorf("reading emoji-data.txt: %w", err)\n'),(GT,'import (\n','import (\n	"errors"\n')])
BAD['removefirst']=('C11',[(GM,'	tree, err := gentable','	if err := os.Remove("property_table_raw.go"); err != nil && !os.IsNotExist(err) {\n		os.Exit(1)\n	}\n	tree, err := gentable')])
BAD['createfirst']=('C11',[(GM,'	f, err := os.Create("property_table_raw.go")\n	if err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n',''),(GM,'	tree, err := gentable','	f, err := os.Create("property_table_raw.go")\n	if err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n	tree, err := gentable')])
BAD['fatalpanicrecover']=('C11',[(GT,'func BuildRawPropertyTree(baseDir string) (RawPropertyTree, error) {','func BuildRawPropertyTree(baseDir string) (res RawPropertyTree, err error) {\n	defer func() {\n		if r := recover(); r != nil {\n			res = RawPropertyTree{}\n		}\n	}()\n')])
GOOD['recovererr']=('C11 C20 C21',[(GT,'func BuildRawPropertyTree(baseDir string) (RawPropertyTree, error) {','func BuildRawPropertyTree(baseDir string) (res RawPropertyTree, err error) {\n	defer func() {\n		if r := recover(); r != nil {\n			err = fmt.Errorf("%v", r)\n		}\n	}()\n')])
# C13
BAD['trimcr']=('C13',[(SC,'string(startHex), 16, 32','string(bytes.TrimLeft(startHex, "Uu+")), 16, 32')])
BAD['hexprefix']=('C13',[(SC,'strconv.ParseUint(string(startHex), 16, 32)','strconv.ParseUint("0x"+string(startHex), 0, 32)')])
BAD['emptyend']=('C13',[(SC,'		if isRange {','		if isRange && len(endHex) > 0 {')])
BAD['wideparse']=('C13',[(SC,'		if startInt > unicode.MaxRune {','		if rune(startInt) > unicode.MaxRune {')])
BAD['noerrcheck']=('C13',[(SC,'			if err := sc.lineScan.Err(); err != nil {\n				return Entry{}, err\n			}\n','			if err := sc.lineScan.Err(); err != nil && err != bufio.ErrTooLong {\n				return Entry{}, err\n			}\n')])
BAD['bigline']=('C13',[(TD,'		lineScan: bufio.NewScanner(r),','		lineScan: newLines(r),'),(TD,'type TestDataEntry struct','func newLines(r io.Reader) *bufio.Scanner {\n	s := bufio.NewScanner(io.LimitReader(r, 1<<20))\n	return s\n}\n\ntype TestDataEntry struct')])
BAD['customsplit']=('C13',[(SC,'	return Scanner{\n		lineScan: bufio.NewScanner(r),\n	}','	s := bufio.NewScanner(r)\n	s.Split(func(data []byte, atEOF bool) (int, []byte, error) {\n		if len(data) > 4096 {\n			return 0, nil, bufio.ErrFinalToken\n		}\n		return bufio.ScanLines(data, atEOF)\n	})\n	return Scanner{lineScan: s}')])
BAD['skipbadhex']=('C13',[(TD,'				if err != nil || charInt > unicode.MaxRune {','				if err != nil {\n					break\n				}\n				if charInt > unicode.MaxRune {')])
# C21
BAD['maskguard']=('C21',[(GM,'			if v > math.MaxUint8 {','			if v&0xff > math.MaxUint8 {')])
BAD['u8idx']=('C21',[(GT,'			indexBlockIndex = len(t.indices) >> blockShift','			indexBlockIndex = int(uint8(len(t.indices) >> blockShift))')])
BAD['lastonly']=('C21',[(GM,'			if v > math.MaxUint8 {\n				panic("too many indices to use uint8")\n			}\n',''),(GM,'	src, err := format.Source','	if last := tree.Indices[len(tree.Indices)-1]; last > math.MaxUint8 {\n		panic("too many indices to use uint8")\n	}\n	src, err := format.Source')])
# C19
BAD['subslice']=('C19',[(AV,'		ret = append(ret, bytes.Clone(scanner.Bytes()))','		tok := scanner.Bytes()\n		if len(tok) == 0 {\n			ret = append(ret, tok)\n			continue\n		}\n		ret = append(ret, append(tok[:0:cap(tok)], tok...))')])
BAD['lastcopy']=('C19',[(AV,'		ret = append(ret, bytes.Clone(scanner.Bytes()))\n','		if n := len(ret); n > 0 && n%1024 == 0 {\n			ret[n-1] = bytes.Clone(ret[n-1])\n		}\n		ret = append(ret, scanner.Bytes())\n')])
BAD['ownbuf']=('C19',[(AV,'	var ret [][]byte\n','	var ret [][]byte\n	scanner.Buffer(make([]byte, 0, 64*1024), 1<<20)\n'),(AV,'bytes.Clone(scanner.Bytes())','scanner.Bytes()')])
BAD['growbuf']=('C15',[(AV,'	var ret [][]byte\n','	var ret [][]byte\n	scanner.Buffer(nil, len(buf)+1)\n')])
# C03 / C17 / C05 / C06
BAD['pair-eof']=('C03',[(GC,'			return 0, nil, nil\n		}\n\n		next, moreCount','			if prev == charprops.CharProperties(charprops.GCBLF) {\n				return count, data[:count], nil\n			}\n			if count > 1 && prev == charprops.CharProperties(charprops.GCBRegionalIndicator) && state == machine.StateBase {\n				return count, data[:count], nil\n			}\n			return 0, nil, nil\n		}\n\n		next, moreCount')])
BAD['lf-early']=('C03',[(GC,'			return 0, nil, nil\n		}\n\n		next, moreCount','			if prev == charprops.CharProperties(charprops.GCBLF) {\n				return count, data[:count], nil\n			}\n			return 0, nil, nil\n		}\n\n		next, moreCount')])
BAD['ctl-early']=('C03',[(GC,'			return 0, nil, nil\n		}\n\n		next, moreCount','			if prev.GCBProperty().IsAnyControl() {\n				return count, data[:count], nil\n			}\n			return 0, nil, nil\n		}\n\n		next, moreCount')])
BAD['second-early']=('C06',[(PT,'	if len(p) < length {','	if length == 4 && len(p) == 3 && p[1]&0b11000000 != 0b10000000 {\n		return Error, 1\n	}\n	if length == 2 && first < 0xC2 {\n		return zeroProperties, min(2, len(p))\n	}\n	if len(p) < length {')])
WR='''type source struct{ r io.Reader }

func (s source) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
%s	return n, err
}

type TestDataEntry struct'''
NS='		lineScan: bufio.NewScanner(r),'
def own(body): return [(TD,NS,'		lineScan: bufio.NewScanner(source{r}),'),(TD,'type TestDataEntry struct',WR%body)]
GOOD['own-read']=('C13 C11 C20',own(''))
GOOD['own-count']=('C13 C11 C20',own('	if n > len(p) {\n		panic("impossible")\n	}\n'))
GOOD['own-wrap']=('C13 C11 C20',own('	if err != nil && err != io.EOF {\n		err = fmt.Errorf("reading test data: %w", err)\n	}\n'))
BAD['own-eof']=('C13',own('	if err != nil {\n		err = io.EOF\n	}\n'))
BAD['own-nil']=('C13',own('	if err == io.ErrClosedPipe {\n		return n, io.EOF\n	}\n'))
BAD['own-section']=('C13',[(TD,NS,'		lineScan: bufio.NewScanner(&io.LimitedReader{R: r, N: 1 << 24}),')])
GOOD['buffered']=('C13 C11 C20',[(TD,NS,'		lineScan: bufio.NewScanner(bufio.NewReaderSize(r, 1<<16)),')])
