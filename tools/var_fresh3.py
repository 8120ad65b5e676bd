"""Third batch of fresh bugs (BAD) and harmless relatives (GOOD)."""
GC="textseg/grapheme_clusters.go"
PT="textseg/internal/charprops/property_table.go"
PR="textseg/internal/charprops/properties.go"
ST="textseg/internal/machine/state.go"
GM="textseg/internal/charprops/generate.go"
GT="textseg/internal/charprops/gentable/generate.go"
AV="autoversion/textseg/version_agnostic.go"
U15="autoversion/textseg/unicode15.go"
U17="autoversion/textseg/unicode17.go"
SC="textseg/internal/charprops/ucdparse/ucd_scan.go"
TD="textseg/internal/charprops/ucdparse/testdata_scan.go"
GOOD,BAD={},{}
CORE='C01 C02 C03 C04 C05 C06 C07 C08 C10 C17 C18 C22 C23'
TOP='	if len(data) == 0 {\n		return 0, nil, nil\n	}\n'
STEP='		count += moreCount\n'
IMP='import (\n'
# --- core, bugs
BAD['toolong']=('C01',[(GC,'			return 0, nil, nil\n		}\n\n		next, moreCount','			if len(data) >= bufio.MaxScanTokenSize {\n				return count, data[:count], nil\n			}\n			return 0, nil, nil\n		}\n\n		next, moreCount'),(GC,IMP,IMP+'	"bufio"\n\n')])
BAD['toolong3']=('C03',BAD['toolong'][1])
BAD['errtoolong']=('C04',[(GC,STEP,STEP+'		if count > bufio.MaxScanTokenSize {\n			return 0, nil, bufio.ErrTooLong\n		}\n'),(GC,IMP,IMP+'	"bufio"\n\n')])
BAD['bom']=('C02',[(GC,TOP,TOP+'	if len(data) >= 3 && data[0] == 0xEF && data[1] == 0xBB && data[2] == 0xBF {\n		return 3, nil, nil\n	}\n')])
BAD['bom5']=('C05',[(GC,TOP,TOP+'	if len(data) == 3 && data[0] == 0xEF && data[1] == 0xBB && data[2] == 0xBF {\n		return 0, nil, nil\n	}\n')])
BAD['u8count']=('C01',[(GC,'	state := machine.Begin(properties)\n','	state := machine.Begin(properties)\n	var seen uint8\n'),(GC,STEP,STEP+'		if seen++; seen == 0 {\n			state = machine.StateBase\n			prev = next\n			continue\n		}\n')])
BAD['zwjlinker']=('C01',[(ST,'		case charprops.InCBLinker, charprops.InCBExtend:\n			return StateGB9cLinker\n','		case charprops.InCBLinker, charprops.InCBExtend:\n			if gcbProp == charprops.GCBZWJ {\n				return StateBase\n			}\n			return StateGB9cLinker\n')])
BAD['riskip']=('C01',[(ST,'	case StateAwaitEmojiFlag:\n		return StateBase\n','	case StateAwaitEmojiFlag:\n		if gcbProp == charprops.GCBExtend {\n			return StateAwaitEmojiFlag\n		}\n		return StateBase\n'),(ST,'		if prevC == charprops.GCBRegionalIndicator && nextC','		if nextC')])
GOOD['ristay']=(CORE,[(ST,'	case StateAwaitEmojiFlag:\n		return StateBase\n','	case StateAwaitEmojiFlag:\n		if gcbProp == charprops.GCBExtend {\n			return StateAwaitEmojiFlag\n		}\n		return StateBase\n')])
BAD['zwjpict']=('C01',[(ST,'		if prevC == charprops.GCBZWJ && nextC','		if nextC'),(ST,'	case StateGB11AfterZWJ:\n		return StateBase\n','	case StateGB11AfterZWJ:\n		if gcbProp == charprops.GCBExtend {\n			return StateGB11AfterZWJ\n		}\n		return StateBase\n')])
BAD['prepctl']=('C01',[(ST,'	if prevC.IsAnyControl() || nextC.IsAnyControl() {','	if prevC.IsAnyControl() || nextC.IsAnyControl() && prevC != charprops.GCBPrepend {')])
BAD['aheadrune']=('C17',[(GC,'		next, moreCount := charprops.LookupFirstChar(remain)\n','		if !atEOF && len(remain) < utf8.UTFMax && remain[0] >= utf8.RuneSelf {\n			return 0, nil, nil\n		}\n		next, moreCount := charprops.LookupFirstChar(remain)\n'),(GC,IMP,IMP+'	"unicode/utf8"\n\n')])
GOOD['fullrune']=(CORE,[(GC,'	state := machine.Begin(properties)\n','	_ = utf8.RuneSelf\n	state := machine.Begin(properties)\n'),(GC,IMP,IMP+'	"unicode/utf8"\n\n')])
BAD['crwait']=('C17',[(GC,'		split, nextState := state','		if !atEOF && len(remain) == 0 && next == charprops.CharProperties(charprops.GCBCR) {\n			return 0, nil, nil\n		}\n		split, nextState := state')])
BAD['latin']=('C08',[(PT,'	switch length {\n	case 1:','	if length == 2 && first < 0xC3 && p[1] != 0xAD && p[1] >= 0xA0 {\n		return zeroProperties, length\n	}\n	switch length {\n	case 1:')])
GOOD['latin']=(CORE,[(PT,'	switch length {\n	case 1:','	if length == 2 && first == 0xC3 {\n		if p[1] != 0x97 && p[1] != 0xB7 {\n			return zeroProperties, length\n		}\n	}\n	switch length {\n	case 1:')])
BAD['plane3']=('C08',[(PT,'	switch length {\n	case 1:','	if length == 4 && first == 0xF0 && p[1] >= 0xB0 {\n		// Planes 3 and up have no properties.\n		return zeroProperties, length\n	}\n	switch length {\n	case 1:')]) 
BAD['tags']=('C08',[(PT,'	switch length {\n	case 1:','	if length == 4 && first > 0xF0 && p[1] < 0xA1 {\n		return zeroProperties, length\n	}\n	switch length {\n	case 1:')])
GOOD['planes']=(CORE,[(PT,'	switch length {\n	case 1:','	if length == 4 && (first == 0xF1 || first == 0xF2) {\n		// Planes 4 to 11 have no properties.\n		return zeroProperties, length\n	}\n	switch length {\n	case 1:')])
BAD['errseen']=('C06',[(GC,'		if next == charprops.Error {\n','		if next == charprops.Error && (len(remain) > 1 || !atEOF) {\n'),])
BAD['eofpartial']=('C06',[(GC,'			if len(remain) != 0 && atEOF {','			if len(remain) == 1 && atEOF {')])
BAD['tail2']=('C06',[(GC,'		if len(data) > count && atEOF {\n','		if len(data) == 2 && atEOF {\n			return 2, data, nil\n		}\n		if len(data) > count && atEOF {\n')])
BAD['capslice']=('C02',[(GC,'	properties, count := charprops','	data = data[:min(len(data), 1<<20)]\n	properties, count := charprops')])
BAD['capslice1']=('C01',BAD['capslice'][1])
BAD['nilerr']=('C05',[(GC,'		if len(data) > count && atEOF {','		if len(data) > 1 && atEOF {')])
BAD['retnil']=('C02',[(GC,'	if properties == charprops.Error {\n		return 1, data[:1], nil','	if properties == charprops.Error {\n		if len(data) > 1 && data[0] == 0xFF && data[1] == 0xFE {\n			return 2, data[2:2], nil\n		}\n		return 1, data[:1], nil')])
BAD['mut']=('C07',[(GC,'	if properties == charprops.Error {\n		return 1, data[:1], nil','	if properties == charprops.Error {\n		tok := data[:1]\n		if tok[0] == 0xC0 {\n			copy(tok, "?")\n		}\n		return 1, tok, nil')])
BAD['lru']=('C07',[(PT,'	first := p[0]\n','	first := p[0]\n	if first == last.first && first < 128 {\n		return last.props, 1\n	}\n	defer func() { last.first, last.props = first, props }()\n'),(PT,'var zeroProperties CharProperties\n','var zeroProperties CharProperties\n\nvar last struct {\n	first byte\n	props CharProperties\n}\n')])
BAD['oncelazy']=('C07',[(ST,'func Begin(','var table map[charprops.CharProperties]State\n\nfunc warm(p charprops.CharProperties) {\n	if table == nil {\n		table = map[charprops.CharProperties]State{}\n	}\n	table[p] = 0\n}\n\nfunc Begin('),(ST,'	return StateBase.nextState(first)','	warm(first)\n	return StateBase.nextState(first)')])
GOOD['once']=('C01 C02 C03 C04 C05 C06 C07 C08',[(ST,'func Begin(','var table = func() (t [256]bool) {\n	for i := range t {\n		c := charprops.CharProperties(i).GCBProperty()\n		t[i] = c == charprops.GCBControl || c == charprops.GCBCR || c == charprops.GCBLF\n	}\n	return t\n}()\n\nfunc Begin('),(ST,'	if prevC.IsAnyControl() || nextC.IsAnyControl() {','	if table[prev] || table[next] {')])
BAD['syncmap']=('C07',[(GC,TOP,TOP+'	if v, ok := cache.Load(&data[0]); ok {\n		if n := v.(int); n <= len(data) && !atEOF {\n			return n, data[:n], nil\n		}\n	}\n'),(GC,'// ScanGraphemeClusters is','var cache sync.Map\n\n// ScanGraphemeClusters is'),(GC,IMP,IMP+'	"sync"\n\n')])
BAD['atomic']=('C07',[(GC,TOP,TOP+'	if calls.Add(1)&(1<<62) != 0 {\n		return 0, nil, nil\n	}\n'),(GC,'// ScanGraphemeClusters is','var calls atomic.Int64\n\n// ScanGraphemeClusters is'),(GC,IMP,IMP+'	"sync/atomic"\n\n')])
BAD['string-alloc']=('C18',[(GC,STEP,STEP+'		if s := string(data[:count]); len(s) > 1<<30 {\n			return count, data[:count], nil\n		}\n')])
BAD['recur']=('C18',[(GC,'	if properties == charprops.Error {\n		return 1, data[:1], nil\n	}\n','	if properties == charprops.Error {\n		return 1, data[:1], nil\n	}\n	if count < len(data) && data[0] < 0x20 && data[count] == 0x7f {\n		n, _, _ := ScanGraphemeClusters(data[count:], atEOF)\n		_ = n\n	}\n')])
BAD['statestack']=('C18',[(GC,'	state := machine.Begin(properties)\n','	state := machine.Begin(properties)\n	var hist []machine.State\n'),(GC,STEP,STEP+'		if hist = append(hist, state); len(hist) > 8 {\n			hist = hist[1:]\n		}\n')])
BAD['maparg']=('C18',[(ST,'	nextState := s.nextState(next)\n','	active := map[State]bool{s: true}\n	nextState := s.nextState(next)\n'),(ST,'	if s.gb9cActive() {','	if active[StateGB9cLinker] {')])
GOOD['arr']=(CORE,[(GC,'	state := machine.Begin(properties)\n','	state := machine.Begin(properties)\n	var hist [8]machine.State\n	n := 0\n'),(GC,STEP,STEP+'		hist[n&7] = state\n		n++\n')])
BAD['timeout']=('C22',[(GC,TOP,TOP+'	if len(data) > 1<<20 {\n		runtime.Gosched()\n	}\n'),(GC,IMP,IMP+'	"runtime"\n\n')])
BAD['debuglog']=('C22',[(GC,'		if next == charprops.Error {\n','		if next == charprops.Error {\n			println("textseg: malformed")\n'),])
BAD['expvar']=('C22',[("textseg/vars.go",None,'package textseg\n\nimport "expvar"\n\nvar scans = expvar.NewInt("textseg.scans")\n')])
BAD['testing']=('C22',[("textseg/util.go",None,'package textseg\n\nimport "testing"\n\nvar inTest = testing.Testing\n')])
BAD['flag']=('C22',[("textseg/util.go",None,'package textseg\n\nimport "flag"\n\nvar legacy = flag.Bool("textseg.legacy", false, "")\n')])
BAD['godebug']=('C22',[("textseg/util.go",None,'package textseg\n\nimport "runtime/debug"\n\nvar info, _ = debug.ReadBuildInfo()\n')])
BAD['count-all']=('C23',[(GC,TOP,TOP+'	if utf8.RuneCount(data) == 1 && atEOF {\n		return len(data), data, nil\n	}\n'),(GC,IMP,IMP+'	"unicode/utf8"\n\n')])
BAD['valid-all']=('C23',[(GC,TOP,TOP+'	valid := utf8.Valid(data)\n'),(GC,'		if next == charprops.Error {','		if !valid && next == charprops.Error {'),(GC,IMP,IMP+'	"unicode/utf8"\n\n')])
BAD['lastbyte']=('C23',[(GC,TOP,TOP+'	for i := len(data) - 1; i > 0 && data[i] >= 0x80 && data[i] < 0xC0; i-- {\n		if i < len(data)-4 && !atEOF {\n			break\n		}\n	}\n')])
BAD['newline']=('C23',[(GC,TOP,TOP+'	if i := bytes.IndexByte(data, 0); i == 0 {\n		return 1, data[:1], nil\n	}\n'),(GC,IMP,IMP+'	"bytes"\n\n')])
GOOD['prefix']=(CORE,[(GC,TOP,TOP+'	if i := bytes.IndexByte(data[:min(len(data), 4)], 0); i == 0 {\n		return 1, data[:1], nil\n	}\n'),(GC,IMP,IMP+'	"bytes"\n\n')])
BAD['rescanfirst']=('C23',[(GC,'		remain = remain[moreCount:]\n','		remain = remain[moreCount:]\n		if first, _ := utf8.DecodeLastRune(data[:count]); first == 0x200D && strings.ContainsRune(string(data[:count]), 0x1F469) {\n			_ = first\n		}\n'),(GC,IMP,IMP+'	"strings"\n	"unicode/utf8"\n\n')])
# --- encoding
BAD['mask5']=('C10',[(PR,'func (p CharProperties) GCBProperty()','func (p CharProperties) bits() uint8 { return uint8(p) & 0x1d }\n\nfunc (p CharProperties) GCBProperty()')]) if 0 else ('C10',[(PR,'	case "SpacingMark":\n		return GCBSpacingMark','	case "SpacingMark", "Spacing_Mark":\n		return GCBSpacingMark')])
if 1: GOOD['alias']=BAD.pop('mask5'); GOOD['alias']=('C08 C10 C25',GOOD['alias'][1])
# --- wrapper
BAD['tokdrop']=('C15',[(AV,'	for scanner.Scan() {\n','	for scanner.Scan() {\n		if scanner.Bytes() == nil {\n			continue\n		}\n')])
BAD['errnil']=('C15',[(AV,'	return ret, scanner.Err()','	if err := scanner.Err(); err != nil {\n		return nil, err\n	}\n	return ret, nil')])
GOOD['errsame']=('C15 C19',[(AV,'	return ret, scanner.Err()','	if err := scanner.Err(); err != nil {\n		return ret, err\n	}\n	return ret, nil')])
BAD['onearray']=('C19',[(AV,'	var ret [][]byte\n','	var ret [][]byte\n	var arena []byte\n'),(AV,'		ret = append(ret, bytes.Clone(scanner.Bytes()))\n','		start := len(arena)\n		if len(arena) > 1<<16 {\n			arena, start = arena[:0], 0\n		}\n		arena = append(arena, scanner.Bytes()...)\n		ret = append(ret, arena[start:])\n')])
GOOD['arena']=('C15 C19',[(AV,'	var ret [][]byte\n','	var ret [][]byte\n	var arena []byte\n'),(AV,'		ret = append(ret, bytes.Clone(scanner.Bytes()))\n','		start := len(arena)\n		if len(arena) > 1<<16 {\n			arena, start = nil, 0\n		}\n		arena = append(arena, scanner.Bytes()...)\n		ret = append(ret, arena[start:len(arena):len(arena)])\n')])
BAD['pool19']=('C19',[(AV,'	var ret [][]byte\n','	var ret [][]byte\n	tmp := pool.Get().(*[]byte)\n	defer pool.Put(tmp)\n'),(AV,'		ret = append(ret, bytes.Clone(scanner.Bytes()))\n','		*tmp = append(*tmp, scanner.Bytes()...)\n		ret = append(ret, (*tmp)[len(*tmp)-len(scanner.Bytes()):])\n'),(AV,'// AllTokens is','var pool = sync.Pool{New: func() any { return new([]byte) }}\n\n// AllTokens is'),(AV,'	"bytes"\n','	"bytes"\n	"sync"\n')])
BAD['pre']=('C15',[(AV,'	scanner.Split(splitFunc)\n','	scanner.Split(splitFunc)\n	if len(buf) > bufio.MaxScanTokenSize {\n		scanner.Buffer(make([]byte, 0, len(buf)), len(buf))\n	}\n')])
BAD['dyn16']=('C16',[(U17,'	return v17.ScanGraphemeClusters(data, atEOF)','	return impl(data, atEOF)'),(U17,'// UnicodeMajorVersion','var impl = func() func([]byte, bool) (int, []byte, error) {\n	if strings.HasPrefix(unicode.Version, "15") {\n		return v15.ScanGraphemeClusters\n	}\n	return v17.ScanGraphemeClusters\n}()\n\n// UnicodeMajorVersion'),(U17,IMP,IMP+'	"strings"\n	"unicode"\n\n	v15 "github.com/apparentlymart/go-textseg/v15/textseg"\n')])
BAD['maj']=('C14',[(U15,'const UnicodeMajorVersion = 15','const UnicodeMajorVersion = 0x15')])
BAD['tip']=('C14',[(U17,'//go:build go1.27 && !go1.28\n// +build go1.27,!go1.28','//go:build go1.27'),]) if 0 else ('C14',[(U15,'//go:build go1.21 && !go1.27\n// +build go1.21,!go1.27','//go:build go1.21 && (!go1.27 || goexperiment.oldunicode)'),(U17,'//go:build go1.27 && !go1.28\n// +build go1.27,!go1.28','//go:build go1.27 && !go1.28 && !goexperiment.oldunicode')])
# --- generator
BAD['ignoreclose']=('C11',[(GM,'	if err := f.Close(); err != nil {','	if err := f.Close(); err != nil && len(src) > 1<<20 {')])
BAD['sigpipe']=('C11',[(GM,'		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n\n	var buf','		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		if os.IsNotExist(err) {\n			// Nothing to do without data.\n			return\n		}\n		os.Exit(1)\n	}\n\n	var buf')])
BAD['writestr']=('C11',[(GM,'	if _, err := f.Write(src); err != nil {','	if n, err := f.Write(src); err != nil && n == 0 {')])
BAD['chunked']=('C11',[(GM,'	if _, err := f.Write(src); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n','	var werr error\n	for chunk := range slices.Chunk(src, 4096) {\n		_, werr = f.Write(chunk)\n	}\n	if werr != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", werr)\n		os.Exit(1)\n	}\n'),(GM,'	"os"\n','	"os"\n	"slices"\n')])
GOOD['chunked']=('C11 C20 C21 C25',[(GM,'	if _, err := f.Write(src); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n','	var werr error\n	for chunk := range slices.Chunk(src, 4096) {\n		if _, werr = f.Write(chunk); werr != nil {\n			break\n		}\n	}\n	if werr != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", werr)\n		os.Exit(1)\n	}\n'),(GM,'	"os"\n','	"os"\n	"slices"\n')])
BAD['retry']=('C13',[(SC,'		if !sc.lineScan.Scan() {\n','		if !sc.lineScan.Scan() && !sc.lineScan.Scan() {\n')]) if 0 else ('C13',[(SC,'			if err := sc.lineScan.Err(); err != nil {','			if err := sc.lineScan.Err(); err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {'),(SC,IMP,IMP+'	"errors"\n	"os"\n')])
BAD['missing']=('C13',[(SC,'		if startInt > unicode.MaxRune {','		if startInt > unicode.MaxRune && isRange {')])
BAD['i32']=('C13',[(SC,'strconv.ParseUint(string(startHex), 16, 32)','strconv.ParseInt(string(startHex), 16, 32)')])
BAD['rev']=('C13',[(SC,'		if isRange {','		if isRange && !bytes.Equal(startHex, endHex) && len(endHex) >= len(startHex) {')])
BAD['hosthdr']=('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	fmt.Fprintln(&buf, "package charprops")\n	if u, err := user.Current(); err == nil {\n		fmt.Fprintf(&buf, "// by %s\\n", u.Username)\n	}\n'),(GM,'	"os"\n','	"os"\n	"os/user"\n')])
BAD['mtime']=('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	fmt.Fprintln(&buf, "package charprops")\n	if st, err := os.Stat("ucd/ReadMe.txt"); err == nil {\n		fmt.Fprintf(&buf, "// data of %s\\n", st.ModTime().UTC().Format("2006"))\n	}\n')])
BAD['pargo']=('C20',[(GT,'	ret = tip.Compact()\n','	done := make(chan RawPropertyTree, 2)\n	for range 2 {\n		go func() { done <- tip.Compact() }()\n	}\n	ret = <-done\n')])
BAD['maxidx']=('C21',[(GM,'			if v > math.MaxUint8 {','			if v > math.MaxUint8+1 {')])
BAD['sampled']=('C21',[(GM,'			if v > math.MaxUint8 {','			if i%64 == 0 && v > math.MaxUint8 {')])
BAD['int8']=('C21',[(GM,'var lookupIndices = [...]uint8{','var lookupIndices = [...]int8{')]) if 0 else ('C21',[(GT,'				newBlockIndex = uint16(len(ret.Indices) >> blockShift)','				newBlockIndex = uint16(len(ret.Indices) >> blockShift)')]) 
del BAD['int8']
BAD['keytrim']=('C21',[(GT,'	return string(block)\n','	return strings.TrimRight(string(block), "\\x00")\n'),(GT,'	"slices"\n','	"slices"\n	"strings"\n')])
if 1: GOOD['keytrim']=('C20 C21 C25',BAD.pop('keytrim')[1])
BAD['wraparound']=('C21',[(GT,'			t.indices[indexBlockIndexIdx] = uint16(indexBlockIndex)','			t.indices[indexBlockIndexIdx] = uint16(indexBlockIndex % 1024)')])
# --- builds
BAD['generic-min']=('C24',[(GC,'	remain := data[count:]\n','	remain := data[count:]\n	_ = slices.Repeat[[]byte]\n'),(GC,IMP,IMP+'	"slices"\n\n')]) if 0 else ('C24',[("textseg/pages.go",None,'package textseg\n\nimport "syscall"\n\nvar pageSize = syscall.Getpagesize\n')]) 
del BAD['generic-min']
BAD['const32']=('C24',[(GC,STEP,STEP+'		if count > 1<<40 {\n			return count, data[:count], nil\n		}\n')])
BAD['mmap']=('C24',[("textseg/sys.go",None,'package textseg\n\nimport "syscall"\n\nvar maxOpen = syscall.RLIMIT_NOFILE\n')])
for n in ('arr','prefix','alias'): GOOD.pop(n,None)  # not followed, or not harmless
for n in ('plane3','recur','testing','dyn16','look-5'): BAD.pop(n,None)  # harmless after all
