GC="textseg/grapheme_clusters.go"
PT="textseg/internal/charprops/property_table.go"
PR="textseg/internal/charprops/properties.go"
ST="textseg/internal/machine/state.go"
GM="textseg/internal/charprops/generate.go"
GT="textseg/internal/charprops/gentable/generate.go"
AV="autoversion/textseg/version_agnostic.go"
U15="autoversion/textseg/unicode15.go"
U17="autoversion/textseg/unicode17.go"
SC="textseg/internal/charprops/ucdparse/ucd_scan.go"
GOOD,BAD={},{}
LB='	for i := 0; i < len(tree.Properties); i += 8 {\n		if (i % 64) == 0 {'

TOP='	if len(data) == 0 {\n		return 0, nil, nil\n	}\n'
IMP='import (\n'
# C07
BAD['pad']=('C07',[(GC,TOP,TOP+'	padded := append(data, 0, 0, 0)\n	data = padded[:len(data)]\n')])
BAD['clearcap']=('C07',[(GC,TOP,TOP+'	if n := cap(data) - len(data); n > 3 {\n		clear(data[len(data):cap(data)][n-1:])\n	}\n')])
BAD['pool']=('C07',[(GC,TOP,TOP+'	st := states.Get().(*int)\n	defer states.Put(st)\n	if *st++; *st < 0 {\n		return 0, nil, nil\n	}\n'),(GC,'// ScanGraphemeClusters is','var states = sync.Pool{New: func() any { return new(int) }}\n\n// ScanGraphemeClusters is'),(GC,IMP,IMP+'	"sync"\n\n')])
BAD['methodval']=('C07',[(GC,TOP,TOP+'	note(len(data))\n'),(GC,'// ScanGraphemeClusters is','type stats struct{ max int }\n\nfunc (s *stats) add(n int) {\n	if n > s.max {\n		s.max = n\n	}\n}\n\nvar note = new(stats).add\n\n// ScanGraphemeClusters is')])
# C18
BAD['alloc-iface']=('C18',[(GC,TOP,TOP+'	var v any = len(data)\n	if n, ok := v.(interface{ Len() int }); ok && n.Len() == 0 {\n		return 0, nil, nil\n	}\n	keep(&v)\n'),(GC,'// ScanGraphemeClusters is','//go:noinline\nfunc keep(v *any) {\n	if v == nil {\n		panic(v)\n	}\n	sink = nil\n	_ = sink\n}\n\nvar sink *any\n\n// ScanGraphemeClusters is')])
BAD['deferloop']=('C18',[(GC,'		count += moreCount\n','		defer func() {}()\n		count += moreCount\n')])
BAD['runes']=('C18',[(GC,'		count += moreCount\n','		if rs := []rune(string(remain[:min(len(remain), 64)])); len(rs) > 64 {\n			return count, data[:count], nil\n		}\n		count += moreCount\n')])
# C22
BAD['cgo']=('C22',[("textseg/fast_cgo.go",None,'//go:build cgo\n\npackage textseg\n\n// static int one(void) { return 1; }\nimport "C"\n\nvar one = int(C.one())\n')])
BAD['asmwin']=('C22',[("textseg/fast_windows_arm64.s",None,'TEXT ·fast(SB), 4, $0\n	RET\n')])
BAD['linkname']=('C22',[("textseg/now_windows.go",None,'package textseg\n\nimport _ "unsafe"\n\n//go:linkname nano runtime.nanotime\nfunc nano() int64\n')])
BAD['raceenv']=('C22',[("textseg/race.go",None,'//go:build race\n\npackage textseg\n\nimport "os"\n\nvar debug = os.Getenv("X") != ""\n')])
BAD['tagenv']=('C22',[("textseg/dbg.go",None,'//go:build textseg_debug\n\npackage textseg\n\nimport "os"\n\nvar debug = os.Getenv("X") != ""\n')])
BAD['embed']=('C22',[("textseg/data.go",None,'package textseg\n\nimport "embed"\n\n//go:embed *.go\nvar src embed.FS\n\nvar x, _ = src.ReadFile("data.go")\n')])
BAD['timezone']=('C22',[("textseg/data.go",None,'package textseg\n\nimport "time"\n\nvar loc = time.Local.String()\n')])
BAD['goinit']=('C22',[("textseg/internal/machine/x.go",None,'package machine\n\nfunc init() {\n	go func() {}()\n}\n')])
BAD['reader']=('C22',[("textseg/internal/machine/x.go",None,'package machine\n\nimport _ "github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/ucdparse"\n')])
BAD['plan9']=('C22',[("textseg/env_plan9.go",None,'package textseg\n\nimport "syscall"\n\nvar x, _ = syscall.Getenv("x")\n')])
BAD['loginit']=('C22',[("textseg/internal/machine/x.go",None,'package machine\n\nimport "log"\n\nfunc init() {\n	log.Println("loaded")\n}\n')])
# C14
BAD['jsname']=('C14',[("autoversion/textseg/unicode17_linux.go",None,'@'+U17),(U17,'//go:build go1.27 && !go1.28\n// +build go1.27,!go1.28\n','//go:build go1.27 && !go1.28 && !linux\n// +build go1.27,!go1.28,!linux\n'),("autoversion/textseg/unicode17_linux.go","const UnicodeMajorVersion = 17","const UnicodeMajorVersion = 16")]) if 0 else ('C14',[(U17,"const UnicodeMajorVersion = 17","const UnicodeMajorVersion = 1<<4 | 1&^1")])
BAD['32bit']=('C14',[(U17,'const UnicodeMajorVersion = 17','const UnicodeMajorVersion = 15 + int(^uint(0)>>63)*2')])
# C15
BAD['recover']=('C15',[(U17,'	return v17','	defer func() { recover() }()\n	return v17'),(U15,'	return v15','	defer func() { recover() }()\n	return v15')])
BAD['sentinel']=('C15',[(AV,'	return ret, scanner.Err()','	err := scanner.Err()\n	if err == bufio.ErrFinalToken {\n		err = nil\n	}\n	if err == bufio.ErrTooLong {\n		ret = nil\n	}\n	return ret, err')])
BAD['trimcap']=('C15',[(U17,'v17.ScanGraphemeClusters(data, atEOF)','v17.ScanGraphemeClusters(data[:len(data):len(data)], atEOF)')])
# C16
BAD['count17']=('C16',[(AV,'	return realImpl.TokenCount(buf, splitFunc)','	if splitFunc == nil {\n		splitFunc = realImpl.ScanGraphemeClusters\n	}\n	return realImpl.TokenCount(buf, splitFunc)')])
BAD['registry']=('C16',[("autoversion/textseg/all.go",None,'package textseg\n\nimport (\n	"bufio"\n	v15 "github.com/apparentlymart/go-textseg/v15/textseg"\n)\n\ntype version struct{ split bufio.SplitFunc }\n\nvar versions = map[int]version{15: {v15.ScanGraphemeClusters}}\n')])
# C20
BAD['readdir']=('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	fmt.Fprintln(&buf, "package charprops")\n	if es, err := os.ReadDir("ucd"); err == nil {\n		for _, e := range es {\n			fmt.Fprintf(&buf, "// %s\\n", e.Name())\n		}\n	}\n')])
BAD['glob']=('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	fmt.Fprintln(&buf, "package charprops")\n	if es, err := filepath.Glob("ucd/*.txt"); err == nil {\n		fmt.Fprintf(&buf, "// %d\\n", len(es))\n	}\n'),(GM,'	"os"\n','	"os"\n	"path/filepath"\n')])
BAD['numcpu']=('C20',[(GM,LB,LB.replace('i % 64','i % (16*runtime.GOMAXPROCS(0))')),(GM,'	"os"\n','	"os"\n	"runtime"\n')])
BAD['intsize']=('C20',[(GM,LB,LB.replace('i % 64','i % strconv.IntSize')),(GM,'	"os"\n','	"os"\n	"strconv"\n')])
BAD['uintptr']=('C20',[(GM,LB,LB.replace('i % 64','i % int(8*(1+^uint(0)>>63*7))'))])
BAD['ptrkeys']=('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	fmt.Fprintln(&buf, "package charprops")\n	fmt.Fprintf(&buf, "// %v\\n", &tree.Indices)\n	fmt.Fprintf(&buf, "// %v\\n", []*int{new(int)})\n')])
_=('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	fmt.Fprintln(&buf, "package charprops")\n	if _, err := os.Open("LICENSE"); err == nil {\n		fmt.Fprintln(&buf, "// licensed")\n	}\n')])
# C11
BAD['exit256']=('C11',[(GM,'	if err := f.Close(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)','	if err := f.Close(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(256)')])
BAD['backup']=('C11',[(GM,'	tree, err := gentable','	os.Rename("property_table_raw.go", "property_table_raw.go.bak")\n	tree, err := gentable')])
BAD['goexit']=('C11',[(GM,'	tree, err := gentable','	defer func() {\n		if r := recover(); r != nil {\n			fmt.Fprintln(os.Stderr, r)\n		}\n	}()\n	tree, err := gentable')])
BAD['flagged']=('C11',[(GM,'	src, err := format.Source(buf.Bytes())\n	if err != nil {','	src, err := format.Source(buf.Bytes())\n	if err != nil && len(src) == 0 && len(buf.Bytes()) < 10 {')])
BAD['permskip']=('C11',[(GT,'	emojiFile, err := os.Open(emojiPath)\n	if err != nil {','	emojiFile, err := os.Open(emojiPath)\n	if err != nil && !os.IsPermission(err) {')])
# C13
_=('C13',[(SC,'startInt, err := strconv.ParseUint(string(startHex), 16, 32)','startInt, err := strconv.ParseUint(string(startHex), 16, 64)')])

# word size
GB='nextC == charprops.GCBExtend || nextC == charprops.GCBZWJ'
GOOD['uintset64']=('C01',[(ST,GB,'uint(1)<<(nextC+24)&(uint(1)<<(charprops.GCBExtend+24)|uint(1)<<(charprops.GCBZWJ+24)) != 0'),(ST,'next.GCBProperty()\n\n','next.GCBProperty()\n\n')])
BAD['intsize']=BAD['intsize']
GOOD['incbset64']=('C01',[(ST,'prevI == charprops.InCBLinker || prevI == charprops.InCBExtend','incbSet>>prevI&1 != 0'),(ST,'func Begin(','var incbSet = uint(1)<<charprops.InCBLinker | uint(1)<<charprops.InCBExtend\n\nfunc Begin(')])
BAD['wordconst']=('C01',[(ST,GB,'nextC == charprops.GCBExtend || nextC == charprops.GCBZWJ && ^uint(0)>>32 != 0')])
BAD['intsizeconst']=('C01',[(GC,'		count += moreCount\n','		count += moreCount\n		if strconv.IntSize == 32 && count > 32 {\n			return count, data[:count], nil\n		}\n'),(GC,IMP,IMP+'	"strconv"\n\n')])
BAD['neg32']=('C04',[(GC,'		count += moreCount\n','		count += moreCount\n		if int(uint32(next)<<31) < 0 {\n			panic("negative")\n		}\n')])
GOOD['uintset']=('C01 C02 C17',[(ST,GB,'uint(1)<<nextC&(uint(1)<<charprops.GCBExtend|uint(1)<<charprops.GCBZWJ) != 0')])
GOOD['bitslen']=('C01 C08',[(PT,'	if first < 128 {','	if bits.LeadingZeros(uint(first)) > bits.UintSize-8 {'),(PT,'var zeroProperties','var zeroProperties')] if 0 else [(PT,'	if first < 128 {','	if bits.LeadingZeros(uint(first)) > bits.UintSize-8 {'),(PT,'package charprops\n','package charprops\n\nimport "math/bits"\n')])
BAD['bitslen']=('C01 C08',[(PT,'	if first < 128 {','	if bits.LeadingZeros(uint(first)) > 56 {'),(PT,'package charprops\n','package charprops\n\nimport "math/bits"\n')])

BAD['varshift']=('C01',[(ST,'prevI == charprops.InCBLinker || prevI == charprops.InCBExtend','incbSet>>prevI&1 != 0'),(ST,'func Begin(','func bit(p charprops.InCBProperty) uint { return 1 << p }\n\nvar incbSet = bit(charprops.InCBLinker) | bit(charprops.InCBExtend)\n\nfunc Begin(')])
