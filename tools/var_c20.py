GT="textseg/internal/charprops/gentable/generate.go"
GM="textseg/internal/charprops/generate.go"
TREE="textseg/internal/charprops/gentable/property_tree.go"
SRC='	for i, v := range ret.Indices {\n		if v == 0 {'
GOOD={
 'sortedkeys':('C20',[(GT,SRC,'	keys := make([]string, 0, len(propBlockIdxs))\n	for k := range propBlockIdxs {\n		keys = append(keys, k)\n	}\n	slices.Sort(keys)\n	for _, k := range keys {\n		if int(propBlockIdxs[k]) >= len(ret.Indices) {\n			panic(k)\n		}\n	}\n'+SRC)]),
 'mapskeys':('C20',[(GT,SRC,'	for _, k := range slices.Sorted(maps.Keys(propBlockIdxs)) {\n		if int(propBlockIdxs[k]) >= len(ret.Indices) {\n			panic(k)\n		}\n	}\n'+SRC),(GT,'	"io"\n','	"io"\n	"maps"\n')]),
 'timestderr':('C20',[(GM,'	tree, err :=','	start := time.Now()\n	tree, err :='),(GM,'	"os"\n','	"os"\n	"time"\n'),(GM,'	f, err := os.Create','	fmt.Fprintf(os.Stderr, "took %s\\n", time.Since(start))\n	f, err := os.Create')]),
 'mapclone':('C20',[(GT,SRC,'	total := 0\n	for _, v := range propBlockIdxs {\n		total += int(v)\n	}\n	if total < 0 {\n		panic("negative")\n	}\n'+SRC)]),
 'pathvar':('C20',[(GM,'	f, err := os.Create("property_table_raw.go")','	const outFile = "property_table_raw.go"\n	f, err := os.Create(outFile)'),(GM,'	tree, err := gentable.BuildRawPropertyTree("ucd")','	baseDir := "ucd"\n	tree, err := gentable.BuildRawPropertyTree(baseDir)')]),
 'writefile':('C20',[(GM,'''	f, err := os.Create("property_table_raw.go")
	if err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
	if _, err := f.Write(src); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''','''	if err := os.WriteFile("property_table_raw.go", src, 0644); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''')]),
 'readall':('C20',[(GT,'	gbpFile, err := os.Open(gbpPath)\n','	gbpData, err := os.ReadFile(gbpPath)\n'),(GT,'ucdparse.NewScanner(gbpFile)','ucdparse.NewScanner(bytes.NewReader(gbpData))'),(GT,'	"fmt"\n','	"bytes"\n	"fmt"\n')]),
 'inithelper':('C20',[(GM,'func main() {','func die(err error) {\n	fmt.Fprintf(os.Stderr, "%s: Error: %s\\n", os.Args[0], err)\n	os.Exit(1)\n}\n\nfunc main() {'),(GM,'''Tree("ucd")
	if err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}''','''Tree("ucd")
	if err != nil {
		die(err)
	}''')]),
}
BAD={
 'header-time':('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	fmt.Fprintf(&buf, "// at %s\\n", time.Now())\n	fmt.Fprintln(&buf, "package charprops")\n'),(GM,'	"os"\n','	"os"\n	"time"\n')]),
 'header-path':('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	wd, _ := filepath.Abs("ucd")\n	fmt.Fprintf(&buf, "// from %s\\n", wd)\n	fmt.Fprintln(&buf, "package charprops")\n'),(GM,'	"os"\n','	"os"\n	"path/filepath"\n')]),
 'header-goversion':('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	fmt.Fprintf(&buf, "// by %s\\n", runtime.Version())\n	fmt.Fprintln(&buf, "package charprops")\n'),(GM,'	"os"\n','	"os"\n	"runtime"\n')]),
 'header-goos':('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	if runtime.GOOS != "windows" {\n		fmt.Fprintln(&buf, "// unix")\n	}\n	fmt.Fprintln(&buf, "package charprops")\n'),(GM,'	"os"\n','	"os"\n	"runtime"\n')]),
 'env':('C20',[(GM,'BuildRawPropertyTree("ucd")','BuildRawPropertyTree(ucdDir())'),(GM,'func main() {','func ucdDir() string {\n	if d := os.Getenv("UCD"); d != "" {\n		return d\n	}\n	return "ucd"\n}\n\nfunc main() {')]),
 'args':('C20',[(GM,'BuildRawPropertyTree("ucd")','BuildRawPropertyTree(ucdDir())'),(GM,'func main() {','func ucdDir() string {\n	if len(os.Args) > 1 {\n		return os.Args[1]\n	}\n	return "ucd"\n}\n\nfunc main() {')]),
 'maporder':('C20',[(GT,'	ret = tip.Compact()','	tip.flush()\n	ret = tip.Compact()'),(GT,'type treeInProgress struct {','func (t *treeInProgress) flush() {\n	for r, v := range t.later {\n		t.BitwiseOr(r, v)\n	}\n}\n\ntype treeInProgress struct {\n	later map[rune]uint8\n'),(GT,'			tip.BitwiseOr(r, uint8(prop))','			tip.later[r] = uint8(prop)'),(GT,'	return &treeInProgress{\n','	return &treeInProgress{\n		later: map[rune]uint8{},\n')]),
 'parallel':('C20',[(GT,'	ret = tip.Compact()','	done := make(chan bool)\n	go func() { ret = tip.Compact(); done <- true }()\n	<-done')]),
 'oldtable':('C20',[(GT,'		prop := charprops.LookupGCBProperty(propName)','		prop := charprops.LookupGCBProperty(propName)\n		if prop == 0 {\n			old, _ := charprops.LookupFirstChar([]byte(string(entry.Start)))\n			prop = old.GCBProperty()\n		}')]),
 'unsorted-partial':('C20',[(GT,SRC,'	keys := make([]string, 0, len(propBlockIdxs))\n	for k := range propBlockIdxs {\n		keys = append(keys, k)\n	}\n	slices.SortFunc(keys, func(a, b string) int { return int(a[0]) - int(b[0]) })\n	for _, k := range keys {\n		ret.Properties = append(ret.Properties, k...)\n	}\n'+SRC)]),
 'modtime':('C20',[(GM,'	fmt.Fprintln(&buf, "package charprops")\n','	if st, err := os.Stat("ucd"); err == nil {\n		fmt.Fprintf(&buf, "// data of %s\\n", st.ModTime().Format("2006"))\n	}\n	fmt.Fprintln(&buf, "package charprops")\n')]),
}
R="textseg/internal/charprops/gentable/order_amd64.go"
BAD['platform-file']=('C20',[(R,None,'package gentable\n\nimport "os"\n\nvar base = os.TempDir()\n\nfunc init() { if base == "x" { zeroPropertyBlock[0] = 1 } }\n'),
 ("textseg/internal/charprops/gentable/order_other.go",None,'//go:build !amd64\n\npackage gentable\n')])
BAD['c01-arm64']=('C01 C08',[("textseg/internal/charprops/fix_arm64.go",None,'package charprops\n\nfunc fix(p CharProperties) CharProperties { return p &^ 0x10 }\n'),
 ("textseg/internal/charprops/fix_other.go",None,'//go:build !arm64\n\npackage charprops\n\nfunc fix(p CharProperties) CharProperties { return p }\n'),
 ("textseg/internal/charprops/property_table.go",'		return lookupProps[(blockIdx<<6)+int(p[2]&0b111111)], length','		return fix(lookupProps[(blockIdx<<6)+int(p[2]&0b111111)]), length')])
GOOD['c01-tagged']=('C01 C02 C08 C20',[("textseg/internal/charprops/fix_arm64.go",None,'package charprops\n\nfunc fix(p CharProperties) CharProperties { return p }\n'),
 ("textseg/internal/charprops/fix_other.go",None,'//go:build !arm64\n\npackage charprops\n\nfunc fix(p CharProperties) CharProperties { return p | 0 }\n'),
 ("textseg/internal/charprops/property_table.go",'		return lookupProps[(blockIdx<<6)+int(p[2]&0b111111)], length','		return fix(lookupProps[(blockIdx<<6)+int(p[2]&0b111111)]), length')])
TEMP='	fmt.Fprintln(&buf, "package charprops")\n'
BAD['temp-name']=('C20',[(GM,TEMP,TEMP+'	if tf, err := os.CreateTemp(".", "t*"); err == nil {\n		fmt.Fprintf(&buf, "// %s\\n", tf.Name())\n		tf.Close()\n		os.Remove(tf.Name())\n	}\n')])
BAD['temp-dir']=('C20',[(GM,TEMP,TEMP+'	if td, err := os.MkdirTemp("", "t*"); err == nil {\n		fmt.Fprintf(&buf, "// %s\\n", where(td))\n		os.Remove(td)\n	}\n'),(GM,'func main() {','func where(s string) string { return "in " + s }\n\nfunc main() {')])
BAD['path-helper']=('C20',[(GM,TEMP,TEMP+'	fmt.Fprintf(&buf, "// from %s\\n", source())\n'),(GM,'func main() {','func source() string { return filepath.Join("ucd", "data") }\n\nfunc main() {'),(GM,'	"fmt"\n','	"fmt"\n	"path/filepath"\n')])
GOOD['temp-dir']=('C20',[(GM,TEMP,TEMP+'	if td, err := os.MkdirTemp("", "t*"); err == nil {\n		fmt.Fprintf(os.Stderr, "using %s\\n", where(td))\n		os.Remove(where(td))\n	}\n'),(GM,'func main() {','func where(s string) string { return s + "/x" }\n\nfunc main() {')])
