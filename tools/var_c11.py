GT="textseg/internal/charprops/gentable/generate.go"
GM="textseg/internal/charprops/generate.go"
US="textseg/internal/charprops/ucdparse/ucd_scan.go"
import re
ERR='''	if err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
'''
OUT='''	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	if _, err := f.Write(src); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
'''
FMT='''	src, err := format.Source(buf.Bytes())
'''+ERR
IMP='	"os"\n'
def run_style(tail):
    def f(r):
        p=r+"/"+GM; s=open(p).read()
        s=s.replace('func main() {','func run() (err error) {').replace(ERR,'	if err != nil {\n		return err\n	}\n')
        s=s.replace('''err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''','''err != nil {
		return err
	}
''')
        i=s.rindex('}'); s=s[:i]+'	return nil\n}\n'+tail
        open(p,'w').write(s)
    return f
MAINRUN='\nfunc main() {\n	if err := run(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n}\n'
def sub(file,*pairs):
    def f(r):
        p=r+"/"+file; s=open(p).read()
        for a,b in pairs:
            assert a in s,(file,a)
            s=s.replace(a,b)
        open(p,'w').write(s)
    return f
LOOP1='''	for {
		entry, err := gpbSc.NextEntry()
		if err == io.EOF {
			break
		} else if err != nil {
			return ret, fmt.Errorf("reading GraphemeBreakProperty.txt: %w", err)
		}
		propName := entry.FirstField()
		prop := charprops.LookupGCBProperty(propName)
		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
	}
'''
LOOP2='''	for {
		entry, err := emojiSc.NextEntry()
		if err == io.EOF {
			break
		} else if err != nil {
			return ret, fmt.Errorf("reading emoji-data.txt: %w", err)
		}
		propName := entry.FirstField()
		prop := charprops.LookupEmojiProperty(propName)
		if prop == 0 {
			continue
		}
		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
	}
'''
LOOP3='''	for {
		entry, err := dcpSc.NextEntry()
		if err == io.EOF {
			break
		} else if err != nil {
			return ret, fmt.Errorf("reading DerivedCoreProperties.txt: %w", err)
		}
		fields := slices.Collect(entry.AllFields())
		if len(fields) < 2 || fields[0] != "InCB" {
			continue // irrelevant to our goals, then
		}
		propName := fields[1]
		prop := charprops.LookupInCBProperty(propName)
		for r := entry.Start; r < entry.End; r++ {
			tip.BitwiseOr(r, uint8(prop))
		}
	}
'''
OPENS='''	gbpFile, err := os.Open(gbpPath)
	if err != nil {
		return ret, err
	}
	emojiFile, err := os.Open(emojiPath)
	if err != nil {
		return ret, err
	}
	dcpFile, err := os.Open(dcpPath)
	if err != nil {
		return ret, err
	}
'''
DEFCLOSE='''
func writeFile(name string, src []byte) (err error) {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()
	_, err = f.Write(src)
	return err
}
'''
WF='''	if err := writeFile("property_table_raw.go", src); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
'''
def repl(old,new,extra=''): return [(GM,old,new)]+([(GM,None,extra)] if extra else [])
GOOD={
 'fatal':('C11',[sub(GM,(IMP,'	"log"\n'),('		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n','		log.Fatalf("Error: %s", err)\n')),sub(GM,('	f, err := os.Create','	f, err := createOut'),('func main()','func createOut(n string) (*os.File, error) { return os.Create(n) }\n\nfunc main()'),('	"log"\n','	"log"\n	"os"\n'))]),
 'run':('C11',[run_style(MAINRUN)]),
 'runcode':('C11',[run_style('\nfunc main() {\n	os.Exit(realMain())\n}\n\nfunc realMain() int {\n	if err := run(); err != nil {\n		fmt.Fprintln(os.Stderr, err)\n		return 2\n	}\n	return 0\n}\n')]),
 'writefile':('C11',[(GM,OUT,'''	if err := os.WriteFile("property_table_raw.go", src, 0644); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''')]),
 'deferclose':('C11',repl(OUT,WF,DEFCLOSE)),
 'join':('C11',repl(OUT,WF,'''
func writeFile(name string, src []byte) error {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	_, werr := f.Write(src)
	return errors.Join(werr, f.Close())
}
''')+[(GM,'	"bytes"\n','	"bytes"\n	"errors"\n')]),
 'joinlist':('C11',repl(OUT,WF,'''
func writeFile(name string, src []byte) error {
	var errs []error
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	if _, err := f.Write(src); err != nil {
		errs = append(errs, err)
	}
	if err := f.Close(); err != nil {
		errs = append(errs, fmt.Errorf("close: %w", err))
	}
	if len(errs) > 0 {
		return errors.Join(errs...)
	}
	return nil
}
''')+[(GM,'	"bytes"\n','	"bytes"\n	"errors"\n')]),
 'bufw':('C11',repl(OUT,'''	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	w := bufio.NewWriter(f)
	w.Write(src)
	if err := w.Flush(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''')+[(GM,'	"bytes"\n','	"bufio"\n	"bytes"\n')]),
 'temp':('C11',repl(OUT,OUT.replace('"property_table_raw.go"','"property_table_raw.go.tmp"')+'''	if err := os.Rename("property_table_raw.go.tmp", "property_table_raw.go"); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''')),
 'tempearly':('C11',[(GM,'	tree, err := gentable','	f, err := os.CreateTemp(".", "table*")\n'+ERR+'	tree, err := gentable'),(GM,'	f, err := os.Create("property_table_raw.go")\n'+ERR,''),(GM,'''	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''','''	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
	if err := os.Rename(f.Name(), "property_table_raw.go"); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''')]),
 'die':('C11',[sub(GM,('		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n','		die(err)\n')),(GM,None,'\nfunc die(err error) {\n	fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n	os.Exit(1)\n}\n')]),
 'check':('C11',[sub(GM,(ERR,'	check(err)\n'),),(GM,None,'\nfunc check(err error) {\n	if err == nil {\n		return\n	}\n	fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n	os.Exit(1)\n}\n')]),
 'must':('C11',[(GM,FMT,'	src := must(format.Source(buf.Bytes()))\n'),(GM,'	f, err := os.Create("property_table_raw.go")\n'+ERR,'	f := must(os.Create("property_table_raw.go"))\n'),(GM,None,'\nfunc must[T any](v T, err error) T {\n	if err != nil {\n		panic(err)\n	}\n	return v\n}\n')]),
 'errwriter':('C11',repl(OUT,'''	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	w := &errWriter{w: f}
	w.write(src)
	w.write([]byte{'\\n'})
	if w.err == nil {
		w.err = f.Close()
	}
	if w.err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", w.err)
		os.Exit(1)
	}
''','''
type errWriter struct {
	w   *os.File
	err error
}

func (w *errWriter) write(b []byte) {
	if w.err != nil {
		return
	}
	_, w.err = w.w.Write(b)
}
''')),
 'genhelper':('C11',repl(FMT,'''	src, err := format.Source(buf.Bytes())
'''+ERR)+[(GT,LOOP1,'''	if err := eachEntry(gpbSc, "GraphemeBreakProperty.txt", func(entry ucdparse.Entry) {
		prop := charprops.LookupGCBProperty(entry.FirstField())
		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
	}); err != nil {
		return ret, err
	}
'''),(GT,LOOP2,'''	if err := eachEntry(emojiSc, "emoji-data.txt", func(entry ucdparse.Entry) {
		prop := charprops.LookupEmojiProperty(entry.FirstField())
		if prop == 0 {
			return
		}
		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
	}); err != nil {
		return ret, err
	}
'''),(GT,None,'''
func eachEntry(sc ucdparse.Scanner, name string, f func(ucdparse.Entry)) error {
	for {
		entry, err := sc.NextEntry()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return fmt.Errorf("reading %s: %w", name, err)
		}
		f(entry)
	}
}
''')]),
 'table':('C11',[(GT,OPENS,''),(GT,'	gpbSc := ucdparse.NewScanner(gbpFile)\n	emojiSc := ucdparse.NewScanner(emojiFile)\n	dcpSc := ucdparse.NewScanner(dcpFile)\n',''),(GT,LOOP1,''),(GT,LOOP2,''),(GT,LOOP3,'''	for _, src := range []struct {
		path string
		add  func(ucdparse.Entry)
	}{
		{gbpPath, func(entry ucdparse.Entry) {
			for r := entry.Start; r < entry.End; r++ {
				tip.Set(r, uint8(charprops.LookupGCBProperty(entry.FirstField())))
			}
		}},
		{emojiPath, func(entry ucdparse.Entry) {
			prop := charprops.LookupEmojiProperty(entry.FirstField())
			if prop == 0 {
				return
			}
			for r := entry.Start; r < entry.End; r++ {
				tip.Set(r, uint8(prop))
			}
		}},
		{dcpPath, func(entry ucdparse.Entry) {
			fields := slices.Collect(entry.AllFields())
			if len(fields) < 2 || fields[0] != "InCB" {
				return // irrelevant to our goals, then
			}
			prop := charprops.LookupInCBProperty(fields[1])
			for r := entry.Start; r < entry.End; r++ {
				tip.BitwiseOr(r, uint8(prop))
			}
		}},
	} {
		if err := readFile(src.path, src.add); err != nil {
			return ret, err
		}
	}
'''),(GT,None,'''
func readFile(path string, add func(ucdparse.Entry)) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := ucdparse.NewScanner(f)
	for {
		entry, err := sc.NextEntry()
		switch {
		case errors.Is(err, io.EOF):
			return nil
		case err != nil:
			return fmt.Errorf("reading %s: %w", path, err)
		}
		add(entry)
	}
}
'''),(GT,'	"fmt"\n','	"errors"\n	"fmt"\n')]),
 'iter':('C11',[(GT,LOOP1,'''	var iterErr error
	for entry := range entries(gpbSc, &iterErr) {
		prop := charprops.LookupGCBProperty(entry.FirstField())
		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
	}
	if iterErr != nil {
		return ret, fmt.Errorf("reading GraphemeBreakProperty.txt: %w", iterErr)
	}
'''),(GT,None,'''
func entries(sc ucdparse.Scanner, errp *error) iter.Seq[ucdparse.Entry] {
	return func(yield func(ucdparse.Entry) bool) {
		for {
			entry, err := sc.NextEntry()
			if err != nil {
				if err != io.EOF {
					*errp = err
				}
				return
			}
			if !yield(entry) {
				return
			}
		}
	}
}
'''),(GT,'	"io"\n','	"io"\n	"iter"\n')]),
 'iter2':('C11',[(GT,LOOP1,'''	for entry, err := range entries(gpbSc) {
		if err != nil {
			return ret, fmt.Errorf("reading GraphemeBreakProperty.txt: %w", err)
		}
		prop := charprops.LookupGCBProperty(entry.FirstField())
		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
	}
'''),(GT,None,'''
func entries(sc ucdparse.Scanner) iter.Seq2[ucdparse.Entry, error] {
	return func(yield func(ucdparse.Entry, error) bool) {
		for {
			entry, err := sc.NextEntry()
			if err == io.EOF {
				return
			}
			if !yield(entry, err) || err != nil {
				return
			}
		}
	}
}
'''),(GT,'	"io"\n','	"io"\n	"iter"\n')]),
 'closedefer':('C11',[sub(GT,('	emojiFile, err :=','	defer gbpFile.Close()\n	emojiFile, err :='))]),
 'okflag':('C11',[(GM,OUT,'''	ok := true
	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	if _, err := f.Write(src); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		ok = false
	}
	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		ok = false
	}
	if !ok {
		os.Exit(1)
	}
''')]),
 'status':('C11',[(GM,OUT,'''	status := 0
	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	if _, err := f.Write(src); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		status = 1
	}
	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		status = 1
	}
	os.Exit(status)
''')]),
 'stdlibread':('C11',[(GT,'	gbpFile, err := os.Open(gbpPath)\n','	gbpData, err := os.ReadFile(gbpPath)\n'),(GT,'ucdparse.NewScanner(gbpFile)','ucdparse.NewScanner(bytes.NewReader(gbpData))'),(GT,'	"fmt"\n','	"bytes"\n	"fmt"\n')]),
 'sentinel':('C11',[(US,'			continue // Not a data line, then. We\'ll ignore it.\n','			continue\n'),(US,None,'\nvar ErrClosed = errors.New("scanner closed")\n'),(US,'	"bytes"\n','	"bytes"\n	"errors"\n')]),
 'goroutine':('C11',[(GM,'	tree, err := gentable.BuildRawPropertyTree("ucd")\n','	done := make(chan struct{})\n	var tree gentable.RawPropertyTree\n	var err error\n	go func() {\n		tree, err = gentable.BuildRawPropertyTree("ucd")\n		close(done)\n	}()\n	<-done\n')]),
 'verify':('C11',[(GM,OUT,OUT+'	back, err := os.ReadFile("property_table_raw.go")\n	if err != nil || !bytes.Equal(back, src) {\n		fmt.Fprintln(os.Stderr, "table not written")\n		os.Exit(1)\n	}\n')]) if False else ('C11',[(GM,'	var buf bytes.Buffer\n','	buf := new(bytes.Buffer)\n'),sub(GM,('&buf','buf'))]),
}
BAD={
 'ignorewrite':('C11',[(GM,'	if _, err := f.Write(src); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n','	f.Write(src)\n')]),
 'blankclose':('C11',[(GM,'	if err := f.Close(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n','	_ = f.Close()\n')]),
 'deferclose':('C11',[(GM,'	if err := f.Close(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n',''),(GM,'	if _, err := f.Write','	defer f.Close()\n	if _, err := f.Write')]),
 'noclose':('C11',[(GM,'	if err := f.Close(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n','')]),
 'noexit':('C11',[(GM,'''	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
''','''	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
''')]),
 'exit0':('C11',[(GM,FMT,FMT.replace('os.Exit(1)','os.Exit(0)'))]),
 'return':('C11',[(GM,FMT,FMT.replace('os.Exit(1)','return'))]),
 'fmtfallback':('C11',[(GM,FMT,'	src, err := format.Source(buf.Bytes())\n	if err != nil {\n		src = buf.Bytes()\n	}\n')]),
 'swallow':('C11',[(GT,'			return ret, fmt.Errorf("reading emoji-data.txt: %w", err)','			continue')]),
 'breakerr':('C11',[(GT,LOOP2,LOOP2.replace('''		if err == io.EOF {
			break
		} else if err != nil {
			return ret, fmt.Errorf("reading emoji-data.txt: %w", err)
		}
''','''		if err != nil {
			break
		}
'''))]),
 'swallowother':('C11',[(GT,'			return ret, fmt.Errorf("reading DerivedCoreProperties.txt: %w", err)','			if !strings.Contains(err.Error(), "range") {\n				return ret, err\n			}\n			continue'),(GT,'	"slices"\n','	"slices"\n	"strings"\n')]),
 'optional':('C11',[(GT,OPENS,OPENS.replace('''	dcpFile, err := os.Open(dcpPath)
	if err != nil {
''','''	dcpFile, err := os.Open(dcpPath)
	if err != nil && !os.IsNotExist(err) {
'''))]),
 'nilret':('C11',[(GT,'			return ret, fmt.Errorf("reading GraphemeBreakProperty.txt: %w", err)','			return tip.Compact(), nil')]),
 'scanerr':('C11',[(US,'			if err := sc.lineScan.Err(); err != nil {\n				return Entry{}, err\n			}\n','')]),
 'toolong':('C11',[(US,'				return Entry{}, err\n			}\n			return Entry{}, io.EOF','				if err != bufio.ErrTooLong {\n					return Entry{}, err\n				}\n			}\n			return Entry{}, io.EOF')]),
 'skipbad':('C11',[(US,'			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)','			continue')]),
 'noflush':('C11',repl(OUT,'''	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	w := bufio.NewWriter(f)
	w.Write(src)
	defer w.Flush()
	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''')+[(GM,'	"bytes"\n','	"bufio"\n	"bytes"\n')]),
 'noflush2':('C11',repl(OUT,'''	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	w := bufio.NewWriter(f)
	if _, err := w.Write(src); err != nil {
		os.Exit(1)
	}
	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''')+[(GM,'	"bytes"\n','	"bufio"\n	"bytes"\n')]),
 'createfirst':('C11',[(GM,'	tree, err := gentable','	f, err := os.Create("property_table_raw.go")\n'+ERR+'	tree, err := gentable'),(GM,'	f, err := os.Create("property_table_raw.go")\n'+ERR+'	if _','	if _')]),
 'recover':('C11',[(GM,'func main() {\n','func main() {\n	defer func() {\n		if r := recover(); r != nil {\n			fmt.Fprintln(os.Stderr, "Error:", r)\n		}\n	}()\n')]),
 'recoverset':('C11',[(GT,'func (t *treeInProgress) Set(r rune, v uint8) {\n','func (t *treeInProgress) Set(r rune, v uint8) {\n	defer func() { recover() }()\n')]),
 'runlost':('C11',[run_style('\nfunc main() {\n	if err := run(); err != nil {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n	}\n}\n')]),
 'shadow':('C11',[(GM,OUT,'''	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	defer func() {
		if err != nil {
			os.Exit(1)
		}
	}()
	if _, err := f.Write(src); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
	}
	err = f.Close()
''')]),
 'overwriteerr':('C11',[(GM,OUT,'''	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	_, err = f.Write(src)
	err = f.Close()
'''+ERR)]),
 'deferorder':('C11',repl(OUT,WF,DEFCLOSE.replace('func writeFile(name string, src []byte) (err error) {\n	f, err := os.Create(name)','func writeFile(name string, src []byte) error {\n	f, err := os.Create(name)'))),
 'wrapeof':('C11',[(US,'return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)','return Entry{}, fmt.Errorf("invalid start: %w", io.EOF)'),(GT,LOOP1,LOOP1.replace('err == io.EOF','errors.Is(err, io.EOF)')),(GT,'	"fmt"\n','	"errors"\n	"fmt"\n')]),
 'exitcount':('C11',[(GM,OUT,'''	failures := 0
	f, err := os.Create("property_table_raw.go")
'''+ERR+'''	if _, err := f.Write(src); err != nil {
		failures++
	}
	if err := f.Close(); err != nil {
		failures--
	}
	os.Exit(failures)
''')]),
 'goerr':('C11',[(GM,'	tree, err := gentable.BuildRawPropertyTree("ucd")\n','	done := make(chan struct{})\n	var tree gentable.RawPropertyTree\n	var err error\n	go func() {\n		tree, _ = gentable.BuildRawPropertyTree("ucd")\n		close(done)\n	}()\n	<-done\n')]),
 'iterlost':('C11',[(GT,LOOP1,'''	for entry, err := range entries(gpbSc) {
		if err != nil {
			break
		}
		prop := charprops.LookupGCBProperty(entry.FirstField())
		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
	}
'''),(GT,None,'''
func entries(sc ucdparse.Scanner) iter.Seq2[ucdparse.Entry, error] {
	return func(yield func(ucdparse.Entry, error) bool) {
		for {
			entry, err := sc.NextEntry()
			if err == io.EOF {
				return
			}
			if !yield(entry, err) || err != nil {
				return
			}
		}
	}
}
'''),(GT,'	"io"\n','	"io"\n	"iter"\n')]),
}
