"""Refactorings of the wrapper that keep its properties, and bugs."""
V="autoversion/textseg/version_agnostic.go"; A15="autoversion/textseg/unicode15.go"; A17="autoversion/textseg/unicode17.go"
P="C14 C15 C16 C19 C22"
GOOD,BAD={},{}
LOOP='''	for scanner.Scan() {
		ret = append(ret, bytes.Clone(scanner.Bytes()))
	}
	return ret, scanner.Err()
'''
def g(n,*e): GOOD[n]=(P,list(e))
def b(n,p,*e): BAD[n]=(p,list(e))
g("append-nil",(V,'bytes.Clone(scanner.Bytes())','append([]byte(nil), scanner.Bytes()...)'))
g("append-empty",(V,'bytes.Clone(scanner.Bytes())','append([]byte{}, scanner.Bytes()...)'))
g("text",(V,'bytes.Clone(scanner.Bytes())','[]byte(scanner.Text())'))
g("slices-clone",(V,'bytes.Clone(scanner.Bytes())','slices.Clone(scanner.Bytes())'),(V,'	"bytes"\n','	"bytes"\n	"slices"\n'))
g("make-copy",(V,LOOP,'''	for scanner.Scan() {
		token := scanner.Bytes()
		keep := make([]byte, len(token))
		copy(keep, token)
		ret = append(ret, keep)
	}
	return ret, scanner.Err()
'''))
g("helper-collect",(V,LOOP,'''	for scanner.Scan() {
		ret = append(ret, keep(scanner))
	}
	return ret, scanner.Err()
}

func keep(sc *bufio.Scanner) []byte {
	return bytes.Clone(sc.Bytes())
'''))
g("helper-clone",(V,LOOP,'''	for scanner.Scan() {
		ret = append(ret, duplicate(scanner.Bytes()))
	}
	return ret, scanner.Err()
}

func duplicate(b []byte) []byte {
	c := make([]byte, 0, len(b))
	return append(c, b...)
'''))
g("loop-break",(V,LOOP,'''	for {
		if !scanner.Scan() {
			break
		}
		ret = append(ret, bytes.Clone(scanner.Bytes()))
	}
	err := scanner.Err()
	return ret, err
'''))
g("loop-return",(V,LOOP,'''	for {
		if !scanner.Scan() {
			return ret, scanner.Err()
		}
		ret = append(ret, bytes.Clone(scanner.Bytes()))
	}
'''))
g("err-if",(V,LOOP,'''	for scanner.Scan() {
		ret = append(ret, bytes.Clone(scanner.Bytes()))
	}
	if err := scanner.Err(); err != nil {
		return ret, err
	}
	return ret, nil
'''))
g("named-results",(V,'splitFunc bufio.SplitFunc) ([][]byte, error) {','splitFunc bufio.SplitFunc) (tokens [][]byte, err error) {'),(V,'	var ret [][]byte\n',''),(V,LOOP,'''	for scanner.Scan() {
		tokens = append(tokens, bytes.Clone(scanner.Bytes()))
	}
	err = scanner.Err()
	return
'''))
g("scanner-helper",(V,'''	scanner := bufio.NewScanner(bytes.NewReader(buf))
	scanner.Split(splitFunc)
''','''	scanner := newScanner(buf, splitFunc)
'''),(V,None,'''
func newScanner(buf []byte, splitFunc bufio.SplitFunc) *bufio.Scanner {
	s := bufio.NewScanner(bytes.NewReader(buf))
	s.Split(splitFunc)
	return s
}
'''))
g("collect-func",(V,'	var ret [][]byte\n'+LOOP,'''	return collect(scanner)
}

func collect(sc *bufio.Scanner) ([][]byte, error) {
	var out [][]byte
	for sc.Scan() {
		out = append(out, bytes.Clone(sc.Bytes()))
	}
	return out, sc.Err()
'''))
g("callback",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	err := each(scanner, func(token []byte) {
		ret = append(ret, bytes.Clone(token))
	})
	return ret, err
}

func each(sc *bufio.Scanner, f func([]byte)) error {
	for sc.Scan() {
		f(sc.Bytes())
	}
	return sc.Err()
'''))
g("iterator",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	for token := range tokens(scanner) {
		ret = append(ret, bytes.Clone(token))
	}
	return ret, scanner.Err()
}

func tokens(sc *bufio.Scanner) func(func([]byte) bool) {
	return func(yield func([]byte) bool) {
		for sc.Scan() {
			if !yield(sc.Bytes()) {
				return
			}
		}
	}
'''))
g("value-scanner",(V,'''	scanner := bufio.NewScanner(bytes.NewReader(buf))
''','''	rd := bytes.NewReader(buf)
	scanner := bufio.NewScanner(rd)
'''))
g("bytes-buffer",(V,'bytes.NewReader(buf)','bytes.NewBuffer(buf)'))
g("noop",(V,'	var ret [][]byte\n','	_ = len(buf)\n	var ret [][]byte\n'),(A17,'	return v17.','	_ = atEOF\n	return v17.'))
g("fwd-vars",(A17,'	return v17.ScanGraphemeClusters(data, atEOF)','	advance, token, err := v17.ScanGraphemeClusters(data, atEOF)\n	return advance, token, err'))
g("fwd-named",(A15,'(int, []byte, error) {\n	return v15.ScanGraphemeClusters(data, atEOF)','(advance int, token []byte, err error) {\n	advance, token, err = v15.ScanGraphemeClusters(data, atEOF)\n	return'))
g("fwd-helper",(A17,None,'''
func scan(data []byte, atEOF bool) (int, []byte, error) {
	return v17.ScanGraphemeClusters(data, atEOF)
}
'''),(A17,'''	return v17.ScanGraphemeClusters(data, atEOF)
}

// UnicodeMajorVersion is''','''	return scan(data, atEOF)
}

// UnicodeMajorVersion is'''))
g("fwd-const-funcvar",(A17,'	return v17.ScanGraphemeClusters(data, atEOF)','	split := v17.ScanGraphemeClusters\n	return split(data, atEOF)'))
g("fwd-count",(V,'	return realImpl.TokenCount(buf, splitFunc)','	n, err := realImpl.TokenCount(buf, splitFunc)\n	if err != nil {\n		return n, err\n	}\n	return n, nil'))
g("import-alias",(A17,'	v17 "github','	impl "github'),(A17,'return v17.','return impl.'))
g("const-block",(A17,'const UnicodeMajorVersion = 17','const (\n	unicodeMajor        = 16 + 1\n	UnicodeMajorVersion = unicodeMajor\n)'))
def ren(a,b):
    import os
    return lambda r: os.rename(r+"/"+a,r+"/"+b)
g("rename-files",ren(A17,"autoversion/textseg/impl_v17.go"),ren(A15,"autoversion/textseg/impl_v15.go"),ren(V,"autoversion/textseg/helpers.go"))
g("no-plus-build",(A17,'// +build go1.27,!go1.28\n',''),(A15,'// +build go1.21,!go1.27\n',''))
g("constraint-form",(A17,'//go:build go1.27 && !go1.28\n// +build go1.27,!go1.28\n','//go:build !(go1.28 || !go1.27)\n'))
def split_const(r):
    import re
    for f,n in ((A15,15),(A17,17)):
        s=open(r+"/"+f).read(); i=s.index("// UnicodeMajorVersion is"); c=s[i:]; head=s[:s.index("package textseg")]
        open(r+"/"+f,"w").write(s[:i].rstrip()+"\n")
        open(r+"/autoversion/textseg/version%d.go"%n,"w").write(head+"package textseg\n\n"+c)
g("split-const",split_const)
g("split-agnostic",lambda r: (lambda s,i: (open(r+"/"+V,"w").write(s[:i].replace('	"bytes"\n','')), open(r+"/autoversion/textseg/all_tokens.go","w").write('package textseg\n\nimport (\n	"bufio"\n	"bytes"\n)\n\n'+s[i:])))(open(r+"/"+V).read(),open(r+"/"+V).read().index("// AllTokens")))
g("copy-buf-first",(V,'bytes.Clone(scanner.Bytes())','bytes.Join([][]byte{scanner.Bytes()}, nil)'))
g("arena",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	var arena []byte
	for scanner.Scan() {
		start := len(arena)
		arena = append(arena, scanner.Bytes()...)
		ret = append(ret, arena[start:len(arena):len(arena)])
	}
	return ret, scanner.Err()
'''))
# bugs
b("no-clone","C19",(V,'bytes.Clone(scanner.Bytes())','scanner.Bytes()'))
b("clip","C19",(V,'bytes.Clone(scanner.Bytes())','bytes.TrimSpace(scanner.Bytes())'))
b("arena-reuse","C19",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	arena := make([]byte, 0, 4096)
	for scanner.Scan() {
		token := scanner.Bytes()
		if len(arena)+len(token) > cap(arena) {
			arena = arena[:0]
		}
		start := len(arena)
		arena = append(arena, token...)
		ret = append(ret, arena[start:])
	}
	return ret, scanner.Err()
'''))
b("drop-err","C15",(V,'return ret, scanner.Err()','return ret, nil'))
b("skip-empty","C15",(V,LOOP,'''	for scanner.Scan() {
		if len(scanner.Bytes()) == 0 {
			continue
		}
		ret = append(ret, bytes.Clone(scanner.Bytes()))
	}
	return ret, scanner.Err()
'''))
b("nil-on-err","C15",(V,LOOP,'''	for scanner.Scan() {
		ret = append(ret, bytes.Clone(scanner.Bytes()))
	}
	if err := scanner.Err(); err != nil {
		return nil, err
	}
	return ret, nil
'''))
b("bigger-buffer","C15",(V,'	scanner.Split(splitFunc)\n','	scanner.Split(splitFunc)\n	scanner.Buffer(nil, len(buf)+1)\n'))
b("cap-tokens","C15",(V,'	for scanner.Scan() {\n','	for len(ret) < 1<<20 && scanner.Scan() {\n'))
b("scratch","C19",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	scratch := make([]byte, 0, 4096)
	for scanner.Scan() {
		ret = append(ret, append(scratch, scanner.Bytes()...))
	}
	return ret, scanner.Err()
'''))
b("scratch-array","C19",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	var store [4096]byte
	for scanner.Scan() {
		ret = append(ret, append(store[:0], scanner.Bytes()...))
	}
	return ret, scanner.Err()
'''))
b("arena-from-old","C19",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	var arena, base []byte
	for scanner.Scan() {
		start := len(base)
		arena = append(base, scanner.Bytes()...)
		if base == nil {
			base = arena
		}
		ret = append(ret, arena[start:])
	}
	return ret, scanner.Err()
'''))
g("arena-make",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	arena := make([]byte, 0, len(buf))
	for scanner.Scan() {
		token := scanner.Bytes()
		start := len(arena)
		arena = append(arena, token...)
		ret = append(ret, arena[start : start+len(token) : start+len(token)])
	}
	return ret, scanner.Err()
'''))
g("fresh-make",(V,'	var ret [][]byte\n'+LOOP,'''	var ret [][]byte
	for scanner.Scan() {
		token := scanner.Bytes()
		own := append(make([]byte, 0, len(token)), token...)
		ret = append(ret, own)
	}
	return ret, scanner.Err()
'''))
