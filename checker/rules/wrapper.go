package rules

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/mod/modfile"
	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/dd"
	"verif/checker/load"
)

const (
	wrapperRel = "autoversion/textseg"
	scanName   = "ScanGraphemeClusters"
	majorName  = "UnicodeMajorVersion"
	// newestKnown is the newest Go release whose Unicode version is known.
	newestKnown = 27
)

// unicodeMajor is the Unicode major version of Go 1.N's standard library.
var unicodeMajor = map[int]int{0: 6, 1: 6, 2: 6, 3: 6, 4: 7, 5: 8, 6: 8, 7: 9, 8: 9, 9: 9, 10: 10, 11: 10, 12: 10, 13: 11, 14: 12, 15: 12,
	16: 13, 17: 13, 18: 13, 19: 13, 20: 13, 21: 15, 22: 15, 23: 15, 24: 15, 25: 15, 26: 15, 27: 17}

func init() {
	register("C14", "Evaluation of every source file's build constraints (go/build's own matcher over the files' current content) for all Go releases from 1.1 to beyond the newest known one, all GOOS/GOARCH pairs, cgo on and off, both compilers, and every combination of the custom tags that the constraints mention; then type-checking of each distinct selection: the selected implementation must be unique, reach only the project module of the Unicode major version that the release's own unicode package has, and advertise that version.", checkSelection)
	register("C15", "Abstract interpretation of every exported wrapper function under each supported Go release: each outcome must return exactly the results of one call of the wrapped function of the same name with unchanged arguments. For the collecting helper, a typestate exploration of all paths of the scanner-driving loop instead.", checkForwarding)
	register("C16", "Symbol analysis of linked programs: for each supported Go release, programs that use the wrapper are built from the current sources, never run, and the linker's symbol table is inspected for code or data of another version.", checkLinked)
	register("C19", "Typestate and aliasing exploration of all paths of the collecting helper (with helpers and closures inlined): every element put into the result must be a copy made after the token was recognised, which nothing writes afterwards.", checkCollected)
	for _, p := range []string{"C14", "C15", "C16", "C19"} {
		Registry[p].Wrapper = true
	}
}

// variant is a way of building the wrapper package.
type variant struct {
	Minor        int
	GOOS, GOARCH string
	Cgo          bool
	Compiler     string
	Tags         []string
	Files        []string // base names selected
	N            int      // number of configurations that select these files
}

func (v variant) String() string {
	s := fmt.Sprintf("Go 1.%d", v.Minor)
	if v.GOOS != runtime.GOOS || v.GOARCH != runtime.GOARCH {
		s += " " + v.GOOS + "/" + v.GOARCH
	}
	if v.Compiler != "gc" {
		s += " " + v.Compiler
	}
	if v.Cgo {
		s += " cgo"
	}
	if len(v.Tags) > 0 {
		s += " -tags " + strings.Join(v.Tags, ",")
	}
	return s
}

func (v variant) key() string { return strings.Join(v.Files, " ") }

type selection struct {
	dir      string
	known    []variant // supported releases
	old      []variant // before the module's minimum
	future   []variant
	configs  int
	releases []int
	tags     []string
	parsed   map[string]*ast.File
	fset     *token.FileSet
}

var platformTags = map[string]bool{"unix": true, "cgo": true, "gc": true, "gccgo": true, "ignore": true}

// platforms lists the GOOS/GOARCH pairs of the newest installed release.
func (c *Ctx) platforms() [][2]string {
	var out [][2]string
	ts := allToolchains()
	if len(ts) == 0 {
		fatalf("load", "no Go release found")
	}
	t := ts[len(ts)-1]
	so, _, err := c.runGo(c.Tmp, append(t.env(), "GOWORK=off"), "tool", "dist", "list")
	if err == nil {
		for _, l := range strings.Fields(so) {
			if a, b, ok := strings.Cut(l, "/"); ok {
				out = append(out, [2]string{a, b})
			}
		}
	}
	if len(out) < 10 {
		fatalf("load", "cannot list the supported platforms: %v", err)
	}
	return out
}

var sel *selection

// selections evaluates the build constraints of the wrapper package.
func (c *Ctx) selections() *selection {
	if sel != nil {
		return sel
	}
	dir := filepath.Join(c.Repo, wrapperRel)
	s := &selection{dir: dir, parsed: map[string]*ast.File{}, fset: token.NewFileSet()}
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatalf("anchor", "the wrapper package was not found: %v", err)
	}
	content := map[string][]byte{}
	var names []string
	for _, en := range ents {
		if en.IsDir() || !strings.HasSuffix(en.Name(), ".go") || strings.HasSuffix(en.Name(), "_test.go") {
			continue
		}
		data, err := os.ReadFile(filepath.Join(dir, en.Name()))
		if err != nil {
			fatalf("load", "%v", err)
		}
		f, err := parser.ParseFile(s.fset, filepath.Join(dir, en.Name()), data, parser.ParseComments)
		if err != nil {
			fatalf("load", "%v", err)
		}
		content[en.Name()] = data
		s.parsed[en.Name()] = f
		names = append(names, en.Name())
	}
	plats := c.platforms()
	known := map[string]bool{}
	for _, p := range plats {
		known[p[0]], known[p[1]] = true, true
	}
	custom := map[string]bool{}
	for _, f := range s.parsed {
		for _, cg := range f.Comments {
			for _, cm := range cg.List {
				if !constraint.IsGoBuild(cm.Text) && !constraint.IsPlusBuild(cm.Text) {
					continue
				}
				x, err := constraint.Parse(cm.Text)
				if err != nil {
					continue
				}
				var walk func(x constraint.Expr)
				walk = func(x constraint.Expr) {
					switch x := x.(type) {
					case *constraint.AndExpr:
						walk(x.X)
						walk(x.Y)
					case *constraint.OrExpr:
						walk(x.X)
						walk(x.Y)
					case *constraint.NotExpr:
						walk(x.X)
					case *constraint.TagExpr:
						if !known[x.Tag] && !platformTags[x.Tag] && !releaseRE.MatchString(x.Tag) {
							custom[x.Tag] = true
						}
					}
				}
				walk(x)
			}
		}
	}
	s.tags = sortedKeys(custom)
	if len(s.tags) > 6 {
		fatalf("undecided", "the wrapper's build constraints mention too many custom tags: %v", s.tags)
	}
	var tagSets [][]string
	for m := 0; m < 1<<len(s.tags); m++ {
		var ts []string
		for i, t := range s.tags {
			if m>>i&1 == 1 {
				ts = append(ts, t)
			}
		}
		tagSets = append(tagSets, ts)
	}
	min := c.wrapperMin()
	var minors []int
	for n := 1; n <= newestKnown+20; n++ {
		minors = append(minors, n)
	}
	minors = append(minors, 99, 100, 1000)
	s.releases = minors
	// The host platform comes first, so that it represents its selection.
	sort.SliceStable(plats, func(i, j int) bool {
		h := func(p [2]string) bool { return p[0] == runtime.GOOS && p[1] == runtime.GOARCH }
		return h(plats[i]) && !h(plats[j])
	})
	for _, n := range minors {
		var rel []string
		for i := 1; i <= n; i++ {
			rel = append(rel, "go1."+strconv.Itoa(i))
		}
		seen := map[string]*variant{}
		var order []string
		for _, p := range plats {
			for _, comp := range []string{"gc", "gccgo"} {
				for _, cgo := range []bool{false, true} {
					for _, ts := range tagSets {
						ctxt := &build.Context{GOARCH: p[1], GOOS: p[0], GOROOT: build.Default.GOROOT, GOPATH: "", CgoEnabled: cgo, Compiler: comp, BuildTags: ts, ReleaseTags: rel,
							OpenFile: func(path string) (io.ReadCloser, error) {
								return io.NopCloser(bytes.NewReader(content[filepath.Base(path)])), nil
							}}
						var files []string
						for _, nm := range names {
							ok, err := ctxt.MatchFile(dir, nm)
							if err != nil {
								fatalf("load", "%s: %v", nm, err)
							}
							if ok {
								files = append(files, nm)
							}
						}
						s.configs++
						v := variant{Minor: n, GOOS: p[0], GOARCH: p[1], Cgo: cgo, Compiler: comp, Tags: ts, Files: files, N: 1}
						if o := seen[v.key()]; o != nil {
							o.N++
							continue
						}
						seen[v.key()] = &v
						order = append(order, v.key())
					}
				}
			}
		}
		for _, k := range order {
			v := *seen[k]
			switch {
			case n > newestKnown:
				s.future = append(s.future, v)
			case n < min:
				s.old = append(s.old, v)
			default:
				s.known = append(s.known, v)
			}
		}
	}
	sel = s
	return s
}

// declares lists the files among names that declare a package-level name.
func (s *selection) declares(files []string, name string) []string {
	var out []string
	for _, fn := range files {
		for _, d := range s.parsed[fn].Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == name {
					out = append(out, fn)
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.ValueSpec:
						for _, id := range sp.Names {
							if id.Name == name {
								out = append(out, fn)
							}
						}
					case *ast.TypeSpec:
						if sp.Name.Name == name {
							out = append(out, fn)
						}
					}
				}
			}
		}
	}
	return out
}

var variantProgs = map[string]*load.Program{}

// toolchainFor returns the installed release for a variant, or the newest
// suitable one if there is none.
func (c *Ctx) toolchainFor(v variant) (Toolchain, bool) {
	ts := allToolchains()
	for _, t := range ts {
		if t.Minor == v.Minor {
			return t, true
		}
	}
	return ts[len(ts)-1], false
}

// Variant loads the wrapper as a variant builds it.
func (c *Ctx) Variant(v variant) *load.Program {
	t, _ := c.toolchainFor(v)
	k := v.String()
	if p := variantProgs[k]; p != nil {
		return p
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(t.Root, "bin")+":"+old)
	defer os.Setenv("PATH", old)
	env := append(c.variantEnv(v, t), "GOROOT="+t.Root)
	p, err := load.Load(load.Config{Dir: filepath.Join(c.Repo, "autoversion"), Patterns: []string{"./..."}, Env: env})
	if err != nil {
		fatalf("does-not-build", "the wrapper module does not type-check under %s: %v", v, err)
	}
	variantProgs[k] = p
	return p
}

func (c *Ctx) variantEnv(v variant, t Toolchain) []string {
	env := append(t.env(), "GOWORK="+c.Workspace(), "GOOS="+v.GOOS, "GOARCH="+v.GOARCH)
	if len(v.Tags) > 0 {
		env = append(env, "GOFLAGS=-tags="+strings.Join(v.Tags, ","))
	}
	return env
}

// loadable returns the variants of supported releases that can be loaded here:
// those of installed releases, and for other releases those whose selection no
// installed release has.
func (c *Ctx) loadable() []variant {
	s := c.selections()
	have := map[string]bool{}
	var out []variant
	for _, v := range s.known {
		if _, ok := c.toolchainFor(v); ok {
			have[v.key()] = true
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		fatalf("load", "no installed Go release can build the wrapper module")
	}
	return out
}

var moduleMajorRE = regexp.MustCompile(`/v(\d+)(/|$)`)

// versionOf returns the Unicode major version of a package of this project, or
// 0 if it is not specific to one.
func (c *Ctx) versionOf(path string) int {
	m := c.ModulePath()
	base := m[:strings.LastIndex(m, "/")]
	rest, ok := strings.CutPrefix(path, base)
	if !ok {
		return 0
	}
	if x := moduleMajorRE.FindStringSubmatch(rest); x != nil {
		n, _ := strconv.Atoi(x[1])
		return n
	}
	return 0
}

func (c *Ctx) wrapperPkgPath() string {
	return c.modPath(filepath.Join(c.Repo, "autoversion")) + "/textseg"
}

// scanRoots are the functions that ScanGraphemeClusters stands for.
func scanRoots(sp *ssa.Package) []*ssa.Function {
	switch m := sp.Members[scanName].(type) {
	case *ssa.Function:
		return []*ssa.Function{m}
	case *ssa.Global:
		var out []*ssa.Function
		for _, mem := range sp.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && st.Addr == m {
						v := st.Val
						for {
							if ct, ok := v.(*ssa.ChangeType); ok {
								v = ct.X
								continue
							}
							break
						}
						if f, ok := v.(*ssa.Function); ok {
							out = append(out, f)
						}
					}
				}
			}
		}
		return out
	}
	return nil
}

func checkSelection(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"Every configuration of a supported release selects exactly one declaration of ScanGraphemeClusters and one of the version constant.",
		"The code reachable from it lies in project modules of exactly one version, equal to the major version of the release's unicode.Version and to the constant.",
		"No configuration of an unknown release selects an implementation; an older release gets none or a matching one.",
		"The module file does not redirect one version's module to another.")
	s := c.selections()
	r.Ob(s.configs)
	r.Note("configurations", s.configs)
	r.Note("releases", fmt.Sprintf("go1.1 to go1.%d, and 1.99, 1.100, 1.1000", newestKnown+20))
	r.Note("custom_tags", append([]string{}, s.tags...))
	if len(s.known) == 0 {
		r.Fail("no-release", "go.mod", "autoversion/go.mod", "the module's minimum Go release leaves no supported release up to 1.%d", newestKnown)
	}
	where := func(files []string) string {
		var w []string
		for _, f := range files {
			w = append(w, wrapperRel+"/"+f)
		}
		return strings.Join(w, ", ")
	}
	for _, v := range s.future {
		if d := s.declares(v.Files, scanName); len(d) > 0 {
			r.Fail("unknown-release", strings.Join(d, ","), where(d), "under %s, which this version of the package cannot know, %s is provided", v, scanName)
		}
	}
	want := func(n int) int {
		for _, t := range allToolchains() {
			if t.Minor == n {
				a, _, _ := strings.Cut(t.Unicode, ".")
				m, _ := strconv.Atoi(a)
				return m
			}
		}
		return unicodeMajor[n]
	}
	check := func(v variant, must bool) {
		d := s.declares(v.Files, scanName)
		if len(d) == 0 {
			if must {
				r.Fail("none-selected", v.key(), wrapperRel, "under %s no file declares %s", v, scanName)
			}
			return
		}
		if len(d) > 1 {
			if must {
				r.Fail("several-selected", strings.Join(d, ","), where(d), "under %s, %s is declared more than once", v, scanName)
			}
			return
		}
		major := want(v.Minor)
		t, same := c.toolchainFor(v)
		var p *load.Program
		var consts map[string]constant.Value
		var prob string
		if v.Compiler != "gc" && same {
			// Only the selection can be told apart for other compilers.
			for _, o := range s.known {
				if o.Compiler == "gc" && o.Minor == v.Minor && o.key() == v.key() {
					return
				}
			}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if b, ok := e.(broken); ok {
						prob = b.f.What
						return
					}
					panic(e)
				}
			}()
			if same && v.Compiler == "gc" {
				p = c.Variant(v)
			} else {
				p = c.loadFiles(v, t)
			}
		}()
		if prob != "" {
			if must {
				r.Fail("does-not-build", v.key(), where(d), "%s", prob)
			}
			return
		}
		r.Ob(1)
		r.Count("selections_type_checked", 1)
		sp := p.SSA[c.wrapperPkgPath()]
		if sp == nil && len(p.Roots) == 1 {
			sp = p.Roots[0]
		}
		if sp == nil {
			r.Fail("anchor", "package", wrapperRel, "the wrapper package was not loaded under %s", v)
			return
		}
		sp.Build()
		consts = map[string]constant.Value{}
		for _, nm := range sp.Pkg.Scope().Names() {
			if k, ok := sp.Pkg.Scope().Lookup(nm).(*types.Const); ok {
				consts[nm] = k.Val()
			}
		}
		k, ok := consts[majorName]
		if !ok {
			r.Fail("no-constant", v.key(), where(d), "under %s the package has no constant %s", v, majorName)
		} else if k.Kind() != constant.Int {
			r.Fail("wrong-constant", majorName, where(d), "%s is %s", majorName, k)
		} else if n, _ := constant.Int64Val(k); n != int64(major) {
			r.Fail("wrong-constant", majorName+"|"+v.key(), where(s.declares(v.Files, majorName)), "under %s, %s is %d, but the standard library has Unicode %d", v, majorName, n, major)
		} else if !literalConst(p, sp.Pkg, majorName) {
			r.Ob(1)
			if k, err := c.constOn32(v, t, majorName); err != "" {
				if must {
					r.Fail("does-not-build", v.key()+"|32", where(d), "on a platform with 32-bit words: %s", err)
				}
			} else if n, _ := constant.Int64Val(k); n != int64(major) {
				r.Fail("wrong-constant", majorName+"|"+v.key(), where(s.declares(v.Files, majorName)), "under %s on a platform with 32-bit words, %s is %s, but the standard library has Unicode %d", v, majorName, k, major)
			}
		}
		roots := scanRoots(sp)
		if len(roots) == 0 {
			r.Fail("undecided", scanName, where(d), "what %s calls cannot be told", scanName)
			return
		}
		e := c.Effects(p, roots)
		found := map[int]*ssa.Function{}
		for fn := range e.Live {
			if n := c.versionOf(fnPkgPath(fn)); n != 0 && (found[n] == nil || fn.String() < found[n].String()) {
				found[n] = fn
			}
		}
		r.Count("functions_reached", len(e.Live))
		for n, fn := range found {
			if n != major {
				r.Fail("wrong-version", fmt.Sprintf("%s|v%d", v.key(), n), where(d), "under %s, whose standard library has Unicode %d, %s reaches %s (%s)", v, major, scanName, fn, e.path(fn))
			}
		}
		if found[major] == nil {
			r.Fail("wrong-version", fmt.Sprintf("%s|none", v.key()), where(d), "under %s, %s does not reach the Unicode %d implementation", v, scanName, major)
		}
	}
	done := map[string]bool{}
	for _, v := range s.known {
		check(v, true)
	}
	for _, v := range s.old {
		k := fmt.Sprint(v.key(), want(v.Minor))
		if !done[k] {
			done[k] = true
			check(v, false)
		}
	}
	c.checkReplace(r)
	r.Assume = append(r.Assume, "The Unicode versions of Go releases that are not installed here are pinned in the checker; those of installed ones are read from their unicode package. The published modules contain what their names say.")
}

// literalConst reports whether a constant is declared by a literal.
func literalConst(p *load.Program, pkg *types.Package, name string) bool {
	obj := pkg.Scope().Lookup(name)
	q := p.All[pkg.Path()]
	if q == nil {
		return false
	}
	for _, f := range q.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, id := range vs.Names {
					if q.TypesInfo.Defs[id] == obj && i < len(vs.Values) {
						_, lit := vs.Values[i].(*ast.BasicLit)
						return lit
					}
				}
			}
		}
	}
	return false
}

// constOn32 is the value of a constant of a selection on a 32-bit platform.
func (c *Ctx) constOn32(v variant, t Toolchain, name string) (constant.Value, string) {
	old := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(t.Root, "bin")+":"+old)
	defer os.Setenv("PATH", old)
	p, err := load.Load(load.Config{Dir: filepath.Join(c.Repo, wrapperRel), Patterns: v.Files, Env: []string{"GOROOT=" + t.Root, "GOWORK=" + c.Workspace(), "GOOS=linux", "GOARCH=386"}})
	if err != nil {
		return nil, err.Error()
	}
	for _, q := range p.Pkgs {
		if k, ok := q.Types.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.Int {
			return k.Val(), ""
		}
	}
	return nil, "no constant " + name
}

// loadFiles loads a selection by naming its files, whatever their constraints.
func (c *Ctx) loadFiles(v variant, t Toolchain) *load.Program {
	k := "files " + v.key()
	if p := variantProgs[k]; p != nil {
		return p
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(t.Root, "bin")+":"+old)
	defer os.Setenv("PATH", old)
	var pats []string
	pats = append(pats, v.Files...)
	p, err := load.Load(load.Config{Dir: filepath.Join(c.Repo, wrapperRel), Patterns: pats, Env: []string{"GOROOT=" + t.Root, "GOWORK=" + c.Workspace()}})
	if err != nil {
		fatalf("does-not-build", "the files %s, selected under %s, do not type-check: %v", v.key(), v, err)
	}
	variantProgs[k] = p
	return p
}

// checkReplace looks at the wrapper's module file.
func (c *Ctx) checkReplace(r *Report) {
	data, err := os.ReadFile(filepath.Join(c.Repo, "autoversion", "go.mod"))
	if err != nil {
		fatalf("load", "%v", err)
	}
	f, err := modfile.Parse("autoversion/go.mod", data, nil)
	if err != nil {
		fatalf("load", "%v", err)
	}
	r.Ob(1)
	for _, rp := range f.Replace {
		n := c.versionOf(rp.Old.Path)
		if n == 0 {
			continue
		}
		m := c.versionOf(rp.New.Path)
		if strings.HasPrefix(rp.New.Path, ".") || strings.HasPrefix(rp.New.Path, "/") {
			dir := rp.New.Path
			if !filepath.IsAbs(dir) {
				dir = filepath.Join(c.Repo, "autoversion", dir)
			}
			m = c.versionOf(c.modPath(dir))
		}
		if m != n {
			r.Fail("redirected", rp.Old.Path, "autoversion/go.mod", "%s is replaced by %s", rp.Old.Path, rp.New.Path)
		}
	}
	for _, rq := range f.Require {
		r.Ob(1)
		if n := c.versionOf(rq.Mod.Path); n != 0 {
			a, _, _ := strings.Cut(strings.TrimPrefix(rq.Mod.Version, "v"), ".")
			if a != strconv.Itoa(n) {
				r.Fail("redirected", rq.Mod.Path, "autoversion/go.mod", "%s is required in version %s", rq.Mod.Path, rq.Mod.Version)
			}
		}
	}
}

// --- C15 ---

type fwdCall struct {
	fn   *ssa.Function
	site ssa.CallInstruction
	args []absint.Val
	res  []absint.Val
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func checkForwarding(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"On every path, an exported wrapper function returns exactly the results of a call of the function of the same name in a versioned module, made with its own arguments.",
		"The selected version's function is used if that version has one of that name.",
		"The collecting helper drives one standard scanner over its buffer with the given split function, unchanged, and returns every token in order and the scanner's error.")
	for _, v := range c.loadable() {
		p := c.Variant(v)
		sp := p.SSA[c.wrapperPkgPath()]
		if sp == nil {
			fatalf("anchor", "the wrapper package was not found")
		}
		sp.Build()
		fns := exportedFuncs(p.Prog, sp)
		sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
		major := c.advertised(sp)
		for _, fn := range fns {
			r.Ob(1)
			r.Count("functions", 1)
			var d *drive
			if isCollector(fn) {
				d = c.drive(p, fn)
				r.Count("paths_explored", d.states)
				r.Ob(d.obligations)
				if len(d.protocol) == 0 {
					continue
				}
			}
			prob := c.forwards(r, p, fn, major, v)
			if prob == "" {
				continue
			}
			if d != nil {
				for _, f := range d.protocol {
					f.What = fmt.Sprintf("%s (%s)", f.What, v)
					r.Add(f)
				}
				continue
			}
			r.Fail("forwarding", fn.Name(), c.rel(p.Prog.Fset.Position(fn.Pos()).String()), "under %s: %s", v, prob)
		}
		for _, m := range sortedMembers(sp) {
			g, ok := m.(*ssa.Global)
			if !ok || !token.IsExported(g.Name()) {
				continue
			}
			if isFuncType(g.Type().Underlying().(*types.Pointer).Elem()) {
				r.Ob(1)
				for _, fn := range varFuncs(sp, g) {
					if fn == nil || fn.Name() != g.Name() || c.versionOf(fnPkgPath(fn)) == 0 {
						r.Fail("forwarding", g.Name(), c.rel(p.Prog.Fset.Position(g.Pos()).String()), "under %s the variable %s does not stand for the wrapped function of that name", v, g.Name())
					}
				}
			}
		}
	}
	r.Assume = append(r.Assume, "Results of the wrapped functions are taken as opaque; what they compute is the subject of other properties.")
}

// varFuncs are the functions stored in a package variable (nil: unknown).
func varFuncs(sp *ssa.Package, g *ssa.Global) []*ssa.Function {
	var out []*ssa.Function
	for _, mem := range sp.Members {
		fn, ok := mem.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
					v := st.Val
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
					}
					f, _ := v.(*ssa.Function)
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (c *Ctx) advertised(sp *ssa.Package) int {
	if k, ok := sp.Pkg.Scope().Lookup(majorName).(*types.Const); ok && k.Val().Kind() == constant.Int {
		n, _ := constant.Int64Val(k.Val())
		return int(n)
	}
	return 0
}

// forwards decides whether fn only forwards, and says why not.
func (c *Ctx) forwards(r *Report, p *load.Program, fn *ssa.Function, major int, v variant) string {
	if fn.Signature.Recv() != nil {
		return "a method of an exported type is not a forwarder"
	}
	eff := c.Effects(p, []*ssa.Function{fn})
	in := c.newInterp(p, func(g *ssa.Global) bool { return eff.mutable(g) })
	m := in.M
	var calls []*fwdCall
	memo := map[string]*fwdCall{}
	inline := in.Inline
	in.Inline = func(f *ssa.Function) bool {
		path := fnPkgPath(f)
		return inline(f) && (path == "" || c.own(path)) && c.versionOf(path) == 0
	}
	in.Extern = func(st *absint.State, call ssa.CallInstruction, f *ssa.Function, args []absint.Val) (absint.Val, bool) {
		if f == nil || c.versionOf(fnPkgPath(f)) == 0 {
			return nil, false
		}
		key := fmt.Sprint(f.String(), args)
		fc := memo[key]
		if fc == nil {
			fc = &fwdCall{fn: f, site: call, args: args}
			memo[key] = fc
			calls = append(calls, fc)
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				o := m.Term(absint.Opaque{Tag: fmt.Sprintf("result %d of call %d of %s", i, len(calls), f)})
				switch t.Underlying().(type) {
				case *types.Interface, *types.Slice, *types.Pointer, *types.Map, *types.Signature, *types.Chan:
					o = m.Term(absint.Opaque{Tag: fmt.Sprintf("result %d of call %d of %s", i, len(calls), f), NonNil: true})
					fc.res = append(fc.res, m.ITE(in.FreshBool(), m.Term(absint.NilT{}), o))
				case *types.Basic:
					if t.Underlying().(*types.Basic).Info()&types.IsBoolean != 0 {
						fc.res = append(fc.res, in.FreshBool())
						continue
					}
					fc.res = append(fc.res, o)
				default:
					fc.res = append(fc.res, o)
				}
			}
		}
		switch len(fc.res) {
		case 0:
			return nil, true
		case 1:
			return fc.res[0], true
		}
		return &absint.Agg{E: append([]absint.Val{}, fc.res...)}, true
	}
	// All combinations of boolean parameters; other parameters are opaque, the
	// first byte slice is the symbolic input.
	var bools []int
	for i, prm := range fn.Params {
		if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			bools = append(bools, i)
		}
	}
	if len(bools) > 4 {
		return "too many parameters"
	}
	for mask := 0; mask < 1<<len(bools); mask++ {
		calls, memo = nil, map[string]*fwdCall{}
		var args []absint.Val
		input := false
		for i, prm := range fn.Params {
			isBool := false
			for j, b := range bools {
				if b == i {
					args = append(args, m.Term(mask>>j&1 == 1))
					isBool = true
				}
			}
			if isBool {
				continue
			}
			t := prm.Type().Underlying()
			if sl, ok := t.(*types.Slice); ok && !input && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte]) {
				input = true
				args = append(args, m.Term(absint.Slice{Obj: absint.InputObj, Lo: absint.Num(0), Hi: absint.Lin{R: 1}, Max: absint.Lin{R: 1, E: 1}}))
				continue
			}
			o := m.Term(absint.Opaque{Tag: "parameter " + prm.Name()})
			args = append(args, o)
		}
		an := in.Analyse(fn, args)
		if an.Failed != "" {
			return "not decided: " + an.Failed
		}
		returned := false
		for _, x := range an.Ctxs {
			for _, o := range x.Out {
				if o.Guard == m.False {
					continue
				}
				r.Ob(1)
				r.Count("outcomes", 1)
				switch o.Kind {
				case absint.Continue:
					continue
				case absint.Panic:
					return fn.Name() + " may panic by itself: " + o.Reason
				case absint.Undecided:
					return "not decided: " + o.Reason
				}
				returned = true
				if prob := c.sameCall(m, fn, o.Guard, o.Vals, args, calls, major, p); prob != "" {
					return prob
				}
			}
		}
		if !returned {
			return fn.Name() + " never returns"
		}
		if prob := onceOnly(fn, calls); prob != "" {
			return prob
		}
	}
	return ""
}

func under(m *dd.Mgr, g dd.Ref, v absint.Val) absint.Val {
	if x, ok := v.(dd.Ref); ok {
		return m.Under(g, x)
	}
	return v
}

func (c *Ctx) sameCall(m *dd.Mgr, fn *ssa.Function, g dd.Ref, vals, args []absint.Val, calls []*fwdCall, major int, p *load.Program) string {
	if len(vals) == 0 {
		return fn.Name() + " has no results"
	}
	why := fn.Name() + " returns something other than the result of the wrapped function"
	for _, fc := range calls {
		if len(fc.res) != len(vals) {
			continue
		}
		same := true
		for i := range vals {
			if under(m, g, vals[i]) != under(m, g, fc.res[i]) {
				same = false
			}
		}
		if !same {
			continue
		}
		if fc.fn.Name() != fn.Name() {
			why = fmt.Sprintf("%s forwards to %s", fn.Name(), fc.fn)
			continue
		}
		ok := len(fc.args) == len(args)
		for i := 0; ok && i < len(args); i++ {
			if under(m, g, fc.args[i]) != under(m, g, args[i]) {
				why = fmt.Sprintf("%s does not pass its argument %q unchanged to %s", fn.Name(), fn.Params[i].Name(), fc.fn)
				ok = false
			}
		}
		if !ok {
			continue
		}
		n := c.versionOf(fnPkgPath(fc.fn))
		if major != 0 && n != major && c.versionHas(p, major, fn.Name()) {
			why = fmt.Sprintf("%s forwards to Unicode %d's function although version %d, which has one, is selected", fn.Name(), n, major)
			continue
		}
		return ""
	}
	return why
}

// versionHas reports whether the loaded segmentation package of a version has
// an exported function.
func (c *Ctx) versionHas(p *load.Program, major int, name string) bool {
	for path, sp := range p.SSA {
		if c.versionOf(path) == major && strings.HasSuffix(path, "/textseg") {
			if _, ok := sp.Pkg.Scope().Lookup(name).(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

// onceOnly demands that functions which take a function as an argument, and so
// may have effects, are called at most once.
func onceOnly(fn *ssa.Function, calls []*fwdCall) string {
	takes := func(f *ssa.Function) bool {
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if isFuncType(f.Signature.Params().At(i).Type()) {
				return true
			}
		}
		return false
	}
	for _, a := range calls {
		if !takes(a.fn) {
			continue
		}
		if inLoop(a.site.Parent())[a.site.Block()] {
			return fmt.Sprintf("%s calls %s in a loop", fn.Name(), a.fn)
		}
		for _, b := range calls {
			if a.site == b.site && a != b || !takes(b.fn) {
				continue
			}
			if a.site != b.site && a.site.Parent() == b.site.Parent() && follows(a.site, b.site) {
				return fmt.Sprintf("%s calls the caller's function through %s and again through %s", fn.Name(), a.fn, b.fn)
			}
		}
	}
	return ""
}

// follows reports whether b may execute after a in the same function.
func follows(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, ins := range a.Block().Instrs {
			if ins == a {
				return true
			}
			if ins == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// --- C16 ---

func checkLinked(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"A program that uses only the wrapper's split function, or only imports the wrapper, links no symbol of another Unicode version's packages.",
		"A program that uses all of the wrapper's functions links no split function and no data of another version.",
		"Package initialisation descriptors are not counted.")
	for i, v := range c.loadable() {
		t, _ := c.toolchainFor(v)
		p := c.Variant(v)
		sp := p.SSA[c.wrapperPkgPath()]
		if sp == nil {
			fatalf("anchor", "the wrapper package was not found")
		}
		major := c.advertised(sp)
		if major == 0 {
			r.Fail("no-constant", v.key(), wrapperRel, "under %s no version is advertised", v)
			continue
		}
		var all []string
		for _, nm := range sp.Pkg.Scope().Names() {
			if o := sp.Pkg.Scope().Lookup(nm); o.Exported() {
				switch o.(type) {
				case *types.Func, *types.Var:
					all = append(all, nm)
				}
			}
		}
		progs := []struct {
			name string
			uses []string
		}{{"scan", []string{scanName}}, {"import", nil}, {"all", all}}
		for _, pr := range progs {
			prob := c.linkProgram(r, v, t, fmt.Sprintf("%d%s", i, pr.name), pr.name, pr.uses, major)
			if prob != "" {
				r.Fail("undecided", v.key()+"|"+pr.name, wrapperRel, "under %s, the program %q: %s", v, pr.name, prob)
			}
		}
	}
	r.Assume = append(r.Assume, "The Go linker's symbol table lists what the program carries. Dead-code elimination is as in the installed Go releases.")
}

func (c *Ctx) linkProgram(r *Report, v variant, t Toolchain, id, kind string, uses []string, major int) string {
	dir := filepath.Join(c.Tmp, "link"+id)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err.Error()
	}
	defer os.RemoveAll(dir)
	var b strings.Builder
	b.WriteString("package main\n\n")
	if len(uses) == 0 {
		fmt.Fprintf(&b, "import _ %q\n\nfunc main() {}\n", c.wrapperPkgPath())
	} else {
		fmt.Fprintf(&b, "import w %q\n\nvar sink []any\n\nfunc main() {\n", c.wrapperPkgPath())
		for _, u := range uses {
			fmt.Fprintf(&b, "\tsink = append(sink, w.%s)\n", u)
		}
		b.WriteString("}\n")
	}
	os.WriteFile(filepath.Join(dir, "main.go"), []byte(b.String()), 0o644)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte(fmt.Sprintf("module verifprobe.example/probe\n\ngo 1.%d\n", c.wrapperMin())), 0o644)
	work := fmt.Sprintf("go 1.%d\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n", max(c.wrapperMin(), 25), c.Repo, filepath.Join(c.Repo, "autoversion"), dir)
	wf := filepath.Join(dir, "go.work")
	os.WriteFile(wf, []byte(work), 0o644)
	env := append(c.variantEnv(v, t), "GOWORK="+wf)
	bin := filepath.Join(dir, "probe")
	_, se, err := c.runGo(dir, env, "build", "-o", bin, ".")
	if err != nil {
		return "does not build: " + strings.TrimSpace(se)
	}
	so, se, err := c.runGo(dir, env, "tool", "nm", "-size", "-type", bin)
	if err != nil {
		return "symbols cannot be listed: " + strings.TrimSpace(se)
	}
	n := 0
	for _, l := range strings.Split(so, "\n") {
		// The address is missing for undefined symbols.
		f := strings.Fields(l)
		if len(f) < 3 {
			continue
		}
		n++
		j := 2
		if len(f) == 3 {
			j = 1
		}
		typ, name := f[j], strings.Join(f[j+1:], " ")
		size, _ := strconv.Atoi(f[j-1])
		ver := 0
		if k := strings.Index(name, c.ModulePath()[:strings.LastIndex(c.ModulePath(), "/")]); k >= 0 {
			ver = c.versionOf(name[k:])
		}
		if ver == 0 {
			continue
		}
		r.Ob(1)
		if ver == major {
			continue
		}
		if strings.HasSuffix(name, "..inittask") {
			continue
		}
		switch {
		case kind != "all":
			r.Fail("foreign-symbol", kind+"|"+name, wrapperRel, "under %s (Unicode %d), a program that %s links %s (%d bytes) of another version", v, major, map[string]string{"scan": "uses only " + scanName, "import": "only imports the wrapper"}[kind], name, size)
		case strings.HasSuffix(name, "."+scanName), !strings.EqualFold(typ, "t"):
			// Small read-only symbols describe the forwarded functions.
			if size < 256 && !strings.HasSuffix(name, "."+scanName) {
				continue
			}
			r.Fail("foreign-symbol", kind+"|"+name, wrapperRel, "under %s (Unicode %d), a program that uses all of the wrapper links %s (%d bytes) of another version", v, major, name, size)
		}
	}
	r.Count("programs", 1)
	r.Count("symbols", n)
	if n < 100 {
		return "the symbol table is empty"
	}
	return ""
}
