package rules

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
)

func init() {
	register("C24", "Type-checking of the two public packages and everything they import, from source, once for every distinct configuration: every installed Go release from the modules' minimum on (and, for the main module, its build constraints for the releases after the newest), every GOOS/GOARCH pair of the release with its own word size and its own standard library, cgo on and off, and every combination of the custom tags that build constraints mention. No configuration may have an error, a function without a body, or no file left; the exported declarations must be the same in all of them, and usable where the wrapped packages' declarations are.", checkBuilds)
	Registry["C24"].Wrapper = true
}

// buildConfig is one way of building the public packages.
type buildConfig struct {
	tool         Toolchain
	GOOS, GOARCH string
	cgo          bool
	tags         []string
	future       int // a release after the newest, whose constraints hold
}

func (b buildConfig) String() string {
	n := b.tool.Minor
	if b.future > 0 {
		n = b.future
	}
	s := fmt.Sprintf("Go 1.%d %s/%s", n, b.GOOS, b.GOARCH)
	if b.cgo {
		s += " cgo"
	}
	if len(b.tags) > 0 {
		s += " -tags " + strings.Join(b.tags, ",")
	}
	return s
}

func (b buildConfig) context() *build.Context {
	n := b.tool.Minor
	if b.future > 0 {
		n = b.future
	}
	var rel []string
	for i := 1; i <= n; i++ {
		rel = append(rel, "go1."+strconv.Itoa(i))
	}
	return &build.Context{GOOS: b.GOOS, GOARCH: b.GOARCH, GOROOT: b.tool.Root, CgoEnabled: b.cgo, Compiler: "gc", BuildTags: b.tags, ReleaseTags: rel}
}

// buildModule is a module whose packages the public packages may import.
type buildModule struct {
	path, dir, version string
}

// builder type-checks packages from source under one configuration.
type builder struct {
	cfg  buildConfig
	ctxt *build.Context
	mods []buildModule
	std  *stdPkgs
	own  map[string]*types.Package
	busy map[string]bool
	fset *token.FileSet
	errs []buildError
	file []string // files of the project's packages that were checked
}

type buildError struct{ at, what string }

// stdPkgs are a release's own packages for one platform; only their
// declarations are checked.
type stdPkgs struct {
	ctxt *build.Context
	pkgs map[string]*types.Package
	fset *token.FileSet
}

func (s *stdPkgs) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := s.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("package %s is not in std", path)
		}
		return p, nil
	}
	s.pkgs[path] = nil
	dir := filepath.Join(s.ctxt.GOROOT, "src", path)
	bp, err := s.ctxt.ImportDir(dir, 0)
	if err != nil {
		dir = filepath.Join(s.ctxt.GOROOT, "src", "vendor", path)
		if bp, err = s.ctxt.ImportDir(dir, 0); err != nil {
			return nil, fmt.Errorf("package %s is not in std for this platform", path)
		}
	}
	var files []*ast.File
	for _, f := range append(append([]string{}, bp.GoFiles...), bp.CgoFiles...) {
		af, err := parser.ParseFile(s.fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	conf := types.Config{Importer: s, IgnoreFuncBodies: true, FakeImportC: true, Sizes: types.SizesFor("gc", s.ctxt.GOARCH), Error: func(error) {}}
	p, _ := conf.Check(path, s.fset, files, nil)
	s.pkgs[path] = p
	return p, nil
}

func (b *builder) module(path string) *buildModule {
	var best *buildModule
	for i := range b.mods {
		m := &b.mods[i]
		if (path == m.path || strings.HasPrefix(path, m.path+"/")) && (best == nil || len(m.path) > len(best.path)) {
			best = m
		}
	}
	return best
}

func (b *builder) fail(at, format string, args ...any) {
	b.errs = append(b.errs, buildError{at, fmt.Sprintf(format, args...)})
}

func (b *builder) Import(path string) (*types.Package, error) {
	m := b.module(path)
	if m == nil {
		return b.std.Import(path)
	}
	if p := b.own[path]; p != nil {
		return p, nil
	}
	if b.busy[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	b.busy[path] = true
	defer delete(b.busy, path)
	dir := filepath.Join(m.dir, strings.TrimPrefix(path, m.path))
	bp, err := b.ctxt.ImportDir(dir, 0)
	if err != nil {
		b.fail(dir, "package %s: %v", path, err)
		return nil, err
	}
	var files []*ast.File
	for _, f := range append(append([]string{}, bp.GoFiles...), bp.CgoFiles...) {
		name := filepath.Join(dir, f)
		af, err := parser.ParseFile(b.fset, name, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			b.fail(name, "%v", err)
			return nil, err
		}
		if b.cfg.future > 0 {
			af.GoVersion = ""
		}
		files = append(files, af)
		b.file = append(b.file, name)
	}
	conf := types.Config{Importer: b, FakeImportC: true, Sizes: types.SizesFor("gc", b.cfg.GOARCH), GoVersion: m.version,
		Error: func(err error) {
			if te, ok := err.(types.Error); ok {
				b.fail(b.fset.Position(te.Pos).String(), "%s", te.Msg)
				return
			}
			b.fail(dir, "%v", err)
		}}
	p, _ := conf.Check(path, b.fset, files, nil)
	if len(bp.SFiles) == 0 {
		for _, af := range files {
			linked := false
			for _, cg := range af.Comments {
				for _, cm := range cg.List {
					linked = linked || strings.HasPrefix(cm.Text, "//go:linkname ")
				}
			}
			for _, d := range af.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil && !linked {
					b.fail(b.fset.Position(fd.Pos()).String(), "function %s has no body", fd.Name.Name)
				}
			}
		}
	}
	b.own[path] = p
	return p, nil
}

// wrapperAPI are the wrapper's functions that callers use.
var wrapperAPI = []string{scanName, "ScanUTF8Sequences", "TokenCount", "AllTokens"}

// api describes the exported declarations of a package.
func api(p *types.Package, values bool) map[string]string {
	qual := func(q *types.Package) string {
		if q == p {
			return ""
		}
		return q.Path()
	}
	out := map[string]string{}
	for _, name := range p.Scope().Names() {
		if !token.IsExported(name) {
			continue
		}
		o := p.Scope().Lookup(name)
		d := ""
		switch o := o.(type) {
		case *types.Const:
			d = "const " + types.TypeString(o.Type(), qual)
			if values {
				d += " = " + o.Val().ExactString()
			}
		case *types.TypeName:
			d = "type " + types.TypeString(o.Type().Underlying(), qual)
			var ms []string
			if nt, ok := types.Unalias(o.Type()).(*types.Named); ok {
				for m := range nt.Methods() {
					if m.Exported() {
						ms = append(ms, m.Name()+" "+plainSig(m.Type(), qual))
					}
				}
			}
			sort.Strings(ms)
			d += " {" + strings.Join(ms, "; ") + "}"
		case *types.Var:
			d = "var " + plainSig(o.Type(), qual)
		case *types.Func:
			d = "func " + plainSig(o.Type(), qual)
		}
		out[name] = d
	}
	return out
}

// plainSig is a type without parameter names.
func plainSig(t types.Type, qual types.Qualifier) string {
	sig, ok := types.Unalias(t).(*types.Signature)
	if !ok {
		return types.TypeString(t, qual)
	}
	tuple := func(tu *types.Tuple) string {
		var s []string
		for v := range tu.Variables() {
			s = append(s, types.TypeString(v.Type(), qual))
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	v := ""
	if sig.Variadic() {
		v = "..."
	}
	tp := ""
	if sig.TypeParams().Len() > 0 {
		tp = "[generic]"
	}
	return tp + tuple(sig.Params()) + v + " " + tuple(sig.Results())
}

// checkAPI compares a package's declarations with what callers rely on.
func (b *builder) checkAPI(p *types.Package, wrapper bool) {
	at := p.Path()
	bufioPkg, err := b.std.Import("bufio")
	if err != nil {
		b.fail(at, "%v", err)
		return
	}
	split := bufioPkg.Scope().Lookup("SplitFunc")
	names := []string{scanName}
	if wrapper {
		names = wrapperAPI
	}
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if o == nil {
			b.fail(at, "%s does not declare %s", at, n)
			continue
		}
		if _, ok := o.Type().Underlying().(*types.Signature); !ok {
			b.fail(at, "%s.%s is not a function", at, n)
			continue
		}
		if strings.HasPrefix(n, "Scan") && !types.AssignableTo(o.Type(), split.Type()) {
			b.fail(at, "%s.%s cannot be used as a bufio.SplitFunc", at, n)
		}
	}
	if !wrapper {
		return
	}
	if c, ok := p.Scope().Lookup(majorName).(*types.Const); !ok {
		b.fail(at, "%s does not declare the constant %s", at, majorName)
	} else if bt, ok := c.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		b.fail(at, "%s.%s is not an integer", at, majorName)
	}
	// A drop-in replacement has the types of what it replaces.
	for _, q := range p.Imports() {
		if b.module(q.Path()) == nil {
			continue
		}
		for _, n := range q.Scope().Names() {
			o, w := q.Scope().Lookup(n), p.Scope().Lookup(n)
			if !o.Exported() || w == nil {
				continue
			}
			if !types.Identical(o.Type().Underlying(), w.Type().Underlying()) {
				b.fail(at, "%s.%s has type %s, but what it stands for has type %s", at, n, w.Type(), o.Type())
			}
		}
	}
}

// buildModules are the modules that the workspace selects.
func (c *Ctx) buildModules(t Toolchain) []buildModule {
	so, se, err := c.runGo(filepath.Join(c.Repo, "autoversion"), append(t.env(), "GOWORK="+c.Workspace()), "list", "-m", "-f", "{{.Path}}\t{{.Dir}}\t{{.GoVersion}}", "all")
	if err != nil {
		fatalf("load", "cannot list the modules: %v %s", err, se)
	}
	var out []buildModule
	for _, l := range strings.Split(strings.TrimSpace(so), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 3 || f[1] == "" {
			continue
		}
		v := f[2]
		if v == "" {
			v = "1.16"
		}
		out = append(out, buildModule{f[0], f[1], "go" + v})
	}
	return out
}

// constraintTags are the custom tags in the build constraints of the
// repository, and whether any file's selection depends on cgo.
func (c *Ctx) constraintTags(plats [][2]string) ([]string, bool) {
	known := map[string]bool{}
	for _, p := range plats {
		known[p[0]], known[p[1]] = true, true
	}
	custom, cgo := map[string]bool{}, false
	filepath.WalkDir(c.Repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		name := d.Name()
		if d.IsDir() {
			if path != c.Repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		af, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.ParseComments|parser.ImportsOnly)
		if err != nil {
			fatalf("load", "%v", err)
		}
		for _, im := range af.Imports {
			cgo = cgo || im.Path.Value == `"C"`
		}
		for _, cg := range af.Comments {
			for _, cm := range cg.List {
				if !constraint.IsGoBuild(cm.Text) && !constraint.IsPlusBuild(cm.Text) {
					continue
				}
				x, err := constraint.Parse(cm.Text)
				if err != nil {
					continue
				}
				walkTags(x, func(tag string) {
					cgo = cgo || tag == "cgo"
					if !known[tag] && !platformTags[tag] && !releaseRE.MatchString(tag) {
						custom[tag] = true
					}
				})
			}
		}
		return nil
	})
	return sortedKeys(custom), cgo
}

var posRE = regexp.MustCompile(`:\d+(:\d+)?$`)

func checkBuilds(c *Ctx, r *Report) {
	plats := c.platforms()
	tags, cgo := c.constraintTags(plats)
	if len(tags) > 5 {
		fatalf("undecided", "the build constraints mention too many tags: %v", tags)
	}
	min := c.mainMin()
	var tools []Toolchain
	for _, t := range allToolchains() {
		if t.Minor >= min {
			tools = append(tools, t)
		}
	}
	if len(tools) == 0 {
		fatalf("load", "no installed Go release is new enough for the modules (go 1.%d)", min)
	}
	newest := tools[len(tools)-1]
	mods := c.buildModules(newest)
	mainPkg, wrapPkg := c.ModulePath()+"/textseg", c.wrapperPkgPath()

	type unit struct {
		cfgs []buildConfig // of one release and platform
	}
	var units []unit
	add := func(t Toolchain, p [2]string, future int) {
		var u unit
		for _, cg := range []bool{false, true} {
			if cg && !cgo {
				continue
			}
			for m := 0; m < 1<<len(tags); m++ {
				var set []string
				for i, tg := range tags {
					if m>>i&1 == 1 {
						set = append(set, tg)
					}
				}
				u.cfgs = append(u.cfgs, buildConfig{tool: t, GOOS: p[0], GOARCH: p[1], cgo: cg, tags: set, future: future})
			}
		}
		units = append(units, u)
	}
	for _, t := range tools {
		for _, p := range plats {
			add(t, p, 0)
		}
	}
	for _, n := range []int{newest.Minor + 1, newest.Minor + 10} {
		for _, p := range plats {
			add(newest, p, n)
		}
	}

	type result struct {
		cfg  buildConfig
		pkg  string
		errs []buildError
		api  map[string]string
		file []string
	}
	results := make([][]result, len(units))
	var wg sync.WaitGroup
	sem := make(chan bool, max(1, runtime.NumCPU()))
	for i, u := range units {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			sc := *u.cfgs[0].context()
			sc.CgoEnabled, sc.BuildTags, sc.ReleaseTags = false, nil, buildConfig{tool: u.cfgs[0].tool}.context().ReleaseTags
			std := &stdPkgs{ctxt: &sc, pkgs: map[string]*types.Package{}, fset: token.NewFileSet()}
			for _, cfg := range u.cfgs {
				for _, pkg := range []string{mainPkg, wrapPkg} {
					if pkg == wrapPkg && cfg.future > 0 {
						continue // the wrapper supports known releases only
					}
					b := &builder{cfg: cfg, ctxt: cfg.context(), mods: mods, std: std, own: map[string]*types.Package{}, busy: map[string]bool{}, fset: std.fset}
					res := result{cfg: cfg, pkg: pkg}
					p, err := b.Import(pkg)
					if err != nil && len(b.errs) == 0 {
						b.fail(pkg, "%v", err)
					}
					if p != nil && len(b.errs) == 0 {
						b.checkAPI(p, pkg == wrapPkg)
						res.api = api(p, pkg == mainPkg)
					}
					res.errs, res.file = b.errs, b.file
					results[i] = append(results[i], res)
				}
			}
		}()
	}
	wg.Wait()

	type group struct {
		at, what string
		first    buildConfig
		n        int
	}
	groups := map[string]*group{}
	var order []string
	note := func(at, what string, cfg buildConfig) {
		k := posRE.ReplaceAllString(c.rel(at), "") + "|" + what
		g := groups[k]
		if g == nil {
			g = &group{at: c.rel(at), what: what, first: cfg}
			groups[k] = g
			order = append(order, k)
		}
		g.n++
	}
	ref := map[string]*result{}
	selections := map[string]bool{}
	configs := 0
	for i := range results {
		for j := range results[i] {
			res := &results[i][j]
			configs++
			r.Ob(1)
			slices.Sort(res.file)
			selections[strings.Join(res.file, " ")] = true
			for _, e := range res.errs {
				note(e.at, e.what, res.cfg)
			}
			if res.api == nil {
				continue
			}
			if ref[res.pkg] == nil {
				ref[res.pkg] = res
			}
			want := ref[res.pkg]
			for _, n := range sortedKeys(want.api) {
				if d, ok := res.api[n]; !ok {
					note(res.pkg, fmt.Sprintf("%s is not declared, as it is for %s", n, want.cfg), res.cfg)
				} else if d != want.api[n] {
					note(res.pkg, fmt.Sprintf("%s is declared as %s, but as %s for %s", n, d, want.api[n], want.cfg), res.cfg)
				}
			}
			for _, n := range sortedKeys(res.api) {
				if _, ok := want.api[n]; !ok {
					note(res.pkg, fmt.Sprintf("%s is declared, but not for %s", n, want.cfg), res.cfg)
				}
			}
		}
	}
	for _, k := range order {
		g := groups[k]
		r.Fail("does-not-build-everywhere", k, g.at, "%s (%s%s)", g.what, g.first, map[bool]string{true: fmt.Sprintf(" and %d more configurations", g.n-1)}[g.n > 1])
	}
	r.Rules = append(r.Rules, "no type error, missing body or empty package under any configuration", "the exported declarations are the same under every configuration", "split functions are assignable to bufio.SplitFunc; the wrapper's declarations have the types of the wrapped ones")
	var rels []string
	for _, t := range tools {
		rels = append(rels, fmt.Sprintf("go1.%d", t.Minor))
	}
	r.Note("releases", rels)
	r.Note("platforms", len(plats))
	r.Note("custom_tags", append([]string{}, tags...))
	r.Count("configurations_type_checked", configs)
	r.Count("distinct_file_selections", len(selections))
	for p, res := range ref {
		r.Note("api "+p, sortedKeys(res.api))
	}
	r.Assume = append(r.Assume, "The installed releases' type rules are those of go/types as vendored with the checker's Go release; compiler limits (frame or type sizes) are not modelled.")
}
