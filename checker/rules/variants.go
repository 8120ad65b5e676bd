package rules

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// mainVariant is one way to build the main module: a set of configurations
// (platform, compiler, cgo, tags, release) that select the same files.
type mainVariant struct {
	GOOS, GOARCH, Compiler string
	Cgo                    bool
	Tags                   []string
	Minor                  int
	N                      int // configurations it stands for
	tool                   Toolchain
	loadable               bool
	twin                   *[2]string // a platform it stands for with the other word size
}

func (v mainVariant) String() string {
	s := fmt.Sprintf("%s/%s, Go 1.%d", v.GOOS, v.GOARCH, v.Minor)
	if v.Compiler != "gc" {
		s += ", " + v.Compiler
	}
	if v.Cgo {
		s += ", cgo"
	}
	if len(v.Tags) > 0 {
		s += ", tags " + strings.Join(v.Tags, ",")
	}
	return s
}

var releaseRE = regexp.MustCompile(`^go1\.\d+$`)

// mainVariants evaluates the build constraints of the main module's files. On
// a tree without platform-dependent files there is one variant, the host's.
func (c *Ctx) mainVariants() []mainVariant {
	ts := allToolchains()
	host := mainVariant{GOOS: runtime.GOOS, GOARCH: runtime.GOARCH, Compiler: "gc", N: 1, loadable: true, twin: &[2]string{"linux", "386"}}
	if words32[host.GOARCH] {
		host.twin = &[2]string{"linux", "amd64"}
	}
	if len(ts) == 0 {
		fatalf("load", "no Go release found")
	}
	newest := ts[len(ts)-1]
	host.Minor, host.tool = newest.Minor, newest
	var files []string
	filepath.WalkDir(c.Repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		name := d.Name()
		if d.IsDir() {
			if path == c.Repo {
				return nil
			}
			if strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor" {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
				return filepath.SkipDir // another module
			}
			return nil
		}
		if strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	var cond []string
	custom := map[string]bool{}
	var plats [][2]string
	known := map[string]bool{}
	load := func() {
		if plats == nil {
			plats = c.platforms()
			for _, p := range plats {
				known[p[0]], known[p[1]] = true, true
			}
		}
	}
	for _, f := range files {
		has := false
		if base := strings.TrimSuffix(filepath.Base(f), ".go"); strings.Contains(base, "_") {
			load()
			parts := strings.Split(base, "_")
			for _, p := range parts[max(1, len(parts)-2):] {
				has = has || known[p]
			}
		}
		src, err := os.ReadFile(f)
		if err != nil {
			fatalf("load", "%v", err)
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, src, parser.ParseComments|parser.ImportsOnly)
		if err != nil {
			fatalf("load", "%v", err)
		}
		for _, cg := range af.Comments {
			for _, cm := range cg.List {
				if !constraint.IsGoBuild(cm.Text) && !constraint.IsPlusBuild(cm.Text) {
					continue
				}
				x, err := constraint.Parse(cm.Text)
				if err != nil {
					continue
				}
				if t, ok := x.(*constraint.TagExpr); ok && t.Tag == "ignore" {
					continue // never part of a package
				}
				has = true
				load()
				walkTags(x, func(tag string) {
					if !known[tag] && !platformTags[tag] && !releaseRE.MatchString(tag) {
						custom[tag] = true
					}
				})
			}
		}
		for _, im := range af.Imports {
			if im.Path.Value == `"C"` {
				has = true
			}
		}
		if has {
			load()
			cond = append(cond, f)
		}
	}
	if len(cond) == 0 {
		return []mainVariant{host}
	}
	tags := sortedKeys(custom)
	if len(tags) > 5 {
		fatalf("undecided", "the main module's build constraints mention too many tags: %v", tags)
	}
	sort.SliceStable(plats, func(i, j int) bool {
		h := func(p [2]string) bool { return p[0] == runtime.GOOS && p[1] == runtime.GOARCH }
		return h(plats[i]) && !h(plats[j])
	})
	var minors []int
	for i := len(ts) - 1; i >= 0; i-- {
		if ts[i].Minor >= c.mainMin() {
			minors = append(minors, ts[i].Minor)
		}
	}
	installed := len(minors)
	minors = append(minors, newest.Minor+1, newest.Minor+2, newest.Minor+10)
	seen := map[string]*mainVariant{}
	var order []string
	for mi, n := range minors {
		var rel []string
		for i := 1; i <= n; i++ {
			rel = append(rel, "go1."+strconv.Itoa(i))
		}
		for _, comp := range []string{"gc", "gccgo"} {
			for _, cgo := range []bool{false, true} {
				for m := 0; m < 1<<len(tags); m++ {
					var set []string
					for i, t := range tags {
						if m>>i&1 == 1 {
							set = append(set, t)
						}
					}
					for _, p := range plats {
						ctxt := &build.Context{GOOS: p[0], GOARCH: p[1], GOROOT: build.Default.GOROOT, CgoEnabled: cgo, Compiler: comp, BuildTags: set, ReleaseTags: rel}
						var key strings.Builder
						for _, f := range cond {
							ok, err := ctxt.MatchFile(filepath.Dir(f), filepath.Base(f))
							if err != nil {
								fatalf("load", "%s: %v", f, err)
							}
							if ok {
								key.WriteString(f + "\n")
							}
						}
						k := key.String()
						if o := seen[k]; o != nil {
							o.N++
							if o.twin == nil && words32[o.GOARCH] != words32[p[1]] && o.Compiler == comp && o.Cgo == cgo && o.Minor == n && slices.Equal(o.Tags, set) {
								o.twin = &[2]string{p[0], p[1]}
							}
							continue
						}
						v := &mainVariant{GOOS: p[0], GOARCH: p[1], Compiler: comp, Cgo: cgo, Tags: set, Minor: n, N: 1, loadable: comp == "gc" && mi < installed}
						for _, t := range ts {
							if t.Minor == n {
								v.tool = t
							}
						}
						seen[k] = v
						order = append(order, k)
					}
				}
			}
		}
	}
	var out []mainVariant
	for _, k := range order {
		out = append(out, *seen[k])
	}
	return out
}

func walkTags(x constraint.Expr, f func(string)) {
	switch x := x.(type) {
	case *constraint.AndExpr:
		walkTags(x.X, f)
		walkTags(x.Y, f)
	case *constraint.OrExpr:
		walkTags(x.X, f)
		walkTags(x.Y, f)
	case *constraint.NotExpr:
		walkTags(x.X, f)
	case *constraint.TagExpr:
		f(x.Tag)
	}
}

// mainMin is the oldest Go release that the main module supports.
func (c *Ctx) mainMin() int {
	data, err := os.ReadFile(filepath.Join(c.Repo, "go.mod"))
	if err != nil {
		fatalf("load", "cannot read go.mod: %v", err)
	}
	m := regexp.MustCompile(`(?m)^go\s+1\.(\d+)`).FindSubmatch(data)
	if m == nil {
		return 1
	}
	n, _ := strconv.Atoi(string(m[1]))
	return n
}

// env are the settings that select a variant.
func (v *mainVariant) env() []string {
	if v == nil {
		return nil
	}
	out := append(v.tool.env(), "GOOS="+v.GOOS, "GOARCH="+v.GOARCH)
	if len(v.Tags) > 0 {
		out = append(out, "GOFLAGS=-tags="+strings.Join(v.Tags, ","))
	}
	if v.Cgo {
		out = append(out, "CGO_ENABLED=1")
	}
	return out
}

// eachVariant runs a rule on every way to build the main module.
func (c *Ctx) eachVariant(r *Report, run func(*Ctx, *Report)) {
	vs := c.mainVariants()
	if len(vs) > 8 {
		fatalf("undecided", "the main module can be built in %d different ways", len(vs))
	}
	if len(vs) == 1 {
		run(c, r)
		c.otherWordSize(r, &vs[0], run)
		return
	}
	var names []string
	for i := range vs {
		v := &vs[i]
		names = append(names, fmt.Sprintf("%s (%d configurations)", v, v.N))
		if !v.loadable {
			r.Fail("undecided", "variant", "", "the files selected for %s cannot be analysed with the installed Go releases", v)
			continue
		}
		c.under(r, v, run)
		c.otherWordSize(r, v, run)
	}
	r.Note("build_variants", names)
	c.variant = nil
}

// under runs a rule on one variant.
func (c *Ctx) under(r *Report, v *mainVariant, run func(*Ctx, *Report)) {
	c.main, c.core, c.interps, generator, genMemo = nil, nil, nil, nil, nil
	c.variant = v
	old := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(v.tool.Root, "bin")+":"+old)
	defer os.Setenv("PATH", old)
	defer func() {
		if e := recover(); e != nil {
			if b, ok := e.(broken); ok {
				b.f.What += " (built for " + v.String() + ")"
				r.Add(b.f)
				return
			}
			panic(e)
		}
	}()
	run(c, r)
}

// otherWordSize repeats the rule for a platform with another word size if that
// may make a difference.
func (c *Ctx) otherWordSize(r *Report, v *mainVariant, run func(*Ctx, *Report)) {
	if v.twin == nil || len(r.Findings) > 0 || len(c.interps) == 0 {
		return
	}
	t := *v
	t.GOOS, t.GOARCH, t.twin = v.twin[0], v.twin[1], nil
	r.Count("word_sizes", 1)
	sensitive, builds := func() (bool, bool) {
		old := os.Getenv("PATH")
		os.Setenv("PATH", filepath.Join(t.tool.Root, "bin")+":"+old)
		defer os.Setenv("PATH", old)
		return c.wordSensitive(&t)
	}()
	if !builds {
		r.Note("other_word_size", "the module does not build for "+t.String())
		return
	}
	if !sensitive {
		r.Note("other_word_size", "no value and no constant depends on the word size")
		return
	}
	r.Note("other_word_size", "analysed again for "+t.String())
	r.Count("word_sizes", 1)
	c.under(r, &t, run)
	c.variant = nil
}

// hostConstants are constants that differ between platforms, so that analysing
// one platform says nothing about others.
var hostConstants = map[string]bool{
	"runtime.GOOS": true, "runtime.GOARCH": true, "runtime.Compiler": true, "strconv.IntSize": false, "math/bits.UintSize": false,
	"os.PathSeparator": true, "os.PathListSeparator": true, "os.DevNull": true, "path/filepath.Separator": true,
	"internal/goarch.PtrSize": false, "math.MaxInt": false, // see wordSensitive
}

// platformConstants lists the uses of such constants in the given files.
func platformConstants(info usesOf, files []*ast.File) []*ast.Ident {
	var out []*ast.Ident
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o := info(id); o != nil && o.Pkg() != nil && hostConstants[o.Pkg().Path()+"."+o.Name()] {
					out = append(out, id)
				}
			}
			return true
		})
	}
	return out
}

type usesOf func(*ast.Ident) types.Object

// platformUses reports platform-dependent constants in the packages of a
// property's scope, other than in messages.
func (c *Ctx) platformUses(r *Report, q *packages.Package, rule string) {
	ids := platformConstants(func(id *ast.Ident) types.Object { return q.TypesInfo.Uses[id] }, q.Syntax)
	for _, id := range ids {
		at := c.rel(q.Fset.Position(id.Pos()).String())
		r.Fail(rule, q.PkgPath+"|"+id.Name, at, "package %s depends on the platform through %s", q.PkgPath, id.Name)
	}
}
