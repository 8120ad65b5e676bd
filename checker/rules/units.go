package rules

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/mod/modfile"

	"verif/checker/load"
)

// Toolchain is an installed Go release.
type Toolchain struct {
	Root    string
	Minor   int
	Unicode string // unicode.Version of its standard library
}

func (t Toolchain) minorString() string { return strconv.Itoa(t.Minor) }

var versionRE = regexp.MustCompile(`go1\.(\d+)`)
var unicodeRE = regexp.MustCompile(`(?m)^const Version = "([0-9.]+)"`)

// allToolchains lists the installed Go releases, one per minor version.
func allToolchains() []Toolchain {
	var roots []string
	for _, pat := range []string{"/opt/veriftools/go1.*", "/usr/local/go", "/usr/local/go1.*", "/usr/lib/go-1.*"} {
		m, _ := filepath.Glob(pat)
		roots = append(roots, m...)
	}
	if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		roots = append([]string{strings.TrimSpace(string(out))}, roots...)
	}
	byMinor := map[int]Toolchain{}
	for _, root := range roots {
		v, err := os.ReadFile(filepath.Join(root, "VERSION"))
		if err != nil {
			continue
		}
		m := versionRE.FindSubmatch(v)
		u, err := os.ReadFile(filepath.Join(root, "src", "unicode", "tables.go"))
		if m == nil || err != nil {
			continue
		}
		um := unicodeRE.FindSubmatch(u)
		if um == nil {
			continue
		}
		if _, err := os.Stat(filepath.Join(root, "bin", "go")); err != nil {
			continue
		}
		n, _ := strconv.Atoi(string(m[1]))
		if _, ok := byMinor[n]; !ok {
			byMinor[n] = Toolchain{Root: root, Minor: n, Unicode: string(um[1])}
		}
	}
	var out []Toolchain
	for _, t := range byMinor {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Minor < out[j].Minor })
	return out
}

// wrapperMin is the oldest Go release that can build the wrapper module.
func (c *Ctx) wrapperMin() int {
	data, err := os.ReadFile(filepath.Join(c.Repo, "autoversion", "go.mod"))
	if err != nil {
		fatalf("load", "cannot read autoversion/go.mod: %v", err)
	}
	f, err := modfile.ParseLax("go.mod", data, nil)
	if err != nil {
		fatalf("load", "autoversion/go.mod: %v", err)
	}
	if f.Go == nil {
		return 16
	}
	parts := strings.Split(f.Go.Version, ".")
	if len(parts) < 2 {
		fatalf("load", "autoversion/go.mod: go %s", f.Go.Version)
	}
	n, err := strconv.Atoi(parts[1])
	if err != nil {
		fatalf("load", "autoversion/go.mod: go %s", f.Go.Version)
	}
	return n
}

// toolchains lists the installed releases under which the wrapper builds.
func (c *Ctx) toolchains() []Toolchain {
	min := c.wrapperMin()
	var out []Toolchain
	for _, t := range allToolchains() {
		if t.Minor >= min && t.Minor <= 27 {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		fatalf("load", "no installed Go release can build the wrapper module")
	}
	return out
}

// env selects a toolchain.
func (t Toolchain) env() []string {
	return []string{"GOROOT=" + t.Root, "PATH=" + filepath.Join(t.Root, "bin") + ":" + os.Getenv("PATH")}
}

// Workspace joins the repository's two modules, so that the wrapper is analysed
// together with the repository's own implementation.
func (c *Ctx) Workspace() string {
	f := filepath.Join(c.Tmp, "go.work")
	text := fmt.Sprintf("go 1.%d\n\nuse (\n\t%s\n\t%s\n)\n", max(c.wrapperMin(), 25), c.Repo, filepath.Join(c.Repo, "autoversion"))
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		fatalf("load", "%v", err)
	}
	return f
}

var wrappers = map[int]*load.Program{}

// Wrapper loads the wrapper module as built by a toolchain.
func (c *Ctx) Wrapper(t Toolchain) *load.Program {
	if p := wrappers[t.Minor]; p != nil {
		return p
	}
	// The loader finds the go command through this process's own PATH.
	old := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(t.Root, "bin")+":"+old)
	defer os.Setenv("PATH", old)
	p, err := load.Load(load.Config{Dir: filepath.Join(c.Repo, "autoversion"), Patterns: []string{"./..."}, Env: []string{"GOROOT=" + t.Root, "GOWORK=" + c.Workspace()}})
	if err != nil {
		fatalf("load", "the wrapper module does not type-check under Go 1.%d: %v", t.Minor, err)
	}
	wrappers[t.Minor] = p
	return p
}

var generator *load.Program

// Generator loads the table generator program.
func (c *Ctx) Generator() *load.Program {
	if generator != nil {
		return generator
	}
	p, err := c.loadGenerator(c.variant.env()...)
	if err != nil {
		fatalf("load", "the generator does not type-check: %v", err)
	}
	generator = p
	return p
}

func (c *Ctx) loadGenerator(env ...string) (*load.Program, error) {
	dir, files := c.generatorFiles()
	var pats []string
	for _, f := range files {
		pats = append(pats, filepath.Base(f))
	}
	return load.Load(load.Config{Dir: dir, Patterns: pats, Env: env})
}

// generatorFiles finds the program that a go:generate directive next to the
// tables runs.
func (c *Ctx) generatorFiles() (string, []string) {
	dir := filepath.Join(c.Repo, "textseg", "internal", "charprops")
	re := regexp.MustCompile(`(?m)^//go:generate\s+go\s+run\s+(.*)$`)
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range ms {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if m := re.FindSubmatch(data); m != nil {
			var files []string
			for _, w := range strings.Fields(string(m[1])) {
				if strings.HasSuffix(w, ".go") {
					files = append(files, filepath.Join(dir, w))
				}
			}
			if len(files) > 0 {
				return dir, files
			}
		}
	}
	f := filepath.Join(dir, "generate.go")
	if _, err := os.Stat(f); err != nil {
		fatalf("anchor", "the table generator was not found")
	}
	return dir, []string{f}
}

var _ = fmt.Sprint
