// Package rules decides the properties of go-textseg listed in
// /verif/properties.jsonl by static analysis of its current source.
package rules

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/mod/modfile"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/load"
)

// Finding is a violation of a property.
type Finding struct {
	// Key identifies the violation by rule and construct, not by line.
	Key     string   `json:"key"`
	Rule    string   `json:"rule"`
	Where   string   `json:"where,omitempty"`
	What    string   `json:"what"`
	Witness string   `json:"witness,omitempty"`
	Trace   []string `json:"trace,omitempty"`
}

// Report collects what a rule has analysed and found.
type Report struct {
	Property string
	Findings []Finding
	keys     map[string]bool

	Obligations int
	Rules       []string
	Coverage    map[string]any
	Assume      []string
}

// Ob counts an obligation (a construct to which a rule was applied).
func (r *Report) Ob(n int) { r.Obligations += n }

// Count adds to a coverage counter.
func (r *Report) Count(name string, n int) {
	v, _ := r.Coverage[name].(int)
	r.Coverage[name] = v + n
}

// Note records a named coverage value.
func (r *Report) Note(name string, v any) { r.Coverage[name] = v }

// Fail records a violation.
func (r *Report) Fail(rule, construct, where, format string, args ...any) {
	r.Add(Finding{Rule: rule, Key: rule + "|" + construct, Where: where, What: fmt.Sprintf(format, args...)})
}

// Add records a violation.
func (r *Report) Add(f Finding) {
	if f.Key == "" {
		f.Key = f.Rule + "|" + f.Where
	}
	if r.keys == nil {
		r.keys = map[string]bool{}
	}
	k := f.Key + "|" + f.What
	if r.keys[k] {
		return
	}
	r.keys[k] = true
	r.Findings = append(r.Findings, f)
}

// Ctx gives rules access to the program under analysis.
type Ctx struct {
	Repo, Verif string
	Tier        string
	Tmp         string

	main    *load.Program
	core    *core
	interps []*absint.Interp // made since the variant was chosen
	variant *mainVariant     // how the main module is built; nil for the host's way
	mods    map[string]string
}

// Rule decides one property.
type Rule struct {
	Property string
	Level    string
	About    string // what is decided and how
	Run      func(*Ctx, *Report)
	Wrapper  bool // about the wrapper module, whose variants the rule knows itself
}

// Registry lists the rules by property.
var Registry = map[string]*Rule{}

func register(prop, about string, run func(*Ctx, *Report)) {
	Registry[prop] = &Rule{Property: prop, Level: "other", About: about, Run: run}
}

// broken aborts a rule: the analysis has no answer, which counts as a violation.
type broken struct{ f Finding }

func fatalf(rule, format string, args ...any) {
	panic(broken{Finding{Rule: rule, Key: rule, What: fmt.Sprintf(format, args...)}})
}

// ModulePath is the path of the repository's main module.
func (c *Ctx) ModulePath() string { return c.modPath(c.Repo) }

func (c *Ctx) modPath(dir string) string {
	if p, ok := c.mods[dir]; ok {
		return p
	}
	data, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		fatalf("load", "cannot read go.mod: %v", err)
	}
	p := modfile.ModulePath(data)
	if p == "" {
		fatalf("load", "%s/go.mod names no module", dir)
	}
	if c.mods == nil {
		c.mods = map[string]string{}
	}
	c.mods[dir] = p
	return p
}

// Main loads the repository's main module.
func (c *Ctx) Main() *load.Program {
	if c.main == nil {
		p, err := load.Load(load.Config{Dir: c.Repo, Patterns: []string{"./..."}, Env: c.variant.env()})
		if err != nil {
			fatalf("load", "the repository does not type-check: %v", err)
		}
		c.main = p
	}
	return c.main
}

// Pkg returns the SSA package of the main module with the given relative path.
func (c *Ctx) Pkg(p *load.Program, rel string) *ssa.Package {
	path := c.ModulePath() + "/" + rel
	sp := p.SSA[path]
	if sp == nil {
		fatalf("anchor", "package %s not found", path)
	}
	sp.Build()
	return sp
}

// Func returns a package-level function.
func (c *Ctx) Func(p *load.Program, rel, name string) *ssa.Function {
	fn := c.Pkg(p, rel).Func(name)
	if fn == nil {
		fatalf("anchor", "function %s.%s not found", rel, name)
	}
	return fn
}

func (c *Ctx) pos(p *load.Program, x interface{ Pos() (pos tokenPos) }) string {
	return c.rel(p.Prog.Fset.Position(x.Pos()).String())
}

func (c *Ctx) rel(s string) string {
	return strings.TrimPrefix(s, c.Repo+"/")
}

// own reports whether a package belongs to the repository's modules.
func (c *Ctx) own(path string) bool {
	m := c.ModulePath()
	if path == "command-line-arguments" { // a program named by its files
		return true
	}
	if path == m || strings.HasPrefix(path, m+"/") {
		return true
	}
	i := strings.LastIndex(m, "/")
	base := m[:i] + "/"
	return strings.HasPrefix(path, base)
}

// runGo runs a go command.
func (c *Ctx) runGo(dir string, env []string, args ...string) (string, string, error) {
	gocmd := "go"
	for _, e := range env {
		if v, ok := strings.CutPrefix(e, "GOROOT="); ok {
			gocmd = filepath.Join(v, "bin", "go")
		}
	}
	cmd := exec.Command(gocmd, args...)
	cmd.Dir = dir
	cmd.Env = load.Env(env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	return so.String(), se.String(), err
}

// Known is a committed known-findings file.
type Known struct {
	open map[string]string // property|key -> text
}

// LoadKnown reads known findings: lines "property=<id> key=<key> :: text".
func LoadKnown(path string) *Known {
	k := &Known{open: map[string]string{}}
	data, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		head, text, _ := strings.Cut(l, " :: ")
		prop, key, ok := strings.Cut(strings.TrimPrefix(head, "property="), " key=")
		if ok {
			k.open[prop+"|"+key] = text
		}
	}
	return k
}

// splitProps are the properties decided by interpreting the library as it is
// built for one platform.
var splitProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true, "C17": true, "C18": true, "C23": true}

// Execute runs the rule for a property and returns the process's exit status.
func Execute(c *Ctx, prop string, seed int, evidence string) (status int) {
	t0 := time.Now()
	r := &Report{Property: prop, Coverage: map[string]any{}}
	rule := Registry[prop]
	if rule == nil {
		fmt.Printf("no rule for %s\n", prop)
		return 2
	}
	stop := watch(prop, evidence)
	defer stop()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if b, ok := e.(broken); ok {
					r.Add(b.f)
					return
				}
				r.Add(Finding{Rule: "internal", Key: "internal", What: fmt.Sprintf("the analysis failed: %v", e),
					Trace: strings.Split(string(debug.Stack()), "\n")})
			}
		}()
		if rule.Wrapper {
			rule.Run(c, r)
		} else {
			c.eachVariant(r, func(c *Ctx, r *Report) {
				rule.Run(c, r)
				if splitProps[prop] {
					for _, q := range c.runtimePkgs(c.Main()) {
						if c.own(q.PkgPath) {
							c.platformUses(r, q, "undecided")
						}
					}
				}
			})
		}
		if r.Obligations == 0 && len(r.Findings) == 0 {
			fatalf("vacuous", "the rule found nothing to check")
		}
	}()
	known := LoadKnown(filepath.Join(c.Verif, "known-findings.txt"))
	var open []Finding
	for _, f := range r.Findings {
		if text, ok := known.open[prop+"|"+f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, text)
			continue
		}
		open = append(open, f)
	}
	cov := r.Coverage
	cov["explanation"] = rule.About
	cov["rules"] = append([]string{}, r.Rules...)
	cov["obligations"] = r.Obligations
	failedObs := len(r.Findings)
	if failedObs > r.Obligations {
		failedObs = r.Obligations
	}
	cov["discharged"] = r.Obligations - failedObs
	ev := map[string]any{
		"property": prop, "tier": c.Tier, "seed": seed, "level": rule.Level,
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(open),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	os.MkdirAll(evidence, 0o755)
	data, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		fmt.Println("evidence:", err)
	}
	if err := os.WriteFile(filepath.Join(evidence, prop+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	replay := filepath.Join(evidence, "replay", prop+".txt")
	if len(open) == 0 {
		os.Remove(replay)
		fmt.Printf("OK property=%s obligations=%d wall=%.1fs\n", prop, r.Obligations, time.Since(t0).Seconds())
		return 0
	}
	os.MkdirAll(filepath.Dir(replay), 0o755)
	var b strings.Builder
	for i, f := range open {
		fmt.Fprintf(&b, "[%d] rule %s\n    at %s\n    %s\n", i+1, f.Rule, f.Where, f.What)
		if f.Witness != "" {
			fmt.Fprintf(&b, "    input bytes: %s\n", f.Witness)
		}
		for _, t := range f.Trace {
			fmt.Fprintf(&b, "      %s\n", t)
		}
	}
	os.WriteFile(replay, []byte(b.String()), 0o644)
	for i, f := range open {
		if i == 12 {
			fmt.Printf("  ... and %d more in %s\n", len(open)-i, replay)
			break
		}
		w := ""
		if f.Witness != "" {
			w = " [input " + f.Witness + "]"
		}
		fmt.Printf("  %s: %s: %s%s\n", f.Where, f.Rule, f.What, w)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	return 1
}

// watch ends the process with an answer if a rule takes too long or too much
// memory: an analysis that does not finish has not shown the property.
func watch(prop, evidence string) func() {
	done := make(chan struct{})
	go func() {
		t0 := time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			why := ""
			switch {
			case ms.HeapAlloc > 14<<30:
				why = "the analysis ran out of its memory budget"
			case time.Since(t0) > 780*time.Second:
				why = "the analysis ran out of time"
			}
			if why == "" {
				continue
			}
			replay := filepath.Join(evidence, "replay", prop+".txt")
			os.MkdirAll(filepath.Dir(replay), 0o755)
			os.WriteFile(replay, []byte("undecided: "+why+"\n"), 0o644)
			fmt.Printf("  undecided: %s\n", why)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
			os.Exit(1)
		}
	}()
	return func() { close(done) }
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = packages.NeedName
