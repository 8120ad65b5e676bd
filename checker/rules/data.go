package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/dd"
	"verif/checker/load"
	"verif/checker/prod"
	"verif/checker/uax"
)

const charpropsRel = "textseg/internal/charprops"

// evaluator computes functions of constants by abstract interpretation.
type evaluator struct {
	c    *Ctx
	p    *load.Program
	in   *absint.Interp
	memo map[string]any
	// nested evaluates what a function called for its result needs.
	nested *evaluator
	depth  int
}

func (c *Ctx) evaluator(p *load.Program) *evaluator {
	return c.evaluatorAt(p, 0)
}

func (c *Ctx) evaluatorAt(p *load.Program, depth int) *evaluator {
	e := &evaluator{c: c, p: p, in: c.newInterp(p, nil), memo: map[string]any{}, depth: depth}
	e.in.Fold = e.fold
	return e
}

// fold computes calls of well-known pure functions on constants.
func (e *evaluator) fold(fn *ssa.Function, args []any) (any, bool) {
	var plain []any // the arguments as the real function would take them
	for _, a := range args {
		switch a := a.(type) {
		case absint.Lin:
			plain = append(plain, a.K)
		case []any:
			list := []any{}
			for _, x := range a {
				v, ok := e.plain(x)
				if !ok {
					return nil, false
				}
				list = append(list, v)
			}
			plain = append(plain, list)
		default:
			plain = append(plain, a)
		}
	}
	strs := func(n int) ([]string, bool) {
		var out []string
		for _, a := range plain {
			s, ok := a.(string)
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, len(out) == n
	}
	switch fn.String() {
	case "fmt.Sprintf":
		if f, ok := plain[0].(string); ok {
			if l, ok := plain[1].([]any); ok {
				return fmt.Sprintf(f, l...), true
			}
		}
	case "fmt.Sprint":
		if l, ok := plain[0].([]any); ok {
			return fmt.Sprint(l...), true
		}
	case "strconv.Itoa":
		if n, ok := plain[0].(int64); ok {
			return strconv.FormatInt(n, 10), true
		}
	case "strconv.Quote":
		if s, ok := strs(1); ok {
			return strconv.Quote(s[0]), true
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		n, ok1 := plain[0].(int64)
		b, ok2 := plain[1].(int64)
		if ok1 && ok2 && n >= 0 && b >= 2 && b <= 36 {
			return strconv.FormatInt(n, int(b)), true
		}
	case "strings.ToUpper":
		if s, ok := strs(1); ok {
			return strings.ToUpper(s[0]), true
		}
	case "strings.ToLower":
		if s, ok := strs(1); ok {
			return strings.ToLower(s[0]), true
		}
	case "strings.TrimSpace":
		if s, ok := strs(1); ok {
			return strings.TrimSpace(s[0]), true
		}
	case "strings.TrimPrefix":
		if s, ok := strs(2); ok {
			return strings.TrimPrefix(s[0], s[1]), true
		}
	case "strings.TrimSuffix":
		if s, ok := strs(2); ok {
			return strings.TrimSuffix(s[0], s[1]), true
		}
	case "strings.HasPrefix":
		if s, ok := strs(2); ok {
			return strings.HasPrefix(s[0], s[1]), true
		}
	case "strings.HasSuffix":
		if s, ok := strs(2); ok {
			return strings.HasSuffix(s[0], s[1]), true
		}
	case "strings.ReplaceAll":
		if s, ok := strs(3); ok {
			return strings.ReplaceAll(s[0], s[1], s[2]), true
		}
	case "strings.Join":
		if l, ok := plain[0].([]any); ok {
			if sep, ok := plain[1].(string); ok {
				var ss []string
				for _, x := range l {
					s, ok := x.(string)
					if !ok {
						return nil, false
					}
					ss = append(ss, s)
				}
				return strings.Join(ss, sep), true
			}
		}
	}
	return nil, false
}

// shown is a constant of a named type as the fmt package would treat it.
type shown struct {
	text string // what its String method says
	num  any
}

func (s shown) Format(f fmt.State, verb rune) {
	switch verb {
	case 'd', 'b', 'o', 'O', 'c', 'U':
		fmt.Fprintf(f, fmt.FormatString(f, verb), s.num)
	default:
		if f.Flag('#') && verb == 'v' {
			fmt.Fprintf(f, fmt.FormatString(f, verb), s.num)
			return
		}
		fmt.Fprintf(f, fmt.FormatString(f, verb), s.text)
	}
}

// plain gives a constant as the fmt package would see it.
func (e *evaluator) plain(x any) (any, bool) {
	b, ok := x.(absint.Boxed)
	if !ok {
		if l, ok := x.(absint.Lin); ok {
			return l.K, true
		}
		return x, true
	}
	var num any = b.V
	if l, ok := b.V.(absint.Lin); ok {
		num = l.K
		if l.K >= 0 {
			num = uint64(l.K)
		}
	}
	switch num.(type) {
	case string, bool, int64, uint64:
	default:
		return nil, false
	}
	for _, special := range []string{"Format", "GoString", "Error"} {
		if e.c.method(e.p, b.Type, special) != nil {
			return nil, false
		}
	}
	m := e.c.method(e.p, b.Type, "String")
	if m == nil {
		return num, true
	}
	if e.depth >= 4 {
		return nil, false
	}
	if e.nested == nil {
		e.nested = e.c.evaluatorAt(e.p, e.depth+1)
	}
	e.nested.in.EnsureBuilt(m)
	arg := b.V
	if l, ok := arg.(absint.Lin); ok {
		arg = l.K
	}
	v, prob := e.nested.call(m, arg)
	if prob != "" {
		return nil, false
	}
	s, ok := v[0].(string)
	if !ok {
		return nil, false
	}
	return shown{s, num}, true
}

// call evaluates fn for constant arguments; every path must return the same
// constants. Terminal values are absint.Lin, bool, string and so on.
func (e *evaluator) call(fn *ssa.Function, args ...any) ([]any, string) {
	key := fmt.Sprint(fn.String(), args)
	if v, ok := e.memo[key]; ok {
		if s, bad := v.(string); bad {
			return nil, s
		}
		return v.([]any), ""
	}
	res, prob := e.call1(fn, args...)
	if prob != "" {
		e.memo[key] = prob
	} else {
		e.memo[key] = res
	}
	return res, prob
}

func (e *evaluator) call1(fn *ssa.Function, args ...any) ([]any, string) {
	m := e.in.M
	var vals []absint.Val
	for _, a := range args {
		switch a := a.(type) {
		case int64:
			vals = append(vals, m.Term(absint.Num(a)))
		default:
			vals = append(vals, m.Term(a))
		}
	}
	an := e.in.Analyse(fn, vals)
	if an.Failed != "" {
		return nil, an.Failed
	}
	var out []any
	for _, x := range an.Ctxs {
		for _, o := range x.Out {
			if o.Guard == m.False {
				continue
			}
			switch o.Kind {
			case absint.Continue:
				continue
			case absint.Panic:
				return nil, "panics: " + o.Reason
			case absint.Undecided:
				return nil, "not decided: " + o.Reason
			}
			var vs []any
			for _, v := range o.Vals {
				d, ok := v.(dd.Ref)
				if !ok {
					return nil, "a composite result"
				}
				ts := m.Terms(m.Under(o.Guard, d))
				var only any
				n := 0
				for _, t := range ts {
					if t != m.Undef {
						only = m.Value(t)
						n++
					}
				}
				if n != 1 {
					return nil, "the result is not a constant"
				}
				vs = append(vs, only)
			}
			if out != nil && fmt.Sprint(out) != fmt.Sprint(vs) {
				return nil, "the result is not a constant"
			}
			out = vs
		}
	}
	if out == nil {
		return nil, "never returns"
	}
	return out, ""
}

// codes knows how the library encodes property values.
type codes struct {
	e                   *evaluator
	gcbT, incbT, cpT    types.Type
	lookG, lookE, lookI *ssa.Function
	unpackG, unpackI    *ssa.Function
	strG, strI          *ssa.Function
	errorCode           int64
	gcb, incb           map[string]int64 // by pinned name; "" is none
}

var gcbNames = []string{"CR", "Control", "Extend", "L", "LF", "LV", "LVT", "Prepend", "Regional_Indicator", "SpacingMark", "T", "V", "ZWJ"}
var emojiNames = []string{"Extended_Pictographic"}
var incbNames = []string{"Consonant", "Extend", "Linker"}

func (c *Ctx) method(p *load.Program, t types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (c *Ctx) codes(p *load.Program) *codes {
	k := &codes{e: c.evaluator(p), gcb: map[string]int64{}, incb: map[string]int64{}}
	pkg := c.Pkg(p, charpropsRel)
	typ := func(name string) types.Type {
		o := pkg.Pkg.Scope().Lookup(name)
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
		fatalf("anchor", "type charprops.%s not found", name)
		return nil
	}
	k.gcbT, k.incbT, k.cpT = typ("GCBProperty"), typ("InCBProperty"), typ("CharProperties")
	k.lookG, k.lookE, k.lookI = c.Func(p, charpropsRel, "LookupGCBProperty"), c.Func(p, charpropsRel, "LookupEmojiProperty"), c.Func(p, charpropsRel, "LookupInCBProperty")
	need := func(t types.Type, name string) *ssa.Function {
		fn := c.method(p, t, name)
		if fn == nil {
			fatalf("anchor", "method %s.%s not found", t, name)
		}
		k.e.in.EnsureBuilt(fn)
		return fn
	}
	k.unpackG, k.unpackI = need(k.cpT, "GCBProperty"), need(k.cpT, "InCBProperty")
	k.strG, k.strI = need(k.gcbT, "String"), need(k.incbT, "String")
	ec, ok := pkg.Pkg.Scope().Lookup("Error").(*types.Const)
	if !ok {
		fatalf("anchor", "constant charprops.Error not found")
	}
	k.errorCode, _ = constant.Int64Val(constant.ToInt(ec.Val()))
	return k
}

// lookup evaluates a name lookup.
func (k *codes) lookup(fn *ssa.Function, name any) (int64, string) {
	v, prob := k.e.call(fn, name)
	if prob != "" {
		return 0, prob
	}
	return asNum(v[0])
}

func asNum(v any) (int64, string) {
	if l, ok := v.(absint.Lin); ok && l.IsConst() {
		return l.K, ""
	}
	return 0, fmt.Sprintf("the result is %v", v)
}

// resolve evaluates the codes of the pinned names.
func (k *codes) resolve() {
	get := func(fn *ssa.Function, name any) int64 {
		v, prob := k.lookup(fn, name)
		if prob != "" {
			fatalf("undecided", "%s(%v): %s", fnName(fn), name, prob)
		}
		return v
	}
	for _, n := range gcbNames {
		k.gcb[n] = get(k.lookG, n)
	}
	for _, n := range emojiNames {
		k.gcb[n] = get(k.lookE, n)
	}
	for _, n := range incbNames {
		k.incb[n] = get(k.lookI, n)
	}
	unknown := func(fn *ssa.Function) int64 {
		if v, prob := k.lookup(fn, absint.OtherStr{}); prob == "" {
			return v
		}
		return get(fn, "?") // whether all other names get the same code is for C10
	}
	k.gcb[""], k.incb[""] = unknown(k.lookG), unknown(k.lookI)
}

// unpack takes a combined code apart.
func (k *codes) unpack(cp int64) (g, i int64, prob string) {
	v, prob := k.e.call(k.unpackG, cp)
	if prob == "" {
		g, prob = asNum(v[0])
	}
	if prob != "" {
		return 0, 0, prob
	}
	v, prob = k.e.call(k.unpackI, cp)
	if prob == "" {
		i, prob = asNum(v[0])
	}
	return g, i, prob
}

func checkLookupTable(c *Ctx, r *Report) {
	p := c.Main()
	k := c.codes(p)
	k.resolve()
	t := uax.Load()
	fn := c.Func(p, charpropsRel, "LookupFirstChar")
	where := c.rel(p.Prog.Fset.Position(fn.Pos()).String())
	s := fn.Signature
	if s.Params().Len() != 1 || s.Results().Len() != 2 || s.Params().At(0).Type().Underlying().String() != "[]byte" {
		fatalf("anchor", "LookupFirstChar has the signature %s", s)
	}
	eff := c.Effects(p, c.apiRoots(p))
	in := c.newInterp(p, func(g *ssa.Global) bool { return eff.mutable(g) })
	m := in.M
	data := absint.Slice{Obj: absint.InputObj, Lo: absint.Num(0), Hi: absint.Lin{R: 1}, Max: absint.Lin{R: 1, E: 1}}
	an := in.Analyse(fn, []absint.Val{m.Term(data)})
	if an.Failed != "" {
		r.Fail("undecided", "fixpoint", where, "no fixpoint: %s", an.Failed)
		return
	}
	items := prod.NewSpec(in, t, true).Items()
	sofar := m.False
	outs := 0
	for _, x := range an.Ctxs {
		for _, o := range x.Out {
			outs++
			if o.Kind == absint.Continue || x.ID != 0 {
				r.Fail("undecided", "loop", where, "the lookup does not come to an end within a bounded number of steps (%s)", x.Desc)
				return
			}
			chars := m.WhereFn(items, func(v any) bool { _, _, ok := prod.CharItem(v); return ok })
			g := m.Exists(m.And(m.And(o.Guard, in.RIn(absint.AllR)), chars), 400, 1<<29)
			if g == m.False {
				continue
			}
			pos := c.rel(in.Prog.Fset.Position(o.Pos).String())
			if o.Kind != absint.Return {
				r.Add(Finding{Rule: "lookup", Key: "lookup|" + o.Kind.String(), Where: pos, What: fmt.Sprintf("for a well-formed character the lookup does not return (%s: %s)", o.Kind, o.Reason), Witness: prod.Example(m, g)})
				continue
			}
			sofar = m.Or(sofar, g)
			props, ok1 := o.Vals[0].(dd.Ref)
			length, ok2 := o.Vals[1].(dd.Ref)
			if !ok1 || !ok2 {
				r.Fail("undecided", "result", pos, "the results are not scalars")
				continue
			}
			type bad struct{ what string }
			verdict := m.Bind2(nil, m.Under(g, items), m.Under(g, length), func(iv, lv any) dd.Ref {
				_, n, _ := prod.CharItem(iv)
				l, ok := lv.(absint.Lin)
				if !ok || l != absint.Num(int64(n)) {
					return m.Term(bad{fmt.Sprintf("a character encoded in %d bytes is given the length %v", n, lv)})
				}
				return m.True
			})
			v2 := m.Bind2(nil, m.Under(g, items), m.Under(g, props), func(iv, pv any) dd.Ref {
				cls, _, _ := prod.CharItem(iv)
				cl := t.Classes[cls]
				l, ok := pv.(absint.Lin)
				if !ok || !l.IsConst() {
					return m.Term(bad{fmt.Sprintf("the properties of a character of class %s are not determined (%v)", cl, pv)})
				}
				gc, ic, prob := k.unpack(l.K)
				switch {
				case prob != "":
					return m.Term(bad{fmt.Sprintf("unpacking the properties %#x: %s", l.K, prob)})
				case gc != k.gcb[cl.GCB] || ic != k.incb[cl.InCB]:
					return m.Term(bad{fmt.Sprintf("a character of class %s is given the properties %s", cl, k.show(gc, ic))})
				}
				return m.True
			})
			for _, d := range []dd.Ref{verdict, v2} {
				for _, tm := range m.Terms(d) {
					if b, isBad := m.Value(tm).(bad); isBad {
						w := m.And(g, m.Where(d, tm))
						r.Add(Finding{Rule: "lookup", Key: "lookup|" + b.what, Where: pos, What: b.what, Witness: prod.Example(m, w)})
					}
				}
			}
		}
	}
	// Every character is answered.
	chars := m.WhereFn(items, func(v any) bool { _, _, ok := prod.CharItem(v); return ok })
	if rest := m.And(m.And(chars, in.RIn(absint.AllR)), m.Not(sofar)); rest != m.False && len(r.Findings) == 0 {
		r.Add(Finding{Rule: "lookup", Key: "lookup|unanswered", Where: where, What: "a well-formed character is not answered", Witness: prod.Example(m, rest)})
	}
	n := 0
	for v := rune(0); v <= 0x10FFFF; v++ {
		if v < 0xD800 || v > 0xDFFF {
			n++
		}
	}
	r.Ob(2 * n)
	r.Note("scalar_values", n)
	r.Note("outcomes", outs)
	r.Note("decision_diagram_nodes", m.Size())
	r.Note("classes", len(t.Classes))
	r.Rules = append(r.Rules, "On every feasible path of LookupFirstChar on a buffer that begins with a complete scalar value, the length is that of its encoding and the properties unpack to the codes of its pinned Unicode 17 values.")
	r.Assume = append(r.Assume, "The pinned Unicode 17 classes in checker/uax are right.", "go/ssa represents the source faithfully.")
}

func (k *codes) show(g, i int64) string {
	name := func(m map[string]int64, v int64) string {
		var ns []string
		for n, c := range m {
			if c == v {
				if n == "" {
					n = "none"
				}
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		if len(ns) == 0 {
			return fmt.Sprintf("%#x", v)
		}
		return strings.Join(ns, "/")
	}
	return "GCB=" + name(k.gcb, g) + " InCB=" + name(k.incb, i)
}

// stringConsts collects the string constants that a package mentions.
func stringConsts(sp *ssa.Package, prog *ssa.Program) []string {
	set := map[string]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if cst, ok := (*op).(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.String {
						set[constant.StringVal(cst.Value)] = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, mem := range sp.Members {
		switch mem := mem.(type) {
		case *ssa.Function:
			visit(mem)
		case *ssa.Type:
			for _, t := range []types.Type{mem.Type(), types.NewPointer(mem.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if fn := prog.MethodValue(ms.At(i)); fn != nil && fn.Pkg == sp {
						visit(fn)
					}
				}
			}
		}
	}
	return sortedKeys(set)
}

// near lists names that differ slightly from the given ones.
func near(names []string) []string {
	set := map[string]bool{"?": true, strings.Repeat("Z", 300): true}
	for b := 0; b < 256; b++ {
		set[string([]byte{byte(b)})] = true
	}
	for _, n := range names {
		set[n+n], set[strings.ToLower(n)], set[strings.ToUpper(n)] = true, true, true
		for i := 0; i <= len(n); i++ {
			set[n[:i]], set[n[i:]] = true, true
			for _, ins := range []string{"x", " ", "_", "\x00", "E"} {
				set[n[:i]+ins+n[i:]] = true
				if i < len(n) {
					set[n[:i]+ins+n[i+1:]] = true
				}
			}
			if i < len(n) {
				set[n[:i]+n[i+1:]] = true
			}
		}
		for _, o := range names {
			if len(n) > 0 && len(o) > 0 {
				set[n[:1]+o[1:]] = true
			}
		}
	}
	return sortedKeys(set)
}

func checkEncoding(c *Ctx, r *Report) {
	p := c.Main()
	k := c.codes(p)
	sp := c.Pkg(p, charpropsRel)
	cands := map[string]bool{"": true}
	for _, s := range stringConsts(sp, p.Prog) {
		cands[s] = true
	}
	for _, l := range [][]string{gcbNames, emojiNames, incbNames} {
		for _, n := range l {
			cands[n] = true
		}
	}
	posOf := func(fn *ssa.Function) string { return c.rel(p.Prog.Fset.Position(fn.Pos()).String()) }
	type entry struct {
		name string
		code int64
		fn   *ssa.Function
	}
	known := func(must []string, fns ...*ssa.Function) (out []entry, none int64) {
		for _, fn := range fns {
			z, prob := k.lookup(fn, absint.OtherStr{})
			r.Ob(1)
			if strings.HasPrefix(prob, "not decided") {
				// What is examined is not only equality with known names:
				// names close to the known ones stand for the unknown.
				z, prob = 0, ""
				for _, n := range near(sortedKeys(cands)) {
					if cands[n] {
						continue
					}
					v, p := k.lookup(fn, n)
					r.Ob(1)
					r.Count("unknown_names_tried", 1)
					if p != "" || v != 0 {
						z, prob = v, p
						break
					}
				}
			}
			switch {
			case prob != "":
				r.Fail("lookup", fn.Name()+"|unknown", posOf(fn), "an unknown name: %s", prob)
				continue
			case z != 0:
				r.Fail("lookup", fn.Name()+"|unknown", posOf(fn), "an unknown name is given the code %#x", z)
			}
			for _, n := range sortedKeys(cands) {
				v, prob := k.lookup(fn, n)
				r.Ob(1)
				if prob != "" {
					r.Fail("lookup", fn.Name()+"|"+n, posOf(fn), "the name %q: %s", n, prob)
					continue
				}
				if v != z {
					out = append(out, entry{n, v, fn})
				}
			}
		}
		for _, n := range must {
			found := 0
			for _, x := range out {
				if x.name == n {
					found++
				}
			}
			r.Ob(1)
			if found != 1 {
				r.Fail("lookup", "known|"+n, posOf(fns[0]), "the Unicode property value %s is known %d times", n, found)
			}
		}
		for i, x := range out {
			for _, y := range out[:i] {
				r.Ob(1)
				if x.code == y.code {
					r.Fail("distinct", x.name+"|"+y.name, posOf(x.fn), "%s and %s have the same code %#x", y.name, x.name, x.code)
				}
			}
		}
		return out, 0
	}
	gs, _ := known(append(append([]string{}, gcbNames...), emojiNames...), k.lookG, k.lookE)
	is, _ := known(incbNames, k.lookI)
	r.Note("break_classes", len(gs))
	r.Note("conjunct_classes", len(is))
	if len(r.Findings) > 0 && (len(gs) == 0 || len(is) == 0) {
		return
	}
	// Names.
	str := func(fn *ssa.Function, es []entry) {
		for _, x := range es {
			v, prob := k.e.call(fn, x.code)
			r.Ob(1)
			switch {
			case prob != "":
				r.Fail("name", x.name, posOf(fn), "printing %s: %s", x.name, prob)
			case v[0] != any(x.name):
				r.Fail("name", x.name, posOf(fn), "%s is printed as %v", x.name, v[0])
			}
		}
	}
	str(k.strG, gs)
	str(k.strI, is)
	// The text of a combination. Where it cannot be computed nothing is said.
	if fn := c.method(p, k.cpT, "String"); fn != nil {
		k.e.in.EnsureBuilt(fn)
		was := map[string]string{}
		see := func(what string, code int64, names ...string) {
			r.Ob(1)
			v, prob := k.e.call(fn, code)
			if strings.HasPrefix(prob, "panics") {
				r.Fail("name", "pair|"+what, posOf(fn), "printing %s: %s", what, prob)
			}
			if prob != "" {
				return
			}
			text, ok := v[0].(string)
			if !ok {
				return
			}
			r.Count("pair_texts", 1)
			words := strings.FieldsFunc(text, func(c rune) bool {
				return !(c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z')
			})
			for _, n := range names {
				i := slices.Index(words, n)
				if i < 0 {
					r.Fail("name", "pair|"+what, posOf(fn), "%s is printed as %q, which does not name %s", what, text, n)
					return
				}
				words = slices.Delete(words, i, i+1)
			}
			if other, dup := was[text]; dup {
				r.Fail("name", "pair|"+what, posOf(fn), "%s is printed as %q, as is %s", what, text, other)
				return
			}
			was[text] = what
		}
		see("the marker for malformed input", k.errorCode)
		see("a character with neither property", 0)
		for _, g := range gs {
			see(g.name, g.code, g.name)
		}
		for _, i := range is {
			see("InCB "+i.name, i.code, i.name)
			for _, g := range gs {
				see(g.name+" with InCB "+i.name, (g.code|i.code)&0xff, g.name, i.name)
			}
		}
	}
	// Combining and taking apart.
	gs0 := append([]entry{{name: "none"}}, gs...)
	is0 := append([]entry{{name: "none"}}, is...)
	combine := func(how string, at *ssa.Function, f func(g, i int64) (int64, string)) {
		for _, g := range gs0 {
			for _, i := range is0 {
				r.Ob(2)
				cp, prob := f(g.code, i.code)
				if prob != "" {
					r.Fail("combine", how+"|"+g.name+"|"+i.name, posOf(at), "combining %s and %s by %s: %s", g.name, i.name, how, prob)
					continue
				}
				g2, i2, prob := k.unpack(cp)
				switch {
				case prob != "":
					r.Fail("combine", how+"|"+g.name+"|"+i.name, posOf(k.unpackG), "taking apart %s+%s: %s", g.name, i.name, prob)
				case g2 != g.code:
					r.Fail("combine", how+"|gcb|"+g.name+"|"+i.name, posOf(k.unpackG), "%s combined with %s by %s comes back as the break class %#x instead of %#x", g.name, i.name, how, g2, g.code)
				case i2 != i.code:
					r.Fail("combine", how+"|incb|"+g.name+"|"+i.name, posOf(k.unpackI), "%s combined with %s by %s comes back as the conjunct class %#x instead of %#x", g.name, i.name, how, i2, i.code)
				}
				if cp == k.errorCode {
					r.Fail("error marker", how+"|"+g.name+"|"+i.name, posOf(at), "%s with %s has the code %#x of the marker for malformed input", g.name, i.name, cp)
				}
			}
		}
	}
	combine("bitwise or", k.unpackG, func(g, i int64) (int64, string) { return (g | i) & 0xff, "" })
	nf := 0
	for _, mem := range sortedMembers(sp) {
		fn, ok := mem.(*ssa.Function)
		if !ok || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), k.cpT) {
			continue
		}
		var gi, ii []int
		fits := true
		ps := fn.Signature.Params()
		for j := 0; j < ps.Len(); j++ {
			switch {
			case types.Identical(ps.At(j).Type(), k.gcbT):
				gi = append(gi, j)
			case types.Identical(ps.At(j).Type(), k.incbT):
				ii = append(ii, j)
			default:
				fits = false
			}
		}
		if !fits || len(gi) == 0 || len(ii) != 1 {
			continue
		}
		k.e.in.EnsureBuilt(fn)
		for _, at := range gi {
			nf++
			combine(fmt.Sprintf("%s (argument %d)", fn.Name(), at+1), fn, func(g, i int64) (int64, string) {
				args := make([]any, ps.Len())
				for j := range args {
					args[j] = int64(0)
				}
				args[at], args[ii[0]] = g, i
				v, prob := k.e.call(fn, args...)
				if prob != "" {
					return 0, prob
				}
				return asNum(v[0])
			})
		}
	}
	r.Note("combining_functions", nf)
	r.Rules = append(r.Rules,
		"Name lookups, printing, combining and unpacking are evaluated by abstract interpretation for every known name, every string constant of the package and a string different from all of them, and for every pair of codes.",
		"Codes are distinct, names round-trip, pairs round-trip, and the marker for malformed input is no pair.")
	r.Assume = append(r.Assume, "go/ssa represents the source faithfully.")
}

func sortedMembers(sp *ssa.Package) []ssa.Member {
	var out []ssa.Member
	for _, n := range sortedKeys(sp.Members) {
		out = append(out, sp.Members[n])
	}
	return out
}

// dataLine is an assignment in a Unicode data file.
type dataLine struct {
	lo, hi rune
	fields []string
	line   int
}

func readData(path string) (lines []dataLine, problems []string, version map[string]bool) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, []string{err.Error()}, nil
	}
	return parseData(string(data))
}

var stated = regexp.MustCompile(`(?i)^#\s*(?:[A-Za-z0-9_]+-([0-9]+)\.[0-9.]+\.txt|(?:version|used with emoji version):?\s*([0-9]+)\.[0-9.]*)`)

func parseData(text string) (lines []dataLine, problems []string, versions map[string]bool) {
	versions = map[string]bool{}
	for i, l := range strings.Split(text, "\n") {
		if m := stated.FindStringSubmatch(l); m != nil && i < 40 {
			versions[m[1]+m[2]] = true
		}
		l, _, _ = strings.Cut(l, "#")
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		fs := strings.Split(l, ";")
		if len(fs) < 2 {
			continue
		}
		for j := range fs {
			fs[j] = strings.TrimSpace(fs[j])
		}
		a, b, isRange := strings.Cut(fs[0], "..")
		if !isRange {
			b = a
		}
		lo, err1 := strconv.ParseUint(a, 16, 32)
		hi, err2 := strconv.ParseUint(b, 16, 32)
		if err1 != nil || err2 != nil || lo > 0x10FFFF || hi > 0x10FFFF || lo > hi {
			problems = append(problems, fmt.Sprintf("line %d: malformed code point field %q", i+1, fs[0]))
			continue
		}
		lines = append(lines, dataLine{rune(lo), rune(hi), fs[1:], i + 1})
	}
	return
}

func checkData(c *Ctx, r *Report) {
	p := c.Main()
	k := c.codes(p)
	t := uax.Load()
	major := ""
	if i := strings.LastIndex(c.ModulePath(), "/v"); i >= 0 {
		major = c.ModulePath()[i+2:]
	} else {
		fatalf("anchor", "the module path %s carries no major version", c.ModulePath())
	}
	dir := filepath.Join(c.Repo, charpropsRel, "ucd")
	var files []string
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && strings.HasSuffix(path, ".txt") && !strings.HasPrefix(filepath.Base(path), "license") {
			files = append(files, path)
		}
		return nil
	})
	sort.Strings(files)
	find := func(base string) string {
		var hit []string
		for _, f := range files {
			if filepath.Base(f) == base {
				hit = append(hit, f)
			}
		}
		if len(hit) != 1 {
			fatalf("anchor", "%d data files named %s under %s", len(hit), base, c.rel(dir))
		}
		return hit[0]
	}
	for _, f := range files {
		_, _, vs := readData(f)
		r.Ob(1)
		got := sortedKeys(vs)
		if len(got) != 1 || got[0] != major {
			r.Fail("version", filepath.Base(f), c.rel(f), "the file states the Unicode major version %v, the module path says %s", got, major)
		}
	}
	r.Note("files", len(files))
	if major != "17" {
		r.Fail("version", "module", "go.mod", "the module's major version is %s", major)
	}
	type prop struct {
		file  string
		pick  func(f []string) (string, bool)
		names map[string]bool
		look  *ssa.Function
		of    func(uax.Class) string
		all   []string
	}
	set := func(l []string) map[string]bool {
		m := map[string]bool{}
		for _, x := range l {
			m[x] = true
		}
		return m
	}
	first := func(f []string) (string, bool) { return f[0], true }
	props := []prop{
		{"GraphemeBreakProperty.txt", first, nil, k.lookG, func(cl uax.Class) string {
			if cl.GCB == "Extended_Pictographic" {
				return ""
			}
			return cl.GCB
		}, gcbNames},
		{"emoji-data.txt", func(f []string) (string, bool) { return f[0], f[0] == "Extended_Pictographic" }, nil, k.lookE, func(cl uax.Class) string {
			if cl.GCB == "Extended_Pictographic" {
				return cl.GCB
			}
			return ""
		}, emojiNames},
		{"DerivedCoreProperties.txt", func(f []string) (string, bool) {
			if len(f) >= 2 && f[0] == "InCB" {
				return f[1], true
			}
			return "", false
		}, nil, k.lookI, func(cl uax.Class) string { return cl.InCB }, incbNames},
	}
	for _, pr := range props {
		f := find(pr.file)
		lines, problems, _ := readData(f)
		for _, q := range problems {
			r.Fail("syntax", pr.file+"|"+q, c.rel(f), "%s", q)
		}
		vals := make([]string, 0x110000)
		used := map[string]int{}
		for _, l := range lines {
			n, ok := pr.pick(l.fields)
			if !ok {
				continue
			}
			r.Count("assignments", 1)
			if _, seen := used[n]; !seen {
				used[n] = l.line
			}
			for v := l.lo; v <= l.hi; v++ {
				if vals[v] != "" && vals[v] != n {
					r.Fail("conflict", fmt.Sprintf("%s|%04X", pr.file, v), fmt.Sprintf("%s:%d", c.rel(f), l.line), "U+%04X is assigned both %s and %s", v, vals[v], n)
				}
				vals[v] = n
			}
		}
		for _, n := range sortedKeys(used) {
			r.Ob(1)
			v, prob := k.lookup(pr.look, n)
			if prob != "" || v == 0 {
				r.Fail("understood", pr.file+"|"+n, fmt.Sprintf("%s:%d", c.rel(f), used[n]), "the property value %s is not understood by %s (%s)", n, pr.look.Name(), prob)
			}
			if !set(pr.all)[n] {
				r.Fail("assignments", pr.file+"|name|"+n, fmt.Sprintf("%s:%d", c.rel(f), used[n]), "Unicode 17 has no property value %s here", n)
			}
		}
		r.Ob(0x110000)
		bad := 0
		for v := rune(0); v <= 0x10FFFF; v++ {
			want := pr.of(t.Classes[t.Of(v)])
			if v >= 0xD800 && v <= 0xDFFF {
				want = ""
				if t.Of(v) != 0 {
					want = pr.of(t.Classes[t.Of(v)])
				}
			}
			if vals[v] != want {
				bad++
				if bad <= 20 {
					r.Fail("assignments", fmt.Sprintf("%s|%04X", pr.file, v), c.rel(f), "U+%04X is assigned %q, Unicode 17 has %q", v, vals[v], want)
				}
			}
		}
	}
	r.Rules = append(r.Rules,
		"For each of the 1,114,112 code points, the bundled files' assignments of the three properties equal the pinned Unicode 17.0 assignments.",
		"Each data file states the module path's major version and no other.",
		"Each assigned value name has a non-empty code in the matching name lookup (evaluated by abstract interpretation).")
	r.Assume = append(r.Assume, "The pinned Unicode 17 assignments in checker/uax are right.")
}

func init() {
	register("C08", "Abstract interpretation of LookupFirstChar over a symbolic buffer gives its two results as decision diagrams over the leading bytes and the length; they are compared with a diagram of the UTF-8 encodings and pinned Unicode 17 classes of all scalar values, through the library's own unpacking and name lookup functions.", checkLookupTable)
	register("C09", "The data files are read as the source artefacts they are and compared, code point by code point, with the pinned Unicode 17 assignments; their headers and value names are checked against the module path and the library's name lookups.", checkData)
	register("C10", "The small encoding functions are evaluated by abstract interpretation over their whole finite domain of names and codes.", checkEncoding)
}
