package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text that comes from a line of input is described by terms: raw is the line,
// and other terms say which part of another term they are. Trimming of space
// does not make a new term.

type eTerm struct {
	op     string // before, after, split, elem, elemvar, or others
	sep    string
	parent string
	list   string // of a split: the object that holds the list
}

func (x *errflow) term(op, sep, parent string) string {
	t := fmt.Sprintf("%s(%q,%s)", op, sep, parent)
	if len(t) > 300 {
		t = "long"
	}
	if x.terms == nil {
		x.terms = map[string]*eTerm{}
	}
	if x.terms[t] == nil {
		x.terms[t] = &eTerm{op: op, sep: sep, parent: parent}
	}
	return t
}

func textTerm(v any) (string, bool) {
	switch w := v.(type) {
	case evBytes:
		return w.term, true
	case evTaint:
		return w.term, true
	}
	return "", false
}

// partial explains why a term does not cover its whole field.
func partial(term string) string {
	for _, op := range []string{"fields", "const-slice", "trim-set", "trim-prefix", "replace"} {
		if strings.Contains(term, op+"(") {
			return op
		}
	}
	return ""
}

// rawLevel says whether a term is a whole line apart from comments.
func (x *errflow) rawLevel(t string) bool {
	for t != "raw" {
		i := x.terms[t]
		if i == nil || i.sep != "#" || i.op != "before" && i.op != "elem0" {
			return false
		}
		t = i.parent
	}
	return true
}

// sepOf is the separator that a value is, if known.
func (x *errflow) sepOf(st *eState, v any) (string, bool) {
	switch w := v.(type) {
	case evStr:
		return string(w), true
	case evInt:
		if w > 0 && w < 0x110000 {
			return string(rune(w)), true
		}
	case evSlice:
		if w.n <= 0 || w.n > 8 {
			return "", false
		}
		var b []byte
		for i := 0; i < w.n; i++ {
			c, ok := st.heap[w.obj][fmt.Sprintf("%s[%d]", w.path, i)].(evInt)
			if !ok {
				return "", false
			}
			b = append(b, byte(c))
		}
		return string(b), true
	}
	return "", false
}

// newLine is called before the next line is read.
func (x *errflow) newLine(st *eState, at ssa.Instruction) {
	if !x.text {
		return
	}
	if st.pending != "" && !st.noField() {
		x.report(st, "skip", st.pending, st.pendingAt, "%s: a line can be skipped here depending on its text before its code point field is converted, although it may have a malformed one", st.pending)
	}
	st.facts, st.parsed, st.pending = map[string]bool{}, map[string]bool{}, ""
	for k := range st.nums {
		if strings.HasPrefix(k, "len ") || strings.HasPrefix(k, "idx ") {
			delete(st.nums, k)
		}
	}
}

// noField says whether the current line is known to have no fields.
func (s *eState) noField() bool {
	for k, v := range s.facts {
		if !v && strings.HasPrefix(k, ";|") {
			return true
		}
	}
	return false
}

// textBranch is called for a branch on text of the line.
func (x *errflow) textBranch(st *eState, at *ssa.If, t evTaint) {
	if len(st.parsed) > 0 || st.pending != "" {
		return
	}
	switch {
	case x.rawLevel(t.term) && (t.what == "empty" || t.what == "is #"):
		return
	case t.what == "empty" && x.terms[t.term] != nil && x.terms[t.term].op == "split" && !strings.ContainsAny(x.terms[t.term].sep, "#;"):
		return
	}
	st.pending = at.Parent().String()
	st.pendingAt = x.c.rel(x.p.Prog.Fset.Position(condPos(at)).String())
}

func condPos(at *ssa.If) token.Pos {
	if at.Cond.Pos().IsValid() {
		return at.Cond.Pos()
	}
	for _, ins := range at.Block().Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	return at.Parent().Pos()
}

// textCompare is the result of an operation on text values.
func textCompare(y *ssa.BinOp, a, b any) any {
	t, ok := textTerm(a)
	if !ok {
		if t, ok = textTerm(b); !ok {
			return nil
		}
		a, b = b, a
	}
	r := evTaint{term: t}
	cmp := false
	switch y.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		cmp = true
	}
	if !cmp {
		return r
	}
	switch w := b.(type) {
	case evStr:
		if w == "" {
			r.what = "empty"
		} else {
			r.what = "is " + string(w)
		}
	case evInt:
		if k, ok := a.(evTaint); ok && k.what == "len" {
			if w == 0 || w == 1 && (y.Op == token.LSS || y.Op == token.GEQ || y.Op == token.GTR || y.Op == token.LEQ) {
				r.what = "empty"
			}
		} else if w > 0 && w < 128 && (y.Op == token.EQL || y.Op == token.NEQ) {
			r.what = "is " + string(rune(w))
		}
	case evNil:
		r.what = "empty"
	}
	return r
}

// slicing is a part of a text that is selected by indices.
func (x *errflow) slicing(st *eState, f *eFrame, y *ssa.Slice, p evBytes) any {
	var bounds [2]any
	for i, b := range []ssa.Value{y.Low, y.High} {
		if b != nil {
			bounds[i] = x.val(st, f, b)
		}
	}
	if k, ok := bounds[0].(evInt); ok && k == 0 {
		bounds[0] = nil
	}
	idx := func(v any) (sep string, off int64, ok bool) {
		n, is := v.(evNum)
		if !is || !strings.HasPrefix(n.src, "idx ") {
			return "", 0, false
		}
		rest := n.src[4:]
		i := strings.Index(rest, "|")
		if rest[i+1:] != p.term {
			return "", 0, false
		}
		return rest[:i], n.off, true
	}
	if y.Low == nil || bounds[0] == nil {
		if sep, off, ok := idx(bounds[1]); ok && off == 0 {
			return evBytes{x.term("before", sep, p.term)}
		}
	}
	if y.High == nil {
		if sep, off, ok := idx(bounds[0]); ok && off == int64(len(sep)) {
			return evBytes{x.term("after", sep, p.term)}
		}
	}
	op := "slice"
	for _, b := range []ssa.Value{y.Low, y.High} {
		if k, ok := b.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() != 0 {
			op = "const-slice"
		}
	}
	return evBytes{x.term(op, "", p.term)}
}

// element is an element of a list of parts.
func (x *errflow) element(st *eState, f *eFrame, ia *ssa.IndexAddr, b evBytes) any {
	t := x.terms[b.term]
	if t == nil || t.op != "split" {
		return b
	}
	if k, ok := ia.Index.(*ssa.Const); ok {
		return evBytes{x.term(fmt.Sprintf("elem%d", k.Int64()), t.sep, b.term)}
	}
	if n, ok := x.val(st, f, ia.Index).(evNum); ok && strings.HasPrefix(n.src, "len ") {
		return evBytes{x.term("elemvar", t.sep, b.term)}
	}
	return b
}

// plainText is the result of a call about which nothing is known.
func (x *errflow) plainText(st *eState, f *eFrame, call ssa.CallInstruction, args []any, mode string) ([]*eState, bool) {
	out, fk := x.plain(st, f, call, mode)
	v, ok := call.(ssa.Value)
	if !x.text || !ok || mode != "value" {
		return out, fk
	}
	term, found := "", false
	for _, a := range args {
		if t, ok := textTerm(a); ok {
			term, found = t, true
			break
		}
	}
	if !found {
		return out, fk
	}
	fix := func(s *eState) {
		env := s.top().env
		switch r := env[v].(type) {
		case nil:
			env[v] = x.unknownPart(v, term)
		case evTup:
			n := append(evTup(nil), r...)
			for i := range n {
				if n[i] == nil {
					n[i] = evTaint{term: term}
				}
			}
			env[v] = n
		}
	}
	if !fk {
		fix(st)
		return out, fk
	}
	for _, s := range out {
		fix(s)
	}
	return out, fk
}

func (x *errflow) unknownPart(v ssa.Value, term string) any {
	if isStr(v.Type()) || v.Type().String() == "[]byte" {
		return evBytes{x.term("part", "", term)}
	}
	return evTaint{term: term}
}

// textCall models functions of bytes and strings on line-derived text.
func (x *errflow) textCall(st *eState, call ssa.CallInstruction, fn *ssa.Function, args []any, put func(*eState, any)) (out []*eState, forked, ok bool) {
	if fn.Signature.Recv() != nil || len(args) == 0 {
		return nil, false, false
	}
	b, isText := args[0].(evBytes)
	if !isText {
		return nil, false, false
	}
	one := func(op string) evBytes { return evBytes{x.term(op, "", b.term)} }
	done := func(r any) ([]*eState, bool, bool) {
		put(st, r)
		return nil, false, true
	}
	sep, known := "", false
	if len(args) > 1 {
		sep, known = x.sepOf(st, args[1])
	}
	// fork splits the state by whether the text contains the separator.
	fork := func(yes, no any) ([]*eState, bool, bool) {
		k := sep + "|" + b.term
		if v, have := st.facts[k]; have {
			if v {
				return done(yes)
			}
			return done(no)
		}
		s := st.fork()
		s.facts[k] = false
		put(s, no)
		st.facts[k] = true
		put(st, yes)
		return []*eState{st, s}, true, true
	}
	switch fn.Name() {
	case "TrimSpace", "Clone", "ToUpper", "ToLower":
		return done(b)
	case "TrimRight", "TrimLeft", "Trim":
		if known && strings.Trim(sep, " \t\r\n\v\f") == "" {
			return done(b)
		}
		return done(one("trim-set"))
	case "TrimFunc", "TrimLeftFunc", "TrimRightFunc":
		if g, ok := args[1].(evFn); ok && fnName(g.fn) == "unicode.IsSpace" {
			return done(b)
		}
		return done(one("trim-set"))
	case "TrimPrefix", "TrimSuffix":
		return done(one("trim-prefix"))
	case "Replace", "ReplaceAll", "Map":
		return done(one("replace"))
	case "CutPrefix", "CutSuffix":
		return done(evTup{one("trim-prefix"), evTaint{term: b.term}})
	case "Cut":
		if known {
			return fork(
				evTup{evBytes{x.term("before", sep, b.term)}, evBytes{x.term("after", sep, b.term)}, evBool(true)},
				evTup{b, evNil{}, evBool(false)})
		}
		return done(evTup{one("part"), one("part"), evTaint{term: b.term}})
	case "Index", "IndexByte", "IndexRune":
		if known {
			src := "idx " + sep + "|" + b.term
			if st.facts[sep+"|"+b.term] || st.nums[src] == nil {
				st.nums[src] = &eNum{lo: 0, hi: math.MaxInt32, at: x.at(call)}
			}
			return fork(evNum{src: src}, evInt(-1))
		}
		return done(evTaint{term: b.term})
	case "Contains", "ContainsRune":
		if known {
			return fork(evBool(true), evBool(false))
		}
		return done(evTaint{term: b.term})
	case "Equal", "EqualFold", "HasPrefix", "HasSuffix", "Compare":
		r := evTaint{term: b.term}
		if known {
			r.what = "is " + sep
		} else if s, ok := args[1].(evStr); ok && s == "" {
			r.what = "empty"
		}
		return done(r)
	case "Fields":
		return done(x.textList(st, call, one("fields").term, -1))
	case "FieldsSeq":
		return done(evSeq{one("fields").term})
	case "Split", "SplitN":
		if !known {
			return done(x.textList(st, call, one("part").term, -1))
		}
		n := -1
		if fn.Name() == "SplitN" {
			if k, ok := args[2].(evInt); ok {
				n = int(k)
			}
		}
		return done(x.textList(st, call, x.term("split", sep, b.term), n))
	case "SplitSeq":
		if known {
			return done(evSeq{x.term("split", sep, b.term)})
		}
		return done(evSeq{one("part").term})
	case "SplitAfter", "SplitAfterN", "FieldsFunc":
		return done(x.textList(st, call, one("part").term, -1))
	case "Lines", "SplitAfterSeq", "FieldsFuncSeq":
		return done(evSeq{one("part").term})
	}
	return nil, false, false
}

func (x *errflow) textList(st *eState, call ssa.CallInstruction, elem string, n int) any {
	id := x.siteID(st, call)
	st.heap[id] = map[string]any{"[*]": evBytes{elem}}
	st.base[id] = "top"
	hi := int64(math.MaxInt32)
	lo := int64(0)
	if t := x.terms[elem]; t != nil && t.op == "split" {
		lo = 1
		t.list = id
		if n > 0 {
			hi = int64(n)
		}
	}
	st.nums["len "+id] = &eNum{lo: lo, hi: hi, at: x.at(call)}
	return evSlice{obj: id, n: -1}
}

// usesPart says whether a part of a call's result is used.
func usesPart(v ssa.Value, i int) bool {
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i && len(*e.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// covered says whether the conversions on the current path cover a term.
func (x *errflow) covered(st *eState, t string, depth int) bool {
	if st.parsed[t] {
		return true
	}
	if depth > 12 {
		return false
	}
	within := func(u, a string) bool {
		for u != "" {
			if u == a {
				return true
			}
			i := x.terms[u]
			if i == nil {
				return u == "long"
			}
			u = i.parent
		}
		return false
	}
	seps := map[string]bool{}
	for _, u := range sortedKeys(x.terms) {
		i := x.terms[u]
		if i.parent != t {
			continue
		}
		switch {
		case i.op == "before" || i.op == "after":
			seps[i.sep] = true
		case i.op == "split":
			if i.sep == "#" || i.sep == ";" {
				if x.covered(st, u, depth+1) || x.covered(st, x.term("elem0", i.sep, u), depth+1) {
					return true
				}
				continue
			}
			elems := 0
			for _, w := range sortedKeys(x.terms) {
				if j := x.terms[w]; j.parent == u && strings.HasPrefix(j.op, "elem") && x.covered(st, w, depth+1) {
					elems++
				}
			}
			if elems > 0 {
				if n := st.nums["len "+i.list]; n != nil && n.hi <= int64(elems) {
					return true
				}
			}
			for p := range st.parsed {
				if within(p, u) && (elems == 0 || p == u) {
					return true
				}
			}
		default:
			for p := range st.parsed {
				if within(p, u) {
					return true
				}
			}
		}
	}
	for _, sep := range sortedKeys(seps) {
		if !st.facts[sep+"|"+t] {
			continue
		}
		if x.covered(st, x.term("before", sep, t), depth+1) && (sep == "#" || sep == ";" || x.covered(st, x.term("after", sep, t), depth+1)) {
			return true
		}
	}
	return false
}
