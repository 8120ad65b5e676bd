package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

func init() {
	register("C11", "Exploration of all paths of the generator from its initialisers and main, with its own functions, closures and deferred calls inlined. Every operation on inputs and output forks into success and failure; error values are tracked through variables, fields, lists, results, closures and wrapping. On no path may the program end without an error status after a failure, leave written output unflushed or unclosed, or replace the table after an input error or before an operation on the input that may fail.", checkFailures)
	register("C13", "Exploration of all paths of the data reader's functions that return errors, with every read and every number conversion forked into success and failure and integer ranges tracked through comparisons and conversions: end of data may be returned only when the underlying scanner or reader has ended without error, never after a failure; entries are returned only if nothing has failed; numbers in entries come from base-16 conversions of a whole field without sign and are bounded by U+10FFFF.", checkReader)
}

func checkFailures(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"After an operation has failed, every path ends in a non-zero os.Exit, log.Fatal or an unrecovered panic.",
		"A path that ends with status 0 has flushed and closed (with a checked error) every file it writes.",
		"The table is replaced only when no input operation has failed, and none that can fail comes later.")
	u := c.genUnit()
	x := c.newErrflow(u.p, u.e, u.fns)
	x.exit = func(st *eState, f *eFrame, ins ssa.Instruction) {
		if st.failed != "" {
			x.report(st, "dropped-error", st.failed+"|"+st.failedAt, st.failedAt, "a failure of %s in %s can end with exit status 0", after(st.failed, "|"), strings.TrimSuffix(st.failed, "|"+after(st.failed, "|")))
			return
		}
		var ids []string
		for id := range st.res {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			q := st.res[id]
			switch {
			case q.kind == "file" && q.write && q.st != "closed":
				x.report(st, "unclosed", "file|"+q.at, q.at, "the program can end with status 0 without closing the file created here, so that errors of writing it are lost")
			case q.kind == "bufw" && !q.mem && (q.st == "dirty" || q.st == "sticky"):
				x.report(st, "unflushed", "writer|"+q.at, q.at, "the program can end with status 0 without flushing the buffered writer created here")
			}
		}
	}
	st := newState()
	st.frames = append(st.frames, newFrame(u.main))
	if i := u.main.Pkg.Func("init"); i != nil && len(i.Blocks) > 0 {
		st.frames = append(st.frames, newFrame(i))
	}
	x.explore(st)
	c.errReport(r, x, u.fns)
	if x.ends == 0 && len(x.finds) == 0 {
		fatalf("vacuous", "no path of the generator ends with status 0")
	}
	if len(x.sites) == 0 {
		fatalf("vacuous", "the generator has no operation that can fail")
	}
}

func (c *Ctx) errReport(r *Report, x *errflow, fns []*ssa.Function) {
	for _, f := range x.finds {
		r.Add(f)
	}
	r.Ob(len(x.sites) + x.ends)
	r.Count("states", x.states)
	r.Count("path_ends", x.ends)
	r.Note("fallible_operations", sortedKeys(x.sites))
	var in []string
	for _, fn := range fns {
		if x.rel[fn] {
			in = append(in, fn.String())
		}
	}
	r.Note("functions_explored", in)
	r.Assume = append(r.Assume, "Branches on data that is not an error can go both ways; loops may run any number of times.")
}

func checkReader(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"io.EOF is returned only on paths where Scan returned false with a nil Err, or the reader itself reported the end.",
		"After a failed read or conversion, the function returns a non-nil error other than io.EOF.",
		"Code points are parsed without sign in base 16 from the whole field and checked to be at most U+10FFFF.")
	p := c.Main()
	rel := "textseg/internal/charprops/ucdparse"
	sp := c.Pkg(p, rel)
	roots := exportedFuncs(p.Prog, sp)
	e := c.Effects(p, roots)
	var fns []*ssa.Function
	for fn := range e.Live {
		if c.own(fnPkgPath(fn)) && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil || fnName(call.Common().StaticCallee()) != "(*bufio.Scanner).Split" {
					continue
				}
				r.Ob(1)
				if g, ok := unwrapConv(call.Common().Args[1]).(*ssa.Function); !ok || fnName(g) != "bufio.ScanLines" {
					at := c.rel(p.Prog.Fset.Position(call.Pos()).String())
					r.Fail("split", fn.String(), at, "%s: the text is not split by bufio.ScanLines, so that parts of it may be lost without an error", fn)
				}
			}
		}
	}
	own := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				switch fnName(call.Common().StaticCallee()) {
				case "bufio.NewScanner", "bufio.NewReader", "bufio.NewReaderSize":
					r.Ob(1)
					c.sources(p, call.Common().Args[0], map[ssa.Value]bool{}, own, func(what string) {
						r.Fail("limit", fn.String()+"|"+what, c.rel(p.Prog.Fset.Position(call.Pos()).String()), "%s: the data is read through %s, which ends before the underlying reader does", fn, what)
					})
				}
			}
		}
	}
	var wraps []*ssa.Function
	for fn := range own {
		wraps = append(wraps, fn)
	}
	sort.Slice(wraps, func(i, j int) bool { return wraps[i].String() < wraps[j].String() })
	for _, fn := range wraps {
		x := c.newErrflow(p, e, fns)
		x.rel = nil
		x.relevant(fns)
		c.exploreReader(x, fn)
		c.errReport(r, x, fns)
	}
	readers := 0
	for _, fn := range roots {
		if own[fn] {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() < 1 || !isError(res.At(res.Len()-1).Type()) || len(fn.Blocks) == 0 {
			continue
		}
		readers++
		r.Count("reader_functions", 1)
		x := c.newErrflow(p, e, fns)
		x.text = true
		x.rel = nil
		x.relevant(fns)
		c.exploreReader(x, fn)
		c.errReport(r, x, fns)
		reads := false
		for s := range x.sites {
			reads = reads || !strings.Contains(s, "strconv.")
		}
		if !reads {
			r.Fail("undecided", fn.String()+"|reads", c.rel(p.Prog.Fset.Position(fn.Pos()).String()), "%s: no recognised operation that reads the data", fn)
		}
		if len(x.parses) == 0 {
			r.Fail("undecided", fn.String()+"|parses", c.rel(p.Prog.Fset.Position(fn.Pos()).String()), "%s: no recognised conversion of code points", fn)
		}
	}
	if readers == 0 {
		fatalf("anchor", "no function of package ucdparse returns an error")
	}
}

// sources follows a reader to what it reads from: it reports those that end
// early, and collects the Read methods of this code.
func (c *Ctx) sources(p *load.Program, v ssa.Value, seen map[ssa.Value]bool, own map[*ssa.Function]bool, limited func(string)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		c.sources(p, x.X, seen, own, limited)
	case *ssa.Phi:
		for _, y := range x.Edges {
			c.sources(p, y, seen, own, limited)
		}
	case *ssa.MakeInterface:
		t := x.X.Type()
		switch t.String() {
		case "*io.LimitedReader", "*io.SectionReader":
			limited(t.String())
		}
		if m := p.Prog.MethodSets.MethodSet(t).Lookup(nil, "Read"); m != nil {
			if fn := p.Prog.MethodValue(m); fn != nil && c.own(fnPkgPath(fn)) {
				own[fn] = true
			}
		}
		c.sources(p, x.X, seen, own, limited)
	case *ssa.Extract:
		c.sources(p, x.Tuple, seen, own, limited)
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil {
			return
		}
		if c.own(fnPkgPath(fn)) {
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, y := range ret.Results {
						c.sources(p, y, seen, own, limited)
					}
				}
			}
			return
		}
		switch fnName(fn) {
		case "io.LimitReader", "io.NewSectionReader":
			limited(fnName(fn))
		case "bufio.NewReader", "bufio.NewReaderSize", "io.TeeReader", "io.NopCloser":
			c.sources(p, x.Call.Args[0], seen, own, limited)
		}
	}
}

// exploreReader runs one function of the data reader.
func (c *Ctx) exploreReader(x *errflow, fn *ssa.Function) {
	st := newState()
	f := newFrame(fn)
	for i, p := range fn.Params {
		base := "sym p" + string(rune('0'+i))
		switch p.Type().Underlying().(type) {
		case *types.Struct:
			f.env[p] = evAgg{base: base}
		case *types.Pointer:
			f.env[p] = evPtr{obj: base}
		}
	}
	x.exit = func(st *eState, f *eFrame, ins ssa.Instruction) {
		x.report(st, "exit", fn.String(), x.at(ins), "%s ends the program", fn)
	}
	x.ret = func(st *eState, f *eFrame, ins ssa.Instruction, vals []any) {
		err := vals[len(vals)-1]
		at := x.at(ins)
		what := after(st.failed, "|")
		failed := st.failed != ""
		switch e := err.(type) {
		case evErr:
			if e.kind != "eof" && e.kind != "wrapeof" {
				if failed && strings.HasSuffix(st.failed, "|Scan") && e.kind != "fail" {
					x.report(st, "other-error", fn.String()+"|"+st.failedAt, at, "%s: a failure of %s at %s is reported as another error", fn, what, st.failedAt)
				}
				return
			}
			if failed {
				x.report(st, "end-after-failure", fn.String()+"|"+st.failedAt, at, "%s reports the end of the data although %s at %s has failed", fn, what, st.failedAt)
				return
			}
			for _, q := range st.res {
				if (q.kind == "scanner" || q.kind == "breader") && q.st == "ended" {
					return
				}
			}
			x.report(st, "early-end", fn.String(), at, "%s reports the end of the data on a path on which the reader has not ended", fn)
		case evNil:
			if failed {
				x.report(st, "entry-after-failure", fn.String()+"|"+st.failedAt, at, "%s returns an entry although %s at %s has failed", fn, what, st.failedAt)
				return
			}
			for _, src := range sortedKeys(st.nums) {
				if !strings.Contains(src, ">") && !strings.HasPrefix(src, "len ") && !strings.HasPrefix(src, "idx ") {
					x.verifyNum(st, src, ins)
				}
			}
			if st.pending != "" && len(st.parsed) == 0 && !st.noField() {
				x.report(st, "skip", st.pending, st.pendingAt, "%s: text of a line can be passed over here without being converted, although it may be malformed", st.pending)
			}
			if len(st.parsed) > 0 && !x.covered(st, "raw", 0) {
				x.report(st, "part", fn.String(), at, "%s returns an entry although only a part of the line's code point field has been converted (%s)", fn, strings.Join(sortedKeys(st.parsed), ", "))
			}
			if len(vals) > 1 {
				x.checkEntry(st, ins, fn, vals[0], fn.Signature.Results().At(0).Type())
			}
		default:
			if failed {
				x.report(st, "undecided", fn.String()+"|"+at, at, "%s returns an error that may be nil although %s at %s has failed", fn, what, st.failedAt)
				return
			}
			for _, q := range st.res {
				if q.kind == "scanner" && q.st == "ended" {
					return
				}
			}
			if err == nil {
				x.report(st, "undecided", fn.String()+"|unknown|"+at, at, "%s returns an error value that the analysis does not know", fn)
			}
		}
	}
	st.frames = append(st.frames, f)
	pk := fn.Pkg
	if pk == nil && fn.Object() != nil {
		pk = fn.Prog.Package(fn.Object().Pkg())
	}
	if pk != nil {
		if i := pk.Func("init"); i != nil && len(i.Blocks) > 0 {
			st.frames = append(st.frames, newFrame(i))
		}
	}
	x.explore(st)
}

// checkEntry looks at the code points in a returned entry.
func (x *errflow) checkEntry(st *eState, ins ssa.Instruction, fn *ssa.Function, v any, t types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if q, ok := v.(evPtr); ok {
			x.checkEntry(st, ins, fn, x.readCell(st, q.obj, q.path, p.Elem()), p.Elem())
		}
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	a, ok := v.(evAgg)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		val := x.field(a, "."+string(rune('0'+i)), fd.Type())
		if _, ok := fd.Type().Underlying().(*types.Struct); ok {
			x.checkEntry(st, ins, fn, val, fd.Type())
			continue
		}
		if !isInt(fd.Type()) {
			continue
		}
		switch n := val.(type) {
		case evNum:
			m := st.nums[n.src]
			if m == nil {
				continue
			}
			lo, hi, _ := x.numRange(st, n)
			if m.lossy || lo < 0 || hi > 0x110000 {
				x.report(st, "range", fn.String()+"|"+fd.Name(), m.at, "%s: field %s of the entry may be outside the range of code points (%d to 0x%X)", fn, fd.Name(), lo, hi)
			}
		default:
			if b, ok := fd.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				x.report(st, "underived", fn.String()+"|"+fd.Name(), x.at(ins), "%s: field %s of the entry does not come from a conversion of the line's text on some path", fn, fd.Name())
			}
		}
	}
}

func unwrapConv(v ssa.Value) ssa.Value {
	for {
		switch c := v.(type) {
		case *ssa.ChangeType:
			v = c.X
		case *ssa.MakeInterface:
			v = c.X
		default:
			return v
		}
	}
}
