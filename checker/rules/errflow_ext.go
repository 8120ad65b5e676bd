package rules

import (
	"fmt"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// external models calls of functions outside the repository.
func (x *errflow) external(st *eState, f *eFrame, call ssa.CallInstruction, fn *ssa.Function, args []any, mode string) ([]*eState, bool) {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	v, _ := call.(ssa.Value)
	put := func(s *eState, r any) {
		if mode == "value" && v != nil {
			s.top().env[v] = r
		}
	}
	path, name := fnPkgPath(fn), fn.Name()
	full := fnName(fn)
	switch full {
	case "os.Exit", "syscall.Exit":
		// Only the status's low byte is seen.
		if k, ok := args[0].(evInt); ok && k&0xff != 0 {
			return nil, true
		}
		if _, ok := args[0].(evPos); ok {
			return nil, true
		}
		x.ends++
		x.exit(st, f, call)
		return nil, true
	case "runtime.Goexit":
		return nil, true
	case "errors.New":
		site := x.at(call)
		if isInitOf(call.Parent()) {
			site = "init " + site
		}
		put(st, evErr{"own", site})
		return nil, false
	case "fmt.Errorf":
		put(st, x.errorf(st, call, args))
		return nil, false
	case "errors.Join":
		r, known := x.joined(st, args[0])
		if known {
			put(st, r)
			return nil, false
		}
		return x.plain(st, f, call, mode)
	case "errors.Is":
		put(st, isErr(args[0], args[1]))
		return nil, false
	case "errors.As":
		if _, ok := args[0].(evNil); ok {
			put(st, evBool(false))
			return nil, false
		}
		put(st, nil)
		return nil, false
	case "errors.Unwrap":
		if e, ok := args[0].(evErr); ok && e.kind == "fail" {
			put(st, e)
		} else {
			put(st, nil)
		}
		return nil, false
	case "(error).Error":
		put(st, nil)
		return nil, false
	case "os.NewFile":
		put(st, nil)
		return nil, false
	case "io.MultiWriter", "io.TeeReader", "io.LimitReader", "io.MultiReader", "io.NewSectionReader", "io.NopCloser":
		put(st, nil)
		return nil, false
	}
	if path == "log" {
		switch {
		case strings.HasPrefix(name, "Fatal"):
			return nil, true
		case strings.HasPrefix(name, "Panic"):
			st.trace = append(st.trace, x.at(call)+": panic")
			st.panicking = true
			f.after = "unwind"
			return nil, false
		}
	}
	switch path {
	case "os":
		if out, fk, ok := x.osCall(st, f, call, fn, args, mode, put); ok {
			return out, fk
		}
	case "bufio":
		if out, fk, ok := x.bufioCall(st, f, call, fn, args, mode, put); ok {
			return out, fk
		}
	case "strconv":
		if strings.HasPrefix(name, "Parse") || name == "Atoi" {
			return x.parse(st, f, call, fn, args, mode)
		}
	case "bytes", "strings":
		if fn.Signature.Recv() != nil {
			switch name {
			case "WriteTo":
				return x.writeTo(st, f, call, args[len(args)-1], mode)
			case "ReadFrom":
				return x.fallible(st, f, call, "input", "ReadFrom", mode, false)
			case "Write", "WriteString", "WriteByte", "WriteRune":
				put(st, x.resultWith(call, evNil{}))
				return nil, false
			case "Read", "ReadByte", "ReadRune", "ReadString", "ReadBytes":
				if hasErrorRes(fn) {
					s := st.fork()
					put(st, x.resultWith(call, evNil{}))
					put(s, x.resultWith(call, evErr{"eof", "io.EOF"}))
					return []*eState{st, s}, true
				}
			}
		}
		if x.text {
			if out, fk, ok := x.textCall(st, call, fn, args, put); ok {
				return out, fk
			}
		}
	}
	switch kind, _ := critical(fn); kind {
	case "write":
		return x.writeTo(st, f, call, args[0], mode)
	case "input":
		reads := name == "Read" || strings.HasPrefix(name, "ReadRecord") || path == "io" && (name == "ReadFull" || name == "ReadAtLeast" || name == "CopyN") || path == "encoding/csv" && name == "Read" || path == "encoding/json" && name == "Decode"
		if hasErrorRes(fn) {
			return x.fallible(st, f, call, "input", name, mode, reads)
		}
	case "output":
		if hasErrorRes(fn) {
			// Printing code to memory and the like fails as well.
			return x.fallible(st, f, call, "output", name, mode, false)
		}
	}
	// Functions of this kind may call what they are given.
	var cbs []evFn
	for _, a := range args {
		if e, ok := a.(evFn); ok && x.inline(e.fn) {
			cbs = append(cbs, e)
		}
		if e, ok := a.(evIface); ok {
			if w, ok := e.val.(evFn); ok && x.inline(w.fn) {
				cbs = append(cbs, w)
			}
		}
	}
	if len(cbs) > 0 {
		return x.callbacks(st, f, call, cbs, mode)
	}
	return x.plainText(st, f, call, args, mode)
}

// callbacks models a call of an unknown function that may call what it is
// given, any number of times.
func (x *errflow) callbacks(st *eState, f *eFrame, call ssa.CallInstruction, cbs []evFn, mode string) ([]*eState, bool) {
	var out []*eState
	for _, cb := range cbs {
		s := st.fork()
		x.push(s, s.top(), call, cb, nil, "callback")
		if k := x.key(s); !x.seen[k] {
			x.seen[k] = true
			out = append(out, s)
		}
	}
	if o, fk := x.plain(st, f, call, mode); fk {
		return append(out, o...), true
	}
	return append(out, st), true
}

func hasErrorRes(fn *ssa.Function) bool {
	return hasError(fn.Signature.Results())
}

// errorf is the error made by fmt.Errorf.
func (x *errflow) errorf(st *eState, call ssa.CallInstruction, args []any) any {
	wrap := false
	if s, ok := args[0].(evStr); ok {
		wrap = strings.Contains(string(s), "%w")
	}
	out := evErr{"own", x.at(call)}
	for _, e := range x.elements(st, args[len(args)-1]) {
		w, ok := e.(evErr)
		if !ok {
			continue
		}
		switch {
		case w.kind == "fail":
			return evErr{"fail", w.site}
		case w.kind == "eof" && wrap:
			out = evErr{"wrapeof", x.at(call)}
		}
	}
	return out
}

// elements lists what a slice is known to hold.
func (x *errflow) elements(st *eState, v any) []any {
	s, ok := v.(evSlice)
	if !ok {
		return nil
	}
	var out []any
	for _, k := range sortedKeys(st.heap[s.obj]) {
		if !strings.HasPrefix(k, s.path+"[") || strings.HasSuffix(k, "!") {
			continue
		}
		c := st.heap[s.obj][k]
		if as, ok := c.(evAlt); ok {
			out = append(out, as...)
		} else {
			out = append(out, c)
		}
	}
	return out
}

// joined is the error made by errors.Join.
func (x *errflow) joined(st *eState, v any) (any, bool) {
	if _, ok := v.(evNil); ok {
		return evNil{}, true
	}
	s, ok := v.(evSlice)
	if !ok {
		return nil, false
	}
	unknown := st.base[s.obj] == "top"
	var r any = evNil{}
	for _, e := range x.elements(st, v) {
		switch w := e.(type) {
		case evErr:
			if w.kind == "fail" {
				return w, true
			}
			r = evErr{"own", "joined"}
		case evNil:
		default:
			unknown = true
		}
	}
	if _, isNil := r.(evNil); isNil && unknown {
		return nil, false
	}
	return r, true
}

// namesTable reports whether a file name is that of the file the generator writes.
func (x *errflow) namesTable(v ssa.Value) bool {
	if x.tables == nil {
		x.tables = map[string]bool{}
		for fn := range x.e.Live {
			if !x.c.own(fnPkgPath(fn)) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() == nil {
						continue
					}
					i := -1
					switch fnName(call.Common().StaticCallee()) {
					case "os.Create", "os.WriteFile", "os.OpenFile", "io/ioutil.WriteFile":
						if x.renames {
							continue
						}
						i = 0
					case "os.Rename":
						i = 1
					default:
						continue
					}
					for _, n := range constStrings(call.Common().Args[i], map[ssa.Value]bool{}, x.e) {
						x.tables[n] = true
					}
				}
			}
		}
	}
	for _, n := range constStrings(v, map[ssa.Value]bool{}, x.e) {
		if x.tables[n] {
			return true
		}
	}
	return false
}

func isErr(a, b any) any {
	if _, ok := a.(evNil); ok {
		if _, ok := b.(evErr); ok {
			return evBool(false)
		}
	}
	ea, ok1 := a.(evErr)
	eb, ok2 := b.(evErr)
	if !ok1 || !ok2 {
		return nil
	}
	if eb.kind == "eof" {
		switch ea.kind {
		case "eof", "wrapeof":
			return evBool(true)
		case "ext":
			return nil
		}
		return evBool(false)
	}
	if ea.kind == "eof" {
		return evBool(false)
	}
	return nil
}

func (x *errflow) newRes(st *eState, call ssa.Instruction, r eRes) evRes {
	id := r.kind + "@" + x.siteID(st, call)
	r.at = x.at(call)
	st.res[id] = &r
	return evRes{id}
}

func (x *errflow) osCall(st *eState, f *eFrame, call ssa.CallInstruction, fn *ssa.Function, args []any, mode string, put func(*eState, any)) (succ []*eState, forked, ok bool) {
	name := fn.Name()
	open := func(write bool) ([]*eState, bool, bool) {
		kind := "input"
		if write {
			kind = "output"
		}
		bad := st.fork()
		e := x.failing(bad, call, kind, "os."+name)
		put(bad, evTup{evNil{}, e})
		if write {
			x.replace(st, call, "os."+name, false)
		}
		r := x.newRes(st, call, eRes{kind: "file", write: write, st: "open"})
		put(st, evTup{r, evNil{}})
		return []*eState{st, bad}, true, true
	}
	if fn.Signature.Recv() == nil {
		switch name {
		case "Open", "OpenInRoot":
			return open(false)
		case "Create", "CreateTemp":
			return open(true)
		case "OpenFile":
			if k, ok := args[1].(evInt); ok && k&3 == 0 {
				return open(false)
			}
			return open(true)
		case "WriteFile":
			bad := st.fork()
			put(bad, x.failing(bad, call, "output", "os.WriteFile"))
			x.replace(st, call, "os.WriteFile", false)
			put(st, evNil{})
			return []*eState{st, bad}, true, true
		case "Remove", "RemoveAll", "Truncate":
			if x.namesTable(call.Common().Args[0]) {
				x.replace(st, call, "os."+name, true)
			}
		case "Rename":
			bad := st.fork()
			put(bad, x.failing(bad, call, "output", "os.Rename"))
			x.replace(st, call, "os.Rename", true)
			put(st, evNil{})
			return []*eState{st, bad}, true, true
		}
		return nil, false, false
	}
	recv := args[0]
	if w, ok := recv.(evIface); ok {
		recv = w.val
	}
	id := ""
	switch w := recv.(type) {
	case evRes:
		id = w.id
	case evPtr:
		id = w.obj + w.path
	}
	switch name {
	case "Close":
		succ, forked = x.closeFile(st, f, call, id, mode)
		return succ, forked, true
	case "Write", "WriteString", "WriteAt", "ReadFrom":
		if id == "std" {
			put(st, x.resultWith(call, evNil{}))
			return nil, false, true
		}
		succ, forked = x.fallible(st, f, call, "output", name, mode, false)
		return succ, forked, true
	case "Sync", "Truncate":
		succ, forked = x.fallible(st, f, call, "output", name, mode, false)
		return succ, forked, true
	case "Read", "ReadAt":
		succ, forked = x.fallible(st, f, call, "input", name, mode, true)
		return succ, forked, true
	}
	return nil, false, false
}

func (x *errflow) bufioCall(st *eState, f *eFrame, call ssa.CallInstruction, fn *ssa.Function, args []any, mode string, put func(*eState, any)) (succ []*eState, forked, ok bool) {
	name := fn.Name()
	if fn.Signature.Recv() == nil {
		switch name {
		case "NewScanner":
			put(st, x.newRes(st, call, eRes{kind: "scanner", under: args[0]}))
			return nil, false, true
		case "NewReader", "NewReaderSize":
			put(st, x.newRes(st, call, eRes{kind: "breader", under: args[0]}))
			return nil, false, true
		case "NewWriter", "NewWriterSize":
			put(st, x.newRes(st, call, eRes{kind: "bufw", write: true, st: "clean", under: args[0], mem: x.noFail(st, args[0])}))
			return nil, false, true
		}
		return nil, false, false
	}
	recv := fn.Signature.Recv().Type().String()
	switch {
	case strings.HasSuffix(recv, "bufio.Scanner"):
		r := x.resOf(st, args[0], "scanner")
		id := x.resID(st, r)
		switch name {
		case "Scan":
			if r.st == "ended" || r.st == "failed" {
				put(st, evBool(false))
				return nil, false, true
			}
			x.newLine(st, call)
			if x.apply != nil {
				x.apply.newLine(st)
			}
			end, bad := st.fork(), st.fork()
			end.res[id].st = "ended"
			put(end, evBool(false))
			bad.res[id].st = "failed"
			x.failing(bad, call, "input", "Scan")
			put(bad, evBool(false))
			r.st = "line"
			st.ap.open = x.apply != nil
			put(st, evBool(true))
			return []*eState{st, end, bad}, true, true
		case "Err":
			if r.st == "failed" {
				put(st, evErr{"fail", "Scan"})
			} else {
				put(st, evNil{})
			}
			return nil, false, true
		case "Bytes", "Text":
			if x.text {
				put(st, evBytes{"raw"})
			} else {
				put(st, nil)
			}
			return nil, false, true
		}
		put(st, nil)
		return nil, false, true
	case strings.HasSuffix(recv, "bufio.Reader"):
		r := x.resOf(st, args[0], "breader")
		id := x.resID(st, r)
		if !hasErrorRes(fn) || name == "UnreadByte" || name == "UnreadRune" || name == "Discard" {
			return nil, false, false
		}
		x.newLine(st, call)
		if x.apply != nil {
			x.apply.newLine(st)
		}
		if v, ok := call.(ssa.Value); ok && name == "ReadLine" && x.text && !usesPart(v, 1) {
			x.report(st, "overlong", call.Parent().String(), x.at(call), "%s ignores that ReadLine may return only a part of a long line", call.Parent())
		}
		eof, bad := st.fork(), st.fork()
		eof.res[id].st = "ended"
		put(eof, x.lineResult(call, evErr{"eof", "io.EOF"}))
		e := x.failing(bad, call, "input", name)
		put(bad, x.lineResult(call, e))
		if r.st == "ended" {
			return []*eState{eof}, true, true
		}
		put(st, x.lineResult(call, evNil{}))
		return []*eState{st, eof, bad}, true, true
	case strings.HasSuffix(recv, "bufio.Writer"):
		r := x.resOf(st, args[0], "bufw")
		id := x.resID(st, r)
		w := func(s *eState, e any) {
			if v, ok := call.(ssa.Value); ok && mode == "value" {
				s.top().env[v] = x.resultWith(call, e)
			}
		}
		switch name {
		case "Write", "WriteString", "WriteByte", "WriteRune", "ReadFrom":
			succ, forked = x.bufWrite(st, call, r, w)
			return succ, forked, true
		case "Flush":
			switch {
			case r.mem:
				r.st = "clean"
				w(st, evNil{})
				return nil, false, true
			case r.st == "sticky":
				r.st = "clean"
				w(st, x.failing(st, call, "output", "Flush"))
				return nil, false, true
			}
			bad := st.fork()
			bad.res[id].st = "clean"
			w(bad, x.failing(bad, call, "output", "Flush"))
			r.st = "clean"
			w(st, evNil{})
			return []*eState{st, bad}, true, true
		}
	}
	return nil, false, false
}

func (x *errflow) resID(st *eState, r *eRes) string {
	for id, q := range st.res {
		if q == r {
			return id
		}
	}
	return ""
}

// lineResult is the result of reading a line.
func (x *errflow) lineResult(call ssa.CallInstruction, e any) any {
	r := x.resultWith(call, e)
	if x.text {
		if t, ok := r.(evTup); ok && len(t) > 0 {
			t[0] = evBytes{"raw"}
		}
	}
	return r
}

// parse models conversions of text to numbers.
func (x *errflow) parse(st *eState, f *eFrame, call ssa.CallInstruction, fn *ssa.Function, args []any, mode string) ([]*eState, bool) {
	v, _ := call.(ssa.Value)
	name := fn.Name()
	if x.apply != nil {
		return x.apply.parse(st, call, args, mode), true
	}
	good, bad := st, st.fork()
	e := x.failing(bad, call, "input", "strconv."+name)
	if mode == "value" && v != nil {
		bad.top().env[v] = x.resultWith(call, e)
	}
	src := x.siteID(st, call)
	x.verifyNum(good, src, call)
	for k := range good.nums {
		if strings.HasPrefix(k, src+">") {
			delete(good.nums, k)
		}
	}
	n := &eNum{lo: 0, hi: math.MaxInt64, at: x.at(call)}
	base, bits := 10, 64
	kn := func(a any) int {
		if k, ok := a.(evInt); ok {
			return int(k)
		}
		return -1
	}
	switch name {
	case "ParseUint", "ParseInt":
		base, bits = kn(args[1]), kn(args[2])
		if bits == 0 {
			bits = 64
		}
		if name == "ParseInt" {
			n.signed = true
		}
	case "Atoi":
		n.signed = true
	default:
		n = nil
	}
	if n != nil && !x.text {
		n = nil
	}
	if n != nil {
		x.parses[x.at(call)] = true
		if bits < 0 {
			bits = 64
		}
		if n.signed {
			n.lo, n.hi = -1<<(bits-1), 1<<(bits-1)-1
		} else if bits >= 64 {
			n.huge = true
		} else {
			n.hi = 1<<bits - 1
		}
		if x.text {
			switch {
			case base != 16:
				x.report(good, "parse", call.Parent().String()+"|base", x.at(call), "%s parses numbers in base %d; code points are hexadecimal", call.Parent(), base)
			case n.signed:
				x.report(good, "parse", call.Parent().String()+"|sign", x.at(call), "%s parses code points with strconv.%s, which accepts a sign", call.Parent(), name)
			}
			if b, ok := args[0].(evBytes); ok {
				good.parsed[b.term] = true
				good.pending = ""
				if why := partial(b.term); why != "" {
					x.report(good, "parse", call.Parent().String()+"|part", x.at(call), "%s parses only part of the code point field (%s), so that malformed fields are accepted", call.Parent(), why)
				}
			}
		}
		good.nums[src] = n
	}
	if mode == "value" && v != nil {
		r := x.resultWith(call, evNil{})
		if t, ok := r.(evTup); ok && len(t) > 0 && n != nil {
			t[0] = evNum{src: src}
		}
		good.top().env[v] = r
	}
	return []*eState{good, bad}, true
}

// verifyNum demands that a number read from the data was checked.
func (x *errflow) verifyNum(st *eState, src string, at ssa.Instruction) {
	n := st.nums[src]
	if !x.text || n == nil {
		return
	}
	ok := func(n *eNum) bool { return !n.huge && n.lo >= 0 && n.hi <= 0x10FFFF }
	if ok(n) {
		return
	}
	for k, m := range st.nums {
		if strings.HasPrefix(k, src+">") && ok(m) && !m.lossy {
			return
		}
	}
	lo, hi := n.lo, fmt.Sprintf("0x%X", n.hi)
	if n.huge {
		hi = "any value"
	}
	x.report(st, "range", "code point|"+n.at, n.at, "a number parsed here is used without a check that it is a Unicode code point (it may be %d to %s)", lo, hi)
}
