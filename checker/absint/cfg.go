package absint

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// fnInfo holds per-function control-flow and liveness facts.
type fnInfo struct {
	order     []int // weak topological position of each block
	heads     []bool
	enclosing [][]*ssa.BasicBlock // loop heads enclosing each block, outermost first
	entryLive []map[ssa.Value]bool
	liveOut   []map[ssa.Value]bool
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.fns[fn]; ok {
		return fi
	}
	n := len(fn.Blocks)
	fi := &fnInfo{order: make([]int, n), heads: make([]bool, n), enclosing: make([][]*ssa.BasicBlock, n)}
	next := 0
	all := make([]*ssa.BasicBlock, n)
	copy(all, fn.Blocks)
	var wto func(blocks []*ssa.BasicBlock, loops []*ssa.BasicBlock)
	wto = func(blocks []*ssa.BasicBlock, loops []*ssa.BasicBlock) {
		inSet := map[*ssa.BasicBlock]bool{}
		for _, b := range blocks {
			inSet[b] = true
		}
		for _, comp := range sccs(blocks, inSet) {
			if len(comp) == 1 && !selfLoop(comp[0]) {
				b := comp[0]
				fi.order[b.Index] = next
				next++
				fi.enclosing[b.Index] = append([]*ssa.BasicBlock(nil), loops...)
				continue
			}
			// Head: the block entered from outside the component, preferring
			// the one that dominates the others.
			cs := map[*ssa.BasicBlock]bool{}
			for _, b := range comp {
				cs[b] = true
			}
			var head *ssa.BasicBlock
			for _, b := range comp {
				dom := true
				for _, c := range comp {
					if !b.Dominates(c) {
						dom = false
						break
					}
				}
				if dom {
					head = b
					break
				}
			}
			if head == nil {
				sort.Slice(comp, func(i, j int) bool { return comp[i].Index < comp[j].Index })
				for _, b := range comp {
					for _, p := range b.Preds {
						if !cs[p] && head == nil {
							head = b
						}
					}
				}
				if head == nil {
					head = comp[0]
				}
			}
			fi.heads[head.Index] = true
			fi.order[head.Index] = next
			next++
			nl := append(append([]*ssa.BasicBlock(nil), loops...), head)
			fi.enclosing[head.Index] = nl
			var rest []*ssa.BasicBlock
			for _, b := range comp {
				if b != head {
					rest = append(rest, b)
				}
			}
			wto(rest, nl)
		}
	}
	wto(all, nil)
	fi.liveness(fn)
	in.fns[fn] = fi
	return fi
}

func selfLoop(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == b {
			return true
		}
	}
	return false
}

// sccs returns the strongly connected components of the subgraph induced by
// set, in topological order.
func sccs(blocks []*ssa.BasicBlock, set map[*ssa.BasicBlock]bool) [][]*ssa.BasicBlock {
	index := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	var out [][]*ssa.BasicBlock
	n := 0
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		n++
		index[b], low[b] = n, n
		stack = append(stack, b)
		on[b] = true
		// Visit successors in reverse so that the topological order of
		// independent branches follows source order.
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !set[s] {
				continue
			}
			if index[s] == 0 {
				rec(s)
				if low[s] < low[b] {
					low[b] = low[s]
				}
			} else if on[s] && index[s] < low[b] {
				low[b] = index[s]
			}
		}
		if low[b] == index[b] {
			var comp []*ssa.BasicBlock
			for {
				t := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[t] = false
				comp = append(comp, t)
				if t == b {
					break
				}
			}
			out = append(out, comp)
		}
	}
	for _, b := range blocks {
		if index[b] == 0 {
			rec(b)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (fi *fnInfo) liveness(fn *ssa.Function) {
	n := len(fn.Blocks)
	fi.entryLive = make([]map[ssa.Value]bool, n)
	fi.liveOut = make([]map[ssa.Value]bool, n)
	for i := range fn.Blocks {
		fi.entryLive[i] = map[ssa.Value]bool{}
		fi.liveOut[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.entryLive[s.Index] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					out[v] = true
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for ei, pr := range s.Preds {
						if pr == b && tracked(p.Edges[ei]) {
							out[p.Edges[ei]] = true
						}
					}
				}
			}
			in := liveBefore(b, out, 0)
			if len(out) != len(fi.liveOut[bi]) || len(in) != len(fi.entryLive[bi]) {
				changed = true
			}
			fi.liveOut[bi], fi.entryLive[bi] = out, in
		}
	}
}

// liveBefore returns the values live before instruction ip of b (phis are
// never removed), given those live at its end.
func liveBefore(b *ssa.BasicBlock, out map[ssa.Value]bool, ip int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for v := range out {
		live[v] = true
	}
	var ops []*ssa.Value
	for i := len(b.Instrs) - 1; i >= ip; i-- {
		ins := b.Instrs[i]
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if v, ok := ins.(ssa.Value); ok {
			delete(live, v)
		}
		ops = ins.Operands(ops[:0])
		for _, o := range ops {
			if *o != nil && tracked(*o) {
				live[*o] = true
			}
		}
	}
	return live
}
