package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"time"

	"verif/checker/absint"
	"verif/checker/load"
	"verif/checker/prod"
	"verif/checker/uax"
)

var dump = 0

func main() {
	if os.Getenv("DUMP") != "" {
		dump = 10000
	}
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := load.Load(load.Config{Dir: os.Args[1], Patterns: []string{"./..."}})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	var fn = p.SSA["github.com/apparentlymart/go-textseg/v17/textseg"].Func("ScanGraphemeClusters")
	in := absint.New(p.Prog)
	data := absint.Slice{Obj: absint.InputObj, Lo: absint.Num(0), Hi: absint.Lin{R: 1}, Max: absint.Lin{R: 1, E: 1}}
	var as []*absint.Analysis
	for _, eof := range []bool{false, true} {
		t1 := time.Now()
		a := in.Analyse(fn, []absint.Val{in.M.Term(data), in.M.Term(eof)})
		as = append(as, a)
		fmt.Println("eof", eof, "ctxs", len(a.Ctxs), "restarts", a.Restarts, "failed", a.Failed, time.Since(t1), in.M.Size(), in.Steps)
		for _, l := range a.Log {
			fmt.Println("  log", l)
		}
		for _, c := range a.Ctxs[:min(len(a.Ctxs), dump)] {
			fmt.Println("ctx", c.ID, c.Desc, "R", fmt.Sprintf("%b", c.RSet), "cmin", c.CMin)
			for i, o := range c.Out {
				if i > 30 {
					fmt.Println("    ...", len(c.Out))
					break
				}
				s := ""
				for _, v := range o.Vals {
					s += " " + in.ShowVal(v)
				}
				n := -1
				if o.Next != nil {
					n = o.Next.ID
				}
				fmt.Println("   ", o.Kind, o.Reason, p.Prog.Fset.Position(o.Pos), "next", n, "d", o.Delta, s)
			}
		}
	}
	t := uax.Load()
	for i, eof := range []bool{false, true} {
		t1 := time.Now()
		pr := prod.AgainstReference(in, as[i], t, eof)
		fmt.Println("product", pr.States, pr.Steps, pr.Truncated, time.Since(t1), in.M.Size())
		for _, f := range pr.Findings {
			fmt.Println("FINDING", f.Property, f.What, f.Where, f.Witness)
			for _, x := range f.Trace {
				fmt.Println("     ", x)
			}
		}
	}
	for _, b := range []int{0, 1} {
		t1 := time.Now()
		pr := prod.ChunkIndependence(in, as[0], as[b])
		fmt.Println("chunks", pr.States, pr.Steps, pr.Truncated, time.Since(t1), in.M.Size())
		for _, f := range pr.Findings {
			fmt.Println("FINDING", f.Property, f.What, f.Where, f.Witness)
			for _, x := range f.Trace {
				fmt.Println("     ", x)
			}
		}
	}
}
