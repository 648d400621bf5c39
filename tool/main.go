package main

import (
	"fmt"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "check" {
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif, _ = os.Getwd()
		}
		repo := os.Getenv("TOK_REPO")
		if repo == "" {
			repo = "/repo"
		}
		os.Exit(runCheck(os.Args[2], repo, verif))
	}
	p, err := load("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if os.Args[1] == "tryf" {
		newInterp(p).tryFunc(os.Args[2])
	}
	if os.Args[1] == "tryr" {
		c := newCk("try", p)
		for _, rd := range c.readerCases(3) {
			if rd.name != os.Args[2] {
				continue
			}
			rd.run(c, c.contract())
			for _, x := range rd.reads {
				fmt.Println("==", rd.name, len(x.outs))
				for _, o := range x.outs {
					o.print()
				}
			}
		}
	}
	if os.Args[1] == "try" {
		in := newInterp(p)
		for _, n := range os.Args[2:] {
			t := time.Now()
			fn := p.method(p.tok, "Scanner", n)
			outs := in.runMethod(fn)
			fmt.Println("==", n, len(outs), "outcomes", time.Since(t), "lp", lpCalls, lpSolved)
			for _, o := range outs {
				o.print()
			}
		}
		for _, l := range in.loops {
			fmt.Println("loop", in.site(l.fn, l.pos), l.solved, l.unrolled, l.bad, l.measure, l.why)
		}
		stopProf()
		fmt.Println(in.out)
	}
}

func (o *Outcome) print() {
	st := o.st
	if o.panic != "" {
		fmt.Println("  PANIC", o.panic)
		return
	}
	fmt.Print("  ret ")
	for _, r := range o.rets {
		fmt.Print(st.normVal(r).key(), " ")
	}
	for id := range st.heap {
		if isTok(objTypes[id], "Scanner") {
			fmt.Print(objNames[id], " pos=", st.in.posOf(st, id).pretty(), " ")
		}
	}
	fmt.Println(st.steps)
	for _, c := range st.cons {
		fmt.Println("     ", c.pretty(), "<= 0")
	}
	for _, f := range st.facts {
		fmt.Println("     ", f.a.key(), f.v)
	}
	for _, q := range st.qf {
		fmt.Println("      Q", q.kind, q.from.pretty(), "..", q.to.pretty(), "count", q.count.pretty())
		for _, c := range q.dnf {
			fmt.Print("        r=", c.r, " o=", c.o)
			for _, l := range c.lins {
				fmt.Print(" ", l.pretty(), "<=0")
			}
			for _, l := range c.eqs {
				fmt.Print(" ", l.pretty(), "=0")
			}
			for _, f := range c.facts {
				fmt.Print(" ", f.a.key(), f.v)
			}
			for _, e := range c.evs {
				fmt.Print(" ev:", e.kind, e.recv, e.ok, e.pos.pretty(), "->", e.to.pretty())
			}
			fmt.Println()
		}
	}
	for _, e := range st.ev {
		fmt.Println("      ev", e.kind, e.recv, e.ok, e.pos.pretty(), "->", e.to.pretty())
	}
	if len(st.notes) > 0 {
		fmt.Println("      notes", st.notes)
	}
}

// runMethod evaluates a scanner method with symbolic arguments.
func (in *Interp) runMethod(fn *ssa.Function) []Outcome {
	st := in.newState()
	args := []Val{}
	for i, p := range fn.Params {
		n := p.Name()
		if i == 0 {
			n = "s"
		}
		args = append(args, symVal(n, p.Type()))
	}
	return in.call(fn, args, nil, st)
}

// tryFunc evaluates a function of package tok with symbolic arguments.
func (in *Interp) tryFunc(name string) {
	fn := in.p.tok.Func(name)
	st := in.newState()
	args := []Val{}
	for _, p := range fn.Params {
		args = append(args, symVal(p.Name(), p.Type()))
	}
	in.recSum = true
	for _, o := range in.call(fn, args, nil, st) {
		o.print()
	}
	for _, l := range in.loops {
		fmt.Println("loop", in.site(l.fn, l.pos), l.solved, l.unrolled, l.bad, l.measure, l.why)
	}
}
