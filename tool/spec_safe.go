package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "abstract interpretation of every exported function, method and reader with symbolic arguments: no outcome panics (index, slice, nil, assertion, conversion, explicit panic)", 100, checkC10,
		"tokens and markers come from the text they are used with", "functions, readers and pointers passed in are not nil", "grammars passed in are pointers to structs")
	register("C11", "each loop instance met while every exported operation and reader is interpreted has a measure that decreases towards a bound; recursion is met nowhere or on smaller structures", 60, checkC11,
		"sub readers and callbacks return")
}

// exported lists the exported functions and methods of the packages.
func (c *Ck) exported() []*ssa.Function {
	res := []*ssa.Function{}
	for _, pkg := range []*ssa.Package{c.p.tok, c.p.gram} {
		for _, m := range pkg.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if x.Object() != nil && x.Object().Exported() {
					res = append(res, x)
				}
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					if _, ok := t.Underlying().(*types.Interface); ok {
						continue
					}
					ms := c.p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						o := ms.At(i).Obj()
						if !o.Exported() {
							continue
						}
						fn := c.p.prog.MethodValue(ms.At(i))
						if fn == nil || fn.Synthetic != "" {
							continue
						}
						res = append(res, fn)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	out := res[:0:0]
	for _, f := range res {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return shortName(out[i]) < shortName(out[j]) })
	return out
}

// public: the receiver type is exported (its values can be made by anyone).
func publicRecv(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return true
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

// entries evaluates each exported function and each reader, f gets the outcomes.
func (c *Ck) entries(f func(name string, in *Interp, outs []Outcome), set ...func(*Interp)) {
	cc := c.contract()
	reach, scc := c.recursive()
	con := func(in *Interp) {
		cc(in)
		in.recSum = true
		in.summary = func(fn *ssa.Function, args []Val, st *State, site string) []Outcome {
			if !reach[fn] || len(in.stack) == 0 || scc[fn] == scc[in.stack[0]] {
				return nil
			}
			if in.recs == nil {
				in.recs = map[*ssa.Function]bool{}
			}
			in.recs[fn] = true
			in.havocReach(st, args)
			return []Outcome{{st: st, rets: in.freshRets(fn)}}
		}
	}
	todo := []*ssa.Function{}
	queued := map[*ssa.Function]bool{}
	for _, fn := range c.exported() {
		if publicRecv(fn) {
			todo = append(todo, fn)
			queued[fn] = true
		}
	}
	for k := 0; k < len(todo); k++ {
		fn := todo[k]
		name := shortName(fn)
		traceStep(name)
		in := c.interp()
		con(in)
		for _, s := range set {
			s(in)
		}
		var outs []Outcome
		c.guarded(name, func() {
			st := in.newState()
			var L *Lin
			args := []Val{}
			for i, p := range fn.Params {
				v := c.arg(p.Name(), p)
				if i == 0 && isTok(deptr(p.Type()), "Scanner") {
					v = symVal("s", p.Type())
					l := in.textOf(st, v.(Ptr).obj).length()
					L = &l
				} else if L != nil {
					c.fromText(st, v, p.Type(), *L)
				}
				args = append(args, v)
			}
			outs = in.call(fn, args, nil, st)
			f(name, in, outs)
		})
		for _, r := range sortedFuncs(in.recs) {
			if !queued[r] {
				queued[r] = true
				todo = append(todo, r)
			}
		}
		c.absorb()
	}
	c.eachReader(func(rd *ReaderCase) {
		rd.run(c, append([]func(*Interp){con}, set...)...)
		for _, x := range rd.reads {
			f(rd.name, rd.in, x.outs)
		}
		f(rd.name, rd.in, rd.bad)
		what := c.ifaceMethod("What")
		for _, m := range rd.made {
			c.guarded(rd.name, func() {
				f(rd.name+" What", rd.in, rd.in.invoke(m.v, what, nil, m.st.clone(), 0, c.p.tok.Func("init")))
			})
		}
	})
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// brokenFields collects the fields of nnFields for which a store was not shown to keep the invariant.
var brokenFields = map[string]bool{}

// intFields lists the unexported integer fields of the struct types of the package.
func (c *Ck) intFields() map[string]bool {
	res := map[string]bool{}
	for _, m := range c.p.tok.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		u, ok := t.Type().Underlying().(*types.Struct)
		if !ok || t.Name() == "Scanner" || t.Name() == "Token" {
			continue
		}
		for i := 0; i < u.NumFields(); i++ {
			b, ok := u.Field(i).Type().Underlying().(*types.Basic)
			if ok && b.Kind() == types.Int && !u.Field(i).Exported() {
				res[fmt.Sprintf("%s.%d", t.Name(), i)] = true
			}
		}
	}
	return res
}

func checkC10(c *Ck) {
	nnFields = c.intFields()
	for len(nnFields) > 0 {
		brokenFields = map[string]bool{}
		for _, fn := range c.fieldWriters() {
			in := c.interp()
			c.contract()(in)
			c.guarded(shortName(fn), func() {
				args := []Val{}
				for _, p := range fn.Params {
					args = append(args, c.arg(p.Name(), p))
				}
				in.call(fn, args, nil, in.newState())
			})
		}
		for f := range brokenFields {
			delete(nnFields, f)
		}
		if len(brokenFields) == 0 {
			break
		}
	}
	for _, f := range sortedKeys(nnFields) {
		c.ob(true, f, "is never negative", "", nil)
	}
	c.noPanics()
	for _, f := range sortedKeys(brokenFields) {
		c.fail(f, "is never negative", "", nil)
	}
}

// fieldWriters lists the functions that store into one of the fields.
func (c *Ck) fieldWriters() []*ssa.Function {
	res := map[*ssa.Function]bool{}
	for fn := range c.p.allFuncs {
		if !c.p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.Store); ok {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && nnField(deptr(fa.X.Type()), fmt.Sprint(fa.Field)) {
						res[fn] = true
					}
				}
			}
		}
	}
	return sortedFuncs(res)
}

func (c *Ck) noPanics() {
	grammarEntry := map[string]bool{}
	for _, fn := range c.exported() {
		if c.takesGrammar(fn) && fn.Signature.Recv() == nil && len(fn.Params) == 1 {
			grammarEntry[shortName(fn)] = true
		}
	}
	c.entries(func(name string, in *Interp, outs []Outcome) {
		for _, o := range outs {
			if o.panic == "" {
				c.ob(true, name, "returns", "", nil)
				continue
			}
			if strings.HasSuffix(o.panic, ": panic as documented") || unknownReflection(o.st) && grammarEntry[name] {
				continue
			}
			c.fail(name, "does not panic at "+o.panic, "a path reaches "+o.panic, o.st)
		}
	})
	// reflection on the structs of grammars
	for _, fn := range c.exported() {
		if !c.takesGrammar(fn) || fn.Signature.Recv() != nil || len(fn.Params) != 1 {
			continue
		}
		for _, fs := range fieldLists(1) {
			subj := fn.Name() + " of an empty struct"
			if len(fs) > 0 {
				subj = fn.Name() + " of a struct with " + fs[0].what
			}
			in := c.interp()
			c.guarded(subj, func() {
				st := in.newState()
				g, _ := c.grammarStruct(st, fs)
				for _, o := range in.callFunc(FuncV{fn: fn}, []Val{g}, st, 0, c.p.tok.Func("init")) {
					if !o.st.dead && !strings.HasSuffix(o.panic, ": panic as documented") {
						c.ob(o.panic == "", subj, "does not panic at "+o.panic, "a path reaches "+o.panic, o.st)
					}
				}
			})
			c.absorb()
		}
	}
}

// takesGrammar: a parameter is a grammar.
func (c *Ck) takesGrammar(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isTok(p.Type(), "Grammar") {
			return true
		}
	}
	return false
}

// unknownReflection: the path depends on the reflection of an unknown struct, which is analysed for
// each kind of field instead.
func unknownReflection(st *State) bool {
	for _, n := range st.notes {
		if strings.Contains(n, "reflect.") {
			return true
		}
	}
	return false
}

func checkC11(c *Ck) {
	seen := map[string]bool{}
	c.entries(func(name string, in *Interp, outs []Outcome) {
		for _, k := range sortedKeys(in.loops) {
			l := in.loops[k]
			site := in.site(l.fn, l.pos)
			key := name + site
			if l.bad == 0 && seen[key] {
				continue
			}
			seen[key] = true
			c.ob(l.bad == 0, name, "terminates: "+site, l.why, nil)
		}
	})
}

func traceStep(n string) {
	if os.Getenv("TOKTRACE") != "" {
		fmt.Fprintln(os.Stderr, time.Now().Format("05.000"), n)
	}
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	r := []*ssa.Function{}
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return shortName(r[i]) < shortName(r[j]) })
	return r
}

// recursive gives the functions that can reach a recursion by direct calls, and the component of each function.
func (c *Ck) recursive() (map[*ssa.Function]bool, map[*ssa.Function]int) {
	calls := map[*ssa.Function][]*ssa.Function{}
	var fns []*ssa.Function
	for fn := range c.p.allFuncs {
		if !c.p.inRepo(fn) {
			continue
		}
		fns = append(fns, fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && c.p.inRepo(g) {
						calls[fn] = append(calls[fn], g)
					}
				}
				for _, op := range i.Operands(nil) {
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						if g, ok := mc.Fn.(*ssa.Function); ok {
							calls[fn] = append(calls[fn], g)
						}
					}
				}
			}
		}
	}
	reachOf := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		work := []*ssa.Function{f}
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			for _, h := range calls[g] {
				if !seen[h] {
					seen[h] = true
					work = append(work, h)
				}
			}
		}
		return seen
	}
	all := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		all[f] = reachOf(f)
	}
	scc := map[*ssa.Function]int{}
	n := 0
	for _, f := range fns {
		if scc[f] != 0 {
			continue
		}
		n++
		scc[f] = n
		for g := range all[f] {
			if all[g][f] {
				scc[g] = n
			}
		}
	}
	reach := map[*ssa.Function]bool{}
	for _, f := range fns {
		if all[f][f] {
			reach[f] = true
		}
		for g := range all[f] {
			if all[g][g] {
				reach[f] = true
			}
		}
	}
	return reach, scc
}
