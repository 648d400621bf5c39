package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "abstract interpretation of histories of Add and Update on a new basket with symbolic segments and positions; the picked list is compared with the list that the definition gives", 40, checkC13,
		"segments are added with non-decreasing ends, as picking does")
	register("C17", "abstract interpretation of the token functions on two symbolic tokens; each outcome is compared with the definition of the relation for all orders of the ends", 40, checkC17)
	register("C18", "abstract interpretation of the sort functions on symbolic lists (stable sorting itself is executed by its definition) and of the comparisons on all pairs and triples", 40, checkC18)
	register("C19", "abstract interpretation of the segmentation of a symbolic segment by symbolic lists, compared with the tiling that the definition gives", 40, checkC19)
}

// methodOf finds the method of a type, with the receiver the method is declared for.
func (c *Ck) methodOf(typ, name string) *ssa.Function {
	t := c.p.tok.Type(typ)
	if t == nil {
		return nil
	}
	for _, x := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		if sel := c.p.prog.MethodSets.MethodSet(x).Lookup(c.p.tok.Pkg, name); sel != nil {
			return c.p.prog.MethodValue(sel)
		}
	}
	return nil
}

// steps runs f on every state; a missing function or a panic is a violation.
func (c *Ck) doCall(in *Interp, subj string, fn *ssa.Function, what string, args []Val, st *State) []Outcome {
	if fn == nil {
		c.fail(subj, what+" is part of the interface", "function not found", nil)
		return nil
	}
	res := []Outcome{}
	for _, o := range in.callFunc(FuncV{fn: fn}, args, st.clone(), 0, c.p.tok.Func("init")) {
		if o.st.dead {
			continue
		}
		if o.panic != "" {
			c.fail(subj, "does not panic at "+o.panic, "", o.st)
			continue
		}
		res = append(res, o)
	}
	return res
}

// seg is a symbolic segment.
type segV struct {
	v        StructV
	info     Str
	from, to Lin
}

func (c *Ck) segOf(st *State, v Val) (segV, bool) {
	s, ok := v.(StructV)
	if !ok {
		return segV{}, false
	}
	r := segV{v: s}
	found := 0
	for i, f := range structFields(c.p.typ("Segment")) {
		switch x := s.f[i].(type) {
		case Str:
			r.info = x
			found |= 1
		case StructV:
			if isTok(f.Type(), "Token") && len(x.f) == 2 {
				a, ok1 := x.f[0].(Num)
				b, ok2 := x.f[1].(Num)
				if ok1 && ok2 {
					r.from, r.to = st.norm(a.l), st.norm(b.l)
					found |= 2
				}
			}
		}
	}
	return r, found == 3
}

func (c *Ck) symSeg(st *State, name string) segV {
	r, ok := c.segOf(st, symVal(name, c.p.typ("Segment")))
	if !ok {
		panic("a segment is not an info and a token")
	}
	return r
}

func (c *Ck) sameSeg(st *State, a, b segV) bool {
	return st.same(a.from, b.from) && st.same(a.to, b.to) && st.vkey(a.info) == st.vkey(b.info)
}

// lists splits the state so that the slice has a fixed length, and gives its elements.
func (c *Ck) lists(subj string, st *State, v Val, max int, f func(st *State, es []Val)) {
	s, ok := v.(SliceV)
	if _, isNil := v.(NilV); isNil {
		f(st, nil)
		return
	}
	if !ok {
		c.fail(subj, "returns a list that is known", fmt.Sprintf("%T", v), st)
		return
	}
	if s.nilS {
		f(st, nil)
		return
	}
	elems := func(st *State, n int64) {
		es := []Val{}
		for i := int64(0); i < n; i++ {
			es = append(es, st.loadElem(st.obj(s.arr), st.norm(s.lo.addK(i)), ""))
		}
		f(st, es)
	}
	n := st.norm(s.hi.sub(s.lo))
	if n.isConst() {
		elems(st, n.c)
		return
	}
	for k := int64(0); k <= int64(max); k++ {
		for _, t := range st.clone().assume(eqB(n.addK(-k)), true) {
			elems(t, k)
		}
	}
	c.ob(impossible(st, leB(n.neg().addK(int64(max)+1)), true) && impossible(st, leB(n.addK(1)), true), subj, "the list has an expected length", n.pretty(), st)
}

// --------------------------------------------------------------------- C13

func checkC13(c *Ck) {
	max := 5
	if c.thorough {
		max = 9
	}
	c.bound = append(c.bound, fmt.Sprintf("baskets with 0..%d segments and up to two updates", max))
	add, upd, picked := c.methodOf("Basket", "Add"), c.methodOf("Basket", "Update"), c.methodOf("Basket", "Picked")
	segT := c.p.typ("Segment")
	_ = segT
	marker := func(n string) Val { return symVal(n, c.p.typ("Marker")) }
	// make a new basket
	start := func(subj, ctor string, f func(in *Interp, st *State, b Val)) {
		in := c.interp()
		c.guarded(subj, func() {
			st := in.newState()
			pt, _, _, _ := c.symScanner(in, st)
			args := []Val{pt}
			if ctor == "NewBasketFor" {
				args = append(args, Iface{sym: "g", nn: true})
			}
			if ctor == "" {
				f(in, st, Ptr{obj: st.alloc("basket", c.p.typ("Basket"))})
				return
			}
			fn := c.methodOf("Scanner", ctor)
			outs := c.doCall(in, subj, fn, ctor, args, st)
			c.ob(len(outs) > 0, subj, "makes a basket", "", nil)
			for _, o := range outs {
				b, ok := o.rets[0].(Ptr)
				if !c.ob(ok, subj, "makes a basket", "", o.st) {
					continue
				}
				if ctor == "NewBasketFor" {
					t, isI := o.st.load(in.trkPtr(pt.obj)).(Iface)
					c.ob(isI && t.v != nil && o.st.vkey(t.v) == o.st.vkey(b), subj, "the new basket is the tracker of the scanner", "", o.st)
				}
				f(in, o.st, b)
			}
		})
		c.absorb()
	}
	// the coupling and the emptiness of new baskets
	for _, ctor := range []string{"NewBasket", "NewBasketFor"} {
		subj := "Scanner." + ctor
		start(subj, ctor, func(in *Interp, st *State, b Val) {
			p := symVal("s", ptrTo(c.p.tok.Type("Scanner").Type())).(Ptr)
			t, isI := st.load(in.trkPtr(p.obj)).(Iface)
			c.ob(isI && t.v != nil && st.vkey(t.v) == st.vkey(b), subj, "the new basket is the tracker of the scanner", "", st)
			for _, o := range c.doCall(in, subj, picked, "Basket.Picked", []Val{b}, st) {
				c.lists(subj, o.st, o.rets[0], 2, func(st *State, es []Val) {
					c.ob(len(es) == 0, subj, "a new basket is empty", "", st)
				})
			}
		})
	}
	type step struct {
		upd bool
		k   int
	}
	history := func(hist []step) {
		subj := "Basket history"
		for _, h := range hist {
			if h.upd {
				subj += " Update"
			} else {
				subj += fmt.Sprintf(" Add*%d", h.k)
			}
		}
		start(subj, "", func(in *Interp, st *State, b Val) {
			type cur struct {
				st   *State
				segs []segV
			}
			states := []cur{{st, nil}}
			nseg, nm := 0, 0
			var low *Lin
			expect := func(cs []cur) []cur {
				out := []cur{}
				for _, x := range cs {
					for _, o := range c.doCall(in, subj, picked, "Basket.Picked", []Val{b}, x.st) {
						c.lists(subj, o.st, o.rets[0], max+1, func(st *State, es []Val) {
							c.ob(len(es) == len(x.segs), subj, "the basket holds exactly the expected segments", fmt.Sprintf("%d instead of %d", len(es), len(x.segs)), st)
							for i := range es {
								if i >= len(x.segs) {
									break
								}
								g, ok := c.segOf(st, es[i])
								c.ob(ok && c.sameSeg(st, g, x.segs[i]), subj, "the segments are unchanged and in the order in which they were added", fmt.Sprintf("segment %d", i), st)
							}
							out = append(out, cur{st, x.segs})
						})
					}
				}
				return out
			}
			for _, h := range hist {
				next := []cur{}
				if h.upd {
					nm++
					m := marker(fmt.Sprintf("m%d", nm))
					ml := m.(Num).l
					low = &ml
					for _, x := range states {
						s := x.st.clone()
						s.addLE(ml.neg())
						for _, o := range c.doCall(in, subj, upd, "Basket.Update", []Val{b, m}, s) {
							// by the order of the ends a prefix is kept
							for k := 0; k <= len(x.segs); k++ {
								t := o.st.clone()
								ts := []*State{t}
								for i, g := range x.segs {
									n := []*State{}
									for _, y := range ts {
										n = append(n, y.assume(leB(g.to.sub(ml)), i < k)...)
									}
									ts = n
								}
								for _, y := range ts {
									next = append(next, cur{y, x.segs[:k]})
								}
							}
						}
					}
				} else {
					for k := 0; k < h.k; k++ {
						nseg++
						for i := range states {
							x := &states[i]
							g := c.symSeg(x.st, fmt.Sprintf("seg%d", nseg))
							if low != nil {
								x.st.addLE(low.sub(g.to))
							}
							if n := len(x.segs); n > 0 {
								x.st.addLE(x.segs[n-1].to.sub(g.to))
							}
							if x.st.dead {
								continue
							}
							for _, o := range c.doCall(in, subj, add, "Basket.Add", []Val{b, g.v}, x.st) {
								next = append(next, cur{o.st, append(x.segs[:len(x.segs):len(x.segs)], g)})
							}
						}
						states, next = next, nil
					}
					next = states
				}
				states = expect(next)
			}
		})
	}
	for n := 0; n <= max; n++ {
		history([]step{{false, n}, {true, 0}})
	}
	for n := 0; n <= max-2; n++ {
		history([]step{{false, n}, {true, 0}, {false, 2}, {true, 0}, {true, 0}})
	}
}

// --------------------------------------------------------------------- C17

// decides: every outcome of a predicate agrees with the definition.
func (c *Ck) decides(subj string, outs []Outcome, def BoolV) {
	for _, o := range outs {
		b, ok := o.rets[0].(BoolV)
		if !c.ob(ok, subj, "returns a truth value", "", o.st) {
			continue
		}
		for _, v := range []bool{true, false} {
			for _, t := range o.st.clone().assume(b, v) {
				c.ob(impossible(t, def, !v), subj, fmt.Sprintf("returns %v only if the definition says so", v), "", t)
			}
		}
	}
}

func checkC17(c *Ck) {
	tok := c.p.typ("Token")
	mk := func(st *State, n string) (StructV, Lin, Lin) {
		v := symVal(n, tok).(StructV)
		return v, v.f[0].(Num).l, v.f[1].(Num).l
	}
	ends := func(st *State, v Val) (Lin, Lin, bool) {
		s, ok := v.(StructV)
		if !ok || len(s.f) != 2 {
			return Lin{}, Lin{}, false
		}
		a, ok1 := s.f[0].(Num)
		b, ok2 := s.f[1].(Num)
		return a.l, b.l, ok1 && ok2
	}
	run := func(subj string, f func(in *Interp, st *State)) {
		in := c.interp()
		c.guarded(subj, func() { f(in, in.newState()) })
		c.absorb()
	}
	le := func(a, b Lin) BoolV { return leB(a.sub(b)) }
	rel := func(name string, def func(f1, t1, f2, t2 Lin) BoolV) {
		subj := "Token." + name
		run(subj, func(in *Interp, st *State) {
			a, f1, t1 := mk(st, "t")
			b, f2, t2 := mk(st, "oth")
			outs := c.doCall(in, subj, c.methodOf("Token", name), subj, []Val{a, b}, st)
			c.ob(len(outs) > 0, subj, "returns", "", nil)
			c.decides(subj, outs, def(f1, t1, f2, t2))
		})
	}
	before := func(f1, t1, f2, t2 Lin) BoolV { return le(t1, f2) }
	covers := func(f1, t1, f2, t2 Lin) BoolV { return andB(le(f1, f2), le(t2, t1)) }
	rel("Before", before)
	rel("After", func(f1, t1, f2, t2 Lin) BoolV { return le(t2, f1) })
	rel("Covers", covers)
	rel("Clashes", func(f1, t1, f2, t2 Lin) BoolV {
		return andB(before(f1, t1, f2, t2).not(), before(f2, t2, f1, t1).not(), covers(f1, t1, f2, t2).not(), covers(f2, t2, f1, t1).not())
	})
	run("MakeToken", func(in *Interp, st *State) {
		a, b := symVal("a", c.p.typ("Marker")).(Num), symVal("b", c.p.typ("Marker")).(Num)
		outs := c.doCall(in, "MakeToken", c.p.tok.Func("MakeToken"), "MakeToken", []Val{a, b}, st)
		c.ob(len(outs) > 0, "MakeToken", "returns", "", nil)
		for _, o := range outs {
			f, t, ok := ends(o.st, o.rets[0])
			c.ob(ok && o.st.le(f.sub(t)), "MakeToken", "the start is not after the end", "", o.st)
			c.ob(ok && impossible(o.st, orB(andB(eqB(f.sub(a.l)), eqB(t.sub(b.l))), andB(eqB(f.sub(b.l)), eqB(t.sub(a.l)))), false), "MakeToken", "the ends are the given markers", "", o.st)
		}
	})
	run("Token.Len", func(in *Interp, st *State) {
		a, f1, t1 := mk(st, "t")
		outs := c.doCall(in, "Token.Len", c.methodOf("Token", "Len"), "Token.Len", []Val{a}, st)
		c.ob(len(outs) > 0, "Token.Len", "returns", "", nil)
		for _, o := range outs {
			n, ok := o.rets[0].(Num)
			c.ob(ok && o.st.same(n.l, t1.sub(f1)), "Token.Len", "is the distance of the ends", "", o.st)
		}
	})
	run("Token.Merge", func(in *Interp, st *State) {
		a, f1, t1 := mk(st, "t")
		b, f2, t2 := mk(st, "oth")
		outs := c.doCall(in, "Token.Merge", c.methodOf("Token", "Merge"), "Token.Merge", []Val{a, b}, st)
		c.ob(len(outs) > 0, "Token.Merge", "returns", "", nil)
		for _, o := range outs {
			f, t, ok := ends(o.st, o.rets[0])
			c.ob(ok && o.st.le(f.sub(f1)) && o.st.le(f.sub(f2)) && o.st.le(t1.sub(t)) && o.st.le(t2.sub(t)), "Token.Merge", "covers both tokens", "", o.st)
			c.ob(ok && impossible(o.st, orB(eqB(f.sub(f1)), eqB(f.sub(f2))), false) && impossible(o.st, orB(eqB(t.sub(t1)), eqB(t.sub(t2))), false), "Token.Merge", "is the smallest token that covers both", "", o.st)
		}
	})
	split := func(subj, typ string, seg bool) {
		run(subj, func(in *Interp, st *State) {
			var a, b Val
			var f1, t1, f2, t2 Lin
			var info Str
			if seg {
				x, y := c.symSeg(st, "v"), c.symSeg(st, "sep")
				a, f1, t1, info = x.v, x.from, x.to, x.info
				b, f2, t2 = y.v, y.from, y.to
			} else {
				a, f1, t1 = mk(st, "t")
				b, f2, t2 = mk(st, "sep")
			}
			outs := c.doCall(in, subj, c.methodOf(typ, "Split"), subj, []Val{a, b}, st)
			c.ob(len(outs) > 0, subj, "returns", "", nil)
			for _, o := range outs {
				part := func(i int) (Lin, Lin, bool) {
					if !seg {
						return ends(o.st, o.rets[i])
					}
					g, ok := c.segOf(o.st, o.rets[i])
					return g.from, g.to, ok && o.st.vkey(g.info) == o.st.vkey(info)
				}
				lf, lt, ok1 := part(0)
				rf, rt, ok2 := part(1)
				if !c.ob(ok1 && ok2, subj, "returns two parts with the information of the whole", "", o.st) {
					continue
				}
				c.ob(o.st.le(lf.sub(lt)) && o.st.le(rf.sub(rt)), subj, "the start of a part is not after its end", "", o.st)
				for _, t := range o.st.clone().assume(covers(f1, t1, f2, t2), true) {
					c.ob(t.same(lf, f1) && t.same(lt, f2), subj, "the left part lies between the start and the separator", "", t)
					c.ob(t.same(rf, t2) && t.same(rt, t1), subj, "the right part lies between the separator and the end", "", t)
				}
			}
		})
	}
	split("Token.Split", "Token", false)
	split("Segment.Split", "Segment", true)
	// every token that leaves the library is ordered
	var check func(subj string, st *State, t types.Type, v Val)
	check = func(subj string, st *State, t types.Type, v Val) {
		s, ok := v.(StructV)
		if !ok {
			return
		}
		if isTok(t, "Token") {
			if f, to, ok := ends(st, v); ok {
				c.ob(st.le(f.sub(to)), subj, "the start of a token is not after its end", f.pretty()+" and "+to.pretty(), st)
			}
			return
		}
		for i, f := range structFields(t) {
			if i < len(s.f) {
				check(subj, st, f.Type(), s.f[i])
			}
		}
	}
	var cur string
	watch := func(in *Interp) {
		in.hostile = true
		in.onEvent = func(st *State, e Event) {
			if st.dead {
				return
			}
			switch e.kind {
			case "map":
				for _, a := range e.args {
					if s, ok := a.(StructV); ok && len(s.f) == 2 {
						check(cur, st, tok, s)
					}
				}
			case "append":
				a, ok := e.args[1].(SliceV)
				if !ok || a.nilS || a.arr <= 0 {
					return
				}
				n := st.norm(a.hi.sub(a.lo))
				et := elemType(objTypes[a.arr])
				if n.isConst() && et != nil {
					for i := int64(0); i < n.c; i++ {
						check(cur, st, et, st.loadElem(st.obj(a.arr), st.norm(a.lo.addK(i)), ""))
					}
				}
			}
		}
	}
	for _, fn := range c.exported() {
		if !publicRecv(fn) || !handlesTokens(fn) {
			continue
		}
		cur = shortName(fn)
		in := c.interp()
		watch(in)
		in.recSum = true
		c.guarded(cur, func() {
			st := in.newState()
			args := []Val{}
			for _, p := range fn.Params {
				if isTok(deptr(p.Type()), "Scanner") {
					args = append(args, symVal("s", p.Type()))
					continue
				}
				args = append(args, c.arg(p.Name(), p))
			}
			for _, o := range in.call(fn, args, nil, st) {
				if o.panic != "" {
					continue
				}
				for i, r := range o.rets {
					check(cur, o.st, fn.Signature.Results().At(i).Type(), r)
				}
			}
		})
		c.absorb()
	}
	for _, ctor := range []string{"Map", "Pick"} {
		for _, rd := range c.readerCases(1) {
			if rd.ctor == ctor {
				cur = rd.name
				rd.run(c, watch)
			}
		}
	}
}

// handlesTokens: the function is about tokens or segments.
func handlesTokens(fn *ssa.Function) bool {
	s := fn.Signature
	is := func(t types.Type) bool {
		if x, ok := t.Underlying().(*types.Slice); ok {
			t = x.Elem()
		}
		return isTok(t, "Token") || isTok(t, "Segment")
	}
	for i := 0; i < s.Results().Len(); i++ {
		if is(s.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// --------------------------------------------------------------------- C18

func (c *Ck) segList(st *State, n int) ([]segV, SliceV) {
	gs := []segV{}
	vs := []Val{}
	for i := 0; i < n; i++ {
		g := c.symSeg(st, fmt.Sprintf("seg%d", i+1))
		gs = append(gs, g)
		vs = append(vs, g.v)
	}
	return gs, listVal(st, c.p.typ("Segment"), vs)
}

// withInfo is the segment with another information.
func (c *Ck) withInfo(g segV, info string) segV {
	f := append([]Val(nil), g.v.f...)
	for i := range f {
		if _, ok := f[i].(Str); ok {
			f[i] = constStr(info)
		}
	}
	return segV{StructV{f}, constStr(info), g.from, g.to}
}

// partitions calls f for every pattern of equality of n strings.
func partitions(n int, f func(p []string)) {
	p := []string{}
	var step func(used int)
	step = func(used int) {
		if len(p) == n {
			f(p)
			return
		}
		for k := 0; k <= used; k++ {
			p = append(p, string(rune('a'+k)))
			u := used
			if k == used {
				u++
			}
			step(u)
			p = p[:len(p)-1]
		}
	}
	step(0)
}

func strictlyCovers(a, b segV) BoolV {
	return andB(leB(a.from.sub(b.from)), leB(b.to.sub(a.to)), andB(eqB(a.from.sub(b.from)), eqB(a.to.sub(b.to))).not())
}

func sameToken(a, b segV) BoolV { return andB(eqB(a.from.sub(b.from)), eqB(a.to.sub(b.to))) }

func checkC18(c *Ck) {
	max, omax := 3, 3
	if c.thorough {
		max, omax = 4, 4
	}
	c.bound = append(c.bound, fmt.Sprintf("lists of 0..%d segments, order lists of 0..%d distinct or equal informations; the comparisons on all pairs and triples", max, omax))
	var subj string
	axioms := func(in *Interp) {
		in.onSort = func(st *State, n int64, less func(st *State, i, j int64) []Outcome) {
			c.strictWeak(subj, st, n, less)
		}
	}
	for n := 0; n <= max; n++ {
		subj = fmt.Sprintf("SortSegments of %d segments", n)
		in := c.interp()
		if n <= 3 {
			axioms(in)
		}
		c.guarded(subj, func() {
			st := in.newState()
			gs, l := c.segList(st, n)
			outs := c.doCall(in, subj, c.p.tok.Func("SortSegments"), "SortSegments", []Val{l}, st)
			c.ob(len(outs) > 0, subj, "returns", "", nil)
			for _, o := range outs {
				c.sorted(subj, o.st, l, gs, nil)
			}
		})
		c.absorb()
	}
	for m := 0; m <= omax; m++ {
		for n := 2; n <= 3; n++ {
			if n+m > 5 && !c.thorough {
				continue
			}
			if n+m > 6 {
				continue
			}
			subj = fmt.Sprintf("SortSegmentsByOrder of %d segments with %d infos", n, m)
			// informations are only compared: each pattern of equal ones is a case
			partitions(n+m, func(p []string) {
				in := c.interp()
				axioms(in)
				c.guarded(subj, func() {
					st := in.newState()
					gs := []segV{}
					sv := []Val{}
					for i := 0; i < n; i++ {
						g := c.withInfo(c.symSeg(st, fmt.Sprintf("seg%d", i+1)), p[i])
						gs = append(gs, g)
						sv = append(sv, g.v)
					}
					l := listVal(st, c.p.typ("Segment"), sv)
					order := []Str{}
					vs := []Val{}
					for i := 0; i < m; i++ {
						order = append(order, constStr(p[n+i]))
						vs = append(vs, constStr(p[n+i]))
					}
					outs := c.doCall(in, subj, c.p.tok.Func("SortSegmentsByOrder"), "SortSegmentsByOrder", []Val{l, listVal(st, types.Typ[types.String], vs)}, st)
					c.ob(len(outs) > 0, subj, "returns", "", nil)
					for _, o := range outs {
						c.sorted(subj, o.st, l, gs, order)
					}
				})
				c.absorb()
			})
		}
	}
	// the comparison of the nodes of a graph
	subj = "Graph.Append"
	in := c.interp()
	n := 0
	in.onSort = func(st *State, k int64, less func(st *State, i, j int64) []Outcome) {
		n++
		c.strictWeak(subj, st, k, less)
	}
	c.guarded(subj, func() {
		st := in.newState()
		for _, x := range c.graphs(in, subj, st, 2) {
			g := c.symSeg(x.st, "seg3")
			c.doCall(in, subj, c.methodOf("Graph", "Append"), "Graph.Append", []Val{x.g, g.v}, x.st)
		}
	})
	c.absorb()
}

// sorted: the list holds the segments in an order that is allowed.
func (c *Ck) sorted(subj string, st *State, l SliceV, gs []segV, order []Str) {
	c.lists(subj, st, l, len(gs), func(st *State, es []Val) {
		if !c.ob(len(es) == len(gs), subj, "keeps the number of segments", "", st) {
			return
		}
		perm := []int{}
		used := map[int]bool{}
		for _, e := range es {
			g, ok := c.segOf(st, e)
			at := -1
			for i := range gs {
				if ok && !used[i] && st.vkey(g.info) == st.vkey(gs[i].info) && c.sameSeg(st, g, gs[i]) {
					at = i
					break
				}
			}
			if !c.ob(at >= 0, subj, "the result is a permutation of the segments", "", st) {
				return
			}
			used[at] = true
			perm = append(perm, at)
		}
		for i := range perm {
			for j := i + 1; j < len(perm); j++ {
				a, b := gs[perm[i]], gs[perm[j]]
				c.ob(impossible(st, strictlyCovers(b, a), true), subj, "a covering segment appears before the segments it covers", "", st)
				c.equalTokens(subj, st, a, b, perm[i] < perm[j], order)
			}
		}
	})
}

// equalTokens: a appears before b; kept tells that it also did so before sorting.
func (c *Ck) equalTokens(subj string, st *State, a, b segV, kept bool, order []Str) {
	for _, t := range st.clone().assume(sameToken(a, b), true) {
		if len(order) == 0 {
			c.ob(kept, subj, "equal segments keep their order", "", t)
			continue
		}
		rank := func(s Str) int {
			for i, o := range order {
				if t.vkey(o) == t.vkey(s) {
					return i
				}
			}
			return -1
		}
		ra, rb := rank(a.info), rank(b.info)
		switch {
		case ra >= 0 && rb >= 0 && ra != rb:
			c.ob(ra < rb, subj, "for equal tokens the order list decides", "", t)
		case ra == rb:
			c.ob(kept, subj, "equal segments keep their order", "", t)
		}
	}
}

// strictWeak checks the axioms of a strict weak order on the elements that are to be sorted.
func (c *Ck) strictWeak(subj string, st *State, n int64, less func(st *State, i, j int64) []Outcome) {
	if n > 3 {
		n = 3
	}
	type rel struct {
		st *State
		r  [3][3]bool
	}
	states := []rel{{st: st.clone()}}
	for i := int64(0); i < n; i++ {
		for j := int64(0); j < n; j++ {
			next := []rel{}
			for _, x := range states {
				for _, o := range less(x.st.clone(), i, j) {
					if o.panic != "" || o.st.dead {
						continue
					}
					b, ok := o.rets[0].(BoolV)
					if !c.ob(ok, subj, "the comparison returns a truth value", "", o.st) {
						continue
					}
					for _, v := range []bool{true, false} {
						if i == j {
							if v {
								c.ob(impossible(o.st, b, true), subj, "no segment is sorted before itself", "", o.st)
								continue
							}
						}
						for _, t := range o.st.clone().assume(b, v) {
							y := rel{t, x.r}
							y.r[i][j] = v
							if v && y.r[j][i] {
								c.fail(subj, "the comparison is never true in both directions", "", t)
								continue
							}
							next = append(next, y)
						}
					}
				}
			}
			states = next
		}
	}
	c.ob(true, subj, "the comparison is never true in both directions", "", nil)
	for _, x := range states {
		for i := int64(0); i < n; i++ {
			for j := int64(0); j < n; j++ {
				for k := int64(0); k < n; k++ {
					if i == j || j == k || i == k {
						continue
					}
					if x.r[i][j] && x.r[j][k] {
						c.ob(x.r[i][k], subj, "the comparison is transitive", "", x.st)
					}
					if !x.r[i][j] && !x.r[j][i] && !x.r[j][k] && !x.r[k][j] {
						c.ob(!x.r[i][k] && !x.r[k][i], subj, "elements that are equal to the same element are equal", "", x.st)
					}
				}
			}
		}
	}
}

// --------------------------------------------------------------------- C19

func checkC19(c *Ck) {
	max := 4
	if c.thorough {
		max = 6
	}
	c.bound = append(c.bound, fmt.Sprintf("lists of 0..%d segments", max))
	for n := 0; n <= max; n++ {
		for _, typ := range []string{"Segment", "Scanner"} {
			subj := fmt.Sprintf("%s.Segmentate with %d segments", typ, n)
			in := c.interp()
			c.guarded(subj, func() {
				st := in.newState()
				gs, l := c.segList(st, n)
				var recv Val
				var whole segV
				if typ == "Segment" {
					whole = c.symSeg(st, "s")
					recv = whole.v
				} else {
					pt, _, L, _ := c.symScanner(in, st)
					recv = pt
					whole = segV{info: constStr(""), from: konst(0), to: L}
				}
				fn := c.methodOf(typ, "Segmentate")
				outs := c.doCall(in, subj, fn, typ+".Segmentate", []Val{recv, l}, st)
				c.ob(len(outs) > 0, subj, "returns", "", nil)
				for _, o := range outs {
					for _, b := range splitOK(o.st, o.rets[1]) {
						c.tiling(subj, b.st, b.ok, o.rets[0], whole, gs)
					}
				}
				// the given list is not changed
				for _, o := range outs {
					c.lists(subj, o.st, l, n, func(st *State, es []Val) {
						for i := range es {
							g, ok := c.segOf(st, es[i])
							c.ob(ok && c.sameSeg(st, g, gs[i]), subj, "leaves the given list as it was", "", st)
						}
					})
				}
			})
			c.absorb()
		}
	}
}

func (c *Ck) tiling(subj string, st *State, ok bool, res Val, whole segV, gs []segV) {
	cond := []BoolV{}
	cur := whole.from
	for _, g := range gs {
		cond = append(cond, leB(cur.sub(g.from)), leB(g.from.sub(g.to)), leB(g.to.sub(whole.to)))
		cur = g.to
	}
	fits := andB(cond...)
	if !ok {
		c.ob(impossible(st, fits, true), subj, "fails only if a segment lies outside of what remains", "", st)
		return
	}
	c.ob(impossible(st, fits, false), subj, "succeeds only if every segment lies in what remains", "", st)
	c.lists(subj, st, res, 2*len(gs)+1, func(st *State, es []Val) {
		// split by the gaps that are empty
		type cse struct {
			st   *State
			want []segV
		}
		cs := []cse{{st, nil}}
		cur := whole.from
		step := func(to Lin, g *segV) {
			next := []cse{}
			for _, x := range cs {
				for _, empty := range []bool{true, false} {
					for _, t := range x.st.clone().assume(eqB(to.sub(cur)), empty) {
						w := x.want[:len(x.want):len(x.want)]
						if !empty {
							w = append(w, segV{info: whole.info, from: cur, to: to})
						}
						if g != nil {
							w = append(w[:len(w):len(w)], *g)
						}
						next = append(next, cse{t, w})
					}
				}
			}
			cs = next
			if g != nil {
				cur = g.to
			}
		}
		for i := range gs {
			step(gs[i].from, &gs[i])
		}
		step(whole.to, nil)
		for _, x := range cs {
			if !c.ob(len(es) == len(x.want), subj, "returns the segments and the non-empty gaps", fmt.Sprintf("%d parts instead of %d", len(es), len(x.want)), x.st) {
				continue
			}
			for i := range es {
				g, ok := c.segOf(x.st, es[i])
				c.ob(ok && c.sameSeg(x.st, g, x.want[i]), subj, "the parts tile the segment in order", fmt.Sprintf("part %d", i), x.st)
			}
		}
	})
}
