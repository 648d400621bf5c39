package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C35", "abstract interpretation of the functions that print, compare and build from data: the resulting text is compared part by part with the text of the definition, equality with the equality of all segments, for trees of every shape", 150, checkC35,
		"the What of a reader is a pure function of the reader")
}

func checkC35(c *Ck) {
	c.forms()
	c.basketForm()
	c.logForm()
	c.ruleForms()
	c.graphEqual()
	c.flameStack()
	c.buildGraph()
}

// equalText compares two texts part by part.
func equalText(st *State, a, b Str) bool {
	parts := func(s Str) []Str {
		s = concat(st, s)
		if s.b.parts != nil && s.lo.isConst() && s.lo.c == 0 && st.same(s.hi, s.b.len) {
			return s.b.parts
		}
		if k, ok := s.constVal(); ok && k == "" {
			return nil
		}
		return []Str{s}
	}
	p, q := parts(a), parts(b)
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i].b.itoa != nil && q[i].b.itoa != nil && st.same(*p[i].b.itoa, *q[i].b.itoa) {
			continue
		}
		if st.vkey(p[i]) != st.vkey(q[i]) {
			return false
		}
	}
	return true
}

// gives: every outcome is the text.
func (c *Ck) gives(subj, clause string, outs []Outcome, want func(st *State) Str) {
	c.ob(len(outs) > 0, subj, "returns", "", nil)
	for _, o := range outs {
		s, ok := o.rets[0].(Str)
		if !c.ob(ok, subj, "returns a text", "", o.st) {
			continue
		}
		w := want(o.st)
		c.ob(equalText(o.st, s, w), subj, clause, fmt.Sprintf("got %s, defined as %s", showText(s), showText(w)), o.st)
	}
}

func showText(s Str) string {
	if s.b.parts == nil {
		return s.b.name
	}
	r := ""
	for _, p := range s.b.parts {
		r += p.b.name + " "
	}
	return r
}

func (c *Ck) tokenText(st *State, g segV) Str {
	return concat(st, constStr("["), decimal(st, g.from), constStr("-"), decimal(st, g.to), constStr(")"))
}

func (c *Ck) segText(st *State, g segV) Str { return concat(st, g.info, c.tokenText(st, g)) }

// forms: the texts of tokens, segments and read errors.
func (c *Ck) forms() {
	c.guarded("Token.String", func() {
		in := c.interp()
		st := in.newState()
		g := c.symSeg(st, "seg")
		for i, f := range structFields(c.p.typ("Segment")) {
			if isTok(f.Type(), "Token") {
				outs := c.doCall(in, "Token.String", c.methodOf("Token", "String"), "Token.String", []Val{g.v.f[i]}, st)
				c.gives("Token.String", "is [from-to)", outs, func(st *State) Str { return c.tokenText(st, g) })
			}
		}
	})
	c.absorb()
	c.guarded("Segment.String", func() {
		in := c.interp()
		st := in.newState()
		g := c.symSeg(st, "seg")
		outs := c.doCall(in, "Segment.String", c.methodOf("Segment", "String"), "Segment.String", []Val{g.v}, st)
		c.gives("Segment.String", "is the info followed by the token", outs, func(st *State) Str { return c.segText(st, g) })
	})
	c.absorb()
	c.guarded("ReadError.Error", func() {
		in := c.interp()
		st := in.newState()
		e, ok := symVal("err", c.p.typ("ReadError")).(StructV)
		if !c.ob(ok, "ReadError.Error", "a read error has a position and a description", "", nil) {
			return
		}
		what, at := Str{}, Lin{}
		for _, f := range e.f {
			switch x := f.(type) {
			case Str:
				what = x
			case Num:
				at = x.l
			}
		}
		outs := c.doCall(in, "ReadError.Error", c.methodOf("ReadError", "Error"), "ReadError.Error", []Val{e}, st)
		c.gives("ReadError.Error", "names what could not be read and the position", outs, func(st *State) Str {
			return concat(st, constStr("not able to read "), what, constStr(" at "), decimal(st, at))
		})
	})
	c.absorb()
}

// logForm: an entry is printed with its level, as many dots, the position and the info.
func (c *Ck) logForm() {
	subj := "LogEntry.String"
	for level := int64(0); level <= 5; level++ {
		in := c.interp()
		c.guarded(subj, func() {
			st := in.newState()
			e, ok := symVal("entry", c.p.typ("LogEntry")).(StructV)
			if !c.ob(ok, subj, "an entry is a struct", "", nil) {
				return
			}
			var info Str
			var at Lin
			for i, f := range structFields(c.p.typ("LogEntry")) {
				switch f.Name() {
				case "Level":
					e.f[i] = num(level)
				case "Info":
					info, _ = e.f[i].(Str)
				case "EnterAt":
					if n, ok := e.f[i].(Num); ok {
						at = n.l
					}
				}
			}
			if !c.ob(info.b != nil, subj, "an entry has an info", "", nil) {
				return
			}
			outs := c.doCall(in, subj, c.methodOf("LogEntry", "String"), subj, []Val{e}, st)
			c.gives(subj, "is the level, as many dots, the position and the info", outs, func(st *State) Str {
				return concat(st, constStr(fmt.Sprintf("%d%s@ ", level, strings.Repeat(".", int(level)))), decimal(st, at), constStr(" "), info)
			})
		})
		c.absorb()
	}
	c.bound = append(c.bound, "log entries of the levels 0 to 5")
}

func (c *Ck) basketForm() {
	subj := "Basket.String"
	max := 4
	if c.thorough {
		max = 8
	}
	c.bound = append(c.bound, fmt.Sprintf("baskets of up to %d segments", max))
	for n := 0; n <= max; n++ {
		in := c.interp()
		c.guarded(subj, func() {
			st := in.newState()
			b := Ptr{obj: st.alloc("basket", c.p.typ("Basket"))}
			states := []*State{st}
			gs := []segV{}
			for i := 0; i < n; i++ {
				g := c.symSeg(st, fmt.Sprintf("seg%d", i+1))
				gs = append(gs, g)
				next := []*State{}
				for _, s := range states {
					for _, o := range c.doCall(in, subj, c.methodOf("Basket", "Add"), "Basket.Add", []Val{b, g.v}, s) {
						next = append(next, o.st)
					}
				}
				states = next
			}
			for _, s := range states {
				outs := c.doCall(in, subj, c.methodOf("Basket", "String"), subj, []Val{b}, s)
				c.gives(subj, "is the texts of the segments joined by a semicolon", outs, func(st *State) Str {
					ps := []Str{}
					for i, g := range gs {
						if i > 0 {
							ps = append(ps, constStr(";"))
						}
						ps = append(ps, c.segText(st, g))
					}
					return concat(st, ps...)
				})
			}
		})
		c.absorb()
	}
}

// ruleForms: a rule is printed with its name and what its reader reads, a grammar line by line.
func (c *Ck) ruleForms() {
	ptrRule := types.NewPointer(c.p.typ("Rule"))
	for n := 0; n <= 3; n++ {
		in := c.interp()
		subj := "GrammarLines"
		if n == 1 {
			subj = "Rule.Rule"
		}
		c.guarded(subj, func() {
			st := in.newState()
			ps := []Val{}
			names := []Str{}
			whats := []Str{}
			for i := 0; i < n; i++ {
				p, nm, sub := c.newRule(st, fmt.Sprintf("rule%d", i+1))
				ps = append(ps, p)
				names = append(names, nm)
				for _, o := range in.invoke(sub.v, c.ifaceMethod("What"), nil, st.clone(), 0, c.p.tok.Func("init")) {
					if w, ok := o.rets[0].(Str); ok {
						whats = append(whats, w)
					}
				}
			}
			if !c.ob(len(whats) == n, subj, "a reader has a description", "", st) {
				return
			}
			text := func(st *State, i int) Str { return concat(st, names[i], constStr(": "), whats[i]) }
			if n == 1 {
				outs := c.doCall(in, subj, c.methodOf("Rule", "Rule"), subj, ps, st)
				c.gives(subj, "is the name, a colon and what the reader reads", outs, func(st *State) Str { return text(st, 0) })
				subj = "GrammarLines"
			}
			outs := c.doCall(in, subj, c.p.tok.Func("GrammarLines"), subj, []Val{listVal(st, ptrRule, ps)}, st)
			c.ob(len(outs) > 0, subj, "returns", "", nil)
			for _, o := range outs {
				c.lists(subj, o.st, o.rets[0], 4, func(st *State, es []Val) {
					good := len(es) == n
					for i := range es {
						if good {
							s, ok := es[i].(Str)
							good = ok && equalText(st, s, text(st, i))
						}
					}
					c.ob(good, subj, "has the line of every rule in order", "", st)
				})
			}
		})
		c.absorb()
	}
}

// shape of a tree.
type shape []shape

func (s shape) size() int {
	n := 1
	for _, x := range s {
		n += x.size()
	}
	return n
}

func (s shape) String() string {
	r := []string{}
	for _, x := range s {
		r = append(r, x.String())
	}
	return "(" + strings.Join(r, "") + ")"
}

// shapes lists the trees with n nodes.
func shapes(n int) []shape {
	// forests with m nodes
	var forests func(m int) [][]shape
	forests = func(m int) [][]shape {
		if m == 0 {
			return [][]shape{nil}
		}
		res := [][]shape{}
		for k := 1; k <= m; k++ {
			for _, t := range shapes(k) {
				for _, f := range forests(m - k) {
					res = append(res, append([]shape{t}, f...))
				}
			}
		}
		return res
	}
	res := []shape{}
	for _, f := range forests(n - 1) {
		res = append(res, shape(f))
	}
	return res
}

// plant makes a tree of nodes with symbolic segments.
func (c *Ck) plant(st *State, name string, s shape) Ptr {
	p := Ptr{obj: st.alloc(name, c.p.typ("Node"))}
	for i, f := range structFields(c.p.typ("Node")) {
		q := Ptr{obj: p.obj, path: fmt.Sprintf(".%d", i)}
		if isTok(f.Type(), "Segment") {
			st.store(q, c.symSeg(st, name).v)
			continue
		}
		if l, ok := f.Type().Underlying().(*types.Slice); ok && len(s) > 0 {
			subs := []Val{}
			for k, x := range s {
				subs = append(subs, c.plant(st, fmt.Sprintf("%s.%d", name, k+1), x))
			}
			st.store(q, listVal(st, l.Elem(), subs))
		}
	}
	return p
}

func (c *Ck) graphObj(st *State, name string, s shape) Ptr {
	g := Ptr{obj: st.alloc(name, c.p.typ("Graph"))}
	for i, f := range structFields(c.p.typ("Graph")) {
		if t, ok := f.Type().Underlying().(*types.Pointer); ok && isTok(t.Elem(), "Node") {
			st.store(Ptr{obj: g.obj, path: fmt.Sprintf(".%d", i)}, c.plant(st, name, s))
		}
	}
	return g
}

func (c *Ck) graphEqual() {
	max := 4
	if c.thorough {
		max = 5
	}
	c.bound = append(c.bound, fmt.Sprintf("pairs of trees of every shape with up to %d nodes", max))
	all := []shape{}
	for n := 1; n <= max; n++ {
		all = append(all, shapes(n)...)
	}
	equal := func(subj, typ string, s, t shape, get func(g Ptr, st *State) Val) {
		in := c.interp()
		in.maxRec = 8
		c.guarded(subj, func() {
			st := in.newState()
			a, b := c.graphObj(st, "a", s), c.graphObj(st, "b", t)
			ra, rb := c.rootOf(st, a), c.rootOf(st, b)
			defs := []BoolV{}
			var walk func(x, y *nodeV) bool
			walk = func(x, y *nodeV) bool {
				if len(x.sub) != len(y.sub) {
					return false
				}
				defs = append(defs, strEq(x.seg.info, y.seg.info), eqB(x.seg.from.sub(y.seg.from)), eqB(x.seg.to.sub(y.seg.to)))
				for i := range x.sub {
					if !walk(x.sub[i], y.sub[i]) {
						return false
					}
				}
				return true
			}
			def := kBool(false)
			if walk(ra, rb) {
				def = andB(defs...)
			}
			outs := c.doCall(in, subj, c.methodOf(typ, "Equal"), subj, []Val{get(a, st), get(b, st)}, st)
			c.ob(len(outs) > 0, subj, "returns", "", nil)
			c.decides(subj, outs, def)
			for _, o := range outs {
				c.ob(c.sameTree(o.st, ra, c.rootOf(o.st, a)) && c.sameTree(o.st, rb, c.rootOf(o.st, b)), subj, "leaves both unchanged", "", o.st)
			}
		})
		c.absorb()
	}
	for _, s := range all {
		for _, t := range all {
			equal("Graph.Equal", "Graph", s, t, func(g Ptr, st *State) Val { return g })
			if s.size() < 3 && t.size() < 3 {
				equal("Node.Equal", "Node", s, t, func(g Ptr, st *State) Val { return c.rootOf(st, g).ptr })
			}
		}
	}
}

// flameStack: a line for every node, depth first: the path of numbered segments and the length.
func (c *Ck) flameStack() {
	subj := "Graph.FlameStack"
	max := 5
	if c.thorough {
		max = 7
	}
	c.bound = append(c.bound, fmt.Sprintf("flame stacks of trees of every shape with up to %d nodes", max))
	for n := 1; n <= max; n++ {
		for _, s := range shapes(n) {
			in := c.interp()
			in.maxRec = 10
			c.guarded(subj, func() {
				st := in.newState()
				g := c.graphObj(st, "g", s)
				root := c.rootOf(st, g)
				outs := c.doCall(in, subj, c.methodOf("Graph", "FlameStack"), subj, []Val{g}, st)
				c.gives(subj, "has a line for every node, depth first: the numbered segments from the root joined by a semicolon, a blank and the length", outs, func(st *State) Str {
					ps := []Str{}
					var walk func(prefix []Str, i int, n *nodeV)
					walk = func(prefix []Str, i int, n *nodeV) {
						prefix = append(prefix[:len(prefix):len(prefix)], constStr(fmt.Sprintf("%d.", i)), c.segText(st, n.seg))
						ps = append(append(ps, prefix...), constStr(" "), decimal(st, n.seg.to.sub(n.seg.from)), constStr("\n"))
						prefix = append(prefix[:len(prefix):len(prefix)], constStr(";"))
						for j, x := range n.sub {
							walk(prefix, j+1, x)
						}
					}
					walk(nil, 1, root)
					return concat(st, ps...)
				})
				for _, o := range outs {
					c.ob(c.sameTree(o.st, root, c.rootOf(o.st, g)), subj, "leaves the graph unchanged", "", o.st)
				}
			})
			c.absorb()
		}
	}
}

// buildGraph: a new graph has the name and no segments; building appends one segment after the other.
func (c *Ck) buildGraph() {
	c.guarded("NewGraph", func() {
		in := c.interp()
		st := in.newState()
		for _, x := range c.graphs(in, "NewGraph", st, 0) {
			r := c.rootOf(x.st, x.g)
			c.ob(r.good && len(r.sub) == 0 && x.st.vkey(r.seg.info) == x.st.vkey(symStr("name")) && x.st.same(r.seg.from, konst(0)) && x.st.same(r.seg.to, konst(0)),
				"NewGraph", "has an empty root with the name", r.show(), x.st)
		}
	})
	c.absorb()
	subj := "BuildGraph"
	build := func(n int, fix func(st *State, gs []segV) []segV) {
		in := c.interp()
		in.maxRec = 8
		c.guarded(subj, func() {
			st := in.newState()
			gs := []segV{}
			for i := 0; i < n; i++ {
				gs = append(gs, c.symSeg(st, fmt.Sprintf("seg%d", i+1)))
			}
			gs = fix(st, gs)
			vs := []Val{}
			for _, g := range gs {
				vs = append(vs, g.v)
			}
			l := listVal(st, c.p.typ("Segment"), vs)
			outs := c.doCall(in, subj, c.p.tok.Func("BuildGraph"), subj, []Val{symStr("name"), l}, st)
			c.ob(len(outs) > 0, subj, "returns", "", nil)
			for _, o := range outs {
				got := c.rootOf(o.st, o.rets[0])
				for _, x := range c.graphsOf(in, subj, o.st, gs) {
					c.ob(c.sameTree(x.st, got, c.rootOf(x.st, x.g)), subj, "gives the graph that appending the segments in order to a new graph gives", got.show(), x.st)
				}
				for i, e := range gs {
					v := o.st.loadElem(o.st.obj(l.arr), o.st.norm(l.lo.addK(int64(i))), "")
					g, ok := c.segOf(o.st, v)
					c.ob(ok && c.sameSeg(o.st, g, e), subj, "leaves the list of segments unchanged", "", o.st)
				}
			}
		})
		c.absorb()
	}
	for n := 0; n <= 2; n++ {
		build(n, func(st *State, gs []segV) []segV { return gs })
	}
	// more segments with given ends
	max := 4
	c.bound = append(c.bound, fmt.Sprintf("graphs built of up to 2 segments with any ends and of up to %d with ends in 0..3", max))
	for n := 3; n <= max; n++ {
		ends := make([][2]int64, n)
		var rec func(k int)
		rec = func(k int) {
			if k < n {
				for a := int64(0); a <= 3; a++ {
					for b := a + 1; b <= 3; b++ {
						ends[k] = [2]int64{a, b}
						rec(k + 1)
					}
				}
				return
			}
			build(n, func(st *State, gs []segV) []segV {
				res := []segV{}
				for i, g := range gs {
					f := append([]Val(nil), g.v.f...)
					for j := range f {
						if _, ok := f[j].(StructV); ok {
							f[j] = StructV{[]Val{num(ends[i][0]), num(ends[i][1])}}
						}
					}
					h, ok := c.segOf(st, StructV{f})
					if !ok {
						panic("a segment is not an info and a token")
					}
					res = append(res, h)
				}
				return res
			})
		}
		rec(0)
	}
}
