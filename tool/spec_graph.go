package main

import (
	"fmt"
	"go/types"
)

func init() {
	register("C20", "abstract interpretation of histories of appends to a new graph with symbolic segments; the resulting tree is compared with the nesting that the tokens define", 40, checkC20)
}

type graphV struct {
	st   *State
	g    Val
	segs []segV // accepted
}

// graphs builds the graphs that n appends of symbolic segments to a new graph can give.
func (c *Ck) graphs(in *Interp, subj string, st *State, n int) []graphV {
	gs := []segV{}
	for i := 0; i < n; i++ {
		gs = append(gs, c.symSeg(st, fmt.Sprintf("seg%d", i+1)))
	}
	return c.graphsOf(in, subj, st, gs)
}

// graphsOf builds the graphs that appends of the segments to a new graph can give.
func (c *Ck) graphsOf(in *Interp, subj string, st *State, gs []segV) []graphV {
	in.maxRec = 8
	res := []graphV{}
	for _, o := range c.doCall(in, subj, c.p.tok.Func("NewGraph"), "NewGraph", []Val{symStr("name")}, st) {
		res = append(res, graphV{o.st, o.rets[0], nil})
	}
	c.ob(len(res) > 0, subj, "makes a graph", "", nil)
	app := c.methodOf("Graph", "Append")
	for _, g := range gs {
		next := []graphV{}
		for _, x := range res {
			for _, o := range c.doCall(in, subj, app, "Graph.Append", []Val{x.g, g.v}, x.st) {
				for _, b := range splitOK(o.st, o.rets[1]) {
					y := graphV{b.st, x.g, x.segs}
					if b.ok {
						y.segs = append(x.segs[:len(x.segs):len(x.segs)], g)
					}
					next = append(next, y)
				}
			}
		}
		res = next
	}
	return res
}

type nodeV struct {
	ptr  Val
	seg  segV
	sub  []*nodeV
	good bool
}

// tree loads the tree below a node.
func (c *Ck) tree(st *State, v Val, depth int) *nodeV {
	p, ok := v.(Ptr)
	n := &nodeV{ptr: v}
	if !ok || depth > 12 {
		return n
	}
	n.good = true
	for i, f := range structFields(c.p.typ("Node")) {
		x := st.load(Ptr{obj: p.obj, path: fmt.Sprintf("%s.%d", p.path, i)})
		if isTok(f.Type(), "Segment") {
			g, ok := c.segOf(st, x)
			n.seg = g
			n.good = n.good && ok
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			switch s := x.(type) {
			case NilV:
			case SliceV:
				if s.nilS {
					continue
				}
				l := st.norm(s.hi.sub(s.lo))
				if !l.isConst() {
					n.good = false
					continue
				}
				for k := int64(0); k < l.c; k++ {
					t := c.tree(st, st.loadElem(st.obj(s.arr), st.norm(s.lo.addK(k)), ""), depth+1)
					n.good = n.good && t.good
					n.sub = append(n.sub, t)
				}
			default:
				n.good = false
			}
		}
	}
	return n
}

func (c *Ck) rootOf(st *State, g Val) *nodeV {
	p, ok := g.(Ptr)
	if !ok {
		return &nodeV{}
	}
	for i, f := range structFields(c.p.typ("Graph")) {
		if t, ok := f.Type().Underlying().(*types.Pointer); ok && isTok(t.Elem(), "Node") {
			return c.tree(st, st.load(Ptr{obj: p.obj, path: fmt.Sprintf("%s.%d", p.path, i)}), 0)
		}
	}
	return &nodeV{}
}

func (n *nodeV) show() string {
	s := n.seg.from.pretty() + "-" + n.seg.to.pretty()
	for _, x := range n.sub {
		s += " (" + x.show() + ")"
	}
	return s
}

func (c *Ck) sameTree(st *State, a, b *nodeV) bool {
	if !a.good || !b.good || !c.sameSeg(st, a.seg, b.seg) || len(a.sub) != len(b.sub) {
		return false
	}
	for i := range a.sub {
		if !c.sameTree(st, a.sub[i], b.sub[i]) {
			return false
		}
	}
	return true
}

// wellFormed: the tree holds exactly the segments and nests them.
func (c *Ck) wellFormed(subj string, st *State, root *nodeV, segs []segV) {
	if !c.ob(root.good, subj, "the graph is a tree of segments", "", st) {
		return
	}
	count := make([]int, len(segs))
	extra := 0
	above := map[[2]int]bool{}
	var walk func(n *nodeV, path []int)
	walk = func(n *nodeV, path []int) {
		for i, x := range n.sub {
			c.ob(st.le(n.seg.from.sub(x.seg.from)) && st.le(x.seg.to.sub(n.seg.to)), subj, "a node covers the nodes below it", root.show(), st)
			if i > 0 {
				l := n.sub[i-1].seg
				c.ob(st.le(l.to.sub(x.seg.from)), subj, "siblings are ordered by position and do not overlap", root.show(), st)
			}
			at := -1
			for k, g := range segs {
				if st.vkey(g.info) == st.vkey(x.seg.info) && c.sameSeg(st, g, x.seg) {
					at = k
				}
			}
			if at < 0 {
				extra++
				walk(x, path)
				continue
			}
			count[at]++
			for _, a := range path {
				above[[2]int{a, at}] = true
			}
			walk(x, append(path[:len(path):len(path)], at))
		}
	}
	walk(root, nil)
	c.ob(extra == 0, subj, "the graph holds only segments that were accepted", root.show(), st)
	for k := range segs {
		c.ob(count[k] == 1, subj, "each accepted segment is in the graph once", fmt.Sprintf("segment %d: %d times in %s", k+1, count[k], root.show()), st)
	}
	for i, a := range segs {
		for j, b := range segs {
			if i == j {
				continue
			}
			// b is not empty and lies strictly in a
			cond := andB(strictlyCovers(a, b), leB(b.from.sub(b.to).addK(1)))
			if !above[[2]int{i, j}] {
				c.ob(impossible(st, cond, true), subj, "a segment is below the segments that cover it", fmt.Sprintf("segments %d and %d in %s", j+1, i+1, root.show()), st)
			} else {
				c.ob(true, subj, "a segment is below the segments that cover it", "", st)
			}
		}
	}
}

func clashes(a, b segV) BoolV {
	return andB(leB(a.to.sub(b.from)).not(), leB(b.to.sub(a.from)).not(), strictlyCovers(a, b).not(), strictlyCovers(b, a).not(), sameToken(a, b).not())
}

func checkC20(c *Ck) {
	max := 3
	c.bound = append(c.bound, fmt.Sprintf("graphs made by up to %d appends, for all orders of the ends of the segments; one more append to each of them", max))
	app := c.methodOf("Graph", "Append")
	for n := 0; n <= max; n++ {
		subj := fmt.Sprintf("Graph.Append after %d appends", n)
		in := c.interp()
		in.fuel = 30000000
		c.guarded(subj, func() {
			st := in.newState()
			for _, x := range c.graphs(in, subj, st, n) {
				before := c.rootOf(x.st, x.g)
				if !c.ob(before.good, subj, "the graph is a tree of segments", "", x.st) {
					continue
				}
				g := c.symSeg(x.st, fmt.Sprintf("seg%d", n+1))
				for _, o := range c.doCall(in, subj, app, "Graph.Append", []Val{x.g, g.v}, x.st) {
					c.ob(o.st.vkey(o.rets[0]) == o.st.vkey(x.g), subj, "returns the graph", "", o.st)
					for _, b := range splitOK(o.st, o.rets[1]) {
						root := c.rootOf(b.st, x.g)
						if b.ok {
							c.wellFormed(subj, b.st, root, append(x.segs[:len(x.segs):len(x.segs)], g))
							for k, y := range x.segs {
								c.ob(impossible(b.st, clashes(y, g), true), subj, "accepts no segment that clashes", fmt.Sprintf("segment %d", k+1), b.st)
							}
						} else {
							some := []BoolV{}
							for _, y := range x.segs {
								some = append(some, clashes(y, g))
							}
							c.ob(impossible(b.st, orB(some...), false), subj, "rejects only a segment that clashes", "", b.st)
							c.ob(c.sameTree(b.st, before, root), subj, "a rejected segment leaves the graph unchanged", before.show()+" became "+root.show(), b.st)
						}
					}
				}
			}
		})
		c.absorb()
	}
	// building a graph is appending
	subj := "BuildGraph"
	in := c.interp()
	in.maxRec = 8
	c.guarded(subj, func() {
		st := in.newState()
		gs, l := c.segList(st, 2)
		outs := c.doCall(in, subj, c.p.tok.Func("BuildGraph"), "BuildGraph", []Val{symStr("name"), l}, st)
		c.ob(len(outs) > 0, subj, "makes a graph", "", nil)
		for _, o := range outs {
			for _, cl := range []bool{true, false} {
				for _, t := range o.st.clone().assume(clashes(gs[0], gs[1]), cl) {
					root := c.rootOf(t, o.rets[0])
					if cl {
						c.wellFormed(subj, t, root, gs[:1])
					} else {
						c.wellFormed(subj, t, root, gs)
					}
					c.ob(root.good && t.vkey(root.seg.info) == t.vkey(symStr("name")), subj, "the root carries the name", "", t)
				}
			}
		}
	})
	c.absorb()
	c.leafs()
}

// leafs: the leafs of a graph are the segments without sub nodes, in order.
func (c *Ck) leafs() {
	subj := "Graph.Leafs"
	in := c.interp()
	in.maxRec = 8
	c.guarded(subj, func() {
		st := in.newState()
		for _, x := range c.graphs(in, subj, st, 2) {
			root := c.rootOf(x.st, x.g)
			want := []segV{}
			var walk func(n *nodeV)
			walk = func(n *nodeV) {
				if len(n.sub) == 0 {
					want = append(want, n.seg)
				}
				for _, y := range n.sub {
					walk(y)
				}
			}
			walk(root)
			for _, o := range c.doCall(in, subj, c.methodOf("Graph", "Leafs"), subj, []Val{x.g}, x.st) {
				c.lists(subj, o.st, o.rets[0], 4, func(st *State, es []Val) {
					good := len(es) == len(want)
					for i := range es {
						if good {
							g, ok := c.segOf(st, es[i])
							good = ok && c.sameSeg(st, g, want[i])
						}
					}
					c.ob(good, subj, "returns the nodes without sub nodes in order", "", st)
				})
				c.ob(c.sameTree(o.st, root, c.rootOf(o.st, x.g)), subj, "leaves the graph unchanged", "", o.st)
			}
		}
	})
	c.absorb()
}
