package main

import "strings"

// strPred: the string x appears adjacent to position p in direction d.
type strPred func(d dirn, p, L Lin, x Str) BoolV

func plainAt(b *StrBase) strPred {
	return func(d dirn, p, L Lin, x Str) BoolV {
		if d.rev {
			return affix(Str{b, konst(0), p}, x, true)
		}
		return affix(Str{b, p, L}, x, false)
	}
}

func foldAt(b *StrBase) strPred {
	return func(d dirn, p, L Lin, x Str) BoolV {
		n := x.length()
		w := Str{b, p, p.add(n)}
		lim := leB(p.add(n).sub(L))
		if d.rev {
			w = Str{b, p.sub(n), p}
			lim = leB(n.sub(p))
		}
		return andB(lim, atomB("fold", w, x))
	}
}

func impossible(st *State, b BoolV, v bool) bool { return len(st.clone().assume(b, v)) == 0 }

func sgn(d dirn, l Lin) Lin {
	if d.rev {
		return l.neg()
	}
	return l
}

// ifStr: success iff x is adjacent, moved by its length.
func (c *Ck) ifStr(r *Run, d dirn, P strPred, x Str) {
	for _, o := range r.results(c) {
		st := o.st
		p := P(d, r.p0, r.L, x)
		if o.ok {
			c.ob(impossible(st, p, false), r.name, "succeeds only if the string is adjacent", "success is possible although the string is not there", st)
			c.ob(st.same(o.pos, r.p0.add(sgn(d, x.length()))), r.name, "moves by the length of the string", "position "+st.norm(o.pos).pretty(), st)
		} else {
			c.ob(impossible(st, p, true), r.name, "fails only if the string is not adjacent", "failure is possible although the string is there", st)
			c.ob(st.same(o.pos, r.p0), r.name, "does not move on failure", "position "+st.norm(o.pos).pretty(), st)
		}
	}
}

// noneBetween: x is adjacent to no considered position from..to (exclusive), all
// positions or the rune borders of the reverse direction. With open set, the range
// extends to the end of the text in that direction.
func (c *Ck) noneBetween(r *Run, st *State, d dirn, P strPred, x Str, from, to Lin, open bool) bool {
	st = st.clone()
	cur := from
	for n := 0; n < 16; n++ {
		if !open && st.same(cur, to) {
			return true
		}
		if open {
			if d.rev && (st.le(cur) || st.le(cur.sub(x.length()).addK(1))) {
				return true
			}
			if !d.rev && st.le(r.L.sub(x.length()).sub(cur).addK(1)) {
				return true
			}
		}
		moved := false
		for _, q := range st.qf {
			shifts := []Lin{konst(0), cur.sub(q.from)}
			switch {
			case q.kind == "unit" && !d.rev:
			case q.kind == "unitrev" && d.rev:
				shifts = append(shifts, x.length())
			case q.kind == "rev" && d.rev && q.b == r.text:
			default:
				continue
			}
			for _, sh := range shifts {
				if !st.same(q.from.add(sh), cur) || st.same(q.to, q.from) {
					continue
				}
				if st.excluded(q, func(t *State, k conj) bool {
					// the item stands for the position o+shift
					return len(t.assume(P(d, symLin(k.o).add(sh), r.L, x), true)) == 0
				}) {
					cur = st.norm(q.to.add(sh))
					moved = true
					break
				}
			}
			if moved {
				break
			}
		}
		if moved {
			continue
		}
		if impossible(st, P(d, cur, r.L, x), true) {
			if d.rev {
				// to the next rune border
				ds := d.decode(r.in, st.clone(), r.text, cur, r.L)
				if len(ds) == 1 && !ds[0].empty {
					st = ds[0].st
					cur = st.norm(cur.sub(ds[0].w))
					continue
				}
				return false
			}
			cur = cur.addK(1)
			continue
		}
		return false
	}
	return false
}

func (c *Ck) toStr(r *Run, d dirn, P strPred, x Str) {
	for _, o := range r.results(c) {
		st := o.st
		if o.ok {
			c.ob(impossible(st, P(d, o.pos, r.L, x), false), r.name, "stops at an appearance of the string", "the string need not be at the reached position "+st.norm(o.pos).pretty(), st)
			c.ob(c.noneBetween(r, st, d, P, x, r.p0, o.pos, false), r.name, "passes no appearance of the string", "an appearance nearer than "+st.norm(o.pos).pretty()+" may be passed", st)
		} else {
			c.ob(st.same(o.pos, r.p0), r.name, "does not move on failure", "position "+st.norm(o.pos).pretty(), st)
			c.ob(c.noneBetween(r, st, d, P, x, r.p0, r.p0, true), r.name, "fails only if there is no appearance", "failure is possible although the string appears", st)
		}
	}
}

// anyStr: the first string of the list that is adjacent is used.
func (c *Ck) anyStr(r *Run, d dirn, P strPred, list SliceV) {
	arr := objNames[list.arr]
	elem := func(st *State, i Lin) Str {
		v := st.loadElem(st.obj(list.arr), i, "")
		s, _ := v.(Str)
		return s
	}
	for _, o := range r.results(c) {
		st := o.st
		if !o.ok {
			c.ob(st.same(o.pos, r.p0), r.name, "does not move on failure", "position "+st.norm(o.pos).pretty(), st)
			c.ob(c.allElems(st, konst(0), list.hi, func(t *State, i Lin) bool {
				return impossible(t, P(d, r.p0, r.L, elem(t, i)), true)
			}), r.name, "fails only if no string of the list is adjacent", "failure is possible although a string of the list is adjacent", st)
			continue
		}
		// the matching element
		good, first := false, false
		for _, f := range st.facts {
			if !f.v || f.a.name != "streq" {
				continue
			}
			for k := 0; k < 2; k++ {
				e, ok := f.a.args[k].(Str)
				if !ok || !strings.HasPrefix(e.b.key, arr+"[<") {
					continue
				}
				idx, ok := parseLin(e.b.key[len(arr)+2 : strings.IndexByte(e.b.key, '>')])
				if !ok {
					continue
				}
				el := elem(st, idx)
				if impossible(st, P(d, r.p0, r.L, el), false) && st.same(o.pos, r.p0.add(sgn(d, el.length()))) {
					good = true
					if c.allElems(st, konst(0), idx, func(t *State, i Lin) bool {
						return impossible(t, P(d, r.p0, r.L, elem(t, i)), true)
					}) {
						first = true
					}
				}
			}
		}
		c.ob(good, r.name, "succeeds only with an adjacent string of the list and moves by its length", "no element of the list is known to match at the reached position "+st.norm(o.pos).pretty(), st)
		c.ob(first, r.name, "uses the first string of the list that matches", "an earlier string of the list may match", st)
	}
}

// allElems: f holds for every index from..to (exclusive).
func (c *Ck) allElems(st *State, from, to Lin, f func(t *State, i Lin) bool) bool {
	cur := from
	for n := 0; n < 16; n++ {
		if st.le(to.sub(cur)) {
			return true
		}
		moved := false
		for _, q := range st.qf {
			if q.kind != "unit" {
				continue
			}
			sh := cur.sub(q.from)
			if !sh.isConst() || st.le(q.to.sub(q.from)) {
				if sh = st.norm(sh); !sh.isConst() || st.le(q.to.sub(q.from)) {
					continue
				}
			}
			if st.excluded(q, func(t *State, k conj) bool {
				return f(t, symLin(k.o).add(sh))
			}) {
				cur = st.norm(q.to.add(sh))
				moved = true
				break
			}
		}
		if moved {
			continue
		}
		t := st.clone()
		if f(t, cur) {
			cur = cur.addK(1)
			continue
		}
		return false
	}
	return false
}

func checkC09(c *Ck) {
	for _, d := range []dirn{{false}, {true}} {
		pre := ""
		if d.rev {
			pre = "Rev"
		}
		for _, k := range []string{"If", "IfFold", "To", "ToFold", "IfAny"} {
			r := c.scan(pre + k)
			if r == nil || len(r.outs) == 0 {
				continue
			}
			P := plainAt(r.text)
			if strings.HasSuffix(k, "Fold") {
				P = foldAt(r.text)
			}
			c.guarded(r.name, func() {
				switch k {
				case "If", "IfFold":
					c.ifStr(r, d, P, r.args[1].(Str))
				case "To", "ToFold":
					c.toStr(r, d, P, r.args[1].(Str))
				case "IfAny":
					c.anyStr(r, d, P, r.args[1].(SliceV))
				}
			})
		}
	}
	c.strReaders()
}
