package main

import (
	"go/types"
	"strings"
)

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// pred is a predicate on a rune.
type pred func(r Lin) BoolV

// dirn is a travel direction over the text.
type dirn struct {
	rev bool
}

func (d dirn) decode(in *Interp, st *State, b *StrBase, at, L Lin) []decRes {
	if d.rev {
		return in.decode(st, Str{b, konst(0), at}, true)
	}
	return in.decode(st, Str{b, at, L}, false)
}

func (d dirn) step(at, w Lin) Lin {
	if d.rev {
		return at.sub(w)
	}
	return at.add(w)
}

func (d dirn) end(L Lin) Lin {
	if d.rev {
		return konst(0)
	}
	return L
}

// covers: every rune from..to (in direction d, the rune borders are those of the
// decoding from `from`) satisfies q, which gets a state with the rune.
func (d dirn) covers(in *Interp, st *State, b *StrBase, from, to, L Lin, want bool, P pred) bool {
	st = st.clone()
	cur := from
	for n := 0; n < 24; n++ {
		if st.same(cur, to) {
			return true
		}
		moved := false
		for _, q := range st.qf {
			kind := "fwd"
			if d.rev {
				kind = "rev"
			}
			if q.kind != kind || q.b != b || !st.same(q.from, cur) || st.same(q.to, q.from) {
				continue
			}
			if !d.rev && !st.same(q.hi, L) || d.rev && !st.same(q.lo, konst(0)) {
				continue
			}
			if st.excluded(q, func(t *State, c conj) bool {
				if c.r < 0 {
					return false
				}
				return len(t.assume(P(symLin(c.r)), !want)) == 0
			}) {
				cur = q.to
				moved = true
				break
			}
		}
		if moved {
			continue
		}
		for _, e := range st.decs {
			at := e.lo
			if d.rev {
				at = e.hi
			}
			if e.b != b || e.rev != d.rev || !st.same(at, cur) {
				continue
			}
			if !d.rev && !st.same(e.hi, L) || d.rev && !st.same(e.lo, konst(0)) {
				continue
			}
			if len(st.clone().assume(P(e.r), !want)) == 0 {
				cur = st.norm(d.step(cur, e.w))
				moved = true
				break
			}
		}
		if !moved {
			return false
		}
	}
	return false
}

// at: the rune at position p in direction d exists (want) and P has the value v.
// With optional set, there may be no rune at all.
func (d dirn) at(in *Interp, st *State, b *StrBase, p, L Lin, P pred, v, optional bool) bool {
	for _, r := range d.decode(in, st.clone(), b, p, L) {
		if r.empty {
			if !optional {
				return false
			}
			continue
		}
		if len(r.st.assume(P(r.r), !v)) != 0 {
			return false
		}
	}
	return true
}

// ifRune checks the one-rune matcher law for the outcomes of r.
func (c *Ck) ifRune(r *Run, d dirn, P pred) {
	n := 0
	for _, x := range r.results(c) {
		n++
		st := x.st
		if x.ok {
			for _, e := range d.decode(r.in, st.clone(), r.text, r.p0, r.L) {
				if e.empty {
					c.ob(false, r.name, "succeeds only if there is a rune", "a path returns success with no rune left", e.st)
					continue
				}
				c.ob(len(e.st.clone().assume(P(e.r), false)) == 0, r.name, "succeeds only for a matching rune", "success is possible for a rune that does not match", e.st)
				c.ob(e.st.same(x.pos, d.step(r.p0, e.w)), r.name, "moves over exactly the rune", "the position after a success is "+e.st.norm(x.pos).pretty()+", not one rune from "+r.p0.pretty(), e.st)
			}
			continue
		}
		c.ob(st.same(x.pos, r.p0), r.name, "does not move on failure", "position "+st.norm(x.pos).pretty(), st)
		c.ob(d.at(r.in, st, r.text, r.p0, r.L, P, false, true), r.name, "fails only if the adjacent rune does not match", "failure is possible for a matching rune", st)
	}
	c.ob(n > 0, r.name, "has outcomes", "no outcome", nil)
}

// toRune checks the search law.
func (c *Ck) toRune(r *Run, d dirn, P pred) {
	n := 0
	for _, x := range r.results(c) {
		n++
		st := x.st
		if x.ok {
			c.ob(d.at(r.in, st, r.text, x.pos, r.L, P, true, false), r.name, "stops in front of a matching rune", "the rune at the reached position "+st.norm(x.pos).pretty()+" need not match", st)
			c.ob(d.covers(r.in, st, r.text, r.p0, x.pos, r.L, false, P), r.name, "passes no matching rune", "a rune between the start and the reached position "+st.norm(x.pos).pretty()+" may match", st)
			continue
		}
		c.ob(st.same(x.pos, r.p0), r.name, "does not move on failure", "position "+st.norm(x.pos).pretty(), st)
		c.ob(d.covers(r.in, st, r.text, r.p0, d.end(r.L), r.L, false, P), r.name, "fails only if no rune ahead matches", "failure is possible although a rune ahead matches", st)
	}
	c.ob(n > 0, r.name, "has outcomes", "no outcome", nil)
}

// whileRune checks the maximal run law.
func (c *Ck) whileRune(r *Run, d dirn, P pred) {
	n := 0
	for _, x := range r.results(c) {
		n++
		st := x.st
		if x.ok && st.same(x.pos, r.p0) && d.covers(r.in, st, r.text, r.p0, d.end(r.L), r.L, true, P) && !st.same(r.p0, d.end(r.L)) {
			c.ob(false, r.name, "moves over the run if every rune up to the end matches", "returns true at the unchanged position although all runes up to the end match", st)
			continue
		}
		c.ob(d.covers(r.in, st, r.text, r.p0, x.pos, r.L, true, P), r.name, "moves over matching runes only", "a rune between the start and the reached position "+st.norm(x.pos).pretty()+" may not match", st)
		c.ob(d.at(r.in, st, r.text, x.pos, r.L, P, false, true), r.name, "the run is maximal", "the rune at the reached position "+st.norm(x.pos).pretty()+" may match", st)
		if x.ok {
			moved := x.pos.sub(r.p0)
			if d.rev {
				moved = moved.neg()
			}
			c.ob(st.le(moved.neg().addK(1)), r.name, "returns true only if it moved", "true without a move", st)
		} else {
			c.ob(st.same(x.pos, r.p0), r.name, "returns false only if it did not move", "false at "+st.norm(x.pos).pretty(), st)
		}
	}
	c.ob(n > 0, r.name, "has outcomes", "no outcome", nil)
}

// predOf builds the predicate of a rune family from the evaluated arguments.
func (c *Ck) predFor(r *Run) pred {
	n := r.fn.Name()
	a := r.args[1:]
	switch {
	case strings.HasSuffix(n, "AnyRune"):
		s := a[0].(Str)
		return func(x Lin) BoolV { return atomB("has", s, Num{x}) }
	case strings.HasSuffix(n, "Between"):
		lo, hi := a[0].(Num).l, a[1].(Num).l
		return func(x Lin) BoolV { return andB(leB(lo.sub(x)), leB(x.sub(hi))) }
	case strings.HasSuffix(n, "Match"):
		f := a[0].(FuncV)
		return func(x Lin) BoolV { return atomB("match:"+f.sym, Num{x}) }
	}
	v := a[0].(Num).l
	return func(x Lin) BoolV { return eqB(x.sub(v)) }
}

var runeKinds = []string{"Rune", "AnyRune", "Between", "Match"}

func init() {
	register("C07", "abstract interpretation of each one-rune matcher on a symbolic text and position; each outcome is checked against: success iff the adjacent rune exists and fulfils the predicate, position moved by its width", 60, checkC07,
		"check functions are pure predicates")
	register("C08", "abstract interpretation with loop fixpoints and quantified facts over the passed runes; each outcome is checked against the search and maximal-run laws", 60, checkC08,
		"check functions are pure predicates")
	register("C09", "abstract interpretation with equality atoms on text windows; each outcome is checked against the prefix/suffix and nearest appearance laws", 40, checkC09)
}

func checkC07(c *Ck) {
	for _, k := range runeKinds {
		for _, d := range []dirn{{false}, {true}} {
			n := "If" + k
			if d.rev {
				n = "Rev" + n
			}
			if r := c.scan(n); r != nil && len(r.outs) > 0 {
				c.guarded(r.name, func() { c.ifRune(r, d, c.predFor(r)) })
			}
		}
	}
	c.oneRuneReaders()
}

func checkC08(c *Ck) {
	for _, k := range runeKinds {
		for _, d := range []dirn{{false}, {true}} {
			for _, f := range []string{"To", "While"} {
				n := f + k
				if d.rev {
					n = "Rev" + n
				}
				if r := c.scan(n); r != nil && len(r.outs) > 0 {
					c.guarded(r.name, func() {
						if f == "To" {
							c.toRune(r, d, c.predFor(r))
						} else {
							c.whileRune(r, d, c.predFor(r))
						}
					})
				}
			}
		}
	}
}
