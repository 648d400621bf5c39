package main

import "fmt"

func init() {
	register("C22", "abstract interpretation: the results, values and positions of the value readers are compared with the decoded runes and the spellings of each format; counted rune moves with the number of runes that the loop invariants say were passed", 80, checkC22)
}

// runes gives the number of runes from..to in direction d, if the state knows it.
func (d dirn) runes(st *State, b *StrBase, from, to, L Lin) (Lin, bool) {
	cur, n := from, konst(0)
	for k := 0; k < 24; k++ {
		if st.same(cur, to) {
			return n, true
		}
		next, step, ok := d.passed(st, b, cur, L)
		if !ok {
			return n, false
		}
		cur, n = next, n.add(step)
	}
	return n, false
}

// passed gives the next known place and the number of runes up to it.
func (d dirn) passed(st *State, b *StrBase, cur, L Lin) (Lin, Lin, bool) {
	kind := "fwd"
	if d.rev {
		kind = "rev"
	}
	window := func(lo, hi Lin) bool {
		return !d.rev && st.same(hi, L) || d.rev && st.same(lo, konst(0))
	}
	for _, q := range st.qf {
		if q.kind == kind && q.b == b && q.exact && st.same(q.from, cur) && !st.same(q.to, q.from) && window(q.lo, q.hi) {
			return st.norm(q.to), q.count, true
		}
	}
	for _, e := range st.decs {
		at := e.lo
		if d.rev {
			at = e.hi
		}
		if e.b == b && e.rev == d.rev && st.same(at, cur) && window(e.lo, e.hi) {
			return st.norm(d.step(cur, e.w)), konst(1), true
		}
	}
	return Lin{}, Lin{}, false
}

// total introduces the number of runes between p and the end and what the state knows about it.
func (d dirn) total(st *State, b *StrBase, p, L Lin) Lin {
	name := Str{b, p, L}
	if d.rev {
		name = Str{b, konst(0), p}
	}
	y := nonNeg(internSym("runecount(" + st.vkey(name) + ")"))
	t := symLin(y)
	cur, n := p, konst(0)
	for k := 0; k < 24; k++ {
		st.addLE(n.sub(t))
		if st.dead {
			return t
		}
		if st.same(cur, d.end(L)) {
			st.addEQ(n.sub(t))
			return t
		}
		if d.rev && st.le(cur.neg().addK(1)) || !d.rev && st.le(cur.addK(1).sub(L)) {
			st.addLE(n.addK(1).sub(t)) // there is one more
		}
		next, step, ok := d.passed(st, b, cur, L)
		if !ok {
			return t
		}
		cur, n = next, n.add(step)
	}
	return t
}

// errStates splits the outcomes by their result.
func (c *Ck) errStates(subj string, outs []Outcome, i int, f func(st *State, rets []Val, ok bool)) {
	c.ob(len(outs) > 0, subj, "returns", "", nil)
	for _, o := range outs {
		for _, v := range []bool{true, false} {
			var cond BoolV
			switch x := o.rets[i].(type) {
			case Iface:
				cond = ifaceNil(x)
			case NilV:
				cond = kBool(true)
			case BoolV:
				cond = x
			default:
				c.fail(subj, "the result is known", "", o.st)
				return
			}
			for _, s := range o.st.clone().assume(cond, v) {
				f(s, o.rets, v)
			}
		}
	}
}

func checkC22(c *Ck) {
	c.readBools("Scanner.ReadBool", func(in *Interp, subj string, st *State, pt Ptr, format Str) []Outcome {
		return c.doCall(in, subj, c.methodOf("Scanner", "ReadBool"), "ReadBool", []Val{pt, format}, st)
	})
	c.readRunes("ReadRune", dirn{})
	c.readRunes("RevReadRune", dirn{rev: true})
	c.countRunes("MoveRunes", dirn{}, func(n Lin) Val { return Num{n} })
	c.countRunes("MoveRunes", dirn{rev: true}, func(n Lin) Val { return Num{n.neg()} })
	c.countRunes("ScanString", dirn{}, func(n Lin) Val { return Num{n} })
}

func (c *Ck) readBools(name string, read func(in *Interp, subj string, st *State, pt Ptr, format Str) []Outcome) {
	type spelling struct {
		s string
		v bool
	}
	sp := func(t, f []string) []spelling {
		r := []spelling{}
		for _, x := range t {
			r = append(r, spelling{x, true})
		}
		for _, x := range f {
			r = append(r, spelling{x, false})
		}
		return r
	}
	all := sp([]string{"true", "True", "TRUE"}, []string{"false", "False", "FALSE"})
	formats := map[string][]spelling{
		"": all, "*": all,
		"l":  sp([]string{"true"}, []string{"false"}),
		"U":  sp([]string{"TRUE"}, []string{"FALSE"}),
		"Cc": sp([]string{"True"}, []string{"False"}),
	}
	for _, f := range append(sortedKeys(formats), "other") {
		sps, known := formats[f]
		subj := fmt.Sprintf("%s(%q)", name, f)
		if !known {
			subj = name + ", other format"
		}
		in := c.interp()
		c.guarded(subj, func() {
			st := in.newState()
			pt, p0, L, b := c.symScanner(in, st)
			sts := []*State{st}
			arg := constStr(f)
			if !known {
				arg = symStr("format")
				for _, k := range sortedKeys(formats) {
					next := []*State{}
					for _, s := range sts {
						next = append(next, s.assume(strEq(arg, constStr(k)), false)...)
					}
					sts = next
				}
			}
			for _, s := range sts {
				outs := read(in, subj, s, pt, arg)
				c.errStates(subj, outs, 1, func(st *State, rets []Val, ok bool) {
					pos := in.posOf(st, pt.obj)
					P := plainAt(b)
					if !ok {
						c.ob(st.same(pos, p0), subj, "does not move on failure", pos.pretty(), st)
						for _, x := range sps {
							c.ob(impossible(st, P(dirn{}, p0, L, constStr(x.s)), true), subj, "fails only if no spelling of the format follows", "failure is possible in front of "+x.s, st)
						}
						return
					}
					v, isB := rets[0].(BoolV)
					if !c.ob(isB, subj, "returns a bool", "", st) {
						return
					}
					for _, val := range []bool{true, false} {
						for _, t := range st.clone().assume(v, val) {
							good := false
							for _, x := range sps {
								good = good || x.v == val && impossible(t, P(dirn{}, p0, L, constStr(x.s)), false) && t.same(pos, p0.addK(int64(len(x.s))))
							}
							c.ob(good, subj, "reads exactly a spelling of the format and returns its value", fmt.Sprintf("value %v, position %s", val, t.norm(pos).pretty()), t)
						}
					}
				})
			}
		})
	}
}

func (c *Ck) readRunes(name string, d dirn) {
	subj := "Scanner." + name
	in := c.interp()
	c.guarded(subj, func() {
		st := in.newState()
		pt, p0, L, b := c.symScanner(in, st)
		outs := c.doCall(in, subj, c.methodOf("Scanner", name), name, []Val{pt}, st)
		c.errStates(subj, outs, 1, func(st *State, rets []Val, ok bool) {
			pos := in.posOf(st, pt.obj)
			v, isN := rets[0].(Num)
			if !c.ob(isN, subj, "returns a rune", "", st) {
				return
			}
			if !ok {
				c.ob(st.same(pos, p0), subj, "does not move on failure", pos.pretty(), st)
			}
			for _, r := range d.decode(in, st.clone(), b, p0, L) {
				t := r.st
				if r.empty {
					c.ob(!ok, subj, "fails if there is no rune", "", t)
					continue
				}
				// an invalid byte: RuneError with the width 1
				inv := andB(eqB(r.r.addK(-0xfffd)), eqB(r.w.addK(-1)))
				if ok {
					c.ob(impossible(t, inv, true), subj, "fails for invalid UTF-8", "", t)
					c.ob(t.same(v.l, r.r), subj, "returns the adjacent rune", t.norm(v.l).pretty(), t)
					c.ob(t.same(pos, d.step(p0, r.w)), subj, "moves over exactly the rune", t.norm(pos).pretty(), t)
				} else {
					c.ob(impossible(t, inv, false), subj, "fails only at the end or for invalid UTF-8", "", t)
				}
			}
		})
	})
}

func (c *Ck) countRunes(name string, d dirn, arg func(n Lin) Val) {
	subj := "Scanner." + name
	if d.rev {
		subj += " backward"
	}
	for _, zero := range []bool{true, false} {
		in := c.interp()
		c.guarded(subj, func() {
			st := in.newState()
			pt, p0, L, b := c.symScanner(in, st)
			n := konst(0)
			if !zero {
				n = symLin(internSym("arg n"))
				st.addLE(n.neg().addK(1))
			}
			outs := c.doCall(in, subj, c.methodOf("Scanner", name), name, []Val{pt, arg(n)}, st)
			i := 0
			if name == "ScanString" {
				i = 1
			}
			c.errStates(subj, outs, i, func(st *State, rets []Val, ok bool) {
				pos := in.posOf(st, pt.obj)
				if !ok {
					c.ob(st.same(pos, p0), subj, "does not move on failure", pos.pretty(), st)
					t := d.total(st, b, p0, L)
					c.ob(st.dead || !st.possible(n.sub(t)), subj, "fails only if there are fewer runes", "", st)
					return
				}
				k, known := d.runes(st, b, p0, pos, L)
				c.ob(known && st.same(k, n), subj, "moves over exactly that many runes", fmt.Sprintf("to %s: %s runes", st.norm(pos).pretty(), st.norm(k).pretty()), st)
				if i == 1 {
					s, isS := rets[0].(Str)
					c.ob(isS && (st.sameStr(s, Str{b, p0, pos}) || st.same(s.length(), konst(0)) && st.same(pos, p0)), subj, "returns exactly the passed runes", "", st)
				}
			})
		})
	}
}
