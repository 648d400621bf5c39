package main

import (
	"fmt"
)

func init() {
	register("C21", "abstract interpretation with exact integer ranges: for each base and bit size the loop is shown to hold the value of the passed digits (inductive step over the decoded runes), the returned value, the consumed region and the reason to stop are compared with the definition", 300, checkC21,
		"a supported base and bit size is given as a constant, any other value is symbolic")
}

type numFn struct {
	name   string
	signed bool
}

func checkC21(c *Ck) {
	for _, f := range []numFn{{"ReadInt", true}, {"ReadUint", false}} {
		for _, base := range []int64{8, 10, 16} {
			for _, bits := range []int64{8, 16, 32, 64} {
				c.readNumber(f, base, bits)
			}
			c.unsupported(f, fmt.Sprintf("base %d, other bit size", base), num(base), nil)
		}
		for _, bits := range []int64{8, 16, 32, 64} {
			c.unsupported(f, fmt.Sprintf("other base, bit size %d", bits), nil, num(bits))
		}
		c.unsupported(f, "other base and bit size", nil, nil)
	}
}

func (c *Ck) unsupported(f numFn, what string, base, bits Val) {
	subj := fmt.Sprintf("Scanner.%s, %s", f.name, what)
	in := c.interp()
	in.exact = true
	c.guarded(subj, func() {
		st := in.newState()
		pt, p0, _, _ := c.symScanner(in, st)
		sts := []*State{st}
		other := func(name string, not ...int64) Val {
			n := Num{symLin(internSym("arg " + name))}
			for _, k := range not {
				next := []*State{}
				for _, s := range sts {
					next = append(next, s.assume(eqB(n.l.addK(-k)), false)...)
				}
				sts = next
			}
			return n
		}
		if base == nil {
			base = other("base", 8, 10, 16)
		}
		if bits == nil {
			bits = other("bitSize", 8, 16, 32, 64)
		}
		n := 0
		for _, s := range sts {
			for _, o := range c.doCall(in, subj, c.methodOf("Scanner", f.name), f.name, []Val{pt, base, bits}, s) {
				n++
				e, ok := o.rets[1].(Iface)
				c.ob(ok && o.st.decide(ifaceNil(e)) == 0, subj, "fails", "", o.st)
				c.ob(o.st.same(in.posOf(o.st, pt.obj), p0), subj, "does not move", "", o.st)
			}
		}
		c.ob(n > 0, subj, "returns", "", nil)
	})
}

func (c *Ck) readNumber(f numFn, base, bits int64) {
	subj := fmt.Sprintf("Scanner.%s(%d, %d)", f.name, base, bits)
	c.readNumberBy(subj, f, base, bits, func(in *Interp, st *State, pt Ptr) []Outcome {
		return c.doCall(in, subj, c.methodOf("Scanner", f.name), f.name, []Val{pt, num(base), num(bits)}, st)
	})
}

// readNumberBy checks a read that gives a value and an error.
func (c *Ck) readNumberBy(subj string, f numFn, base, bits int64, read func(in *Interp, st *State, pt Ptr) []Outcome) {
	in := c.interp()
	in.exact = true
	k := symLin(maxSym())
	max, min := k, k.neg().addK(-1)
	switch {
	case bits < 64 && f.signed:
		max, min = konst(1<<(bits-1)-1), konst(-1<<(bits-1))
	case bits < 64:
		max, min = konst(1<<bits-1), konst(0)
	case !f.signed:
		max, min = k.mul(2).addK(1), konst(0)
	}
	c.guarded(subj, func() {
		st := in.newState()
		pt, p0, L, b := c.symScanner(in, st)
		st.addLE(L.addK(-1 << 39))
		outs := read(in, st, pt)
		c.ob(len(outs) > 0, subj, "returns", "", nil)
		for _, o := range outs {
			e, ok := o.rets[1].(Iface)
			v, ok2 := o.rets[0].(Num)
			if !c.ob(ok && ok2, subj, "returns a value and an error", "", o.st) {
				continue
			}
			for _, isNil := range []bool{true, false} {
				for _, s := range o.st.clone().assume(ifaceNil(e), isNil) {
					c.numberResult(in, subj, f, base, min, max, pt, p0, L, b, v.l, isNil, s)
				}
			}
		}
	})
}

// numberResult splits the state by the sign in front and compares the result.
func (c *Ck) numberResult(in *Interp, subj string, f numFn, base int64, min, max Lin, pt Ptr, p0, L Lin, b *StrBase, v Lin, ok bool, st *State) {
	type front struct {
		st    *State
		start Lin
		neg   bool
	}
	fronts := []front{}
	if !f.signed {
		fronts = append(fronts, front{st, p0, false})
	} else {
		for _, d := range in.decode(st.clone(), Str{b, p0, L}, false) {
			if d.empty {
				fronts = append(fronts, front{d.st, p0, false})
				continue
			}
			for _, s := range d.st.clone().assume(eqB(d.r.addK(-'-')), true) {
				fronts = append(fronts, front{s, p0.addK(1), true})
			}
			for _, s := range d.st.clone().assume(eqB(d.r.addK(-'+')), true) {
				fronts = append(fronts, front{s, p0.addK(1), false})
			}
			for _, s := range d.st.clone().assume(eqB(d.r.addK(-'-')), false) {
				for _, t := range s.assume(eqB(d.r.addK(-'+')), false) {
					fronts = append(fronts, front{t, p0, false})
				}
			}
		}
	}
	for _, x := range fronts {
		st, pos := x.st, in.posOf(x.st, pt.obj)
		for _, a := range st.acc { // no digits have the value 0
			if st.same(a.from, a.to) {
				st.addEQ(a.val)
			}
		}
		st.unify()
		if st.dead {
			continue
		}
		sign, lim := int64(1), max
		if x.neg {
			sign, lim = -1, min.neg()
		}
		if !ok {
			c.ob(st.same(pos, p0), subj, "does not move on failure", pos.pretty(), st)
			c.ob(c.noDigit(in, st, b, x.start, L, base), subj, "fails only if there is no digit", "failure is possible although a digit follows", st)
			continue
		}
		c.ob(st.le(x.start.addK(1).sub(pos)), subj, "succeeds only with a digit", pos.pretty(), st)
		val, known := st.value(b, L, x.start, pos, base)
		c.ob(known, subj, "consumes the sign and digits only", fmt.Sprintf("start %s, position %s", st.norm(x.start).pretty(), st.norm(pos).pretty()), st)
		if !known {
			continue
		}
		c.ob(st.same(v, val.mul(sign)), subj, "returns the value of the consumed digits", fmt.Sprintf("%s instead of %s", st.norm(v).pretty(), st.norm(val.mul(sign)).pretty()), st)
		c.ob(st.le(val.sub(lim)), subj, "the value fits the bit size", "", st)
		// the run is the longest
		good := true
		for _, d := range in.decode(st.clone(), Str{b, pos, L}, false) {
			if d.empty {
				continue
			}
			for _, cl := range digitClasses(base) {
				for _, s := range d.st.clone().assume(inB(d.r, konst(cl.lo), konst(cl.hi)), true) {
					n := val.mul(base).add(d.r.addK(-cl.off))
					good = good && !s.possible(n.sub(lim))
				}
			}
		}
		c.ob(good, subj, "consumes the longest run that fits", "a further digit would fit", st)
	}
}

// noDigit: there is no digit of the base at p.
func (c *Ck) noDigit(in *Interp, st *State, b *StrBase, p, L Lin, base int64) bool {
	if !st.le(p.sub(L)) {
		return true
	}
	for _, d := range in.decode(st.clone(), Str{b, p, L}, false) {
		if d.empty {
			continue
		}
		for _, cl := range digitClasses(base) {
			if len(d.st.clone().assume(inB(d.r, konst(cl.lo), konst(cl.hi)), true)) > 0 {
				return false
			}
		}
	}
	return true
}
