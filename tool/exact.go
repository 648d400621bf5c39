package main

import (
	"go/constant"
	"go/token"
	"go/types"
)

// maxSym stands for the largest int64. The analysis only knows that it is large.
func maxSym() Sym {
	y := internSym("const:maxint64")
	if len(axioms[y]) == 0 {
		addAxiom(y, symLin(y).neg().addK(1<<40))
	}
	return y
}

// bigLin is a constant that is too large for the analysis: an expression near a multiple of
// the largest int64, or a symbol with a bound.
func bigLin(v constant.Value) Lin {
	max := constant.MakeInt64(1<<63 - 1)
	for _, k := range []int64{1, -1, 2, -2} {
		d := constant.BinaryOp(v, token.SUB, constant.BinaryOp(max, token.MUL, constant.MakeInt64(k)))
		if i, ok := constant.Int64Val(d); ok && -1<<33 < i && i < 1<<33 {
			return symLin(maxSym()).mul(k).addK(i)
		}
	}
	y := internSym("const:" + v.ExactString())
	if len(axioms[y]) == 0 {
		if constant.Sign(v) > 0 {
			addAxiom(y, symLin(y).neg().addK(1<<40))
		} else {
			addAxiom(y, symLin(y).addK(1<<40))
		}
	}
	return symLin(y)
}

// typeRange is the range of an integer type.
func typeRange(b *types.Basic) (Lin, Lin) {
	k := symLin(maxSym())
	switch b.Kind() {
	case types.Int8:
		return konst(-128), konst(127)
	case types.Uint8:
		return konst(0), konst(255)
	case types.Int16:
		return konst(-32768), konst(32767)
	case types.Uint16:
		return konst(0), konst(65535)
	case types.Int32:
		return konst(-1 << 31), konst(1<<31 - 1)
	case types.Uint32:
		return konst(0), konst(1<<32 - 1)
	case types.Uint64, types.Uint, types.Uintptr:
		return konst(0), k.mul(2).addK(1)
	}
	return k.neg().addK(-1), k
}

// constOf gives the constant an expression denotes.
func constOf(l Lin) (constant.Value, bool) {
	r := constant.MakeInt64(l.c)
	for _, t := range l.t {
		if t.s != maxSym() {
			return nil, false
		}
		r = constant.BinaryOp(r, token.ADD, constant.BinaryOp(constant.MakeInt64(t.k), token.MUL, constant.MakeInt64(1<<63-1)))
	}
	return r, true
}

// bitOp evaluates the shift and bit operations of constants in type t.
func bitOp(a, b Lin, op token.Token, t types.Type) (Val, bool) {
	x, ok1 := constOf(a)
	y, ok2 := constOf(b)
	bt, ok3 := t.Underlying().(*types.Basic)
	if !ok1 || !ok2 || !ok3 {
		return nil, false
	}
	var r constant.Value
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(y)
		if !ok || n > 200 {
			return nil, false
		}
		r = constant.Shift(x, op, uint(n))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		r = constant.BinaryOp(x, op, y)
	default:
		return nil, false
	}
	return reduce(r, bt), true
}

// reduce is the constant r in type bt.
func reduce(r constant.Value, bt *types.Basic) Val {
	lo, hi := typeRange(bt)
	l, _ := constOf(lo)
	h, _ := constOf(hi)
	size := constant.BinaryOp(constant.BinaryOp(h, token.SUB, l), token.ADD, constant.MakeInt64(1))
	r = constant.BinaryOp(r, token.AND, constant.BinaryOp(size, token.SUB, constant.MakeInt64(1)))
	if constant.Compare(r, token.GTR, h) {
		r = constant.BinaryOp(r, token.SUB, size)
	}
	if i, ok := constant.Int64Val(r); ok && -1<<60 <= i && i <= 1<<60 {
		return num(i)
	}
	return Num{bigLin(r)}
}

// Acc says that val is sign times the value of the digits from..to of the text.
type Acc struct {
	b             *StrBase
	hi            Lin
	from, to, val Lin
	base, sign    int64
}

type digitClass struct{ lo, hi, off int64 }

func digitClasses(base int64) []digitClass {
	switch base {
	case 8:
		return []digitClass{{'0', '7', '0'}}
	case 10:
		return []digitClass{{'0', '9', '0'}}
	}
	return []digitClass{{'0', '9', '0'}, {'a', 'f', 'a' - 10}, {'A', 'F', 'A' - 10}}
}

// digit is the value of the digit r if r is known to be one.
func (st *State) digit(r Lin, base int64) (Lin, bool) {
	for _, d := range digitClasses(base) {
		if st.le(konst(d.lo).sub(r)) && st.le(r.addK(-d.hi)) {
			return r.addK(-d.off), true
		}
	}
	return Lin{}, false
}

// value is the value of the digits from..to, if the state knows it.
func (st *State) value(b *StrBase, hi, from, to Lin, base int64) (val Lin, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(overflowErr); !is {
				panic(r)
			}
			ok = false
		}
	}()
	cur := from
	val = konst(0)
	for n := 0; n < 24; n++ {
		if st.same(cur, to) {
			return val, true
		}
		moved := false
		for _, d := range st.decs {
			if d.b != b || d.rev || !st.same(d.lo, cur) || !st.same(d.hi, hi) || !st.le(d.lo.add(d.w).sub(to)) {
				continue
			}
			if v, ok := st.digit(d.r, base); ok {
				val, cur, moved = val.mul(base).add(v), st.norm(cur.add(d.w)), true
				break
			}
		}
		for _, a := range st.acc {
			if moved || a.b != b || a.base != base || !st.same(a.from, cur) || !st.same(a.hi, hi) || n > 0 || st.same(a.to, a.from) || !st.le(a.to.sub(to)) {
				continue
			}
			val, cur, moved = a.val.mul(a.sign), st.norm(a.to), true
		}
		if !moved {
			return val, false
		}
	}
	return val, false
}

// unify equates the decodings at the same place.
func (st *State) unify() {
	for i, d := range st.decs {
		for _, e := range st.decs[:i] {
			if st.dead {
				return
			}
			if d.b == e.b && d.rev == e.rev && st.same(d.lo, e.lo) && st.same(d.hi, e.hi) {
				st.addEQ(d.r.sub(e.r))
				if !st.dead {
					st.addEQ(d.w.sub(e.w))
				}
				break
			}
		}
	}
}
