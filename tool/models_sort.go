package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const maxSorted = 6

// sortModel executes a stable sort of a list of fixed length by its definition (insertion from the
// left). Other sorts, and lists of unknown length, leave the elements in an unknown order.
func (in *Interp) sortModel(fn *ssa.Function, args []Val, st *State, caller *ssa.Function, pos token.Pos) []Outcome {
	name := fn.String()
	permute := func() []Outcome {
		in.permute(st, args[0])
		return []Outcome{{st: st}}
	}
	i, ok := args[0].(Iface)
	if !ok || i.v == nil {
		return permute()
	}
	var n Lin
	var less func(st *State, i, j int64) []Outcome
	var swap func(st *State, i, j int64) []Outcome
	switch name {
	case "sort.Stable", "sort.Sort":
		it, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Interface)
		if !ok {
			return permute()
		}
		m := map[string]*types.Func{}
		for k := 0; k < it.NumMethods(); k++ {
			m[it.Method(k).Name()] = it.Method(k)
		}
		outs := in.invoke(i, m["Len"], nil, st.clone(), pos, caller)
		if len(outs) != 1 || outs[0].panic != "" {
			return permute()
		}
		l, ok := outs[0].rets[0].(Num)
		if !ok {
			return permute()
		}
		n = st.norm(l.l)
		less = func(st *State, a, b int64) []Outcome {
			return in.invoke(i, m["Less"], []Val{num(a), num(b)}, st, pos, caller)
		}
		swap = func(st *State, a, b int64) []Outcome {
			return in.invoke(i, m["Swap"], []Val{num(a), num(b)}, st, pos, caller)
		}
	default:
		s, ok := i.v.(SliceV)
		f, ok2 := args[1].(FuncV)
		if !ok || !ok2 {
			return permute()
		}
		if s.nilS || s.arr <= 0 {
			return []Outcome{{st: st}}
		}
		n = st.norm(s.hi.sub(s.lo))
		less = func(st *State, a, b int64) []Outcome {
			return in.callFunc(f, []Val{num(a), num(b)}, st, pos, caller)
		}
		swap = func(st *State, a, b int64) []Outcome {
			x, y := st.norm(s.lo.addK(a)), st.norm(s.lo.addK(b))
			u, v := st.loadElem(st.obj(s.arr), x, ""), st.loadElem(st.obj(s.arr), y, "")
			st.store(Ptr{obj: s.arr, idx: &x}, v)
			st.store(Ptr{obj: s.arr, idx: &y}, u)
			return []Outcome{{st: st}}
		}
	}
	if !n.isConst() || n.c > maxSorted {
		return permute()
	}
	if in.onSort != nil {
		in.onSort(st, n.c, less)
	}
	if name != "sort.Stable" && name != "sort.SliceStable" && n.c > 1 {
		return permute()
	}
	res := []Outcome{}
	var step func(st *State, i, j int64)
	step = func(st *State, i, j int64) {
		if st.dead {
			return
		}
		if i >= n.c {
			res = append(res, Outcome{st: st})
			return
		}
		if j == 0 {
			step(st, i+1, i+1)
			return
		}
		for _, o := range less(st, j, j-1) {
			if o.panic != "" {
				res = append(res, o)
				continue
			}
			b, ok := o.rets[0].(BoolV)
			if !ok {
				b = atomB("sym:" + freshKey("less"))
			}
			for _, t := range o.st.clone().assume(b, true) {
				for _, s := range swap(t, j, j-1) {
					if s.panic != "" {
						res = append(res, s)
						continue
					}
					step(s.st, i, j-1)
				}
			}
			for _, t := range o.st.assume(b, false) {
				step(t, i+1, i+1)
			}
		}
	}
	step(st, 1, 1)
	return res
}

// searchModel is the law of the binary search: f is true at the result and false before it.
func (in *Interp) searchModel(args []Val, st *State, caller *ssa.Function, pos token.Pos) []Outcome {
	n, ok := args[0].(Num)
	f, ok2 := args[1].(FuncV)
	if !ok || !ok2 {
		return nil
	}
	res := []Outcome{}
	at := func(st *State, k Lin, want bool, cont func(st *State)) {
		for _, o := range in.callFunc(f, []Val{Num{k}}, st, pos, caller) {
			if o.panic != "" {
				res = append(res, o)
				continue
			}
			b, ok := o.rets[0].(BoolV)
			if !ok {
				cont(o.st)
				continue
			}
			for _, t := range o.st.assume(b, want) {
				cont(t)
			}
		}
	}
	try := func(st *State, k Lin) {
		first := func(st *State) {
			for _, t := range st.clone().assume(leB(k), true) {
				t.addEQ(k)
				if !t.dead {
					res = append(res, Outcome{st: t, rets: []Val{Num{t.norm(k)}}})
				}
			}
			for _, t := range st.assume(leB(k), false) {
				at(t, t.norm(k.addK(-1)), false, func(s *State) {
					res = append(res, Outcome{st: s, rets: []Val{Num{s.norm(k)}}})
				})
			}
		}
		for _, t := range st.clone().assume(leB(n.l.sub(k)), true) {
			first(t)
		}
		for _, t := range st.assume(leB(n.l.sub(k)), false) {
			at(t, t.norm(k), true, first)
		}
	}
	l := st.norm(n.l)
	if l.isConst() && l.c <= 16 {
		for k := int64(0); k <= l.c; k++ {
			try(st.clone(), konst(k))
		}
		if l.c < 0 {
			return []Outcome{{st: st, rets: []Val{num(0)}}}
		}
		return res
	}
	y := nonNeg(freshSym("found"))
	for _, t := range st.clone().assume(leB(l), true) {
		res = append(res, Outcome{st: t, rets: []Val{num(0)}})
	}
	for _, t := range st.assume(leB(l), false) {
		t.addLE(symLin(y).sub(l))
		if !t.dead {
			try(t, symLin(y))
		}
	}
	return res
}
