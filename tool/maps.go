package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// MapV is a map. Its entries are the cell "map" of the object, a tuple of (key, value) tuples in
// the order of the updates. Any other content of the cell is an unknown map.
type MapV struct{ obj ObjID }

func (v MapV) key() string { return fmt.Sprintf("map%d", v.obj) }

func (in *Interp) makeMap(st *State, t types.Type) Val {
	id := st.alloc("map", t)
	st.obj(id).cells["map"] = TupleV{}
	return MapV{id}
}

func (in *Interp) mapUpdate(fr *frame, st *State, x *ssa.MapUpdate) []iout {
	switch m := in.val(fr, x.Map).(type) {
	case MapV:
		in.wrote(st, Ptr{obj: m.obj}, nil, in.site(fr.fn, x.Pos()))
		o := st.obj(m.obj)
		if t, ok := o.cells["map"].(TupleV); ok {
			f := append(t.f[:len(t.f):len(t.f)], TupleV{[]Val{in.val(fr, x.Key), in.val(fr, x.Value)}})
			o.cells["map"] = TupleV{f}
		}
		return nil
	case NilV:
		return []iout{{st: st, panic: in.site(fr.fn, x.Pos()) + ": assignment to entry in nil map"}}
	}
	if in.onWrite != nil {
		in.onWrite(st, Ptr{}, nil, in.site(fr.fn, x.Pos()))
	}
	st.note("update of an unknown map")
	return nil
}

// mapLookup gives the value of a key, one result per entry the key may be equal to.
func (in *Interp) mapLookup(fr *frame, st *State, x *ssa.Lookup) []iout {
	mt := x.X.Type().Underlying().(*types.Map)
	ret := func(v Val, ok BoolV) Val {
		if x.CommaOk {
			return TupleV{[]Val{v, ok}}
		}
		return v
	}
	var entries []Val
	switch m := in.val(fr, x.X).(type) {
	case NilV:
	case MapV:
		t, ok := st.obj(m.obj).cells["map"].(TupleV)
		if !ok {
			fr.env[x] = ret(freshVal("lookup", mt.Elem()), atomB("sym:"+freshKey("lookup ok")))
			return nil
		}
		entries = t.f
	default:
		st.note("lookup in an unknown map")
		fr.env[x] = ret(freshVal("lookup", mt.Elem()), atomB("sym:"+freshKey("lookup ok")))
		return nil
	}
	key := in.val(fr, x.Index)
	outs := []iout{}
	cur := []*State{st}
	for i := len(entries) - 1; i >= 0; i-- {
		e := entries[i].(TupleV)
		next := []*State{}
		for _, s := range cur {
			eq := s.equal(key, e.f[0])
			for _, t := range s.clone().assume(eq, true) {
				outs = append(outs, iout{st: t, fr: fr.clone(), v: ret(e.f[1], kBool(true))})
			}
			next = append(next, s.assume(eq, false)...)
		}
		cur = next
	}
	for _, s := range cur {
		outs = append(outs, iout{st: s, fr: fr.clone(), v: ret(zeroVal(mt.Elem()), kBool(false))})
	}
	return outs
}

// mapLen is the number of entries if the keys are constants.
func (in *Interp) mapLen(st *State, m MapV) Val {
	t, ok := st.obj(m.obj).cells["map"].(TupleV)
	seen := map[string]bool{}
	if ok {
		for _, e := range t.f {
			k := st.normVal(e.(TupleV).f[0])
			switch y := k.(type) {
			case Num:
				ok = ok && y.l.isConst()
			case Str:
				_, isK := y.constVal()
				ok = ok && isK
			default:
				ok = false
			}
			seen[k.key()] = true
		}
	}
	if ok {
		return num(int64(len(seen)))
	}
	return Num{symLin(nonNeg(freshSym("len")))}
}

// initGlobals evaluates the initialisation of the package variables that are never written afterwards.
func (p *Prog) initGlobals() {
	p.globals = map[ObjID]*Obj{}
	for _, pkg := range []*ssa.Package{p.tok, p.gram} {
		fn := pkg.Func("init")
		konst := []*ssa.Global{}
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" && p.readOnly(g, fn) {
				konst = append(konst, g)
			}
		}
		if fn == nil || len(konst) == 0 {
			continue
		}
		in := newInterp(p)
		in.inInit = true
		st := in.newState()
		for id, o := range p.globals {
			st.heap[id] = o.clone()
		}
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				st.obj(globalObj(g)).fresh = true
			}
		}
		func() {
			defer func() { recover() }()
			outs := []Outcome{}
			for _, o := range in.call(fn, nil, nil, st) {
				if o.panic == "" && !o.st.dead {
					outs = append(outs, o)
				}
			}
			if len(outs) != 1 || len(in.out) > 0 {
				return
			}
			s := outs[0].st
			var keep func(v Val)
			keep = func(v Val) {
				switch x := v.(type) {
				case SliceV:
					if o := s.heap[x.arr]; o != nil && p.globals[x.arr] == nil {
						p.globals[x.arr] = o.clone()
						for _, e := range o.elems {
							keep(e.v)
						}
						if o.parent != nil {
							keep(*o.parent)
						}
					}
				case MapV:
					if o := s.heap[x.obj]; o != nil && p.globals[x.obj] == nil {
						p.globals[x.obj] = o.clone()
						keep(o.cells["map"])
					}
				case TupleV:
					for _, f := range x.f {
						keep(f)
					}
				case StructV:
					for _, f := range x.f {
						keep(f)
					}
				}
			}
			for _, g := range konst {
				id := globalObj(g)
				o := s.obj(id)
				p.globals[id] = o.clone()
				for _, v := range o.cells {
					keep(v)
				}
				for _, e := range o.elems {
					keep(e.v)
				}
			}
		}()
	}
}

func globalObj(g *ssa.Global) ObjID {
	return symObj("global:"+g.String(), g.Type().Underlying().(*types.Pointer).Elem())
}

// readOnly: outside of the initialisation the variable and what it holds are only read.
func (p *Prog) readOnly(g *ssa.Global, init *ssa.Function) bool {
	if !plainType(g.Type().Underlying().(*types.Pointer).Elem(), 0) {
		return false
	}
	for fn := range p.allFuncs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op == ssa.Value(g) && fn != init && !onlyRead(i, g, 0) {
						return false
					}
				}
			}
		}
	}
	return true
}

func onlyRead(i ssa.Instruction, v ssa.Value, depth int) bool {
	all := func(v ssa.Value) bool {
		if depth > 6 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			if !onlyRead(r, v, depth+1) {
				return false
			}
		}
		return true
	}
	holds := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return true
		}
		return false
	}
	switch x := i.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return true
		}
		return !holds(x.Type()) || all(x)
	case *ssa.IndexAddr:
		return all(x)
	case *ssa.FieldAddr:
		return all(x)
	case *ssa.Slice:
		return all(x)
	case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.Index, *ssa.Field:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	case *ssa.BinOp:
		return true
	}
	return false
}

// plainType: values without pointers to structs or interfaces with state.
func plainType(t types.Type, depth int) bool {
	if depth > 5 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Slice:
		return plainType(u.Elem(), depth+1)
	case *types.Array:
		return plainType(u.Elem(), depth+1)
	case *types.Map:
		return plainType(u.Key(), depth+1) && plainType(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plainType(u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Interface:
		return types.Identical(t, types.Universe.Lookup("error").Type())
	}
	return false
}
