package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ decoding

type decRes struct {
	st    *State
	empty bool
	r, w  Lin
}

// decode models utf8.DecodeRuneInString and DecodeLastRuneInString. st is consumed.
func (in *Interp) decode(st *State, s Str, rev bool) []decRes {
	lo, hi := st.norm(s.lo), st.norm(s.hi)
	if k, ok := (Str{s.b, lo, hi}).constVal(); ok {
		if k == "" {
			return []decRes{{st, true, konst(utf8.RuneError), konst(0)}}
		}
		var r rune
		var w int
		if rev {
			r, w = utf8.DecodeLastRuneInString(k)
		} else {
			r, w = utf8.DecodeRuneInString(k)
		}
		res := decRes{st, false, konst(int64(r)), konst(int64(w))}
		st.decs = append(st.decs, Decode{s.b, lo, hi, rev, res.r, res.w})
		return []decRes{res}
	}
	if s.b.runes != nil {
		off := konst(0)
		for i := range s.b.runes {
			at, cut := off, hi
			if rev {
				at, cut = off.add(s.b.widths[i]), lo
			}
			if !rev && st.same(at, lo) && st.same(cut, s.b.len) || rev && st.same(at, hi) && st.same(cut, konst(0)) {
				return []decRes{{st, false, st.norm(s.b.runes[i].(Num).l), st.norm(s.b.widths[i])}}
			}
			off = off.add(s.b.widths[i])
		}
	}
	for _, d := range st.decs {
		if d.b == s.b && d.rev == rev && st.same(d.lo, lo) && st.same(d.hi, hi) {
			return []decRes{{st, false, st.norm(d.r), st.norm(d.w)}}
		}
	}
	res := []decRes{}
	n := hi.sub(lo)
	if !st.le(n.neg().addK(1)) { // may be empty
		e := st
		if !st.le(n) {
			e = st.clone()
		} else {
			return []decRes{{st, true, konst(utf8.RuneError), konst(0)}}
		}
		e.addEQ(n)
		if !e.dead {
			res = append(res, decRes{e, true, konst(utf8.RuneError), konst(0)})
		}
		st.addLE(n.neg().addK(1))
		if st.dead {
			return res
		}
	}
	// the interned symbols make equal decodings of different paths comparable
	tag := "rune"
	if rev {
		tag = "lastrune"
	}
	ky := fmt.Sprintf("(%s%s%s)", s.b.name, lo, hi)
	r, w := internSym(tag+ky), internSym("width "+tag+ky)
	if len(axioms[r]) == 0 {
		addAxiom(r, symLin(r).neg())
		addAxiom(r, symLin(r).addK(-utf8.MaxRune))
		addAxiom(w, symLin(w).neg().addK(1))
		addAxiom(w, symLin(w).addK(-4))
	}
	st.addLE(symLin(w).sub(n))
	st.decs = append(st.decs, Decode{s.b, lo, hi, rev, symLin(r), symLin(w)})
	// a sequence is complete: 4 bytes for a supplementary rune etc. follow in after()
	return append(res, decRes{st, false, symLin(r), symLin(w)})
}

// ------------------------------------------------------------------- calls

func (in *Interp) callInstr(fr *frame, st *State, c *ssa.CallCommon, res ssa.Value, pos token.Pos) []iout {
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = in.val(fr, a)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, st, b, args, c, res, pos)
	}
	var outs []Outcome
	if c.IsInvoke() {
		outs = in.invoke(in.val(fr, c.Value), c.Method, args, st, pos, fr.fn)
	} else {
		fv, ok := in.val(fr, c.Value).(FuncV)
		if !ok {
			st.note("call of unknown function")
			fv = FuncV{sym: freshKey("fn"), typ: c.Value.Type()}
		}
		outs = in.callFunc(fv, args, st, pos, fr.fn)
	}
	r := make([]iout, 0, len(outs))
	for _, o := range outs {
		if o.panic != "" {
			r = append(r, iout{st: o.st, panic: o.panic})
			continue
		}
		var v Val
		if len(o.rets) == 1 {
			v = o.rets[0]
		} else {
			v = TupleV{o.rets}
		}
		f := fr
		if len(outs) > 1 {
			f = fr.clone()
		}
		r = append(r, iout{st: o.st, fr: f, v: v})
	}
	if len(r) == 0 {
		st.dead = true
		return []iout{{st: st, fr: fr}}
	}
	return r
}

func (in *Interp) callFunc(fv FuncV, args []Val, st *State, pos token.Pos, caller *ssa.Function) []Outcome {
	if fv.isNil {
		return []Outcome{{st: st, panic: in.site(caller, pos) + ": call of a nil function"}}
	}
	if in.inInit && fv.fn != nil && fv.fn.Name() == "init" && len(fv.fn.Params) == 0 {
		return []Outcome{{st: st}}
	}
	if fv.fn == nil {
		return in.opaqueFunc(fv, args, st, in.site(caller, pos))
	}
	if in.p.inRepo(fv.fn) || fv.fn.Synthetic != "" && len(fv.fn.Blocks) > 0 && !isStd(fv.fn) {
		if m := in.special(fv.fn, args, st, in.site(caller, pos)); m != nil {
			return m
		}
		return in.call(fv.fn, args, fv.binds, st)
	}
	return in.external(fv.fn, args, st, caller, pos)
}

func isStd(fn *ssa.Function) bool {
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return !strings.Contains(o.Pkg().Path(), "aiq/tok")
	}
	return false
}

// special lets a check replace a function of the repository by its contract.
func (in *Interp) special(fn *ssa.Function, args []Val, st *State, site string) []Outcome {
	if in.summary != nil {
		return in.summary(fn, args, st, site)
	}
	return nil
}

// madeNow: the call under analysis has made the object itself.
func (in *Interp) madeNow(st *State, v Val) bool {
	p, ok := v.(Ptr)
	return ok && p.obj > in.bottom && st.obj(p.obj).fresh
}

func (in *Interp) invoke(recv Val, m *types.Func, args []Val, st *State, pos token.Pos, caller *ssa.Function) []Outcome {
	i, ok := recv.(Iface)
	if !ok {
		st.note("method call on unknown value")
		i = Iface{sym: freshKey("recv"), nn: true}
	}
	if i.isNil {
		return []Outcome{{st: st, panic: in.site(caller, pos) + ": method call on nil"}}
	}
	if i.dyn != nil && m.Name() == "Read" && len(in.stack) > 0 && in.nested[types.TypeString(i.dyn, nil)] && !in.madeNow(st, i.v) {
		if sc := in.scannersIn(st, args); len(sc) == 1 {
			return in.opaqueRead(st, i.key(), in.site(caller, pos), sc[0], i)
		}
	}
	if r, ok := i.v.(RType); ok {
		return in.reflectType(r.t, m, args, st, in.site(caller, pos))
	}
	if i.dyn != nil {
		fn := in.p.lookup(i.dyn, m)
		if fn == nil {
			st.note("method not found")
			return []Outcome{{st: st, rets: in.freshSig(m.Type().(*types.Signature))}}
		}
		return in.callFunc(FuncV{fn: fn}, append([]Val{i.v}, args...), st, pos, caller)
	}
	res := []Outcome{}
	if !i.nn {
		// may be nil
		c := ifaceNil(i)
		d := st.decide(c)
		if d != 0 {
			n := st.clone()
			for _, s := range n.assume(c, true) {
				res = append(res, Outcome{st: s, panic: in.site(caller, pos) + ": method call on nil"})
			}
			if d == 1 {
				return res
			}
			ss := st.assume(c, false)
			if len(ss) == 0 {
				return res
			}
			st = ss[0]
		}
	}
	return append(res, in.opaqueMethod(i, m, args, st, in.site(caller, pos))...)
}

func (in *Interp) freshSig(s *types.Signature) []Val {
	r := []Val{}
	for i := 0; i < s.Results().Len(); i++ {
		r = append(r, freshVal("ret", s.Results().At(i).Type()))
	}
	return r
}

// ----------------------------------------------------------- opaque contracts

// scannersIn returns the scanners an opaque callee can move: those passed to it,
// or all when it is a closure of the caller.
func (in *Interp) scannersIn(st *State, args []Val) []ObjID {
	r := []ObjID{}
	for _, a := range args {
		if p, ok := a.(Ptr); ok && isTok(objTypes[p.obj], "Scanner") && p.path == "" && p.idx == nil {
			r = append(r, p.obj)
		}
	}
	return r
}

func (in *Interp) posPtr(o ObjID) Ptr  { return Ptr{obj: o, path: fmt.Sprintf(".%d", in.p.posField)} }
func (in *Interp) textPtr(o ObjID) Ptr { return Ptr{obj: o, path: fmt.Sprintf(".%d", in.p.fullField)} }
func (in *Interp) trkPtr(o ObjID) Ptr  { return Ptr{obj: o, path: fmt.Sprintf(".%d", in.p.trkField)} }

func (in *Interp) posOf(st *State, o ObjID) Lin {
	if n, ok := st.load(in.posPtr(o)).(Num); ok {
		return st.norm(n.l)
	}
	return symLin(freshSym("pos?"))
}

func (in *Interp) textOf(st *State, o ObjID) Str {
	if s, ok := st.load(in.textPtr(o)).(Str); ok {
		return s
	}
	return symStr(freshKey("text?"))
}

// moved is the two outcomes of an opaque matcher on scanner o.
func (in *Interp) opaqueMove(st *State, o ObjID, ok bool, name string) (Lin, Lin) {
	p := in.posOf(st, o)
	L := in.textOf(st, o).length()
	if !ok && !in.hostile {
		return p, p
	}
	q := freshSym("pos after " + name)
	addAxiom(q, symLin(q).neg())
	st.addLE(symLin(q).sub(L))
	if in.dir < 0 {
		st.addLE(symLin(q).sub(p))
	} else if !in.hostile {
		st.addLE(p.sub(symLin(q)))
	}
	st.store(in.posPtr(o), Num{symLin(q)})
	return p, symLin(q)
}

func (in *Interp) opaqueErr(st *State, o ObjID, what string) Val {
	return Iface{sym: freshKey("err of " + what), nn: true}
}

func (in *Interp) opaqueRead(st *State, name string, site string, sc ObjID, recv Val) []Outcome {
	res := []Outcome{}
	for _, ok := range []bool{true, false} {
		s := st
		if ok {
			s = st.clone()
		}
		in.opaqueEffects(s)
		p, q := in.opaqueMove(s, sc, ok, name)
		if s.dead {
			continue
		}
		var err Val = Iface{isNil: true}
		if !ok {
			err = in.opaqueErr(s, sc, name)
		}
		if in.readEffect != nil {
			in.readEffect(s, name, ok)
		}
		s.emit(Event{kind: "read", recv: name, obj: sc, pos: p, to: q, ok: ok, v: err, args: []Val{recv}, site: site})
		res = append(res, Outcome{st: s, rets: []Val{err}})
	}
	return res
}

// opaqueEffects: what any reader or callback may do besides moving the scanner.
func (in *Interp) opaqueEffects(st *State) {
	if in.noEffects {
		return
	}
	for id, o := range st.heap {
		t := objTypes[id]
		if o.fresh && o.local {
			continue
		}
		switch {
		case isTok(t, "Log"):
			in.growLog(st, id, o)
		case isTok(t, "Basket"):
			o.havoc++
			havocCount++
			o.havoc = havocCount
			o.cells = map[string]Val{}
		}
	}
}

var havocCount int

// growLog: nested monitored reads append entries, the level is put back (shown by C23).
func (in *Interp) growLog(st *State, id ObjID, o *Obj) {
	for i, f := range structFields(objTypes[id]) {
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			path := fmt.Sprintf(".%d", i)
			v, ok := st.load(Ptr{obj: id, path: path}).(SliceV)
			if !ok {
				continue
			}
			arr := st.alloc("log entries", types.NewSlice(elemType(f.Type())))
			a := st.obj(arr)
			a.fresh = false
			pv := v
			a.parent = &pv
			a.plen = st.norm(v.hi.sub(v.lo))
			n := nonNeg(freshSym("appended entries"))
			st.store(Ptr{obj: id, path: path}, SliceV{arr: arr, lo: konst(0), hi: a.plen.add(symLin(n))})
		}
	}
}

func structFields(t types.Type) []*types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := []*types.Var{}
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i))
	}
	return r
}

func (in *Interp) opaqueMethod(i Iface, m *types.Func, args []Val, st *State, site string) []Outcome {
	sig := m.Type().(*types.Signature)
	switch m.Name() {
	case "Read":
		if sc := in.scannersIn(st, args); len(sc) == 1 {
			return in.opaqueRead(st, i.sym, site, sc[0], i)
		}
	case "What", "Error", "String":
		return []Outcome{{st: st, rets: []Val{symStr("what(" + i.sym + ")")}}}
	case "Update":
		e := Event{kind: "update", recv: i.sym, args: args, site: site}
		if n, ok := args[0].(Num); ok {
			e.pos = st.norm(n.l)
		}
		st.emit(e)
		in.opaqueEffects(st)
		return []Outcome{{st: st}}
	case "Grammar":
		if v, ok := in.grammarOf[i.sym]; ok {
			return []Outcome{{st: st, rets: []Val{v}}}
		}
		v := symVal("grammar("+i.sym+")", sig.Results().At(0).Type())
		return []Outcome{{st: st, rets: []Val{v}}}
	}
	if m.Pkg() != nil && m.Pkg().Path() == "reflect" {
		key := i.sym + "." + m.Name() + "(" + keys(normAll(st, args)) + ")"
		r := []Val{}
		for k := 0; k < sig.Results().Len(); k++ {
			v := symVal(fmt.Sprintf("%s#%d", key, k), sig.Results().At(k).Type())
			if x, ok := v.(Iface); ok {
				x.nn = true
				v = x
			}
			r = append(r, v)
		}
		return []Outcome{{st: st, rets: r}}
	}
	st.emit(Event{kind: "call", recv: i.sym + "." + m.Name(), args: args, site: site})
	return []Outcome{{st: st, rets: in.freshSig(sig)}}
}

func (in *Interp) opaqueFunc(fv FuncV, args []Val, st *State, site string) []Outcome {
	sig, _ := fv.typ.Underlying().(*types.Signature)
	if sig == nil {
		return []Outcome{{st: st}}
	}
	p, r := sig.Params(), sig.Results()
	isB := func(t types.Type, k types.BasicKind) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
	switch {
	case p.Len() == 1 && r.Len() == 1 && isB(p.At(0).Type(), types.Int32) && isB(r.At(0).Type(), types.Bool):
		// MatchFunc: a pure predicate
		return []Outcome{{st: st, rets: []Val{atomB("match:"+fv.sym, args[0])}}}
	case p.Len() == 0 && r.Len() == 1 && isB(r.At(0).Type(), types.Bool):
		// ScopeFunc: moves the scanner it closes over
		res := []Outcome{}
		scs := in.liveScanners(st)
		for _, ok := range []bool{true, false} {
			s := st
			if ok {
				s = st.clone()
			}
			in.opaqueEffects(s)
			for _, sc := range scs {
				a, b := in.opaqueMove(s, sc, ok, fv.sym)
				s.emit(Event{kind: "scope", recv: fv.sym, obj: sc, pos: a, to: b, ok: ok, site: site})
			}
			if !s.dead {
				res = append(res, Outcome{st: s, rets: []Val{kBool(ok)}})
			}
		}
		return res
	case p.Len() == 1 && r.Len() == 1 && len(in.scannersIn(st, args)) == 1:
		// ReadFunc
		return in.opaqueRead(st, fv.sym, site, in.scannersIn(st, args)[0], fv)
	case r.Len() == 0:
		st.emit(Event{kind: "map", recv: fv.sym, args: normAll(st, args), site: site})
		in.opaqueEffects(st)
		return []Outcome{{st: st}}
	}
	st.emit(Event{kind: "call", recv: fv.sym, args: args, site: site})
	return []Outcome{{st: st, rets: in.freshSig(sig)}}
}

// liveScanners: the symbolic scanners of the state.
func (in *Interp) liveScanners(st *State) []ObjID {
	r := []ObjID{}
	for id, o := range st.heap {
		if isTok(objTypes[id], "Scanner") && !(o.fresh && o.local) {
			r = append(r, id)
		}
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// havocReach forgets what can be reached from the arguments.
func (in *Interp) havocReach(st *State, args []Val) {
	roots := []string{}
	hit := map[ObjID]bool{}
	var visit func(v Val)
	visitObj := func(id ObjID) {
		if id <= 0 || hit[id] {
			return
		}
		hit[id] = true
		roots = append(roots, objNames[id])
		o := st.obj(id)
		for _, k := range sortedKeys(o.cells) {
			visit(o.cells[k])
		}
		for _, e := range o.elems {
			visit(e.v)
		}
		if o.parent != nil {
			visit(*o.parent)
		}
		if o.tail != nil {
			visit(*o.tail)
		}
	}
	visit = func(v Val) {
		switch x := v.(type) {
		case Ptr:
			visitObj(x.obj)
		case SliceV:
			visitObj(x.arr)
		case Iface:
			if x.v != nil {
				visit(x.v)
			}
		case StructV:
			for _, f := range x.f {
				visit(f)
			}
		case FuncV:
			for _, f := range x.binds {
				visit(f)
			}
		}
	}
	for _, a := range args {
		visit(a)
	}
	for n := -1; n != len(hit); {
		n = len(hit)
		for id := range st.heap {
			if hit[id] {
				continue
			}
			for _, r := range roots {
				if nm := objNames[id]; strings.Contains(nm, "arr("+r+".") || strings.HasPrefix(nm, r+".") {
					visitObj(id)
					break
				}
			}
		}
	}
	old := st.heap
	st.heap = map[ObjID]*Obj{}
	rest := map[ObjID]*Obj{}
	for id, o := range old {
		if hit[id] || isTok(objTypes[id], "Scanner") {
			st.heap[id] = o
		} else {
			rest[id] = o
		}
	}
	in.havocAll(st)
	for id, o := range rest {
		st.heap[id] = o
	}
}

func (in *Interp) havocAll(st *State) {
	for id, o := range st.heap {
		if o.fresh && o.local {
			continue
		}
		if isTok(objTypes[id], "Scanner") {
			in.opaqueMove(st, id, true, "unknown")
			continue
		}
		o.any = true
		o.fresh = false
		o.parent = nil
		o.cells = map[string]Val{}
		o.elems = nil
	}
}

// ------------------------------------------------------------------ builtins

func (in *Interp) builtin(fr *frame, st *State, b *ssa.Builtin, args []Val, c *ssa.CallCommon, res ssa.Value, pos token.Pos) []iout {
	set := func(v Val) []iout {
		if res != nil {
			fr.env[res] = v
		}
		return nil
	}
	switch b.Name() {
	case "len":
		switch s := args[0].(type) {
		case Str:
			return set(Num{st.norm(s.length())})
		case SliceV:
			return set(Num{st.norm(s.hi.sub(s.lo))})
		case MapV:
			return set(in.mapLen(st, s))
		case NilV:
			return set(num(0))
		}
		return set(Num{symLin(nonNeg(internSym("len(" + st.vkey(args[0]) + ")")))})
	case "cap":
		return set(Num{symLin(nonNeg(freshSym("cap")))})
	case "append":
		return set(in.appendVal(st, args, c))
	case "copy":
		in.wroteTo(st, in.site(fr.fn, pos), args[0])
		st.note("copy")
		if s, ok := args[0].(SliceV); ok && s.arr > 0 {
			o := st.obj(s.arr)
			havocCount++
			o.havoc = havocCount
			o.elems = nil
			o.fresh = false
			o.parent = nil
		}
		return set(Num{symLin(nonNeg(freshSym("copied")))})
	case "delete", "clear":
		in.wroteTo(st, in.site(fr.fn, pos), args[0])
		if m, ok := args[0].(MapV); ok {
			st.obj(m.obj).cells["map"] = Opaque{freshKey("map")}
		}
		return set(TupleV{})
	case "print", "println":
		return set(TupleV{})
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(Num)
			d, ok2 := args[1].(Num)
			if ok1 && ok2 {
				cond := leB(a.l.sub(d.l))
				outs := []iout{}
				o := st.clone()
				pick := func(lower bool) Val {
					if lower == (b.Name() == "min") {
						return a
					}
					return d
				}
				for _, t := range o.assume(cond, true) {
					outs = append(outs, iout{st: t, fr: fr.clone(), v: pick(true)})
				}
				for _, t := range st.assume(cond, false) {
					outs = append(outs, iout{st: t, fr: fr.clone(), v: pick(false)})
				}
				return outs
			}
		}
	case "recover":
		return set(Iface{isNil: true})
	case "ssa:wrapnilchk":
		return set(args[0])
	}
	if res != nil {
		st.note("builtin %s", b.Name())
		return set(freshVal(b.Name(), res.Type()))
	}
	st.note("builtin %s", b.Name())
	return nil
}

func (in *Interp) appendVal(st *State, args []Val, c *ssa.CallCommon) Val {
	s, ok := args[0].(SliceV)
	if !ok {
		return freshVal("append", c.Args[0].Type())
	}
	et := elemType(c.Args[0].Type())
	id := st.alloc("append", types.NewSlice(et))
	o := st.obj(id)
	o.parent = &s
	o.plen = st.norm(s.hi.sub(s.lo))
	add, ok := args[1].(SliceV)
	n := konst(0)
	if !ok {
		if str, isStr := args[1].(Str); isStr { // append([]byte, string...)
			n = str.length()
		} else {
			n = symLin(nonNeg(freshSym("appended")))
		}
		o.fresh = false
	} else {
		n = st.norm(add.hi.sub(add.lo))
		if n.isConst() {
			for i := int64(0); i < n.c; i++ {
				k := o.plen.addK(i)
				st.store(Ptr{obj: id, idx: &k}, st.loadElem(st.obj(add.arr), add.lo.addK(i), ""))
			}
		} else {
			st.note("append of a slice")
			o.fresh = false
			a := add
			o.tail = &a
		}
	}
	if in.copyAppend != nil && o.plen.isConst() && s.arr > 0 && in.copyAppend(o.plen.c) {
		// the elements move to a new array: pointers to the old elements do not see the new ones
		o.parent = nil
		for i := int64(0); i < o.plen.c; i++ {
			k := konst(i)
			st.store(Ptr{obj: id, idx: &k}, st.loadElem(st.obj(s.arr), st.norm(s.lo.addK(i)), ""))
		}
	}
	r := SliceV{arr: id, lo: konst(0), hi: st.norm(o.plen.add(n))}
	if s.arr > 0 && !(n.isConst() && n.c == 0) {
		in.wroteTo(st, "append", s)
	}
	st.emit(Event{kind: "append", obj: id, args: []Val{s, args[1]}, v: r})
	return r
}

// ------------------------------------------------------------ library models

func (in *Interp) external(fn *ssa.Function, args []Val, st *State, caller *ssa.Function, pos token.Pos) []Outcome {
	name := fn.String()
	one := func(v ...Val) []Outcome { return []Outcome{{st: st, rets: v}} }
	str := func(i int) (Str, bool) {
		if i >= len(args) {
			return Str{}, false
		}
		s, ok := args[i].(Str)
		return s, ok
	}
	rn := func(i int) (Lin, bool) {
		if i >= len(args) {
			return Lin{}, false
		}
		n, ok := args[i].(Num)
		return n.l, ok
	}
	if strings.Contains(name, "reflect.") {
		if r := in.reflectFunc(fn, args, st, in.siteOf(caller, pos)); r != nil {
			return r
		}
	}
	if in.lines && strings.HasPrefix(name, "strings.") {
		if r := in.lineModel(name, fn, args, st, caller); r != nil {
			return r
		}
	}
	s0, isS0 := str(0)
	s1, isS1 := str(1)
	r0, isR0 := rn(0)
	r1, isR1 := rn(1)
	switch name {
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString":
		if isS0 {
			res := []Outcome{}
			for _, d := range in.decode(st, s0, strings.Contains(name, "Last")) {
				res = append(res, Outcome{st: d.st, rets: []Val{Num{d.r}, Num{d.w}}})
			}
			return res
		}
	case "unicode/utf8.RuneLen":
		if r, ok := rn(0); ok {
			r = st.norm(r)
			if r.isConst() {
				return one(num(int64(utf8.RuneLen(rune(r.c)))))
			}
			for _, d := range st.decs {
				if st.same(d.r, r) {
					// RuneLen is the width unless the byte was invalid (then RuneError has 3)
					res := []Outcome{}
					e := st.clone()
					e.addEQ(st.norm(d.w).addK(-1))
					e.addEQ(r.addK(-utf8.RuneError))
					if !e.dead {
						res = append(res, Outcome{st: e, rets: []Val{num(3)}})
					}
					return append(res, Outcome{st: st, rets: []Val{Num{st.norm(d.w)}}})
				}
			}
			y := internSym("runelen(" + r.String() + ")")
			if len(axioms[y]) == 0 {
				addAxiom(y, symLin(y).neg().addK(-1))
				addAxiom(y, symLin(y).addK(-4))
			}
			return one(Num{symLin(y)})
		}
	case "unicode/utf8.RuneCountInString":
		if isS0 {
			y := nonNeg(internSym("runecount(" + st.vkey(s0) + ")"))
			st.addLE(symLin(y).sub(s0.length()))
			return one(Num{symLin(y)})
		}
	case "strings.HasPrefix", "strings.HasSuffix":
		if isS0 && isS1 {
			return one(affix(s0, s1, name == "strings.HasSuffix"))
		}
	case "strings.EqualFold":
		if isS0 && isS1 {
			return one(atomB("fold", s0, s1))
		}
	case "strings.ContainsRune":
		if isS0 && isR1 {
			return one(atomB("has", s0, Num{r1}))
		}
	case "strings.Contains":
		if isS0 && isS1 {
			if v, ok := contains(s0, s1); ok {
				return one(kBool(v))
			}
			return one(atomB("contains", s0, s1))
		}
	case "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.Index", "strings.IndexByte",
		"strings.LastIndex", "strings.LastIndexAny", "strings.LastIndexFunc", "strings.LastIndexByte":
		if r := in.indexModel(name, args, st, caller, pos); r != nil {
			return r
		}
	case "strings.TrimLeft", "strings.TrimLeftFunc", "strings.TrimRight", "strings.TrimRightFunc":
		if r := in.trimModel(name, args, st, caller, pos); r != nil {
			return r
		}
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.CutPrefix", "strings.CutSuffix":
		if isS0 && isS1 {
			suf := strings.HasSuffix(name, "Suffix")
			c := affix(s0, s1, suf)
			res := []Outcome{}
			ret := func(s Str, ok bool) []Val {
				if strings.Contains(name, "Cut") {
					return []Val{s, kBool(ok)}
				}
				return []Val{s}
			}
			o := st.clone()
			for _, t := range o.assume(c, true) {
				w := Str{s0.b, t.norm(s0.lo.add(s1.length())), s0.hi}
				if suf {
					w = Str{s0.b, s0.lo, t.norm(s0.hi.sub(s1.length()))}
				}
				res = append(res, Outcome{st: t, rets: ret(w, true)})
			}
			for _, t := range st.assume(c, false) {
				res = append(res, Outcome{st: t, rets: ret(s0, false)})
			}
			return res
		}
	case "strings.Join":
		if sl, ok := args[0].(SliceV); ok && isS1 {
			n := st.norm(sl.hi.sub(sl.lo))
			if n.isConst() && n.c <= 16 {
				parts := []Str{}
				for i := int64(0); i < n.c; i++ {
					if i > 0 {
						parts = append(parts, s1)
					}
					e := Str{}
					ok := false
					if sl.arr > 0 {
						e, ok = st.loadElem(st.obj(sl.arr), sl.lo.addK(i), "").(Str)
					}
					if !ok {
						e = symStr(freshKey("join"))
					}
					parts = append(parts, e)
				}
				return one(concat(st, parts...))
			}
			st.emit(Event{kind: "join", obj: sl.arr, v: sl})
			return one(symStr("join(" + st.vkey(sl) + "," + st.vkey(s1) + ")"))
		}
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintln":
		var ts []textRes
		if strings.HasSuffix(name, "f") {
			ts = in.format(args, st, caller, pos)
		} else {
			ts = in.printed(args[0], strings.HasSuffix(name, "ln"), st, caller, pos)
		}
		res := []Outcome{}
		for _, t := range ts {
			if name == "fmt.Errorf" {
				s := t.s
				res = append(res, Outcome{st: t.st, rets: []Val{Iface{sym: "errorf(" + s.key() + ")", nn: true, txt: &s}}})
			} else {
				res = append(res, Outcome{st: t.st, rets: []Val{t.s}})
			}
		}
		return res
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if p, ok := builderPtr(args[0]); ok {
			var ts []textRes
			if name == "fmt.Fprintf" {
				ts = in.format(args[1:], st, caller, pos)
			} else {
				ts = in.printed(args[1], strings.HasSuffix(name, "ln"), st, caller, pos)
			}
			res := []Outcome{}
			for _, t := range ts {
				in.build(p, t.s, t.st, caller, pos)
				res = append(res, Outcome{st: t.st, rets: []Val{Num{t.s.length()}, Iface{isNil: true}}})
			}
			return res
		}
		return one(in.freshSig(fn.Signature)...)
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return one(in.freshSig(fn.Signature)...)
	case "strconv.Itoa":
		if isR0 {
			return one(decimal(st, r0))
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		if b := st.norm(r1); isR0 && isR1 && b.isConst() && b.c == 10 {
			return one(decimal(st, r0))
		}
	case "strings.Repeat":
		if n := st.norm(r1); isS0 && isR1 && n.isConst() && 0 <= n.c && n.c <= 64 {
			cat := constStr("")
			for i := int64(0); i < n.c; i++ {
				cat = concat(st, cat, s0)
			}
			return one(cat)
		}
	case "errors.New":
		return one(Iface{sym: freshKey("errors.New"), nn: true})
	case "errors.As", "errors.Is":
		return in.errorsAs(name, args, st)
	case "sort.Stable", "sort.Sort", "sort.Slice", "sort.SliceStable":
		st.emit(Event{kind: "sort", recv: name, args: args, site: in.siteOf(caller, pos)})
		in.wroteTo(st, in.siteOf(caller, pos), args[0])
		return in.sortModel(fn, args, st, caller, pos)
	case "sort.Search":
		if r := in.searchModel(args, st, caller, pos); r != nil {
			return r
		}
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).WriteByte":
		if p, ok := args[0].(Ptr); ok {
			s := s1
			if !isS1 {
				s = symStr(freshKey("written"))
				if isR1 {
					if r := st.norm(r1); r.isConst() && (r.c < utf8.RuneSelf || strings.HasSuffix(name, "Rune")) {
						s = constStr(string(rune(r.c)))
					} else if strings.HasSuffix(name, "Rune") {
						s = symStr("string(" + r.String() + ")")
					}
				}
			}
			in.build(p, s, st, caller, pos)
			switch {
			case strings.HasSuffix(name, "Byte"):
				return one(Iface{isNil: true})
			default:
				return one(Num{s.length()}, Iface{isNil: true})
			}
		}
		return one(in.freshSig(fn.Signature)...)
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if p, ok := args[0].(Ptr); ok {
			if cur, ok := st.obj(p.obj).cells["builder"+p.path].(Str); ok {
				return one(cur)
			}
			return one(constStr(""))
		}
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		if p, ok := args[0].(Ptr); ok {
			if cur, ok := st.obj(p.obj).cells["builder"+p.path].(Str); ok {
				return one(Num{cur.length()})
			}
			return one(num(0))
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one()
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		if p, ok := args[0].(Ptr); ok {
			in.wrote(st, p, nil, in.siteOf(caller, pos))
			st.obj(p.obj).cells["builder"+p.path] = constStr("")
		}
		return one()
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	switch pkg {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "fmt", "errors", "reflect", "math/bits", "bytes", "slices", "sort":
		// a pure function: equal arguments give equal results
		key := name + "(" + keys(normAll(st, args)) + ")"
		r := []Val{}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			v := symVal(fmt.Sprintf("%s#%d", key, i), res.At(i).Type())
			if x, ok := v.(Iface); ok && pkg == "reflect" {
				x.nn = true
				v = x
			}
			if x, ok := v.(Num); ok && strings.HasSuffix(name, ".NumField") {
				if y, ok := x.l.single(); ok {
					nonNeg(y)
				}
			}
			r = append(r, v)
		}
		if res.Len() == 1 && strings.HasPrefix(name, "strings.") && isS0 {
			if s, ok := r[0].(Str); ok && (strings.HasPrefix(name, "strings.Trim")) {
				st.addLE(s.b.len.sub(s0.length()))
			}
		}
		if s, ok := first(r).(SliceV); ok && (name == "strings.Split" || name == "strings.SplitAfter") && isS1 {
			if k, isK := s1.constVal(); isK && k != "" {
				st.addLE(s.hi.neg().addK(1))
			}
		}
		if pkg == "reflect" || pkg == "slices" || pkg == "sort" {
			st.note("call of %s", name)
		}
		return one(r...)
	}
	in.wroteTo(st, in.siteOf(caller, pos)+" "+name, args...)
	st.note("call of unmodelled %s", name)
	in.havocAll(st)
	return one(in.freshSig(fn.Signature)...)
}

func (in *Interp) siteOf(caller *ssa.Function, pos token.Pos) string {
	if caller == nil {
		return ""
	}
	return in.site(caller, pos)
}

func affix(s, p Str, suffix bool) BoolV {
	w := Str{s.b, s.lo, s.lo.add(p.length())}
	if suffix {
		w = Str{s.b, s.hi.sub(p.length()), s.hi}
	}
	return andB(leB(p.length().sub(s.length())), strEq(w, p))
}

// permute: after sorting the elements of the slice are in an unknown order.
func (in *Interp) permute(st *State, v Val) {
	if i, ok := v.(Iface); ok && i.v != nil {
		v = i.v
	}
	switch x := v.(type) {
	case SliceV:
		if x.arr > 0 && !x.nilS {
			o := st.obj(x.arr)
			n := st.norm(x.hi.sub(x.lo))
			if n.isConst() && n.c <= 1 {
				return
			}
			havocCount++
			o.havoc = havocCount
			o.elems = nil
			o.parent = nil
			o.fresh = false
		}
	case Ptr:
		for i := range structFields(objTypes[x.obj]) {
			in.permute(st, st.load(Ptr{obj: x.obj, path: fmt.Sprintf("%s.%d", x.path, i)}))
		}
	}
}

// decimal is the decimal form of an integer.
func decimal(st *State, l Lin) Str {
	l = st.norm(l)
	if l.isConst() {
		return constStr(strconv.FormatInt(l.c, 10))
	}
	s := symStr("itoa(" + l.String() + ")")
	s.b.itoa = &l
	return s
}

type textRes struct {
	st *State
	s  Str
}

// formatted gives the text of a value for a verb.
func (in *Interp) formatted(verb string, v Val, st *State, caller *ssa.Function, pos token.Pos) []textRes {
	plain := verb == "%s" || verb == "%v"
	if e, ok := v.(Iface); ok {
		if e.txt != nil && (plain || verb == "%w") {
			return []textRes{{st, *e.txt}}
		}
		if e.dyn != nil && e.v != nil && plain {
			if r := in.stringer(e, st, caller, pos); r != nil {
				return r
			}
			b, _ := e.dyn.Underlying().(*types.Basic)
			if s, ok := e.v.(Str); ok && b != nil {
				return []textRes{{st, s}}
			}
			if n, ok := e.v.(Num); ok && b != nil && b.Info()&types.IsInteger != 0 && verb == "%v" {
				return []textRes{{st, decimal(st, n.l)}}
			}
		}
		if n, ok := e.v.(Num); ok && verb == "%d" {
			return []textRes{{st, decimal(st, n.l)}}
		}
		if n, ok := e.v.(Num); ok && verb == "%c" {
			if l := st.norm(n.l); l.isConst() {
				return []textRes{{st, constStr(string(rune(l.c)))}}
			}
		}
	}
	return []textRes{{st, symStr("fmt(" + verb + st.vkey(v) + ")")}}
}

// stringer calls the Error or String method a value of this module has.
func (in *Interp) stringer(e Iface, st *State, caller *ssa.Function, pos token.Pos) []textRes {
	t := e.dyn
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || in.p.prog.Package(n.Obj().Pkg()) == nil || caller == nil {
		return nil
	}
	if in.p.tok.Pkg != n.Obj().Pkg() && !strings.HasPrefix(n.Obj().Pkg().Path(), in.p.tok.Pkg.Path()+"/") {
		return nil
	}
	ms := in.p.prog.MethodSets.MethodSet(e.dyn)
	for _, name := range []string{"Error", "String"} {
		sel := ms.Lookup(n.Obj().Pkg(), name)
		if sel == nil {
			continue
		}
		fn := in.p.prog.MethodValue(sel)
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isNativeString(fn.Signature.Results().At(0).Type()) {
			continue
		}
		res := []textRes{}
		for _, o := range in.callFunc(FuncV{fn: fn}, []Val{e.v}, st.clone(), pos, caller) {
			if o.st.dead {
				continue
			}
			if o.panic != "" || len(o.rets) != 1 {
				// fmt writes the panic
				res = append(res, textRes{o.st, symStr(freshKey("formatted"))})
				continue
			}
			s, ok := o.rets[0].(Str)
			if !ok {
				return nil
			}
			res = append(res, textRes{o.st, s})
		}
		return res
	}
	return nil
}

// printed models the forms of fmt.Sprint and fmt.Sprintln.
func (in *Interp) printed(list Val, ln bool, st *State, caller *ssa.Function, pos token.Pos) []textRes {
	elems, known := argList(list, st)
	if !known {
		return []textRes{{st, symStr(freshKey("sprint"))}}
	}
	res := []textRes{{st, constStr("")}}
	isStr := func(v Val) bool {
		e, ok := v.(Iface)
		return ok && e.dyn != nil && isNativeString(e.dyn.Underlying())
	}
	for i, v := range elems {
		next := []textRes{}
		for _, r := range res {
			for _, x := range in.formatted("%v", v, r.st, caller, pos) {
				sep := ""
				if i > 0 && (ln || !isStr(v) && !isStr(elems[i-1])) {
					sep = " "
				}
				next = append(next, textRes{x.st, concat(x.st, r.s, constStr(sep), x.s)})
			}
		}
		res = next
	}
	if ln {
		for i := range res {
			res[i].s = concat(res[i].st, res[i].s, constStr("\n"))
		}
	}
	return res
}

func argList(v Val, st *State) ([]Val, bool) {
	switch sl := v.(type) {
	case NilV:
		return nil, true
	case SliceV:
		n := st.norm(sl.hi.sub(sl.lo))
		if sl.nilS || n.isConst() && n.c == 0 {
			return nil, true
		}
		if n.isConst() && sl.arr > 0 {
			elems := []Val{}
			for i := int64(0); i < n.c; i++ {
				elems = append(elems, st.loadElem(st.obj(sl.arr), sl.lo.addK(i), ""))
			}
			return elems, true
		}
	}
	return nil, false
}

// build appends a text to a builder.
func (in *Interp) build(p Ptr, s Str, st *State, caller *ssa.Function, pos token.Pos) {
	in.wrote(st, p, nil, in.siteOf(caller, pos))
	o := st.obj(p.obj)
	cur, ok := o.cells["builder"+p.path].(Str)
	if !ok {
		cur = constStr("")
	}
	o.cells["builder"+p.path] = concat(st, cur, s)
}

// builderPtr is the builder an interface holds.
func builderPtr(v Val) (Ptr, bool) {
	e, ok := v.(Iface)
	if !ok || e.dyn == nil {
		return Ptr{}, false
	}
	p, ok := e.v.(Ptr)
	t, isP := e.dyn.(*types.Pointer)
	return p, ok && isP && (isNamed(t.Elem(), "strings", "Builder") || isNamed(t.Elem(), "bytes", "Buffer"))
}

// format models fmt.Sprintf and fmt.Errorf by the parts they are made of.
func (in *Interp) format(args []Val, st *State, caller *ssa.Function, pos token.Pos) []textRes {
	elems, known := []Val{}, len(args) < 2
	if len(args) > 1 {
		elems, known = argList(args[1], st)
	}
	res := []textRes{{st, constStr("")}}
	add := func(s Str) {
		for i := range res {
			res[i].s = concat(res[i].st, res[i].s, s)
		}
	}
	val := func(verb string, v Val) {
		next := []textRes{}
		for _, r := range res {
			for _, x := range in.formatted(verb, v, r.st, caller, pos) {
				next = append(next, textRes{x.st, concat(x.st, r.s, x.s)})
			}
		}
		res = next
	}
	f, isK := "", false
	if s, ok := args[0].(Str); ok {
		f, isK = s.constVal()
		if !isK {
			add(s)
		}
	}
	if isK && known {
		k := 0
		for i := 0; i < len(f); {
			if f[i] != '%' {
				j := strings.IndexByte(f[i:], '%')
				if j < 0 {
					j = len(f) - i
				}
				add(constStr(f[i : i+j]))
				i += j
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
				j++
			}
			if j >= len(f) || f[j] == '[' || f[j] == '*' {
				k = -1
				break
			}
			verb := f[i : j+1]
			i = j + 1
			if verb == "%%" {
				add(constStr("%"))
				continue
			}
			if k >= len(elems) {
				k = -1
				break
			}
			val(verb, elems[k])
			k++
		}
		if k != len(elems) {
			add(symStr(freshKey("formatted")))
		}
	} else {
		if isK {
			add(constStr(f))
		}
		for _, v := range elems {
			val("%v", v)
		}
		add(symStr(freshKey("formatted")))
	}
	return res
}

func isNativeString(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.String
}

func (in *Interp) errorsAs(name string, args []Val, st *State) []Outcome {
	if e, ok := args[0].(Iface); ok && name == "errors.As" {
		t, ok2 := args[1].(Iface)
		if ok2 && t.v != nil {
			if p, ok := t.v.(Ptr); ok {
				pt := fieldType(objTypes[p.obj], p.path)
				if e.isNil {
					return []Outcome{{st: st, rets: []Val{kBool(false)}}}
				}
				if e.dyn != nil && types.Identical(e.dyn, pt) {
					st.store(p, e.v)
					return []Outcome{{st: st, rets: []Val{kBool(true)}}}
				}
				cond := atomB("typeis:"+types.TypeString(pt, nil), Iface{sym: e.sym})
				if e.dyn != nil {
					return []Outcome{{st: st, rets: []Val{kBool(false)}}}
				}
				res := []Outcome{}
				o := st.clone()
				for _, s := range o.assume(cond, true) {
					s.store(p, symVal(e.sym+".("+types.TypeString(pt, nil)+")", pt))
					res = append(res, Outcome{st: s, rets: []Val{kBool(true)}})
				}
				for _, s := range st.assume(cond, false) {
					res = append(res, Outcome{st: s, rets: []Val{kBool(false)}})
				}
				return res
			}
		}
	}
	return []Outcome{{st: st, rets: []Val{atomB(freshKey("errors"))}}}
}

// ---------------------------------------------------------- searching models

// pred evaluates a predicate on a rune: the states with its result.
type predRes struct {
	st *State
	v  bool
}

func (in *Interp) predOf(name string, args []Val, caller *ssa.Function, pos token.Pos) func(st *State, r Lin) []predRes {
	split := func(st *State, b BoolV) []predRes {
		res := []predRes{}
		o := st.clone()
		for _, s := range o.assume(b, true) {
			res = append(res, predRes{s, true})
		}
		for _, s := range st.assume(b, false) {
			res = append(res, predRes{s, false})
		}
		return res
	}
	switch x := args[1].(type) {
	case Num:
		return func(st *State, r Lin) []predRes { return split(st, eqB(r.sub(x.l))) }
	case Str:
		return func(st *State, r Lin) []predRes { return split(st, atomB("has", x, Num{r})) }
	case FuncV:
		return func(st *State, r Lin) []predRes {
			res := []predRes{}
			for _, o := range in.callFunc(x, []Val{Num{r}}, st, pos, caller) {
				if o.panic != "" || len(o.rets) != 1 {
					continue
				}
				if b, ok := o.rets[0].(BoolV); ok {
					res = append(res, split(o.st, b)...)
				}
			}
			return res
		}
	}
	return nil
}

// passed describes a passed rune: the conjunctions under which the predicate has value want.
func (in *Interp) passed(st *State, pred func(*State, Lin) []predRes, want bool) []conj {
	res := []conj{}
	r, o := freshSym("passed rune"), freshSym("passed offset")
	addAxiom(r, symLin(r).neg())
	addAxiom(r, symLin(r).addK(-utf8.MaxRune))
	base := st.clone()
	nc, nf := len(base.cons), len(base.facts)
	_ = nc
	for _, p := range pred(base, symLin(r)) {
		if p.v != want {
			continue
		}
		c := conj{r: r, o: o}
		for _, l := range p.st.cons {
			if l.has(r) {
				c.lins = append(c.lins, l)
			}
		}
		if e, ok := p.st.subst[r]; ok {
			c.eqs = append(c.eqs, symLin(r).sub(e))
		}
		for _, f := range p.st.facts[min(nf, len(p.st.facts)):] {
			c.facts = append(c.facts, f)
		}
		res = append(res, c)
	}
	return res
}

// contains decides whether s contains sub if that is known.
func contains(s, sub Str) (bool, bool) {
	k, ok := sub.constVal()
	if !ok {
		return false, false
	}
	if x, ok := s.constVal(); ok {
		return strings.Contains(x, k), true
	}
	for _, run := range constRuns(s) {
		if strings.Contains(run, k) {
			return true, true
		}
	}
	return false, false
}

// constRuns lists the known pieces of a string.
func constRuns(s Str) []string {
	if x, ok := s.constVal(); ok {
		return []string{x}
	}
	if s.b.parts == nil || !s.lo.isConst() || s.lo.c != 0 || !s.hi.eq(s.b.len) {
		return nil
	}
	res := []string{""}
	for _, p := range s.b.parts {
		if x, ok := p.constVal(); ok {
			res[len(res)-1] += x
			continue
		}
		res = append(res, "")
	}
	return res
}

func (in *Interp) indexModel(name string, args []Val, st *State, caller *ssa.Function, pos token.Pos) []Outcome {
	s, ok := args[0].(Str)
	if !ok {
		return nil
	}
	last := strings.Contains(name, "Last")
	res := []Outcome{}
	if name == "strings.Index" || name == "strings.LastIndex" {
		sub, ok := args[1].(Str)
		if !ok {
			return nil
		}
		v, sure := contains(s, sub)
		n := sub.length()
		// found at i: [lo+i, lo+i+n) equals sub, no nearer appearance
		found, none := st.clone(), st
		i := nonNeg(freshSym("index"))
		found.addLE(symLin(i).add(n).sub(s.length()))
		at := s.lo.add(symLin(i))
		for _, t := range found.assume(strEq(Str{s.b, at, at.add(n)}, sub), true) {
			q := QFact{kind: "unit", b: s.b, from: s.lo, to: at, dnf: []conj{noMatch(s.b, sub)}}
			if last {
				q = QFact{kind: "unitrev", b: s.b, from: s.hi.sub(n), to: at, dnf: []conj{noMatch(s.b, sub)}}
			}
			t.qf = append(t.qf, q)
			res = append(res, Outcome{st: t, rets: []Val{Num{symLin(i)}}})
		}
		none.qf = append(none.qf, QFact{kind: "unit", b: s.b, from: s.lo, to: s.hi.sub(n).addK(1), dnf: []conj{noMatch(s.b, sub)}})
		none.addLE(n.neg().addK(1)) // the empty string is always found
		if sure && !v {
			res = nil
		} else if sure {
			none.dead = true
		}
		if !none.dead {
			res = append(res, Outcome{st: none, rets: []Val{num(-1)}})
		}
		return res
	}
	if strings.HasSuffix(name, "Byte") {
		if n, ok := args[1].(Num); ok {
			if k := st.norm(n.l); k.isConst() && 0 <= k.c && k.c < 128 {
				return in.indexModel(strings.TrimSuffix(name, "Byte"), []Val{s, constStr(string(rune(k.c)))}, st, caller, pos)
			}
		}
		return nil
	}
	pred := in.predOf(name, args, caller, pos)
	if pred == nil {
		return nil
	}
	neg := in.passed(st, pred, false)
	found, none := st.clone(), st
	if r, ok := args[1].(Num); ok && name == "strings.IndexRune" {
		if len(found.assume(atomB("has", s, r), true)) == 0 {
			found.dead = true
		}
		if len(none.assume(atomB("has", s, r), false)) == 0 {
			none.dead = true
		}
	}
	if !last {
		i := nonNeg(freshSym("index"))
		at := s.lo.add(symLin(i))
		found.qf = append(found.qf, QFact{kind: "fwd", b: s.b, from: s.lo, to: at, lo: s.lo, hi: s.hi, dnf: neg})
		found.addLE(symLin(i).sub(s.length()).addK(1))
		for _, d := range in.decode(found, Str{s.b, at, s.hi}, false) {
			if d.empty || found.dead {
				continue
			}
			for _, p := range pred(d.st, d.r) {
				if p.v {
					res = append(res, Outcome{st: p.st, rets: []Val{Num{symLin(i)}}})
				}
			}
		}
		none.qf = append(none.qf, QFact{kind: "fwd", b: s.b, from: s.lo, to: s.hi, lo: s.lo, hi: s.hi, dnf: neg})
	} else {
		e := freshSym("index end") // absolute end of the found rune
		addAxiom(e, symLin(e).neg())
		found.addLE(symLin(e).sub(s.hi))
		found.addLE(s.lo.sub(symLin(e)).addK(1))
		found.qf = append(found.qf, QFact{kind: "rev", b: s.b, from: s.hi, to: symLin(e), lo: s.lo, hi: s.hi, dnf: neg})
		for _, d := range in.decode(found, Str{s.b, s.lo, symLin(e)}, true) {
			if d.empty {
				continue
			}
			for _, p := range pred(d.st, d.r) {
				if p.v {
					res = append(res, Outcome{st: p.st, rets: []Val{Num{symLin(e).sub(d.w).sub(s.lo)}}})
				}
			}
		}
		none.qf = append(none.qf, QFact{kind: "rev", b: s.b, from: s.hi, to: s.lo, lo: s.lo, hi: s.hi, dnf: neg})
	}
	if none.dead {
		return res
	}
	return append(res, Outcome{st: none, rets: []Val{num(-1)}})
}

func (in *Interp) trimModel(name string, args []Val, st *State, caller *ssa.Function, pos token.Pos) []Outcome {
	s, ok := args[0].(Str)
	if !ok {
		return nil
	}
	pred := in.predOf(name, args, caller, pos)
	if pred == nil {
		return nil
	}
	posi := in.passed(st, pred, true)
	right := strings.Contains(name, "Right")
	stop, all := st.clone(), st
	res := []Outcome{}
	e := freshSym("trimmed")
	addAxiom(e, symLin(e).neg())
	stop.addLE(symLin(e).sub(s.hi))
	stop.addLE(s.lo.sub(symLin(e)))
	kind, from, w := "fwd", s.lo, Str{s.b, symLin(e), s.hi}
	if right {
		kind, from, w = "rev", s.hi, Str{s.b, s.lo, symLin(e)}
	}
	stop.qf = append(stop.qf, QFact{kind: kind, b: s.b, from: from, to: symLin(e), lo: s.lo, hi: s.hi, dnf: posi})
	for _, d := range in.decode(stop, w, right) {
		if d.empty {
			continue
		}
		for _, p := range pred(d.st, d.r) {
			if !p.v {
				res = append(res, Outcome{st: p.st, rets: []Val{w}})
			}
		}
	}
	end := Str{s.b, s.hi, s.hi}
	if right {
		end = Str{s.b, s.lo, s.lo}
	}
	to := s.hi
	if right {
		to = s.lo
	}
	all.qf = append(all.qf, QFact{kind: kind, b: s.b, from: from, to: to, lo: s.lo, hi: s.hi, dnf: posi})
	return append(res, Outcome{st: all, rets: []Val{end}})
}

// noMatch: sub does not appear at the offset.
func noMatch(b *StrBase, sub Str) conj {
	o := freshSym("offset")
	c := conj{o: o, r: -1}
	eq := strEq(Str{b, symLin(o), symLin(o).add(sub.length())}, sub)
	for _, s := range eq.sub {
		if s.kind == 'a' {
			c.facts = append(c.facts, fact{s.atom, false})
		}
	}
	return c
}

// atomEffects adds what follows from a new atom fact.
func (in *Interp) atomEffects(st *State, a *Atom, v bool) []*State {
	switch {
	case a.name == "streq" && !v:
		// strings of the same length that differ are not empty
		x, ok1 := a.args[0].(Str)
		y, ok2 := a.args[1].(Str)
		if ok1 && ok2 && st.same(x.length(), y.length()) {
			st.addLE(x.length().neg().addK(1))
			if st.dead {
				return nil
			}
		}
	case strings.HasPrefix(a.name, "typeis:") && v:
		// a value has one concrete type: others are excluded by lookup
	case a.name == "fold" && v:
	}
	return []*State{st}
}
