package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ReaderCase is a reader built by an exported constructor from symbolic arguments.
type ReaderCase struct {
	name  string
	ctor  string
	fn    *ssa.Function
	idx   int                               // which result is the reader
	mk    func(in *Interp, st *State) []Val // the arguments
	kinds []string
	args  []Val
	in    *Interp
	reads []*Run
	bad   []Outcome // outcomes of the constructor that panic
	made  []Made
	recv  func(in *Interp, st *State) Val    // a reader that is not made by a constructor
	build func(in *Interp, st *State) []Made // a reader that needs several steps
}

// Made is one outcome of the constructor.
type Made struct {
	st  *State
	v   Iface
	run *Run
}

func (c *Ck) readerIface() *types.Interface {
	return c.p.tok.Type("Reader").Type().Underlying().(*types.Interface)
}

// constructors lists the exported functions of package tok that make readers.
func (c *Ck) constructors() []*ssa.Function {
	ri := c.readerIface()
	res := []*ssa.Function{}
	for _, m := range c.p.tok.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil {
			continue
		}
		r := fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			if types.Implements(r.At(i).Type(), ri) {
				res = append(res, fn)
				break
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })
	return res
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// anyVal is a value of an `interface{}` parameter of the given kind.
func (c *Ck) anyVal(name, kind string) Val {
	switch kind {
	case "rune":
		return Iface{dyn: types.Typ[types.Int32], v: symVal(name+" rune", types.Typ[types.Int32])}
	case "string":
		return Iface{dyn: types.Typ[types.String], v: symStr(name + " string")}
	case "reader":
		return Iface{sym: name, nn: true, kind: "reader"}
	case "other":
		return Iface{sym: name, nn: true, kind: "other"}
	case "nil":
		return Iface{isNil: true}
	}
	panic("kind " + kind)
}

// listVal is a slice with the given elements.
func listVal(st *State, et types.Type, vs []Val) SliceV {
	id := st.alloc("list", types.NewSlice(et))
	o := st.obj(id)
	for i, v := range vs {
		o.elems = append(o.elems, elemCell{konst(int64(i)), "", v})
	}
	return SliceV{arr: id, lo: konst(0), hi: konst(int64(len(vs)))}
}

// readerCases lists the readers: each constructor with each kind of arguments. A variadic
// parameter gets a list of unknown length and, with lists set, lists of 0..max elements.
func (c *Ck) readerCases(max int) []*ReaderCase {
	res := []*ReaderCase{}
	ri := c.readerIface()
	for _, fn := range c.constructors() {
		fn := fn
		sig := fn.Signature
		// the variants of the last parameter
		type variant struct {
			name  string
			kinds []string
			last  func(in *Interp, st *State) Val
		}
		vars := []variant{{"", nil, nil}}
		np := sig.Params().Len()
		if np > 0 {
			lt := sig.Params().At(np - 1).Type()
			nm := sig.Params().At(np - 1).Name()
			switch {
			case sig.Variadic() && isEmptyIface(elemType(lt)) && fn.Name() != "InvalidReader":
				et := elemType(lt)
				vars = nil
				if max >= 0 {
					for n := 0; n <= max; n++ {
						ks := []string{}
						for i := 0; i < n; i++ {
							ks = append(ks, "reader")
						}
						vars = append(vars, variant{"(" + fmt.Sprint(n) + " readers)", ks, nil})
					}
					vars = append(vars, variant{"(rune, string)", []string{"rune", "string"}, nil})
				}
				for i := range vars {
					ks := vars[i].kinds
					vars[i].last = func(in *Interp, st *State) Val {
						vs := []Val{}
						for k, kd := range ks {
							vs = append(vs, c.anyVal(fmt.Sprintf("sub%d", k+1), kd))
						}
						return listVal(st, et, vs)
					}
				}
				vars = append(vars, variant{"(any list)", nil, nil})
			case isEmptyIface(lt):
				vars = nil
				for _, k := range []string{"reader", "rune", "string"} {
					k := k
					vars = append(vars, variant{"(" + k + ")", []string{k}, func(in *Interp, st *State) Val { return c.anyVal(nm, k) }})
				}
			}
		}
		for _, v := range vars {
			v := v
			for i := 0; i < sig.Results().Len(); i++ {
				if !types.Implements(sig.Results().At(i).Type(), ri) {
					continue
				}
				name := fn.Name() + v.name
				if sig.Results().Len() > 1 {
					name = fmt.Sprintf("%s result %d%s", fn.Name(), i+1, v.name)
				}
				res = append(res, &ReaderCase{name: name, ctor: fn.Name(), fn: fn, idx: i, kinds: v.kinds, mk: func(in *Interp, st *State) []Val {
					args := []Val{}
					for k, p := range fn.Params {
						if k == np-1 && v.last != nil {
							args = append(args, v.last(in, st))
							continue
						}
						args = append(args, c.arg(p.Name(), p))
					}
					return args
				}})
			}
		}
	}
	// exported reader types with exported fields: any value of them
	for _, pkg := range []*ssa.Package{c.p.tok, c.p.gram} {
		if pkg == nil {
			continue
		}
		names := []string{}
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := pkg.Members[n].(*ssa.Type)
			if !ok || !t.Object().Exported() {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			pt := types.NewPointer(t.Type())
			if !types.Implements(pt, ri) {
				continue
			}
			res = append(res, &ReaderCase{name: n + " value", ctor: n, recv: func(in *Interp, st *State) Val {
				return Iface{dyn: pt, v: symVal("r", pt)}
			}})
		}
	}
	return res
}

// run builds the reader and reads once with it on a symbolic scanner.
func (rd *ReaderCase) run(c *Ck, set ...func(*Interp)) {
	rd.reads, rd.bad, rd.made = nil, nil, nil
	in := c.interp()
	rd.in = in
	for _, s := range set {
		s(in)
	}
	c.guarded(rd.name, func() {
		st := in.newState()
		pt, p0, L, b := c.symScanner(in, st)
		for _, m := range rd.make(c, in, st) {
			r := &Run{name: rd.name, in: in, sc: pt.obj, p0: p0, L: L, text: b, args: rd.args}
			m.st.ev = nil
			r.outs = in.invoke(m.v, c.readMethod(), []Val{pt}, m.st.clone(), 0, c.p.tok.Func("init"))
			m.run = r
			rd.made = append(rd.made, m)
			rd.reads = append(rd.reads, r)
		}
	})
	c.absorb()
}

func (c *Ck) readMethod() *types.Func { return c.ifaceMethod("Read") }

func (c *Ck) ifaceMethod(name string) *types.Func {
	ri := c.readerIface()
	for i := 0; i < ri.NumMethods(); i++ {
		if ri.Method(i).Name() == name {
			return ri.Method(i)
		}
	}
	panic("Reader." + name)
}

// make evaluates the constructor.
func (rd *ReaderCase) make(c *Ck, in *Interp, st *State) []Made {
	if rd.build != nil {
		return rd.build(in, st)
	}
	if rd.recv != nil {
		return []Made{{st: st, v: rd.recv(in, st).(Iface)}}
	}
	rd.args = rd.mk(in, st)
	res := []Made{}
	for _, o := range in.call(rd.fn, rd.args, nil, st) {
		if o.panic != "" {
			rd.bad = append(rd.bad, o)
			continue
		}
		res = append(res, Made{st: o.st, v: asIface(o.rets[rd.idx], rd.fn.Signature.Results().At(rd.idx).Type())})
	}
	return res
}

// madeTypes lists the types of the readers that the constructors make.
func (c *Ck) madeTypes() map[string]bool {
	if c.made != nil {
		return c.made
	}
	c.made = map[string]bool{}
	for _, rd := range c.readerCases(1) {
		rd := rd
		in := c.interp()
		func() {
			defer func() { recover() }()
			for _, m := range rd.make(c, in, in.newState()) {
				if m.v.dyn != nil {
					c.made[types.TypeString(m.v.dyn, nil)] = true
				}
			}
		}()
	}
	return c.made
}

// contract lets readers use the contract of the readers they are made of.
func (c *Ck) contract() func(*Interp) {
	m := c.madeTypes()
	return func(in *Interp) { in.nested = m }
}

func asIface(v Val, t types.Type) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{dyn: t, v: v}
}

// eachReader calls f for each reader case; f runs it.
func (c *Ck) eachReader(f func(*ReaderCase)) {
	for _, rd := range c.readerCases(2) {
		f(rd)
	}
}

// ------------------------------------------------------------------ one rune

func inB(r, lo, hi Lin) BoolV { return andB(leB(lo.sub(r)), leB(r.sub(hi))) }

func orB(bs ...BoolV) BoolV {
	n := make([]BoolV, len(bs))
	for i, b := range bs {
		n[i] = b.not()
	}
	return andB(n...).not()
}

// runeCase checks a reader made by the constructor with args against the predicate.
func (c *Ck) runeCase(ctor, name string, mk func(in *Interp, st *State) ([]Val, pred)) {
	fn := c.p.tok.Func(ctor)
	if fn == nil {
		c.fail(ctor, "is part of the interface", "function not found", nil)
		return
	}
	var P pred
	rd := &ReaderCase{name: name, ctor: ctor, fn: fn, mk: func(in *Interp, st *State) []Val {
		a, p := mk(in, st)
		P = p
		return a
	}}
	rd.run(c)
	c.ob(len(rd.reads) > 0 || len(c.viols) > 0, name, "makes a reader", "", nil)
	for _, r := range rd.reads {
		r := r
		c.guarded(name, func() { c.ifRune(r, dirn{}, P) })
	}
}

func symRune(n string) Num { return symVal(n, types.Typ[types.Int32]).(Num) }

func (c *Ck) oneRuneReaders() {
	c.runeCase("Rune", "Rune", func(in *Interp, st *State) ([]Val, pred) {
		v := symRune("v")
		return []Val{v}, func(r Lin) BoolV { return eqB(r.sub(v.l)) }
	})
	c.runeCase("AnyRune", "AnyRune", func(in *Interp, st *State) ([]Val, pred) {
		s := symStr("set")
		return []Val{s}, func(r Lin) BoolV { return atomB("has", s, Num{r}) }
	})
	c.runeCase("Between", "Between", func(in *Interp, st *State) ([]Val, pred) {
		a, b := symRune("min"), symRune("max")
		return []Val{a, b}, func(r Lin) BoolV { return inB(r, a.l, b.l) }
	})
	c.runeCase("Holey", "Holey", func(in *Interp, st *State) ([]Val, pred) {
		a, b, s := symRune("min"), symRune("max"), symStr("holes")
		return []Val{a, b, s}, func(r Lin) BoolV { return andB(inB(r, a.l, b.l), atomB("has", s, Num{r}).not()) }
	})
	c.runeCase("Match", "Match", func(in *Interp, st *State) ([]Val, pred) {
		f := FuncV{sym: "f", typ: c.p.tok.Type("MatchFunc").Type()}
		return []Val{symStr("what"), f}, func(r Lin) BoolV { return atomB("match:f", Num{r}) }
	})
	fixed := map[string]func(r Lin) BoolV{
		"Digit": func(r Lin) BoolV { return inB(r, konst('0'), konst('9')) },
		"HexDigit": func(r Lin) BoolV {
			return orB(inB(r, konst('0'), konst('9')), inB(r, konst('a'), konst('f')), inB(r, konst('A'), konst('F')))
		},
		"WS": func(r Lin) BoolV {
			return orB(eqB(r.addK(-' ')), eqB(r.addK(-'\r')), eqB(r.addK(-'\n')), eqB(r.addK(-'\t')))
		},
	}
	for _, n := range sortedKeys(fixed) {
		P := fixed[n]
		c.runeCase(n, n, func(in *Interp, st *State) ([]Val, pred) { return nil, P })
	}
	// ranges: a list of pairs
	for n := 0; n <= 3; n++ {
		n := n
		c.runeCase("BuildBetweenAny", fmt.Sprintf("BuildBetweenAny(%d ranges)", n), func(in *Interp, st *State) ([]Val, pred) {
			vs := []Val{}
			for i := 0; i < 2*n; i++ {
				vs = append(vs, symRune(fmt.Sprintf("m%d", i)))
			}
			return []Val{listVal(st, types.Typ[types.Int32], vs)}, func(r Lin) BoolV {
				bs := []BoolV{}
				for i := 0; i < n; i++ {
					bs = append(bs, inB(r, vs[2*i].(Num).l, vs[2*i+1].(Num).l))
				}
				return orB(bs...)
			}
		})
		for _, ctor := range []string{"BetweenAny", "Set"} {
			ctor := ctor
			c.runeCase(ctor, fmt.Sprintf("%s(%d ranges)", ctor, n), func(in *Interp, st *State) ([]Val, pred) {
				vs := []Val{}
				for i := 0; i < 3*n; i++ {
					if i%3 == 1 {
						vs = append(vs, num('-'))
						continue
					}
					x := symRune(fmt.Sprintf("m%d", i))
					st.addLE(x.l.neg())
					st.addLE(x.l.addK(-0x10ffff))
					vs = append(vs, x)
				}
				ranges := runeStr(st, fmt.Sprintf("ranges%d", n), vs)
				args := []Val{ranges}
				P := func(r Lin) BoolV {
					bs := []BoolV{}
					for i := 0; i < n; i++ {
						bs = append(bs, inB(r, vs[3*i].(Num).l, vs[3*i+2].(Num).l))
					}
					return orB(bs...)
				}
				if ctor == "Set" {
					s := symStr("singles")
					args = append(args, s)
					return args, func(r Lin) BoolV { return orB(P(r), atomB("has", s, Num{r})) }
				}
				return args, P
			})
		}
	}
}

// runeStr is a string made of the given runes.
func runeStr(st *State, name string, rs []Val) Str {
	total := konst(0)
	ws := []Lin{}
	for i := range rs {
		w := internSym(fmt.Sprintf("width %s.%d", name, i))
		if len(axioms[w]) == 0 {
			addAxiom(w, symLin(w).neg().addK(1))
			addAxiom(w, symLin(w).addK(-4))
		}
		ws = append(ws, symLin(w))
		total = total.add(symLin(w))
	}
	b := newStrBase(name, total)
	b.runes = append([]Val{}, rs...)
	b.widths = ws
	return b.whole()
}

// ------------------------------------------------------------------ strings

func (c *Ck) strReaders() {
	for _, k := range []struct {
		ctor string
		fold bool
	}{{"Lit", false}, {"Fold", true}} {
		k := k
		fn := c.p.tok.Func(k.ctor)
		if fn == nil {
			c.fail(k.ctor, "is part of the interface", "function not found", nil)
			continue
		}
		s := symStr("str")
		rd := &ReaderCase{name: k.ctor, ctor: k.ctor, fn: fn, mk: func(in *Interp, st *State) []Val { return []Val{s} }}
		rd.run(c)
		for _, r := range rd.reads {
			r.args = []Val{nil, s}
			c.guarded(rd.name, func() {
				P := plainAt(r.text)
				if k.fold {
					P = foldAt(r.text)
				}
				c.ifStr(r, dirn{}, P, s)
			})
		}
	}
	if fn := c.p.tok.Func("AnyFold"); fn != nil {
		for n := 0; n <= 3; n++ {
			vs := []Val{}
			for i := 0; i < n; i++ {
				vs = append(vs, symStr(fmt.Sprintf("str%d", i+1)))
			}
			rd := &ReaderCase{name: fmt.Sprintf("AnyFold(%d strings)", n), fn: fn, mk: func(in *Interp, st *State) []Val {
				return []Val{listVal(st, types.Typ[types.String], vs)}
			}}
			rd.run(c)
			for _, r := range rd.reads {
				r := r
				c.guarded(rd.name, func() { c.anyOf(r, dirn{}, foldAt(r.text), vs) })
			}
		}
	}
}

func hasPrefixName(n string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// anyOf: the first of the strings that is adjacent is used.
func (c *Ck) anyOf(r *Run, d dirn, P strPred, xs []Val) {
	for _, o := range r.results(c) {
		st := o.st
		if !o.ok {
			c.ob(st.same(o.pos, r.p0), r.name, "does not move on failure", "position "+st.norm(o.pos).pretty(), st)
			for _, x := range xs {
				c.ob(impossible(st, P(d, r.p0, r.L, x.(Str)), true), r.name, "fails only if no string is adjacent", "failure is possible although a string is there", st)
			}
			continue
		}
		found := false
		for _, x := range xs {
			if impossible(st, P(d, r.p0, r.L, x.(Str)), false) {
				found = true
				c.ob(st.same(o.pos, r.p0.add(sgn(d, x.(Str).length()))), r.name, "moves by the length of the string", "position "+st.norm(o.pos).pretty(), st)
				break
			}
			if !c.ob(impossible(st, P(d, r.p0, r.L, x.(Str)), true), r.name, "uses the first adjacent string", "an earlier string may be adjacent too", st) {
				break
			}
		}
		c.ob(found, r.name, "succeeds only if a string is adjacent", "success is possible although no string is there", st)
	}
}
