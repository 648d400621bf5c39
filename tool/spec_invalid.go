package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "abstract interpretation of the constructors for each kind of parameter; the texts of the descriptions are tracked as concatenations, so that the parts they always contain are known; an invalid reader is recognised by the marker in its description and has to fail on all paths of Read", 150, checkC28,
		"range descriptions of up to 7 runes or values", "lists of up to 3 parameters")
}

// textHas: the text always contains the part.
func textHas(v Val, part string) bool {
	s, ok := v.(Str)
	if !ok {
		return false
	}
	for _, r := range constRuns(s) {
		if strings.Contains(r, part) {
			return true
		}
	}
	return false
}

// textPart: the symbolic text with the key is a part of the text.
func textPart(v Val, key string) bool {
	s, ok := v.(Str)
	if !ok {
		return false
	}
	k := symStr(key)
	if s.key() == k.key() {
		return true
	}
	if s.b.parts == nil || !s.lo.isConst() || s.lo.c != 0 || !s.hi.eq(s.b.len) {
		return false
	}
	for _, p := range s.b.parts {
		if p.key() == k.key() {
			return true
		}
	}
	return false
}

func (c *Ck) invalidMarker() string {
	k, ok := c.p.tok.Members["InvalidReaderMarker"].(*ssa.NamedConst)
	if !ok || k.Value.Value == nil || k.Value.Value.Kind() != constant.String {
		c.fail("InvalidReaderMarker", "is part of the interface", "constant not found", nil)
		return "::INVALID-READER::"
	}
	s := constant.StringVal(k.Value.Value)
	c.ob(s != "", "InvalidReaderMarker", "is not empty", "", nil)
	return s
}

// whats gives the descriptions of a reader.
func (c *Ck) whats(subj string, in *Interp, md Made) []Outcome {
	res := []Outcome{}
	for _, o := range in.invoke(md.v, c.ifaceMethod("What"), nil, md.st.clone(), 0, c.p.tok.Func("init")) {
		if o.panic != "" {
			c.fail(subj, "has a description without panic", o.panic, o.st)
			continue
		}
		if !o.st.dead {
			res = append(res, o)
		}
	}
	c.ob(len(res) > 0, subj, "has a description", "", nil)
	return res
}

// invalid tells whether a made reader is invalid; an invalid reader has to fail always.
func (c *Ck) isInvalid(subj string, in *Interp, md Made, marker string) (bool, bool) {
	n, k := 0, 0
	for _, o := range c.whats(subj, in, md) {
		n++
		if textHas(o.rets[0], marker) {
			k++
		}
	}
	return k > 0, k == n && n > 0
}

func (c *Ck) failsAlways(subj string, in *Interp, md Made) {
	st := md.st.clone()
	st.ev = nil
	pt, p0, L, b := c.symScanner(in, st)
	r := &Run{name: subj, in: in, sc: pt.obj, p0: p0, L: L, text: b}
	r.outs = in.invoke(md.v, c.readMethod(), []Val{pt}, st, 0, c.p.tok.Func("init"))
	for _, o := range r.outs {
		if o.panic != "" && !o.st.dead {
			c.fail(subj, "an invalid reader does not panic", o.panic, o.st)
		}
	}
	n := 0
	for _, o := range r.results(c) {
		n++
		c.ob(!o.ok, subj, "an invalid reader never succeeds", "", o.st)
		c.ob(o.st.same(o.pos, p0), subj, "an invalid reader never moves the scanner", o.pos.pretty(), o.st)
		for _, e := range o.st.ev {
			c.ob(e.kind != "read" && e.kind != "setpos", subj, "an invalid reader reads nothing", e.kind, o.st)
		}
	}
	c.ob(n > 0, subj, "reads", "", nil)
}

// made evaluates a constructor with the arguments.
func (c *Ck) madeBy(subj string, fn *ssa.Function, mk func(in *Interp, st *State) []Val, f func(in *Interp, md Made)) {
	c.guarded(subj, func() {
		in := c.interp()
		in.noEffects = true
		c.contract()(in)
		st := in.newState()
		rd := &ReaderCase{name: subj, ctor: fn.Name(), fn: fn, mk: mk}
		n := 0
		for _, md := range rd.make(c, in, st) {
			n++
			f(in, md)
		}
		for _, o := range rd.bad {
			c.fail(subj, "does not panic", o.panic, o.st)
		}
		c.ob(n > 0, subj, "makes a reader", "", nil)
	})
	c.absorb()
}

func (c *Ck) mustBe(subj string, in *Interp, md Made, marker string, want bool) {
	some, all := c.isInvalid(subj, in, md, marker)
	if want {
		if c.ob(all, subj, "is an invalid reader that carries the marker in its description", "", md.st) {
			c.failsAlways(subj, in, md)
		}
	} else {
		c.ob(!some, subj, "is a valid reader", "", md.st)
	}
}

func checkC28(c *Ck) {
	marker := c.invalidMarker()
	for _, fn := range c.constructors() {
		fn := fn
		ps := fn.Signature.Params()
		if ps.Len() == 0 || fn.Name() == "InvalidReader" {
			continue
		}
		lt := ps.At(ps.Len() - 1).Type()
		args := func(last func(st *State) Val) func(in *Interp, st *State) []Val {
			return func(in *Interp, st *State) []Val {
				vs := []Val{}
				for i, p := range fn.Params {
					if i == len(fn.Params)-1 {
						vs = append(vs, last(st))
					} else {
						vs = append(vs, c.arg(p.Name(), p))
					}
				}
				return vs
			}
		}
		switch {
		case isEmptyIface(lt):
			for _, k := range []string{"reader", "rune", "string", "other", "nil"} {
				k := k
				subj := fn.Name() + "(" + k + ")"
				c.madeBy(subj, fn, args(func(st *State) Val { return c.anyVal("value", k) }), func(in *Interp, md Made) {
					c.mustBe(subj, in, md, marker, k == "other" || k == "nil")
				})
			}
		case fn.Signature.Variadic() && isEmptyIface(elemType(lt)):
			for _, ks := range c.kindLists() {
				ks := ks
				subj := fn.Name() + "(" + strings.Join(ks, ", ") + ")"
				bad := false
				for _, k := range ks {
					bad = bad || k == "other" || k == "nil"
				}
				c.madeBy(subj, fn, args(func(st *State) Val {
					vs := []Val{}
					for i, k := range ks {
						vs = append(vs, c.anyVal(fmt.Sprintf("value%d", i+1), k))
					}
					return listVal(st, elemType(lt), vs)
				}), func(in *Interp, md Made) { c.mustBe(subj, in, md, marker, bad) })
			}
		}
	}
	if fn := c.p.tok.Func("InvalidReader"); fn != nil {
		c.madeBy("InvalidReader", fn, func(in *Interp, st *State) []Val {
			return []Val{c.arg("format", fn.Params[0]), c.arg("a", fn.Params[1])}
		}, func(in *Interp, md Made) { c.mustBe("InvalidReader", in, md, marker, true) })
	} else {
		c.fail("InvalidReader", "is part of the interface", "function not found", nil)
	}
	c.rangeCtors(marker)
	c.subDescriptions()
	c.ruleLines()
	c.markerTests(marker)
}

// kindLists are lists of parameter kinds.
func (c *Ck) kindLists() [][]string {
	res := [][]string{{}}
	base := []string{"reader", "rune", "string", "other"}
	for _, a := range append(base, "nil") {
		res = append(res, []string{a})
		for _, b := range base {
			res = append(res, []string{a, b})
		}
	}
	for i := 0; i < 3; i++ {
		l := []string{"reader", "string", "rune"}
		res = append(res, append([]string{}, l...))
		l[i] = "other"
		res = append(res, l)
	}
	return res
}

func (c *Ck) rangeCtors(marker string) {
	max := 6
	if c.thorough {
		max = 9
	}
	for _, name := range []string{"BetweenAny", "Set", "BuildBetweenAny"} {
		fn := c.p.tok.Func(name)
		if fn == nil {
			c.fail(name, "is part of the interface", "function not found", nil)
			continue
		}
		for n := 0; n <= max+1; n++ {
			n := n
			subj := fmt.Sprintf("%s with %d runes", name, n)
			rs := []Val{}
			for i := 0; i < n; i++ {
				rs = append(rs, symRune(fmt.Sprintf("range rune %d", i)))
			}
			c.madeBy(subj, fn, func(in *Interp, st *State) []Val {
				switch name {
				case "BuildBetweenAny":
					return []Val{listVal(st, types.Typ[types.Int32], rs)}
				case "Set":
					return []Val{runeStr(st, "ranges", rs), symStr("singles")}
				}
				return []Val{runeStr(st, "ranges", rs)}
			}, func(in *Interp, md Made) {
				some, all := c.isInvalid(subj, in, md, marker)
				if all {
					c.failsAlways(subj, in, md)
				} else {
					c.ob(!some, subj, "carries the marker always or never", "", md.st)
				}
				if name == "BuildBetweenAny" {
					c.ob(all == (n%2 != 0), subj, "is invalid exactly for an odd number of values", "", md.st)
					return
				}
				if n%3 != 0 {
					c.ob(all, subj, "is invalid if the ranges are not complete", "", md.st)
					return
				}
				dash := func(i int) BoolV { return eqB(rs[i].(Num).l.addK(-'-')) }
				if all {
					ds := []BoolV{kBool(true)}
					for i := 1; i < n; i += 3 {
						ds = append(ds, dash(i))
					}
					c.ob(impossible(md.st, andB(ds...), true), subj, "is valid if all ranges have a dash", "", md.st)
					return
				}
				for i := 1; i < n; i += 3 {
					c.ob(impossible(md.st, dash(i), false), subj, "is invalid if a range has no dash", fmt.Sprintf("range %d", i/3+1), md.st)
				}
			})
		}
	}
}

// subDescriptions: the description of a combinator contains the descriptions of its sub readers.
func (c *Ck) subDescriptions() {
	n := 0
	for _, rd := range c.readerCases(3) {
		rd := rd
		if rd.fn == nil || rd.ctor == "Named" || rd.ctor == "Janus" && rd.idx == 1 || strings.HasSuffix(rd.name, "(any list)") {
			continue
		}
		c.guarded(rd.name, func() {
			in := c.interp()
			in.noEffects = true
			for _, md := range rd.make(c, in, in.newState()) {
				subs := []string{}
				for _, a := range rd.args {
					c.subKeys(md.st, a, &subs)
				}
				if len(subs) == 0 {
					return
				}
				n++
				for _, o := range c.whats(rd.name, in, md) {
					for _, k := range subs {
						c.ob(textPart(o.rets[0], "what("+k+")"), rd.name, "contains the description of each reader it is made of", k, o.st)
					}
				}
			}
		})
		c.absorb()
	}
	c.ob(n >= 15, "descriptions", "there are combinators", fmt.Sprint(n), nil)
}

func (c *Ck) subKeys(st *State, v Val, res *[]string) {
	switch x := v.(type) {
	case Iface:
		if x.sym != "" && x.nn {
			*res = append(*res, x.sym)
		}
	case SliceV:
		n := st.norm(x.hi.sub(x.lo))
		if n.isConst() && x.arr > 0 {
			for i := int64(0); i < n.c; i++ {
				c.subKeys(st, st.loadElem(st.obj(x.arr), x.lo.addK(i), ""), res)
			}
		}
	}
}

// ruleLines: the line of a rule contains the description of its reader, and all lines are given.
func (c *Ck) ruleLines() {
	in := c.interp()
	fn := c.p.method(c.p.tok, "Rule", "Rule")
	if fn == nil {
		c.fail("Rule.Rule", "is part of the interface", "method not found", nil)
		return
	}
	for n := 0; n <= 3; n++ {
		n := n
		subj := fmt.Sprintf("GrammarLines of %d rules", n)
		c.guarded(subj, func() {
			st := in.newState()
			ptrs, keys := []Val{}, []string{}
			for i := 0; i < n; i++ {
				p, _, s := c.newRule(st, fmt.Sprintf("rule%d", i+1))
				ptrs = append(ptrs, p)
				keys = append(keys, s.key)
				for _, o := range c.doCall(in, "Rule.Rule", fn, "Rule", []Val{p}, st.clone()) {
					c.ob(textPart(o.rets[0], "what("+s.key+")"), "Rule.Rule", "contains the description of the reader", "", o.st)
				}
			}
			gl := c.p.tok.Func("GrammarLines")
			if gl == nil {
				c.fail(subj, "is part of the interface", "function not found", nil)
				return
			}
			l := listVal(st, ptrTo(c.p.typ("Rule")), ptrs)
			outs := c.doCall(in, subj, gl, "GrammarLines", []Val{l}, st)
			c.ob(len(outs) > 0, subj, "returns", "", nil)
			for _, o := range outs {
				r, ok := o.rets[0].(SliceV)
				if n == 0 && !ok {
					continue
				}
				if !c.ob(ok && o.st.same(r.hi.sub(r.lo), konst(int64(n))), subj, "gives one line per rule", "", o.st) {
					continue
				}
				for i, k := range keys {
					c.ob(textPart(o.st.loadElem(o.st.obj(r.arr), r.lo.addK(int64(i)), ""), "what("+k+")"), subj, "gives the lines in order", k, o.st)
				}
			}
		})
		c.absorb()
	}
}

// markerTests: HasInvalidReader and AnyHasInvalidReader find the marker.
func (c *Ck) markerTests(marker string) {
	in := c.interp()
	with := func(i int) func(st *State) Val {
		return func(st *State) Val {
			return concat(st, symStr(fmt.Sprintf("before%d", i)), constStr(marker), symStr(fmt.Sprintf("behind%d", i)))
		}
	}
	lit := func(s string) func(st *State) Val { return func(st *State) Val { return constStr(s) } }
	verdict := func(subj string, fn *ssa.Function, mk func(st *State) []Val, want bool, detail string) {
		c.guarded(subj, func() {
			st := in.newState()
			outs := c.doCall(in, subj, fn, subj, mk(st), st)
			n := 0
			for _, o := range outs {
				n++
				b, ok := o.rets[0].(BoolV)
				d := -1
				if ok {
					d = o.st.decide(b)
				}
				c.ob(d == 1 && want || d == 0 && !want, subj, "reports exactly the texts that contain the marker", detail, o.st)
			}
			c.ob(n > 0, subj, "returns", "", nil)
		})
		c.absorb()
	}
	if fn := c.p.tok.Func("HasInvalidReader"); fn != nil {
		verdict("HasInvalidReader", fn, func(st *State) []Val { return []Val{with(1)(st)} }, true, "a text with the marker")
		for _, s := range []string{"", "a", marker[1:], marker[:len(marker)-1], strings.ToLower(marker), "INVALID", "::" + marker[1:]} {
			verdict("HasInvalidReader", fn, func(st *State) []Val { return []Val{constStr(s)} }, strings.Contains(s, marker), fmt.Sprintf("%q", s))
		}
	} else {
		c.fail("HasInvalidReader", "is part of the interface", "function not found", nil)
	}
	fn := c.p.tok.Func("AnyHasInvalidReader")
	if fn == nil {
		c.fail("AnyHasInvalidReader", "is part of the interface", "function not found", nil)
		return
	}
	for n := 0; n <= 3; n++ {
		for bits := 0; bits < 1<<n; bits++ {
			n, bits := n, bits
			verdict("AnyHasInvalidReader", fn, func(st *State) []Val {
				vs := []Val{}
				for i := 0; i < n; i++ {
					if bits>>i&1 == 1 {
						vs = append(vs, with(i)(st))
					} else {
						vs = append(vs, lit("x")(st))
					}
				}
				return []Val{listVal(st, types.Typ[types.String], vs)}
			}, bits != 0, fmt.Sprintf("%d texts, with the marker: %b", n, bits))
		}
	}
}
