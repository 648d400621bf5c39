package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "the error that each failing path returns is traced to its origin: the value of a failed sub read, or a ReadError whose marker is compared with the position of the scanner at the return; for alternatives the markers of all failed reads are compared", 150, checkC30,
		"sub readers restore on failure and move forward on success", "markers of errors are not negative")
}

// the readers that are defined to recover from errors of their sub readers
var recovers = map[string]bool{"Any": true, "AnyFold": true, "Opt": true, "Many": true, "Zom": true, "Not": true, "To": true, "Past": true, "Body": true, "BodyTail": true}

func (c *Ck) readError() types.Type { return c.p.tok.Type("ReadError").Type() }

// asReadError gives the fields that a type assertion of a symbolic error yields.
func (c *Ck) asReadError(e Iface) (StructV, BoolV) {
	t := c.readError()
	cond := atomB("typeis:"+types.TypeString(t, nil), Iface{sym: e.sym})
	s, _ := symVal(e.sym+".("+types.TypeString(t, nil)+")", t).(StructV)
	return s, cond
}

func (c *Ck) isReadErr(e Iface) bool {
	return e.dyn != nil && types.Identical(e.dyn, c.readError())
}

// markerField is the position of a ReadError value.
func (c *Ck) markerField(v Val) (Lin, bool) {
	s, ok := v.(StructV)
	if !ok {
		return Lin{}, false
	}
	for i, f := range structFields(c.readError()) {
		if isTok(f.Type(), "Marker") && i < len(s.f) {
			n, ok := s.f[i].(Num)
			return n.l, ok
		}
	}
	return Lin{}, false
}

// sameError: the error a is the error b of a sub read.
func (c *Ck) sameError(st *State, a, b Val) bool {
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if !ok1 || !ok2 || x.isNil || y.isNil {
		return false
	}
	if st.vkey(x) == st.vkey(y) {
		return true
	}
	if c.isReadErr(x) && y.sym != "" {
		s, cond := c.asReadError(y)
		return st.decide(cond) == 1 && st.vkey(x.v) == st.vkey(s)
	}
	return false
}

// origin checks a returned error. subs are the errors of the failed reads.
func (c *Ck) origin(subj string, st *State, err Val, subs []Val, pos Lin) {
	e, ok := err.(Iface)
	if !c.ob(ok && !e.isNil, subj, "returns an error that is known", "", st) {
		return
	}
	for _, s := range subs {
		if c.sameError(st, e, s) {
			c.ob(true, subj, "returns the error of a sub reader or one of its own", "", st)
			return
		}
	}
	if c.isReadErr(e) {
		m, ok := c.markerField(e.v)
		c.ob(ok && st.same(m, pos), subj, "returns an error at the position of the scanner", "at "+m.pretty()+", the scanner is at "+pos.pretty(), st)
		return
	}
	// an error without position: it has to be made here
	c.ob(e.sym == "" || e.txt != nil, subj, "returns the error of a sub reader or one of its own", e.key(), st)
}

func checkC30(c *Ck) {
	// functions of the scanner
	for _, n := range c.scannerMethods() {
		fn := c.p.method(c.p.tok, "Scanner", n)
		r := fn.Signature.Results()
		if r.Len() == 0 || types.TypeString(r.At(r.Len()-1).Type(), nil) != "error" {
			continue
		}
		run := c.scanTok(n, c.contract())
		if run == nil {
			continue
		}
		subj := run.name
		c.guarded(subj, func() {
			for _, o := range run.results(c) {
				err := o.o.rets[len(o.o.rets)-1]
				failed := failedReads(o.st)
				if o.ok {
					c.ob(len(failed) == 0, subj, "succeeds only if the reader succeeded", "", o.st)
					continue
				}
				if len(failed) > 0 {
					c.ob(c.sameError(o.st, err, failed[len(failed)-1]), subj, "returns the error of the reader", fmt.Sprint(err), o.st)
					continue
				}
				c.origin(subj, o.st, err, nil, o.pos)
			}
		})
	}
	kinds := c.recoverKinds()
	cases := c.readerCases(3)
	cases = append(cases, c.caseOf("AnyFold", func(in *Interp, st *State) []Val {
		return []Val{listVal(st, types.Typ[types.String], []Val{symStr("str1"), symStr("str2")})}
	}))
	for _, rd := range cases {
		rd := rd
		if rd == nil || rd.ctor == "AnyFold" && rd.fn != nil && rd.name == "AnyFold" && rd.idx == 0 && rd != cases[len(cases)-1] {
			continue // lists of unknown length
		}
		if rd.mk != nil && len(rd.kinds) == 0 && c.takesList(rd) {
			continue // lists of unknown length
		}
		c.monitor(rd, rd.name, func(m *Mon) { c.errMon(m, rd, kinds) }, c.contract(), c.readsOf)
	}
}

// recoverKinds tells for the types of readers what they are: "any" for alternatives, "recover".
func (c *Ck) recoverKinds() map[string]string {
	res := map[string]string{}
	for _, rd := range c.readerCases(1) {
		rd := rd
		if !recovers[rd.ctor] || rd.fn == nil {
			continue
		}
		in := c.interp()
		func() {
			defer func() { recover() }()
			for _, m := range rd.make(c, in, in.newState()) {
				if m.v.dyn == nil || types.Identical(m.v.dyn, c.invalidType()) {
					continue
				}
				k := "recover"
				if rd.ctor == "Any" {
					k = "any"
				}
				if t := types.TypeString(m.v.dyn, nil); res[t] == "" {
					res[t] = k
				}
			}
		}()
	}
	return res
}

// invalidType is the type InvalidReader returns.
func (c *Ck) invalidType() types.Type {
	if f := c.p.tok.Func("InvalidReader"); f != nil && f.Signature.Results().Len() == 1 {
		t := f.Signature.Results().At(0).Type()
		if types.IsInterface(t) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if m, ok := i.(*ssa.MakeInterface); ok && types.Identical(m.Type(), t) {
						return m.X.Type()
					}
				}
			}
		}
		return t
	}
	return types.Typ[types.Invalid]
}

func (c *Ck) takesList(rd *ReaderCase) bool {
	s := rd.fn.Signature
	return s.Variadic() && isEmptyIface(elemType(s.Params().At(s.Params().Len()-1).Type())) && rd.ctor != "InvalidReader" && rd.name == rd.ctor+"(any list)"
}

// readsOf treats the Read functions of the scanner as sub reads of the readers that use them.
func (c *Ck) readsOf(in *Interp) {
	in.summary = func(fn *ssa.Function, args []Val, st *State, site string) []Outcome {
		r := fn.Signature.Results()
		if fn.Signature.Recv() == nil || !isTok(deref(fn.Signature.Recv().Type()), "Scanner") || !strings.HasPrefix(fn.Name(), "Read") || r.Len() != 2 {
			return nil
		}
		p, ok := args[0].(Ptr)
		if !ok {
			return nil
		}
		outs := in.opaqueRead(st.clone(), fn.Name(), site, p.obj, args[0])
		for i := range outs {
			outs[i].rets = []Val{freshVal(fn.Name(), r.At(0).Type()), outs[i].rets[0]}
		}
		return outs
	}
}

func failedReads(st *State) []Val {
	res := []Val{}
	for _, e := range st.ev {
		if e.kind == "read" && !e.ok {
			res = append(res, e.v)
		}
	}
	return res
}

func (c *Ck) errMon(m *Mon, rd *ReaderCase, kinds map[string]string) {
	kind := ""
	if m.reader.dyn != nil {
		kind = kinds[types.TypeString(m.reader.dyn, nil)]
	}
	m.read = func(e Event) {
		if e.ok {
			return
		}
		m.setB("ok", false)
		m.set("err", e.v)
		if i, ok := e.v.(Iface); ok && i.sym != "" {
			s, _ := c.asReadError(i)
			if l, ok := c.markerField(s); ok {
				m.cur.addLE(l.neg())
			}
		}
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		subj := rd.name
		if ok {
			if kind == "" {
				m.ob(m.is("ok", true), "succeeds only if no sub reader failed", "")
			}
			return
		}
		failed := failedReads(st)
		if e, ok := m.get("err").(Iface); ok && !e.isNil {
			failed = append(failed, e)
		}
		switch {
		case kind == "any":
			if len(failed) > 0 {
				c.deepest(m, st, err, failedReads(st))
			}
		case kind == "recover":
			c.origin(subj, st, err, failed, pos)
		case isGrammar(c, rd):
			e, ok := err.(Iface)
			m.ob(ok && !e.isNil, "returns an error", "")
		default:
			c.origin(subj, st, err, failed, pos)
		}
	}
}

func isGrammar(c *Ck, rd *ReaderCase) bool {
	return rd.recv != nil && c.p.gram != nil && c.p.gram.Members[rd.ctor] != nil
}

// deepest: the error is one of the failed reads, and none of the others has a later position.
func (c *Ck) deepest(m *Mon, st *State, err Val, failed []Val) {
	one := false
	for _, f := range failed {
		one = one || c.sameError(st, err, f)
	}
	if !m.ob(one, "returns the error of one of its alternatives", fmt.Sprint(err)) {
		return
	}
	e := err.(Iface)
	for k, f := range failed {
		i, ok := f.(Iface)
		if !ok || i.sym == "" {
			continue
		}
		s, cond := c.asReadError(i)
		at, _ := c.markerField(s)
		for _, x := range st.clone().assume(cond, true) {
			if x.dead {
				continue
			}
			var got Lin
			known := false
			if c.isReadErr(e) {
				got, known = c.markerField(e.v)
			} else if e.sym != "" {
				t, is := c.asReadError(e)
				if x.decide(is) == 1 {
					got, known = c.markerField(t)
				}
			}
			c.ob(known && x.le(at.sub(got)), m.subj, "returns the error with the latest position", fmt.Sprintf("alternative %d failed later", k+1), x)
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
