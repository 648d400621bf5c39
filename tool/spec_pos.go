package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "abstract interpretation: every write of the position of a scanner is checked to stay in the text on every path of every exported operation; the outcomes of the moving functions are checked against the exact law; every construct that writes the position must have been reached", 60, checkC01)
	register("C02", "write-effect analysis of the text field and abstract interpretation of the observers", 40, checkC02)
	register("C03", "abstract interpretation of the scoped calls with an arbitrary callee (moves anywhere, succeeds or fails)", 40, checkC03)
	register("C04", "abstract interpretation: on every failing outcome the position equals the start position", 40, checkC04)
	register("C06", "abstract interpretation: the sign of the move on every outcome", 40, checkC06)
}

// scannerMethods lists the exported methods of Scanner.
func (c *Ck) scannerMethods() []string {
	t := types.NewPointer(c.p.tok.Type("Scanner").Type())
	ms := c.p.prog.MethodSets.MethodSet(t)
	res := []string{}
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Exported() {
			res = append(res, o.Name())
		}
	}
	sort.Strings(res)
	return res
}

// posStores lists the instructions that write the position, the text or a whole scanner.
func (c *Ck) scannerStores() map[ssa.Instruction]string {
	res := map[ssa.Instruction]string{}
	sc := c.p.tok.Type("Scanner").Type()
	for fn := range c.p.allFuncs {
		if !c.p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), sc) {
						switch fa.Field {
						case c.p.posField:
							res[i] = "position"
						case c.p.fullField:
							res[i] = "text"
						}
					}
				} else if types.Identical(s.Val.Type(), sc) {
					if _, ok := s.Addr.(*ssa.Alloc); !ok {
						res[i] = "scanner"
					}
				}
			}
		}
	}
	return res
}

// addrEscapes lists the places where the address of the position or text is used for anything but a load or store.
func (c *Ck) addrEscapes() []string {
	res := []string{}
	sc := c.p.tok.Type("Scanner").Type()
	for fn := range c.p.allFuncs {
		if !c.p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), sc) || fa.Field != c.p.posField && fa.Field != c.p.fullField {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if x.Addr != fa {
							res = append(res, (&Interp{p: c.p}).site(fn, fa.Pos()))
						}
					default:
						res = append(res, (&Interp{p: c.p}).site(fn, fa.Pos()))
					}
				}
			}
		}
	}
	sort.Strings(res)
	return res
}

// rangeWatch checks each write of a position.
func (c *Ck) rangeWatch(subject *string) func(*Interp) {
	return func(in *Interp) {
		in.onEvent = func(st *State, e Event) {
			if st.dead {
				return
			}
			switch e.kind {
			case "setpos":
				L := in.textOf(st, e.obj).length()
				c.ob(st.le(e.to.neg()) && st.le(e.to.sub(L)), *subject, "keeps the position in the text at "+e.site, "position "+st.norm(e.to).pretty()+" is not shown to lie in 0.."+st.norm(L).pretty(), st)
			case "setscanner":
				p := in.posOf(st, e.obj)
				L := in.textOf(st, e.obj).length()
				c.ob(st.le(p.neg()) && st.le(p.sub(L)), *subject, "keeps the position in the text at "+e.site, "", st)
			}
		}
	}
}

func checkC01(c *Ck) {
	subj := ""
	w := c.rangeWatch(&subj)
	reached := map[ssa.Instruction]bool{}
	track := func(in *Interp) { in.onInstr = func(i ssa.Instruction) { reached[i] = true } }
	hostile := func(in *Interp) { in.hostile = true }
	for _, n := range c.scannerMethods() {
		subj = "Scanner." + n
		r := c.scan(n, w, track, hostile)
		if r == nil {
			continue
		}
		for _, o := range r.results(c) {
			c.ob(o.st.le(o.pos.neg()) && o.st.le(o.pos.sub(r.L)), subj, "leaves the position in the text", "position "+o.st.norm(o.pos).pretty(), o.st)
		}
		switch n {
		case "Move", "ToMarker", "ToStart", "ToEnd":
			target := konst(0)
			switch n {
			case "Move":
				target = r.p0.add(r.args[1].(Num).l)
			case "ToMarker":
				target = r.args[1].(Num).l
			case "ToEnd":
				target = r.L
			}
			inside := andB(leB(target.neg()), leB(target.sub(r.L)))
			for _, o := range r.results(c) {
				if o.ok {
					c.ob(impossible(o.st, inside, false), subj, "succeeds only if the target lies in the text", "success for a target outside of the text", o.st)
					c.ob(o.st.same(o.pos, target), subj, "reaches the target", "position "+o.st.norm(o.pos).pretty()+" instead of "+target.pretty(), o.st)
				} else {
					c.ob(impossible(o.st, inside, true), subj, "fails only if the target lies outside of the text", "failure for a target in the text", o.st)
					c.ob(o.st.same(o.pos, r.p0), subj, "stays where it was on failure", "position "+o.st.norm(o.pos).pretty(), o.st)
				}
			}
		case "Mark":
			for _, o := range r.outs {
				v, ok := o.rets[0].(Num)
				c.ob(ok && o.st.same(v.l, r.p0), subj, "returns the position", "", o.st)
			}
		case "AtStart", "AtEnd":
			at := eqB(r.p0)
			if n == "AtEnd" {
				at = eqB(r.p0.sub(r.L))
			}
			for _, o := range r.results(c) {
				c.ob(impossible(o.st, at, !o.ok), subj, "reports exactly whether the position is there", "", o.st)
			}
		}
	}
	// scanners that are made
	for _, n := range []string{"NewScanner", "NewRevScanner"} {
		subj = n
		c.withFunc(n, []func(*Interp){w, track}, func(in *Interp, st *State, args []Val, outs []Outcome) {
			for _, o := range outs {
				p, ok := o.rets[0].(Ptr)
				want := konst(0)
				if n == "NewRevScanner" {
					want = args[0].(Str).length()
				}
				c.ob(ok && o.st.same(in.posOf(o.st, p.obj), want), subj, "starts at the start or the end of the text", "", o.st)
			}
		})
	}
	// readers that make scanners of their own
	c.eachReader(func(rd *ReaderCase) {
		subj = rd.name
		rd.run(c, w, track, hostile, c.contract())
	})
	c.allStoresReached(reached)
}

// allStoresReached: each write of a position was analysed.
func (c *Ck) allStoresReached(reached map[ssa.Instruction]bool) {
	for i, k := range c.scannerStores() {
		if k == "text" {
			continue
		}
		fn := i.Parent()
		if !reached[i] && !c.callable(fn) {
			continue
		}
		c.ob(reached[i], "write in "+shortName(fn), "each write of the position is analysed", (&Interp{p: c.p}).site(fn, i.Pos())+" was not reached by any analysed operation", nil)
	}
	for _, e := range c.addrEscapes() {
		c.fail("address of the position at "+e, "the position is only written by analysed stores", "", nil)
	}
}

// callable: some function of the repository refers to fn, or it is exported.
func (c *Ck) callable(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Object(); o != nil && o.Exported() {
		return true
	}
	for g := range c.p.allFuncs {
		if !c.p.inRepo(g) || g == fn {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op == ssa.Value(fn) {
						return true
					}
				}
			}
		}
	}
	return false
}

// withFunc evaluates an exported function of the package with symbolic arguments.
func (c *Ck) withFunc(name string, set []func(*Interp), f func(in *Interp, st *State, args []Val, outs []Outcome)) {
	fn := c.p.tok.Func(name)
	if fn == nil {
		c.fail(name, "is part of the interface", "function not found", nil)
		return
	}
	in := c.interp()
	for _, s := range set {
		s(in)
	}
	c.guarded(name, func() {
		st := in.newState()
		args := []Val{}
		for _, p := range fn.Params {
			args = append(args, c.arg(p.Name(), p))
		}
		outs := in.call(fn, args, nil, st)
		f(in, st, args, outs)
	})
	c.absorb()
}

// observers of the scanner; the value they return is checked where it is a part of the text.
var observers = []string{"Head", "Tail", "LineCol", "AtStart", "AtEnd", "Mark", "Get", "Since", "ErrorFor", "ErrorIfFalse", "Segmentate"}

func checkC02(c *Ck) {
	for i, k := range c.scannerStores() {
		if k != "text" && k != "scanner" {
			continue
		}
		// the object must be one that the function itself just made
		st := i.(*ssa.Store)
		own := false
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			_, own = fa.X.(*ssa.Alloc)
		}
		c.ob(own, "write in "+shortName(i.Parent()), "the text is only set while a scanner is made", (&Interp{p: c.p}).site(i.Parent(), i.Pos())+" writes the text of a scanner that may be in use", nil)
	}
	for _, e := range c.addrEscapes() {
		c.fail("address of the text or position at "+e, "is only loaded and stored", "", nil)
	}
	for _, n := range []string{"NewScanner", "NewRevScanner"} {
		c.withFunc(n, nil, func(in *Interp, st *State, args []Val, outs []Outcome) {
			for _, o := range outs {
				p, ok := o.rets[0].(Ptr)
				t := Str{}
				if ok {
					t = in.textOf(o.st, p.obj)
				}
				c.ob(ok && o.st.sameStr(t, args[0].(Str)), n, "keeps the given text", "", o.st)
			}
		})
	}
	for _, n := range observers {
		r := c.scanTok(n)
		if r == nil {
			continue
		}
		for i := range r.outs {
			o := &r.outs[i]
			if o.panic != "" {
				continue
			}
			c.ob(o.st.same(r.in.posOf(o.st, r.sc), r.p0), r.name, "does not move the scanner", "position "+r.in.posOf(o.st, r.sc).pretty(), o.st)
			c.ob(o.st.sameStr(r.in.textOf(o.st, r.sc), r.text.whole()), r.name, "keeps the text", "", o.st)
			for _, e := range o.st.ev {
				c.ob(e.kind != "setpos", r.name, "does not write the position", e.site, o.st)
			}
			var lo, hi Lin
			switch n {
			case "Head":
				lo, hi = konst(0), r.p0
			case "Tail":
				lo, hi = r.p0, r.L
			case "Get":
				t := o.st.normVal(r.args[1]).(StructV)
				lo, hi = t.f[0].(Num).l, t.f[1].(Num).l
			case "Since":
				m := r.args[1].(Num).l
				lo, hi = m, r.p0
				if o.st.le(r.p0.sub(m)) {
					lo, hi = r.p0, m
				}
			default:
				continue
			}
			s, ok := o.rets[0].(Str)
			c.ob(ok && sameText(o.st, s, Str{r.text, lo, hi}), r.name, "returns exactly that part of the text", fmt.Sprintf("%v instead of %s..%s", o.rets[0].key(), lo.pretty(), hi.pretty()), o.st)
		}
	}
}

// sameText: the same window of the same text, or both empty.
func sameText(st *State, a, b Str) bool {
	if a.b == nil {
		return false
	}
	if st.le(a.length()) && st.le(b.length()) {
		return true
	}
	return st.sameStr(a, b)
}

// scanTok evaluates a method whose tokens and markers come from the same text.
func (c *Ck) scanTok(name string, set ...func(*Interp)) *Run {
	fn := c.p.method(c.p.tok, "Scanner", name)
	if fn == nil {
		c.fail("Scanner."+name, "is part of the interface", "method not found", nil)
		return nil
	}
	in := c.interp()
	for _, s := range set {
		s(in)
	}
	r := &Run{name: "Scanner." + name, fn: fn, in: in}
	c.guarded(r.name, func() {
		st := in.newState()
		pt, p0, L, b := c.symScanner(in, st)
		r.sc, r.p0, r.L, r.text = pt.obj, p0, L, b
		for i, p := range fn.Params {
			if i == 0 {
				r.args = append(r.args, pt)
				continue
			}
			v := c.arg(p.Name(), p)
			c.fromText(st, v, p.Type(), L)
			r.args = append(r.args, v)
		}
		r.outs = in.call(fn, r.args, nil, st)
	})
	c.absorb()
	return r
}

// fromText assumes that tokens and markers lie in a text of length L.
func (c *Ck) fromText(st *State, v Val, t types.Type, L Lin) {
	switch {
	case isTok(t, "Marker"):
		if n, ok := v.(Num); ok {
			st.addLE(n.l.neg())
			st.addLE(n.l.sub(L))
		}
	case isTok(t, "Token"):
		if s, ok := v.(StructV); ok {
			for _, f := range s.f {
				if n, ok := f.(Num); ok {
					st.addLE(n.l.neg())
					st.addLE(n.l.sub(L))
				}
			}
		}
	case isTok(t, "Segment"):
		if s, ok := v.(StructV); ok {
			for i, f := range structFields(t) {
				c.fromText(st, s.f[i], f.Type(), L)
			}
		}
	}
}

// ------------------------------------------------------------------ C03

var scoped = []string{"Scope", "Trace", "Use", "UseFunc", "TraceUse", "TraceUseFunc", "Tokenize", "TokenizeUse", "TokenizeUseFunc", "Capture", "CaptureUse", "CaptureUseFunc"}

func checkC03(c *Ck) {
	have := map[string]bool{}
	for _, n := range c.scannerMethods() {
		have[n] = true
	}
	n := 0
	for _, name := range scoped {
		if !have[name] {
			continue
		}
		n++
		r := c.scan(name, func(in *Interp) { in.hostile = true })
		if r == nil {
			continue
		}
		c.guarded(r.name, func() { c.scopedLaw(r) })
	}
	c.ob(n >= 8, "Scanner", "offers the scoped calls", fmt.Sprintf("%d found", n), nil)
}

func (c *Ck) scopedLaw(r *Run) {
	for _, o := range r.results(c) {
		st := o.st
		// the single run of the callee
		var call *Event
		cnt := 0
		for i := range st.ev {
			if k := st.ev[i].kind; k == "read" || k == "scope" {
				call = &st.ev[i]
				cnt++
			}
		}
		if !c.ob(cnt == 1, r.name, "runs the callee exactly once", fmt.Sprintf("%d runs", cnt), st) {
			continue
		}
		c.ob(st.same(call.pos, r.p0), r.name, "runs the callee at the start position", call.pos.pretty(), st)
		c.ob(call.ok == o.ok, r.name, "returns the result of the callee", fmt.Sprintf("callee %v, returned %v", call.ok, o.ok), st)
		if e, ok := o.o.rets[len(o.o.rets)-1].(Iface); ok && call.v != nil {
			c.ob(st.normVal(e).key() == st.normVal(call.v).key(), r.name, "returns the error of the callee unchanged", e.key(), st)
		}
		if o.ok {
			c.ob(st.same(o.pos, call.to), r.name, "keeps the position of a successful callee", "position "+st.norm(o.pos).pretty(), st)
		} else {
			c.ob(st.same(o.pos, r.p0), r.name, "is back at the start after a failure", "position "+st.norm(o.pos).pretty(), st)
		}
		if len(o.o.rets) != 2 {
			continue
		}
		lo, hi := r.p0, call.to
		if st.le(call.to.sub(r.p0)) {
			lo, hi = call.to, r.p0
		} else if !st.le(r.p0.sub(call.to)) {
			// both orders are possible: split
			a := st.clone()
			a.addLE(r.p0.sub(call.to))
			if !a.dead {
				c.region(r, a, o, r.p0, call.to)
			}
			b := st.clone()
			b.addLE(call.to.sub(r.p0).addK(1))
			if !b.dead {
				c.region(r, b, o, call.to, r.p0)
			}
			continue
		}
		c.region(r, st, o, lo, hi)
	}
}

// region checks the reported token or string of a scoped call.
func (c *Ck) region(r *Run, st *State, o Res, lo, hi Lin) {
	reader := strings.Contains(r.fn.Name(), "Use")
	capture := strings.HasPrefix(r.fn.Name(), "Capture")
	tokenize := strings.HasPrefix(r.fn.Name(), "Tokenize")
	switch v := st.normVal(o.o.rets[0]).(type) {
	case Str:
		if o.ok {
			c.ob(sameText(st, v, Str{r.text, lo, hi}), r.name, "reports exactly the text between the positions", v.key(), st)
		} else if capture {
			c.ob(st.le(v.length()), r.name, "reports nothing after a failure", v.key(), st)
		}
	case StructV:
		a, ok1 := v.f[0].(Num)
		b, ok2 := v.f[1].(Num)
		if !ok1 || !ok2 {
			c.fail(r.name, "reports a token", v.key(), st)
			return
		}
		c.ob(st.le(a.l.sub(b.l)), r.name, "reports an ordered token", v.key(), st)
		if o.ok {
			c.ob(st.same(a.l, lo) && st.same(b.l, hi), r.name, "reports exactly the token between the positions", v.key(), st)
		} else if tokenize && reader {
			c.ob(st.same(a.l, b.l), r.name, "reports an empty token after a failure", v.key(), st)
		}
	default:
		c.fail(r.name, "reports a token or string", "", st)
	}
}

// ------------------------------------------------------------------ C04, C06

// own callbacks: C03 covers them
var movers = map[string]bool{"Move": true, "MoveRunes": true, "ToMarker": true, "ToStart": true, "ToEnd": true}

func checkC04(c *Ck) {
	for _, n := range c.scannerMethods() {
		fn := c.p.method(c.p.tok, "Scanner", n)
		res := fn.Signature.Results()
		if res.Len() == 0 {
			continue
		}
		last := res.At(res.Len() - 1).Type()
		b, isB := last.Underlying().(*types.Basic)
		_, isE := last.Underlying().(*types.Interface)
		if !(isB && b.Kind() == types.Bool || isE) {
			continue
		}
		c.eachSize(n, fn, func(r *Run) {
			for _, o := range r.results(c) {
				if !o.ok {
					c.ob(o.st.same(o.pos, r.p0), r.name, "does not move if it fails", "position "+o.st.norm(o.pos).pretty(), o.st)
				}
			}
		})
	}
}

func checkC06(c *Ck) {
	for _, n := range c.scannerMethods() {
		if movers[n] {
			continue
		}
		fn := c.p.method(c.p.tok, "Scanner", n)
		rev := strings.HasPrefix(n, "Rev")
		c.eachSize(n, fn, func(r *Run) {
			for _, o := range r.results(c) {
				if rev {
					c.ob(o.st.le(o.pos.sub(r.p0)), r.name, "does not move forward", "position "+o.st.norm(o.pos).pretty(), o.st)
				} else {
					c.ob(o.st.le(r.p0.sub(o.pos)), r.name, "does not move backward", "position "+o.st.norm(o.pos).pretty(), o.st)
				}
			}
		})
	}
	c.eachReader(func(rd *ReaderCase) {
		rd.run(c, c.contract())
		for _, x := range rd.reads {
			for _, o := range x.results(c) {
				if o.ok {
					c.ob(o.st.le(x.p0.sub(o.pos)), rd.name, "does not move backward", "position "+o.st.norm(o.pos).pretty(), o.st)
				}
			}
		}
	})
}

// eachSize evaluates a method; functions with a base and bit size are evaluated per supported value too.
func (c *Ck) eachSize(n string, fn *ssa.Function, f func(r *Run)) {
	r := c.scan(n)
	if r != nil {
		c.guarded(r.name, func() { f(r) })
	}
}
