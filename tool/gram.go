package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ rune sets

// runeSet is a sorted list of disjoint intervals.
type runeSet [][2]rune

func setOf(rs ...rune) runeSet {
	s := runeSet{}
	for _, r := range rs {
		s = append(s, [2]rune{r, r})
	}
	return s.norm()
}

func between(lo, hi rune) runeSet { return runeSet{{lo, hi}}.norm() }

func anySet() runeSet { return between(0, unicode.MaxRune) }

func (s runeSet) norm() runeSet {
	t := runeSet{}
	for _, x := range s {
		if x[0] < 0 {
			x[0] = 0
		}
		if x[1] > unicode.MaxRune {
			x[1] = unicode.MaxRune
		}
		if x[0] <= x[1] {
			t = append(t, x)
		}
	}
	sort.Slice(t, func(i, j int) bool { return t[i][0] < t[j][0] })
	r := runeSet{}
	for _, x := range t {
		if n := len(r); n > 0 && x[0] <= r[n-1][1]+1 {
			if x[1] > r[n-1][1] {
				r[n-1][1] = x[1]
			}
			continue
		}
		r = append(r, x)
	}
	return r
}

func (s runeSet) union(t runeSet) runeSet {
	return append(append(runeSet{}, s...), t...).norm()
}

func (s runeSet) minus(t runeSet) runeSet {
	r := append(runeSet{}, s...)
	for _, y := range t {
		n := runeSet{}
		for _, x := range r {
			if y[1] < x[0] || y[0] > x[1] {
				n = append(n, x)
				continue
			}
			if x[0] < y[0] {
				n = append(n, [2]rune{x[0], y[0] - 1})
			}
			if x[1] > y[1] {
				n = append(n, [2]rune{y[1] + 1, x[1]})
			}
		}
		r = n
	}
	return r.norm()
}

func (s runeSet) has(r rune) bool {
	for _, x := range s {
		if x[0] <= r && r <= x[1] {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------ terms

// Term is what a reader does, built from the constructors of package tok.
type Term struct {
	op   string // set any seq zom many opt at atend not to past body bodytail beg end ref invalid unknown
	subs []*Term
	set  runeSet
	rule int    // ref: index of the rule
	id   string // beg, end: the pair
	why  string
	key  string
}

func (t *Term) String() string {
	if t.key != "" {
		return t.key
	}
	s := t.op
	switch t.op {
	case "set":
		b := []string{}
		for _, x := range t.set {
			if x[1] >= symBase {
				b = append(b, fmt.Sprintf("%d-%d", x[0], x[1]))
				continue
			}
			b = append(b, fmt.Sprintf("%q-%q", x[0], x[1]))
		}
		s = "[" + strings.Join(b, "") + "]"
	case "ref":
		s = fmt.Sprintf("&%d", t.rule)
	case "beg", "end":
		s += ":" + t.id
	case "unknown", "invalid":
		s += ":" + t.why
	}
	if len(t.subs) > 0 || t.op == "seq" || t.op == "any" {
		b := []string{}
		for _, x := range t.subs {
			b = append(b, x.String())
		}
		s += "(" + strings.Join(b, " ") + ")"
	}
	t.key = s
	return s
}

func tSet(s runeSet) *Term            { return &Term{op: "set", set: s} }
func tRune(r rune) *Term              { return tSet(setOf(r)) }
func tRunes(s string) *Term           { return tSet(setOf([]rune(s)...)) }
func tOp(op string, s ...*Term) *Term { return &Term{op: op, subs: s} }
func tSeq(s ...*Term) *Term           { return tOp("seq", s...) }
func tAny(s ...*Term) *Term           { return tOp("any", s...) }
func tZom(s *Term) *Term              { return tOp("zom", s) }
func tMany(s *Term) *Term             { return tOp("many", s) }
func tOpt(s *Term) *Term              { return tOp("opt", s) }
func tRange(lo, hi rune) *Term        { return tSet(between(lo, hi)) }
func tLit(s string) *Term {
	if !utf8.ValidString(s) {
		return &Term{op: "unknown", why: fmt.Sprintf("literal %q", s)}
	}
	t := tSeq()
	for _, r := range s {
		t.subs = append(t.subs, tRune(r))
	}
	return t
}

func tFold(s string) *Term {
	if !utf8.ValidString(s) {
		return &Term{op: "unknown", why: fmt.Sprintf("literal %q", s)}
	}
	t := tSeq()
	for _, r := range s {
		orbit := []rune{r}
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			orbit = append(orbit, f)
		}
		t.subs = append(t.subs, tSet(setOf(orbit...)))
	}
	return t
}

// ------------------------------------------------------------------ extraction

// GramRule is a rule of a grammar.
type GramRule struct {
	field string
	name  string
	named bool // the name is known
	term  *Term
	ptr   Ptr
}

// Gram is a grammar: its rules in the order of the fields.
type Gram struct {
	name  string
	typ   *types.Named
	rules []*GramRule
	in    *Interp
	st    *State
	ptr   Ptr
	ex    *extractor
}

func (g *Gram) rule(field string) int {
	for i, r := range g.rules {
		if r.field == field {
			return i
		}
	}
	return -1
}

type extractor struct {
	c     *Ck
	terms map[string]*Term
	n     int
	gram  ObjID // the grammar under construction
	root  types.Type
	used  map[string]bool // the constructors
}

func (x *extractor) add(t *Term) Iface {
	x.n++
	k := fmt.Sprintf("term#%d", x.n)
	x.terms[k] = t
	return Iface{sym: k, nn: true, kind: "reader"}
}

func (x *extractor) bad(op, why string, args ...interface{}) *Term {
	return &Term{op: op, why: fmt.Sprintf(why, args...)}
}

// term converts a value that is given as a reader.
func (x *extractor) term(st *State, v Val) *Term {
	i, ok := v.(Iface)
	if !ok {
		if p, isP := v.(Ptr); isP {
			return x.object(st, types.NewPointer(objTypes[p.obj]), p)
		}
		return x.bad("unknown", "value %s", v.key())
	}
	if i.isNil {
		return x.bad("invalid", "nil")
	}
	if t, ok := x.terms[i.sym]; ok && i.dyn == nil {
		return t
	}
	if i.dyn == nil {
		return x.bad("unknown", "value %s", i.key())
	}
	return x.object(st, i.dyn, i.v)
}

func (x *extractor) object(st *State, t types.Type, v Val) *Term {
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Kind() == types.Int32:
			if n, ok := constInt(v); ok {
				return x.runeTerm(rune(n))
			}
		case b.Kind() == types.String:
			if s, ok := constString(v); ok {
				return tLit(s)
			}
		default:
			return x.bad("invalid", "parameter of type %s", t)
		}
		return x.bad("unknown", "value %s", v.key())
	}
	if p, ok := v.(Ptr); ok && isTok(deptr(t), "Rule") {
		if p.obj != x.gram || p.idx != nil {
			return x.bad("unknown", "rule of another grammar")
		}
		var i int
		fmt.Sscan(strings.TrimPrefix(p.path, "."), &i)
		return &Term{op: "ref", rule: i}
	}
	if !types.Implements(t, x.c.readerIface()) {
		return x.bad("invalid", "parameter of type %s", t)
	}
	return x.bad("unknown", "reader of type %s", t)
}

func (x *extractor) runeTerm(r rune) *Term {
	if !utf8.ValidRune(r) {
		return tSet(nil)
	}
	return tRune(r)
}

// list converts a slice of known length.
func (x *extractor) list(st *State, v Val) ([]Val, bool) {
	switch s := v.(type) {
	case NilV:
		return nil, true
	case SliceV:
		if s.nilS {
			return nil, true
		}
		n, ok := constInt(Num{st.norm(s.hi.sub(s.lo))})
		if !ok || n > 1000 {
			return nil, false
		}
		r := []Val{}
		for i := 0; i < n; i++ {
			r = append(r, st.loadElem(st.obj(s.arr), st.norm(s.lo.addK(int64(i))), ""))
		}
		return r, true
	}
	return nil, false
}

// rangeSet reads a description like "a-zA-Z".
func rangeSet(s string) (runeSet, bool) {
	rs := []rune(s)
	if len(rs)%3 != 0 {
		return nil, false
	}
	r := runeSet{}
	for i := 0; i < len(rs); i += 3 {
		if rs[i+1] != '-' {
			return nil, false
		}
		r = append(r, [2]rune{rs[i], rs[i+2]})
	}
	return r.norm(), true
}

// primitive gives the term of a constructor call.
func (x *extractor) primitive(name string, args []Val, st *State) []*Term {
	one := func(t *Term) []*Term { return []*Term{t} }
	unk := func() []*Term { return one(x.bad("unknown", "%s with unknown arguments", name)) }
	for i := range args {
		args[i] = st.normVal(args[i])
	}
	str := func(i int) (string, bool) { return constString(args[i]) }
	sub := func(i int) *Term { return x.term(st, args[i]) }
	checked := func(t *Term, subs ...*Term) []*Term { // a constructor that checks its parameter
		for _, s := range subs {
			if s.op == "invalid" && strings.HasPrefix(s.why, "parameter") {
				return one(s)
			}
		}
		return one(t)
	}
	subs := func(i int) ([]*Term, bool) {
		vs, ok := x.list(st, args[i])
		ts := []*Term{}
		for _, v := range vs {
			ts = append(ts, x.term(st, v))
		}
		return ts, ok
	}
	runes := func(from int) ([]rune, bool) {
		r := []rune{}
		for _, a := range args[from:] {
			n, ok := constInt(a)
			if !ok {
				return nil, false
			}
			r = append(r, rune(n))
		}
		return r, true
	}
	switch name {
	case "Rune":
		if r, ok := runes(0); ok {
			return one(x.runeTerm(r[0]))
		}
		return unk()
	case "Lit":
		if s, ok := str(0); ok {
			return one(tLit(s))
		}
		return unk()
	case "Fold":
		if s, ok := str(0); ok {
			return one(tFold(s))
		}
		return unk()
	case "AnyRune":
		if s, ok := str(0); ok {
			return one(tRunes(s))
		}
		return unk()
	case "Between":
		if r, ok := runes(0); ok && len(r) == 2 {
			return one(tRange(r[0], r[1]))
		}
		return unk()
	case "Holey":
		s, ok := str(2)
		if r, ok2 := runes2(args[:2]); ok && ok2 {
			return one(tSet(between(r[0], r[1]).minus(setOf([]rune(s)...))))
		}
		return unk()
	case "BetweenAny", "Set":
		s, ok := str(0)
		if !ok {
			return unk()
		}
		set, ok := rangeSet(s)
		if !ok {
			return one(x.bad("invalid", "ranges %q", s))
		}
		if name == "Set" {
			s, ok := str(1)
			if !ok {
				return unk()
			}
			set = set.union(setOf([]rune(s)...))
		}
		return one(tSet(set))
	case "BuildBetweenAny":
		vs, ok := x.list(st, args[0])
		r, ok2 := runes2(vs)
		if !ok || !ok2 {
			return unk()
		}
		if len(r)%2 != 0 {
			return one(x.bad("invalid", "odd number of range values"))
		}
		set := runeSet{}
		for i := 0; i < len(r); i += 2 {
			set = append(set, [2]rune{r[i], r[i+1]})
		}
		return one(tSet(set.norm()))
	case "Any", "Seq":
		ts, ok := subs(0)
		if !ok {
			return unk()
		}
		return checked(tOp(strings.ToLower(name), ts...), ts...)
	case "SkipSeq":
		ts, ok := subs(1)
		if !ok {
			return unk()
		}
		skip := sub(0)
		l := []*Term{skip}
		for _, t := range ts {
			l = append(l, t, skip)
		}
		return checked(tSeq(l...), ts...)
	case "Zom", "Many", "Opt", "To", "Past":
		t := sub(0)
		return checked(tOp(strings.ToLower(name), t), t)
	case "At", "Not":
		return one(tOp(strings.ToLower(name), sub(0)))
	case "AtEnd":
		return one(tOp("atend"))
	case "Body", "BodyTail":
		return one(tOp(strings.ToLower(name), sub(0), sub(1)))
	case "Times":
		n, ok := constInt(args[0])
		if !ok || n > 100 {
			return unk()
		}
		l := []*Term{}
		for i := 0; i < n; i++ {
			l = append(l, sub(1))
		}
		return one(tSeq(l...))
	case "Named":
		return one(sub(1))
	case "Match":
		return one(x.bad("match", "a matching function"))
	case "Map", "Pick", "Monitor":
		return one(sub(0))
	case "InvalidReader":
		return one(x.bad("invalid", "invalid reader"))
	case "Janus":
		x.n++
		id := fmt.Sprint(x.n)
		return []*Term{{op: "beg", id: id, subs: []*Term{sub(1)}}, {op: "end", id: id}}
	case "Digit":
		return one(tRange('0', '9'))
	case "HexDigit":
		return one(tSet(runeSet{{'0', '9'}, {'a', 'f'}, {'A', 'F'}}.norm()))
	case "WS":
		return one(tRunes(" \r\n\t"))
	case "NL":
		return one(tAny(tLit("\n"), tLit("\r\n")))
	case "SkipWSSeq":
		ts, ok := subs(0)
		if !ok {
			return unk()
		}
		skip := tZom(tRunes(" \r\n\t"))
		l := []*Term{skip}
		for _, t := range ts {
			l = append(l, t, skip)
		}
		return checked(tSeq(l...), ts...)
	case "AnyFold":
		vs, ok := x.list(st, args[0])
		l := []*Term{}
		for _, v := range vs {
			s, ok2 := constString(v)
			ok = ok && ok2
			l = append(l, tFold(s))
		}
		if !ok {
			return unk()
		}
		return one(tAny(l...))
	}
	return nil
}

func runes2(vs []Val) ([]rune, bool) {
	r := []rune{}
	for _, v := range vs {
		n, ok := constInt(v)
		if !ok {
			return nil, false
		}
		r = append(r, rune(n))
	}
	return r, true
}

// derived constructors are evaluated, to see the constructors they use.
var derived = map[string]bool{"Digit": true, "HexDigit": true, "WS": true, "NL": true, "SkipWSSeq": true, "AnyFold": true}

// intercept replaces the calls of constructors by terms.
func (x *extractor) intercept(in *Interp) {
	ctors := map[*ssa.Function]bool{}
	for _, f := range x.c.constructors() {
		ctors[f] = true
	}
	busy := map[*ssa.Function]bool{}
	in.summary = func(fn *ssa.Function, args []Val, st *State, site string) []Outcome {
		if !ctors[fn] || busy[fn] {
			return nil
		}
		for _, f := range in.stack {
			if !ctors[f] && (f.Pkg == nil || f.Pkg != x.c.p.gram) && (f.Parent() == nil || f.Parent().Pkg != x.c.p.gram) {
				return nil
			}
		}
		x.used[fn.Name()] = true
		if derived[fn.Name()] {
			busy[fn] = true
			outs := in.call(fn, append([]Val{}, args...), nil, st.clone())
			delete(busy, fn)
			if len(outs) == 1 && outs[0].panic == "" {
				if i, ok := outs[0].rets[0].(Iface); ok && i.dyn == nil && x.terms[i.sym] != nil {
					return outs
				}
			}
		}
		ts := x.primitive(fn.Name(), append([]Val{}, args...), st)
		if ts == nil {
			return nil
		}
		rets := []Val{}
		for i, t := range ts {
			v := Val(x.add(t))
			if _, isI := fn.Signature.Results().At(i).Type().Underlying().(*types.Interface); !isI {
				v = Opaque{v.(Iface).sym}
			}
			rets = append(rets, v)
		}
		return []Outcome{{st: st, rets: rets}}
	}
}

// grammars lists the grammar types of package grammar with the function that makes them.
func (c *Ck) grammars() map[string]*ssa.Function {
	res := map[string]*ssa.Function{}
	gi := c.p.tok.Type("Grammar").Type().Underlying().(*types.Interface)
	for _, m := range c.p.gram.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if types.Implements(fn.Signature.Results().At(0).Type(), gi) {
			res[fn.Name()] = fn
		}
	}
	return res
}

// grammar evaluates the function that makes a grammar.
func (c *Ck) grammar(name string) *Gram {
	fn := c.grammars()[name]
	if fn == nil {
		c.fail(name, "is part of the interface", "function not found", nil)
		return nil
	}
	var g *Gram
	c.guarded(name, func() {
		in := c.interp()
		in.deep = true
		x := &extractor{c: c, terms: map[string]*Term{}, used: map[string]bool{}}
		x.intercept(in)
		st := in.newState()
		// the object is not known before the end: rule pointers are resolved by the first object of the type
		gt := deptr(fn.Signature.Results().At(0).Type())
		x.root = gt
		old := in.onAlloc
		in.onAlloc = func(id ObjID, t types.Type) {
			if x.gram == 0 && types.Identical(t, gt) {
				x.gram = id
			}
		}
		outs := in.call(fn, nil, nil, st)
		in.onAlloc = old
		good := outs[:0:0]
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			if o.panic != "" {
				c.fail(name, "does not panic at "+o.panic, "", o.st)
				continue
			}
			good = append(good, o)
		}
		if !c.ob(len(good) == 1, name, "is built in one way", fmt.Sprintf("%d outcomes", len(good)), nil) {
			return
		}
		o := good[0]
		p, ok := o.rets[0].(Ptr)
		if !c.ob(ok && p.obj == x.gram && p.path == "" && p.idx == nil, name, "returns a new grammar", "", o.st) {
			return
		}
		named, _ := gt.(*types.Named)
		g = &Gram{name: name, typ: named, in: in, st: o.st, ptr: p, ex: x}
		for i, f := range structFields(gt) {
			r := &GramRule{field: f.Name(), ptr: Ptr{obj: p.obj, path: fmt.Sprintf(".%d", i)}}
			if isTok(f.Type(), "Rule") {
				for k, rf := range structFields(f.Type()) {
					v := o.st.normVal(o.st.load(Ptr{obj: p.obj, path: fmt.Sprintf(".%d.%d", i, k)}))
					switch rf.Name() {
					case "Name":
						r.name, r.named = constString(v)
					case "Reader":
						r.term = x.term(o.st, v)
					}
				}
			}
			g.rules = append(g.rules, r)
		}
		in.summary = nil
	})
	c.absorb()
	return g
}
