package main

import (
	"fmt"
	"go/types"
	"strings"
)

// axioms hold for a symbol in every state.
var axioms = map[Sym][]Lin{}

func addAxiom(s Sym, l Lin) { axioms[s] = append(axioms[s], l) }

func nonNeg(s Sym) Sym {
	if len(axioms[s]) == 0 {
		addAxiom(s, symLin(s).neg())
	}
	return s
}

type fact struct {
	a *Atom
	v bool
}

// Decode is a memoized rune decoding: the rune of str base b at [lo, lo+w) (or [hi-w, hi) for rev).
type Decode struct {
	b      *StrBase
	lo, hi Lin
	rev    bool
	r, w   Lin
}

// Event is an observable effect in program order.
type Event struct {
	kind  string // read, call, update, add, mark...
	recv  string
	args  []Val
	pos   Lin // position of the scanner before
	to    Lin // position of the scanner after
	obj   ObjID
	ok    bool
	v     Val
	site  string
	iters [][]Event // loop: the events of the repeating paths
}

// QFact: for all items from..to (exclusive of `to` in the direction of travel) one of the conjunctions holds.
type QFact struct {
	kind     string // "fwd": runes from from up to to, "rev": runes from from down to to, "unit": indices
	b        *StrBase
	from, to Lin
	lo, hi   Lin // window of the decoded string (rune kinds)
	dnf      []conj
	loop     string
	count    Lin  // number of iterations
	exact    bool // each iteration passes one item
}

// conj describes one item. Its rune is sym r, its offset the symbol o.
type conj struct {
	r, o  Sym
	gen   []Sym // values that differ from item to item and have no name of their own
	w     Lin
	lins  []Lin
	eqs   []Lin
	facts []fact
	evs   []Event
	qf    []QFact
}

// State is one abstract state (one disjunct).
type State struct {
	in    *Interp
	cons  []Lin
	subst map[Sym]Lin
	facts []fact
	heap  map[ObjID]*Obj
	decs  []Decode
	qf    []QFact
	acc   []Acc
	ev    []Event
	notes []string // imprecision met on this path
	dead  bool
	steps []string         // branch trail for reports
	bytes []byteRead       // bytes looked at (line counts only)
	dirty map[ObjID]string // scanners that moved since their tracker was told, with the site
}

func (st *State) clone() *State {
	n := &State{in: st.in}
	n.cons = append([]Lin(nil), st.cons...)
	n.subst = make(map[Sym]Lin, len(st.subst))
	for k, v := range st.subst {
		n.subst[k] = v
	}
	n.facts = append([]fact(nil), st.facts...)
	n.heap = make(map[ObjID]*Obj, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v.clone()
	}
	n.decs = append([]Decode(nil), st.decs...)
	n.qf = append([]QFact(nil), st.qf...)
	n.bytes = append([]byteRead(nil), st.bytes...)
	n.acc = append([]Acc(nil), st.acc...)
	n.ev = append([]Event(nil), st.ev...)
	n.notes = append([]string(nil), st.notes...)
	n.steps = append([]string(nil), st.steps...)
	if len(st.dirty) > 0 {
		n.dirty = map[ObjID]string{}
		for k, v := range st.dirty {
			n.dirty[k] = v
		}
	}
	return n
}

func (st *State) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, n := range st.notes {
		if n == s {
			return
		}
	}
	st.notes = append(st.notes, s)
}

func (st *State) norm(l Lin) Lin {
	if len(st.subst) == 0 {
		return l
	}
	for _, t := range l.t {
		if e, ok := st.subst[t.s]; ok {
			l = l.subst(t.s, e)
		}
	}
	return l
}

func (st *State) normVal(v Val) Val {
	switch x := v.(type) {
	case Num:
		return Num{st.norm(x.l)}
	case Str:
		return Str{x.b, st.norm(x.lo), st.norm(x.hi)}
	case Ptr:
		if x.idx != nil {
			i := st.norm(*x.idx)
			x.idx = &i
		}
		return x
	case SliceV:
		x.lo, x.hi = st.norm(x.lo), st.norm(x.hi)
		return x
	case Iface:
		if x.v != nil {
			x.v = st.normVal(x.v)
		}
		return x
	case StructV:
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = st.normVal(x.f[i])
		}
		return StructV{f}
	case TupleV:
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = st.normVal(x.f[i])
		}
		return TupleV{f}
	case BoolV:
		switch x.kind {
		case 'l', 'e':
			x.l = st.norm(x.l)
		case 'a':
			a := &Atom{x.atom.name, make([]Val, len(x.atom.args))}
			for i := range a.args {
				a.args[i] = st.normVal(x.atom.args[i])
			}
			x.atom = a
		case '&':
			s := make([]BoolV, len(x.sub))
			for i := range s {
				s[i] = st.normVal(x.sub[i]).(BoolV)
			}
			x.sub = s
		}
		return x
	}
	return v
}

func (st *State) vkey(v Val) string {
	if v == nil {
		return "<none>"
	}
	return st.normVal(v).key()
}

func (st *State) atomKey(a *Atom) string {
	b := &Atom{a.name, make([]Val, len(a.args))}
	for i := range b.args {
		b.args[i] = st.normVal(a.args[i])
	}
	return b.key()
}

// cone returns the constraints connected with the symbols of the seeds, with axioms.
func (st *State) cone(seeds ...Lin) []Lin {
	res := []Lin{}
	seen := map[Sym]bool{}
	var work []Sym
	push := func(l Lin) {
		for _, t := range l.t {
			if !seen[t.s] {
				seen[t.s] = true
				work = append(work, t.s)
			}
		}
	}
	for _, s := range seeds {
		push(s)
		res = append(res, s)
	}
	used := make([]bool, len(st.cons))
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range axioms[s] {
			a = st.norm(a)
			res = append(res, a)
			push(a)
		}
		for i, c := range st.cons {
			if !used[i] && c.has(s) {
				used[i] = true
				res = append(res, c)
				push(c)
			}
		}
	}
	return res
}

func safely(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, o := r.(overflowErr); o {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// addLE adds l <= 0.
func (st *State) addLE(l Lin) {
	if st.dead {
		return
	}
	l = st.norm(l)
	if l.isConst() {
		if l.c > 0 {
			st.dead = true
		}
		return
	}
	l = tighten(l)
	for _, c := range st.cons {
		if c.sameTerms(l) && c.c >= l.c {
			return
		}
	}
	if !feasible(st.cone(l)) {
		st.dead = true
		return
	}
	st.addCon(l)
	st.after(l)
}

// addCon appends l <= 0 and drops a weaker constraint with the same terms.
func (st *State) addCon(l Lin) {
	for i, c := range st.cons {
		if c.sameTerms(l) {
			if c.c < l.c {
				n := append([]Lin(nil), st.cons[:i]...)
				st.cons = append(append(n, st.cons[i+1:]...), l)
			}
			return
		}
	}
	st.cons = append(st.cons, l)
}

// addEQ adds l == 0.
func (st *State) addEQ(l Lin) {
	if st.dead {
		return
	}
	l = st.norm(l)
	if l.isConst() {
		if l.c != 0 {
			st.dead = true
		}
		return
	}
	if !feasible(st.cone(l, l.neg())) {
		st.dead = true
		return
	}
	for i := len(l.t) - 1; i >= 0; i-- {
		t := l.t[i]
		if t.k == 1 || t.k == -1 {
			e := l
			e = e.subst(t.s, Lin{}) // rest
			if t.k == 1 {
				e = e.neg()
			}
			st.substitute(t.s, e)
			st.after(l)
			return
		}
	}
	st.cons = append(st.cons, l, l.neg())
	st.after(l)
}

func (st *State) substitute(s Sym, e Lin) {
	for k, v := range st.subst {
		if v.has(s) {
			st.subst[k] = v.subst(s, e)
		}
	}
	st.subst[s] = e
	old := st.cons
	st.cons = nil
	for _, c := range old {
		c = c.subst(s, e)
		if c.isConst() {
			continue
		}
		st.addCon(c)
	}
	for _, a := range axioms[s] {
		a = st.norm(a)
		if !a.isConst() {
			st.addCon(a)
		}
	}
}

// after applies the UTF-8 laws that link a rune and its width.
func (st *State) after(l Lin) {
	for _, d := range st.decs {
		r, w := st.norm(d.r), st.norm(d.w)
		if w.isConst() {
			continue
		}
		touch := false
		for _, t := range r.t {
			if l.has(t.s) {
				touch = true
			}
		}
		if !touch && !r.isConst() {
			continue
		}
		if st.le(r.addK(-127)) {
			st.addEQ(w.addK(-1))
			return
		}
		if r.isConst() {
			c := r.c
			if c >= 128 && c <= 0x7ff {
				st.addEQ(w.addK(-2))
			} else if c >= 0x800 && c <= 0xffff && c != 0xfffd {
				st.addEQ(w.addK(-3))
			} else if c >= 0x10000 {
				st.addEQ(w.addK(-4))
			} else if c == 0xfffd && st.le(konst(2).sub(w)) {
				st.addEQ(w.addK(-3))
			}
			if st.dead {
				return
			}
		}
	}
}

// le reports whether l <= 0 is entailed.
func (st *State) le(l Lin) bool {
	l = st.norm(l)
	if l.isConst() {
		return l.c <= 0
	}
	var q Lin
	if !safely(func() { q = l.neg().addK(1) }) {
		return false
	}
	return !feasible(st.cone(tighten(q)))
}

func (st *State) eqz(l Lin) bool {
	l = st.norm(l)
	if l.isConst() {
		return l.c == 0
	}
	return st.le(l) && st.le(l.neg())
}

func (st *State) same(a, b Lin) bool { return st.eqz(a.sub(b)) }

// possible reports whether l <= 0 can hold.
func (st *State) possible(ls ...Lin) bool {
	c := st.clone()
	for _, l := range ls {
		c.addLE(l)
		if c.dead {
			return false
		}
	}
	return true
}

func (st *State) lookup(a *Atom) (bool, bool) {
	k := st.atomKey(a)
	for _, f := range st.facts {
		if f.a.name == a.name && st.atomKey(f.a) == k {
			return f.v, true
		}
	}
	switch {
	case strings.HasPrefix(a.name, "typeis:"):
		for _, f := range st.facts { // one concrete type
			if f.v && strings.HasPrefix(f.a.name, "typeis:") && f.a.name != a.name && f.a.args[0].key() == a.args[0].key() {
				if v, ok := st.in.p.typeRel(f.a.name[7:], a.name[7:]); ok {
					return v, true
				}
			}
		}
	case a.name == "isnil":
		for _, f := range st.facts {
			if f.v && strings.HasPrefix(f.a.name, "typeis:") && f.a.args[0].key() == a.args[0].key() {
				return false, true
			}
		}
	case a.name == "has":
		return st.lookupHas(a.args[0].(Str), a.args[1].(Num).l)
	case a.name == "streq" || a.name == "fold":
		x, ok1 := a.args[0].(Str)
		y, ok2 := a.args[1].(Str)
		if ok1 && ok2 {
			if st.le(x.length()) && st.le(y.length()) {
				return true, true
			}
			if c, ok := (Str{x.b, st.norm(x.lo), st.norm(x.hi)}).constVal(); ok {
				if d, ok := (Str{y.b, st.norm(y.lo), st.norm(y.hi)}).constVal(); ok {
					if a.name == "fold" {
						return strings.EqualFold(c, d), true
					}
					return c == d, true
				}
			}
			if x.b == y.b && st.same(x.lo, y.lo) && st.same(x.hi, y.hi) {
				return true, true
			}
			// the same windows under the known equalities
			for _, f := range st.facts {
				if f.a.name != a.name {
					continue
				}
				u, ok1 := f.a.args[0].(Str)
				v, ok2 := f.a.args[1].(Str)
				if ok1 && ok2 && (st.sameStr(u, x) && st.sameStr(v, y) || st.sameStr(u, y) && st.sameStr(v, x)) {
					return f.v, true
				}
			}
		}
	case strings.HasPrefix(a.name, "match:"):
		for _, f := range st.facts {
			if f.a.name == a.name {
				if x, ok := f.a.args[0].(Num); ok && st.same(x.l, a.args[0].(Num).l) {
					return f.v, true
				}
			}
		}
	}
	return false, false
}

func (st *State) sameStr(a, b Str) bool {
	return a.b == b.b && st.same(a.lo, b.lo) && st.same(a.hi, b.hi)
}

// lookupHas decides whether the string s contains the rune r.
func (st *State) lookupHas(s Str, r Lin) (bool, bool) {
	r = st.norm(r)
	if k, ok := s.constVal(); ok {
		if r.isConst() {
			return strings.ContainsRune(k, rune(r.c)), true
		}
		all := true
		for _, c := range k {
			d := r.addK(-int64(c))
			if st.eqz(d) {
				return true, true
			}
			if !(st.le(d.addK(1)) || st.le(d.neg().addK(1))) {
				all = false
			}
		}
		if all {
			return false, true
		}
		return false, false
	}
	if st.le(s.length()) {
		return false, true
	}
	for _, f := range st.facts {
		if f.a.name == "has" && st.sameStr(f.a.args[0].(Str), s) && st.same(f.a.args[1].(Num).l, r) {
			return f.v, true
		}
	}
	for _, d := range st.decs {
		if d.b == s.b && st.le(s.lo.sub(d.lo)) && st.le(d.hi.sub(s.hi)) && st.same(d.r, r) {
			return true, true
		}
	}
	for _, q := range st.qf {
		if q.b != s.b || !(q.kind == "fwd" && st.same(q.from, s.lo) && st.le(s.hi.sub(q.to)) ||
			q.kind == "rev" && st.same(q.from, s.hi) && st.le(q.to.sub(s.lo))) {
			continue
		}
		if st.excluded(q, func(t *State, c conj) bool {
			if c.r < 0 {
				return false
			}
			t.addEQ(symLin(c.r).sub(r))
			return t.dead
		}) {
			return false, true
		}
	}
	return false, false
}

// excluded reports whether f refutes every kind of item of q. f gets a state in
// which the conjunction holds for a generic item.
func (st *State) excluded(q QFact, f func(*State, conj) bool) bool {
	for _, c := range q.dnf {
		if !st.refutes(c, f) {
			return false
		}
	}
	return true
}

func (st *State) refutes(c conj, f func(*State, conj) bool) bool {
	// a fresh copy of the item
	ren := map[Sym]Sym{c.o: freshSym("item offset")}
	for _, y := range c.gen {
		n := freshSym("item value")
		axioms[n] = nil
		for _, a := range axioms[y] {
			addAxiom(n, a.subst(y, symLin(n)))
		}
		ren[y] = n
	}
	var rl func(l Lin) Lin
	rl = func(l Lin) Lin {
		for a, b := range ren {
			l = l.subst(a, symLin(b))
		}
		return remapLin(l, rl)
	}
	t := st.clone()
	d := conj{r: -1, o: ren[c.o], w: rl(c.w), evs: c.evs, qf: c.qf}
	if c.r >= 0 {
		if y, ok := rl(symLin(c.r)).single(); ok {
			d.r = y
		}
	}
	for _, l := range c.lins {
		t.addLE(rl(l))
	}
	for _, l := range c.eqs {
		t.addEQ(rl(l))
	}
	if t.dead {
		return true
	}
	for _, g := range c.facts {
		a := &Atom{g.a.name, nil}
		for _, v := range g.a.args {
			v, _ = mapVal(v, rl, func(Lin) bool { return false })
			a.args = append(a.args, v)
		}
		if v, ok := t.lookup(a); ok && v != g.v {
			return true
		}
		t.facts = append(t.facts, fact{a, g.v})
		d.facts = append(d.facts, fact{a, g.v})
	}
	for _, q := range c.qf {
		q.from, q.to = rl(q.from), rl(q.to)
		nd := []conj{}
		for _, k := range q.dnf {
			k2 := k
			k2.lins, k2.eqs = nil, nil
			for _, l := range k.lins {
				k2.lins = append(k2.lins, rl(l))
			}
			for _, l := range k.eqs {
				k2.eqs = append(k2.eqs, rl(l))
			}
			nd = append(nd, k2)
		}
		q.dnf = nd
		t.qf = append(t.qf, q)
	}
	return f(t, d)
}

// decide returns 1 if b holds, 0 if not, -1 if unknown.
func (st *State) decide(b BoolV) int {
	r := -1
	switch b.kind {
	case 'c':
		r = 0
		if b.c {
			r = 1
		}
	case 'l':
		if st.le(b.l) {
			r = 1
		} else if st.le(b.l.neg().addK(1)) {
			r = 0
		}
	case 'e':
		l := st.norm(b.l)
		if l.isConst() {
			r = 0
			if l.c == 0 {
				r = 1
			}
		} else if st.le(l.addK(1)) || st.le(l.neg().addK(1)) {
			r = 0
		} else if st.eqz(l) {
			r = 1
		}
	case 'a':
		if v, ok := st.lookup(b.atom); ok {
			r = 0
			if v {
				r = 1
			}
		}
	case '&':
		r = 1
		for _, s := range b.sub {
			switch st.decide(s) {
			case 0:
				r = 0
			case -1:
				if r == 1 {
					r = -1
				}
			}
			if r == 0 {
				break
			}
		}
	}
	if r >= 0 && b.neg {
		r = 1 - r
	}
	return r
}

// assume returns the states in which b has the value v. st is consumed.
func (st *State) assume(b BoolV, v bool) []*State {
	if b.neg {
		v = !v
		b.neg = false
	}
	switch b.kind {
	case 'c':
		if b.c == v {
			return []*State{st}
		}
		return nil
	case 'l':
		if v {
			st.addLE(b.l)
		} else {
			st.addLE(b.l.neg().addK(1))
		}
		if st.dead {
			return nil
		}
		return []*State{st}
	case 'e':
		if v {
			st.addEQ(b.l)
			if st.dead {
				return nil
			}
			return []*State{st}
		}
		res := []*State{}
		l := st.norm(b.l)
		if l.isConst() {
			if l.c != 0 {
				return []*State{st}
			}
			return nil
		}
		o := st.clone()
		st.addLE(l.addK(1))
		if !st.dead {
			res = append(res, st)
		}
		o.addLE(l.neg().addK(1))
		if !o.dead {
			res = append(res, o)
		}
		return res
	case 'a':
		if w, ok := st.lookup(b.atom); ok {
			if w == v {
				return []*State{st}
			}
			return nil
		}
		st.facts = append(st.facts, fact{b.atom, v})
		return st.in.atomEffects(st, b.atom, v)
	case '&':
		if v {
			cur := []*State{st}
			for _, s := range b.sub {
				next := []*State{}
				for _, c := range cur {
					next = append(next, c.assume(s, true)...)
				}
				cur = next
			}
			return cur
		}
		res := []*State{}
		cur := []*State{st}
		for _, s := range b.sub {
			next := []*State{}
			for _, c := range cur {
				o := c.clone()
				res = append(res, o.assume(s, false)...)
				next = append(next, c.assume(s, true)...)
			}
			cur = next
		}
		return res
	}
	panic("assume")
}

// ------------------------------------------------------------------- symbolic

var (
	symStrs  = map[string]*StrBase{}
	symObjs  = map[string]ObjID{}
	nextObj  ObjID
	objTypes = map[ObjID]types.Type{}
	objNames = map[ObjID]string{}
)

func newObjID(name string, t types.Type) ObjID {
	nextObj++
	objTypes[nextObj] = t
	objNames[nextObj] = name
	return nextObj
}

func symObj(key string, t types.Type) ObjID {
	k := key + "|" + types.TypeString(t, nil)
	if id, ok := symObjs[k]; ok {
		return id
	}
	id := newObjID(key, t)
	symObjs[k] = id
	return id
}

func symStr(key string) Str {
	b, ok := symStrs[key]
	if !ok {
		l := nonNeg(internSym("len(" + key + ")"))
		b = newStrBase(key, symLin(l))
		b.key = key
		symStrs[key] = b
	}
	return b.whole()
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkg)
}

func isTok(t types.Type, name string) bool { return isNamed(t, "aiq/tok", name) }

// symVal creates the (interned) symbolic value of type t with the identity key.
func symVal(key string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return atomB("sym:" + key)
		case u.Info()&types.IsString != 0:
			return symStr(key)
		case u.Info()&types.IsInteger != 0:
			switch {
			case u.Kind() == types.Int32:
				key += ":rune"
			case u.Info()&types.IsUnsigned != 0:
				key += ":unsigned"
			}
			s := internSym(key)
			if u.Info()&types.IsUnsigned != 0 {
				nonNeg(s)
			}
			if u.Kind() == types.Int32 && len(axioms[s]) == 0 { // rune
				addAxiom(s, symLin(s).addK(-0x7fffffff))
				addAxiom(s, symLin(s).neg().addK(-0x80000000))
			}
			return Num{symLin(s)}
		}
	case *types.Interface:
		i := Iface{sym: key}
		if isTok(t, "Reader") || isTok(t, "Grammar") {
			i.nn = true
		}
		return i
	case *types.Pointer:
		return Ptr{obj: symObj(key, u.Elem())}
	case *types.Struct:
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			k := fmt.Sprintf("%s.%s", key, u.Field(i).Name())
			if nnField(t, fmt.Sprint(i)) {
				s.f = append(s.f, Num{symLin(nonNeg(internSym(k + ":nonneg")))})
				continue
			}
			s.f = append(s.f, symVal(k, u.Field(i).Type()))
		}
		tokenAxiom(t, func(i int) Val { return s.f[i] })
		return s
	case *types.Slice:
		a := symObj("arr("+key+")", types.NewSlice(u.Elem()))
		n := nonNeg(internSym("len(" + key + ")"))
		return SliceV{arr: a, lo: konst(0), hi: symLin(n)}
	case *types.Signature:
		return FuncV{sym: key, typ: t}
	}
	return Opaque{key}
}

// nnFields holds the unexported integer fields that are assumed to be never negative; each
// store into one of them is an obligation (see spec_safe.go).
var nnFields map[string]bool

func nnField(t types.Type, i string) bool {
	if len(nnFields) == 0 {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && nnFields[n.Obj().Name()+"."+i]
}

// tokenAxiom states the invariant of Token values (shown by C17): 0 <= from <= to.
func tokenAxiom(t types.Type, f func(i int) Val) {
	if !isTok(t, "Token") {
		return
	}
	a, ok1 := f(0).(Num)
	b, ok2 := f(1).(Num)
	if !ok1 || !ok2 {
		return
	}
	sa, ok1 := a.l.single()
	sb, ok2 := b.l.single()
	if ok1 && ok2 && len(axioms[sa]) == 0 && len(axioms[sb]) == 0 {
		addAxiom(sa, symLin(sa).neg())
		addAxiom(sa, symLin(sa).sub(symLin(sb)))
		addAxiom(sb, symLin(sa).sub(symLin(sb)))
		addAxiom(sb, symLin(sa).neg())
	}
}

var freshCount int

func freshKey(base string) string {
	freshCount++
	return fmt.Sprintf("%s'%d", base, freshCount)
}

func freshSym(base string) Sym { return newSym(freshKey(base)) }

func freshVal(base string, t types.Type) Val { return symVal(freshKey(base), t) }

// ----------------------------------------------------------------------- heap

func (st *State) obj(id ObjID) *Obj {
	o, ok := st.heap[id]
	if !ok {
		o = &Obj{id: id, typ: objTypes[id], name: objNames[id], cells: map[string]Val{}}
		st.heap[id] = o
	}
	return o
}

func (st *State) alloc(name string, t types.Type) ObjID {
	id := newObjID(freshKey(name), t)
	o := st.obj(id)
	o.fresh = true
	if st.in != nil && st.in.onAlloc != nil {
		st.in.onAlloc(id, t)
	}
	if st.in != nil && st.in.owned != nil {
		st.in.owned[id] = true
	}
	return id
}

// fieldType resolves the type at a path below t.
func fieldType(t types.Type, path string) types.Type {
	for path != "" {
		path = path[1:]
		n := strings.IndexByte(path, '.')
		f := path
		if n >= 0 {
			f, path = path[:n], path[n:]
		} else {
			path = ""
		}
		var i int
		fmt.Sscan(f, &i)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return t
		}
	}
	return t
}

func (st *State) initial(o *Obj, path string, t types.Type) Val {
	if o.fresh {
		return zeroVal(t)
	}
	if isTok(o.typ, "Scanner") {
		if v, ok := scannerInitial(o, path); ok {
			return v
		}
	}
	key := o.name + path
	if i := strings.LastIndexByte(path, '.'); i >= 0 && nnField(fieldType(o.typ, path[:i]), path[i+1:]) {
		if o.any {
			key = freshKey(key)
		} else if o.havoc > 0 {
			key = fmt.Sprintf("%s@%d", key, o.havoc)
		}
		return Num{symLin(nonNeg(internSym(key + ":nonneg")))}
	}
	if o.any {
		return freshVal(key, t)
	}
	if o.havoc > 0 {
		key = fmt.Sprintf("%s@%d", key, o.havoc)
	}
	return symVal(key, t)
}

// scannerInitial: the class invariant 0 <= pos <= len(full) of the symbolic input scanner (shown by C01).
func scannerInitial(o *Obj, path string) (Val, bool) {
	i, f, _ := scannerFields()
	if path == fmt.Sprintf(".%d", i) {
		s := internSym(o.name + ".pos")
		if len(axioms[s]) == 0 {
			L := symStr(o.name + ".text").b.len
			addAxiom(s, symLin(s).neg())
			addAxiom(s, symLin(s).sub(L))
			ls, _ := L.single()
			addAxiom(ls, symLin(s).sub(L))
		}
		return Num{symLin(s)}, true
	}
	if path == fmt.Sprintf(".%d", f) {
		return symStr(o.name + ".text"), true
	}
	return nil, false
}

func (st *State) load(p Ptr) Val {
	o := st.obj(p.obj)
	if p.idx != nil {
		return st.loadElem(o, *p.idx, p.sub)
	}
	return st.loadPath(o, p.path, fieldType(o.typ, p.path))
}

func (st *State) loadPath(o *Obj, path string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v, ok := o.cells[path]; ok {
			return v
		}
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, st.loadPath(o, fmt.Sprintf("%s.%d", path, i), u.Field(i).Type()))
		}
		if !o.fresh {
			tokenAxiom(t, func(i int) Val { return s.f[i] })
		}
		return s
	case *types.Array:
		if u.Len() <= 64 {
			s := StructV{}
			for i := int64(0); i < u.Len(); i++ {
				if path == "" {
					s.f = append(s.f, st.loadElem(o, konst(i), ""))
				} else {
					s.f = append(s.f, st.loadPath(o, fmt.Sprintf("%s.%d", path, i), u.Elem()))
				}
			}
			return s
		}
		return Opaque{fmt.Sprintf("array%d%s", o.id, path)}
	}
	if v, ok := o.cells[path]; ok {
		return v
	}
	v := st.initial(o, path, t)
	if !o.fresh {
		// make the token invariant known for single field loads as well
		if i := strings.LastIndexByte(path, '.'); i >= 0 {
			pt := fieldType(o.typ, path[:i])
			if isTok(pt, "Token") {
				tokenAxiom(pt, func(k int) Val {
					return st.initial(o, fmt.Sprintf("%s.%d", path[:i], k), pt.Underlying().(*types.Struct).Field(k).Type())
				})
			}
		}
	}
	return v
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func (st *State) loadElem(o *Obj, idx Lin, sub string) Val {
	idx = st.norm(idx)
	et := elemType(o.typ)
	for i := len(o.elems) - 1; i >= 0; i-- {
		c := o.elems[i]
		if st.same(c.idx, idx) {
			if c.sub == sub {
				return c.v
			}
			if strings.HasPrefix(sub, c.sub) {
				return st.project(c.v, sub[len(c.sub):])
			}
			if strings.HasPrefix(c.sub, sub) { // part overwritten: rebuild
				st.note("partial element store")
				return freshVal("elem", fieldType(et, sub))
			}
			continue
		}
		d := idx.sub(c.idx)
		if st.le(d.addK(1)) || st.le(d.neg().addK(1)) {
			continue // different element
		}
		return freshVal("elem", fieldType(et, sub))
	}
	if o.parent != nil {
		if st.le(idx.sub(o.plen).addK(1)) {
			if o.parent.arr < 0 {
				return freshVal("elem", fieldType(et, sub))
			}
			return st.loadElem(st.obj(o.parent.arr), idx.add(o.parent.lo), sub)
		}
		if !st.le(o.plen.sub(idx)) {
			return freshVal("elem", fieldType(et, sub))
		}
	}
	if o.fresh && o.parent == nil {
		return st.project(zeroVal(et), sub)
	}
	if s, ok := bytesOf[o.id]; ok && !o.any && o.havoc == 0 {
		v := st.byteAt(s, idx)
		if y, ok := v.(Num); ok && st.in.lines {
			st.bytes = append(st.bytes, byteRead{s.b, st.norm(s.lo.add(idx)), y.l})
		}
		return v
	}
	key := fmt.Sprintf("%s[%s]", o.name, idx)
	if o.any {
		return st.project(freshVal(key, et), sub)
	}
	if o.havoc > 0 {
		key = fmt.Sprintf("%s@%d", key, o.havoc)
	}
	return st.project(symVal(key, et), sub)
}

func (st *State) project(v Val, sub string) Val {
	for sub != "" {
		s := sub[1:]
		n := strings.IndexByte(s, '.')
		if n >= 0 {
			sub = s[n:]
			s = s[:n]
		} else {
			sub = ""
		}
		var i int
		fmt.Sscan(s, &i)
		x, ok := v.(StructV)
		if !ok || i >= len(x.f) {
			return Opaque{freshKey("proj")}
		}
		v = x.f[i]
	}
	return v
}

func (st *State) store(p Ptr, v Val) {
	o := st.obj(p.obj)
	if p.idx != nil {
		idx := st.norm(*p.idx)
		if p.sub != "" {
			// rebuild the whole element
			whole := st.loadElem(o, idx, "")
			v = inject(whole, p.sub, v)
		}
		out := o.elems[:0:0]
		for _, c := range o.elems {
			if !st.same(c.idx, idx) {
				out = append(out, c)
			}
		}
		o.elems = append(out, elemCell{idx, "", v})
		return
	}
	st.storePath(o, p.path, fieldType(o.typ, p.path), v)
}

func inject(whole Val, sub string, v Val) Val {
	if sub == "" {
		return v
	}
	s := sub[1:]
	rest := ""
	if n := strings.IndexByte(s, '.'); n >= 0 {
		rest = s[n:]
		s = s[:n]
	}
	var i int
	fmt.Sscan(s, &i)
	x, ok := whole.(StructV)
	if !ok || i >= len(x.f) {
		return whole
	}
	f := append([]Val(nil), x.f...)
	f[i] = inject(f[i], rest, v)
	return StructV{f}
}

func (st *State) storePath(o *Obj, path string, t types.Type, v Val) {
	if u, ok := t.Underlying().(*types.Array); ok && u.Len() <= 64 {
		s, ok := v.(StructV)
		for i := int64(0); i < u.Len(); i++ {
			fv := Val(nil)
			if ok {
				fv = s.f[i]
			} else {
				fv = freshVal("elem", u.Elem())
			}
			if path == "" {
				k := konst(i)
				st.store(Ptr{obj: o.id, idx: &k}, fv)
			} else {
				st.storePath(o, fmt.Sprintf("%s.%d", path, i), u.Elem(), fv)
			}
		}
		return
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		s, ok := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			var fv Val
			if ok {
				fv = s.f[i]
			} else {
				fv = freshVal("field", u.Field(i).Type())
			}
			st.storePath(o, fmt.Sprintf("%s.%d", path, i), u.Field(i).Type(), fv)
		}
		return
	}
	o.cells[path] = v
}
