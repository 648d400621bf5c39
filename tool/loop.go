package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loc is a loop carried location: a phi of the header, a heap cell or the elements of an array.
type loc struct {
	phi  *ssa.Phi
	obj  ObjID
	path string
	arr  bool
	any  bool
}

func (l loc) String() string {
	if l.phi != nil {
		return "phi:" + l.phi.Name()
	}
	if l.any {
		return fmt.Sprintf("any:%d", l.obj)
	}
	if l.arr {
		return fmt.Sprintf("elems:%d", l.obj)
	}
	return fmt.Sprintf("cell:%d%s", l.obj, l.path)
}

// part is one partition of the states at the loop header.
type part struct {
	key   string
	tmpl  []Val // per loc
	leaf  []leafInfo
	cands []Lin
	first *arrival
	h     *State
	hfr   *frame
	id    int
}

// leafInfo is a generalised number inside of a template.
type leafInfo struct {
	id  string // location and place inside of it
	sym Sym
}

type arrival struct {
	st   *State
	fr   *frame
	vals []Val
	from *part // nil for the entry
	iter []Event
}

type solver struct {
	startObj ObjID
	start    int // symbols from here on were made in the loop
	in       *Interp
	fr       *frame
	st       *State
	loop     *natLoop
	locs     []loc
	parts    map[string]*part
	order    []*part
	terms    []Lin
	uid      string
	noPart   bool
	kappa    map[string]Sym
	strides  []int64
	linePos  []linePos
	keep     map[ObjID][]elemCell // elements that no iteration changes
}

var loopCount int
var debugLoops = os.Getenv("TOKDEBUG") != ""

func (in *Interp) loopPos(l *natLoop) token.Pos {
	for _, i := range l.header.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
	}
	return l.header.Parent().Pos()
}

func (in *Interp) loopInfo(fn *ssa.Function, pos token.Pos) *LoopInfo {
	k := fmt.Sprintf("%s@%d", fn, pos)
	li := in.loops[k]
	if li == nil {
		li = &LoopInfo{fn: fn, pos: pos}
		in.loops[k] = li
	}
	return li
}

func (in *Interp) badLoop(fn *ssa.Function, pos token.Pos, why string) {
	li := in.loopInfo(fn, pos)
	li.bad++
	li.why = why
}

// solveLoop evaluates a loop whose header phis are bound in fr. st is consumed.
func (in *Interp) solveLoop(fr *frame, loop *natLoop, st *State) *regionRes {
	li := in.loopInfo(fr.fn, in.loopPos(loop))
	// constant trip counts are evaluated exactly
	total := &regionRes{}
	type cs struct {
		fr *frame
		st *State
	}
	cur := []cs{{fr.clone(), st.clone()}}
	ok := false
	for k := 0; k < in.unroll(); k++ {
		next := []cs{}
		und := false
		for _, c := range cur {
			r := in.region(c.fr, loop.header, nil, loop, c.st)
			total.outs = append(total.outs, r.outs...)
			total.exits = append(total.exits, r.exits...)
			und = und || r.hdrUndecided
			for _, e := range r.exits {
				if e.from == loop.header && len(r.backs) > 0 { // the header decides on a result of its own
					und = true
				}
			}
			for _, b := range r.backs {
				in.bindPhis(b.fr, b.to, b.from)
				next = append(next, cs{b.fr, b.st})
			}
		}
		if len(next) == 0 {
			ok = true
			break
		}
		if und || !headerExits(loop) {
			break
		}
		if len(next) > 64 {
			break
		}
		cur = next
	}
	if ok {
		li.unrolled++
		return total
	}
	loopCount++
	s := &solver{in: in, fr: fr, st: st, loop: loop, uid: fmt.Sprintf("%s%d", fr.fn.Name(), loopCount), kappa: map[string]Sym{}, start: len(symNames), startObj: nextObj}
	return s.solve(li)
}

func headerExits(l *natLoop) bool {
	for _, s := range l.header.Succs {
		if !l.blocks[s] {
			return true
		}
	}
	return false
}

func (s *solver) solve(li *LoopInfo) *regionRes {
	in := s.in
	for _, i := range s.loop.header.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			s.locs = append(s.locs, loc{phi: p})
		}
	}
	s.collectTerms()
	maxPart := 10
	if precise {
		maxPart = 20
	}
restart:
	s.parts = map[string]*part{}
	s.order = nil
	for iter := 0; iter < 60; iter++ {
		changed := s.arrive(&arrival{st: s.st.clone(), fr: s.fr.clone()})
		var backs []*arrival
		res := &regionRes{}
		for _, p := range append([]*part(nil), s.order...) {
			s.build(p)
			nev := len(p.h.ev)
			r := in.region(p.hfr.clone(), s.loop.header, nil, s.loop, p.h.clone())
			res.outs = append(res.outs, r.outs...)
			res.exits = append(res.exits, r.exits...)
			for _, b := range r.backs {
				if in.onBack != nil {
					in.onBack(b.st, in.site(s.fr.fn, in.loopPos(s.loop)))
				}
				in.bindPhis(b.fr, b.to, b.from)
				a := &arrival{st: b.st, fr: b.fr, from: p, iter: b.st.ev[nev:]}
				for _, a := range s.splitBools([]*arrival{a}) {
					if es := s.peek(a); es != nil {
						res.exits = append(res.exits, es...)
						continue
					}
					backs = append(backs, a)
				}
			}
		}
		// new heap locations
		add := false
		for _, a := range backs {
			if s.newLocs(a) || in.lines && s.newLinePos(a) {
				add = true
			}
		}
		if add {
			goto restart
		}
		for _, a := range backs {
			if s.arrive(a) {
				changed = true
			}
		}
		if len(s.order) > maxPart && !s.noPart {
			s.noPart = true
			goto restart
		}
		if !changed {
			return s.finish(li, backs, res)
		}
	}
	li.bad++
	li.why = "no fixpoint"
	in.out = append(in.out, "no loop invariant found at "+in.site(s.fr.fn, in.loopPos(s.loop)))
	s.st.note("loop without fixpoint")
	in.havocAll(s.st)
	return &regionRes{}
}

// collectTerms gathers the expressions an invariant may compare with.
func (s *solver) collectTerms() {
	seen := map[string]bool{}
	add := func(l Lin) {
		l = s.st.norm(l)
		if len(l.t) > 2 {
			return
		}
		k := l.String()
		if !seen[k] {
			seen[k] = true
			s.terms = append(s.terms, l)
		}
	}
	add(konst(0))
	var visit func(v Val, d int)
	visit = func(v Val, d int) {
		if d > 4 {
			return
		}
		switch x := v.(type) {
		case Num:
			add(x.l)
		case Str:
			add(x.length())
			add(x.hi)
			add(x.lo)
			add(x.b.len)
		case SliceV:
			add(x.hi.sub(x.lo))
		case StructV:
			for _, f := range x.f {
				visit(f, d+1)
			}
		case IterV:
			visit(x.str, d+1)
		case Ptr:
			if o, ok := s.st.heap[x.obj]; ok && d < 3 {
				for _, k := range sortedKeys(o.cells) {
					visit(o.cells[k], d+1)
				}
				if isTok(objTypes[x.obj], "Scanner") {
					visit(s.st.load(s.in.posPtr(x.obj)), d+1)
					visit(s.st.load(s.in.textPtr(x.obj)), d+1)
				}
			}
		}
	}
	// values used in the loop but defined outside of it, in a stable order
	for _, b := range s.fr.fn.Blocks {
		if !s.loop.blocks[b] {
			continue
		}
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if *op == nil {
					continue
				}
				if _, ok := (*op).(*ssa.Const); ok {
					visit(s.in.val(s.fr, *op), 0)
				} else if v, ok := s.fr.env[*op]; ok {
					visit(v, 0)
				}
			}
		}
	}
	for b := range s.loop.blocks {
		for _, i := range b.Instrs {
			if bo, ok := i.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
					if n, ok := constVal(k).(Num); ok && n.l.isConst() && n.l.c > 1 && n.l.c <= 64 {
						if bo.Op == token.SUB {
							s.strides = append(s.strides, -n.l.c)
						} else {
							s.strides = append(s.strides, n.l.c)
						}
					}
				}
			}
		}
	}
	for b := range s.loop.blocks {
		for _, i := range b.Instrs {
			if sl, ok := i.(*ssa.Slice); ok {
				if c, ok := sl.Low.(*ssa.Const); ok && c.Value != nil {
					if n, ok := constVal(c).(Num); ok && n.l.isConst() && n.l.c > 1 && n.l.c <= 64 {
						s.strides = append(s.strides, n.l.c)
					}
				}
			}
		}
	}
	sort.Slice(s.strides, func(i, j int) bool { return s.strides[i] < s.strides[j] })
	if len(s.terms) > 14 {
		s.terms = s.terms[:14]
	}
}

// value reads a location in an arrival.
func (s *solver) value(l loc, fr *frame, st *State) Val {
	switch {
	case l.phi != nil:
		return s.in.val(fr, l.phi)
	case l.any:
		return Opaque{"any"}
	case l.arr:
		return Opaque{"elems"}
	}
	o := st.obj(l.obj)
	if strings.HasPrefix(l.path, "builder") {
		if v, ok := o.cells[l.path]; ok {
			return v
		}
		return constStr("")
	}
	return st.load(Ptr{obj: l.obj, path: l.path})
}

func (s *solver) setValue(l loc, fr *frame, st *State, v Val) {
	switch {
	case l.phi != nil:
		fr.env[l.phi] = v
	case l.any:
		o := st.obj(l.obj)
		o.any, o.fresh, o.parent = true, false, nil
		o.cells, o.elems = map[string]Val{}, nil
	case l.arr:
		o := st.obj(l.obj)
		havocCount++
		o.havoc = havocCount
		o.elems = append([]elemCell(nil), s.keep[l.obj]...)
		o.fresh = false
		o.parent = nil
	default:
		st.obj(l.obj).cells[l.path] = v
	}
}

// newLocs finds heap cells the body changed that are no locations yet.
func (s *solver) newLocs(a *arrival) bool {
	have := map[string]bool{}
	for _, l := range s.locs {
		have[l.String()] = true
	}
	add := s.checkKept(a)
	ids := []int{}
	for id := range a.st.heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	h := a.from.h
	for _, i := range ids {
		id := ObjID(i)
		if id > s.startObj && !a.st.heap[id].fresh && a.st.heap[id].any {
			delete(a.st.heap, id) // met after a havoc in the body
			continue
		}
		if s.itemObj(id) { // an object of one item, the writes are events
			delete(a.st.heap, id)
			continue
		}
		o := a.st.heap[id]
		ho, ok := h.heap[id]
		if !ok {
			if o.fresh {
				continue // allocated in the body
			}
			if _, base := s.st.heap[id]; !base && len(o.cells) == 0 && len(o.elems) == 0 && o.havoc == 0 {
				continue
			}
			ho = h.obj(id)
		}
		if have[loc{obj: id, any: true}.String()] {
			continue
		}
		if o.any && !ho.any {
			l := loc{obj: id, any: true}
			have[l.String()] = true
			s.locs = append(s.locs, l)
			add = true
			continue
		}
		if o.havoc != ho.havoc || o.fresh != ho.fresh || (o.parent == nil) != (ho.parent == nil) {
			if isTok(objTypes[id], "Basket") || isTok(objTypes[id], "Log") {
				// contents changed by opaque code
				for f := range structFields(objTypes[id]) {
					l := loc{obj: id, path: fmt.Sprintf(".%d", f)}
					if !have[l.String()] {
						have[l.String()] = true
						s.locs = append(s.locs, l)
						add = true
					}
				}
			} else if l := (loc{obj: id, arr: true}); !have[l.String()] {
				have[l.String()] = true
				s.locs = append(s.locs, l)
				add = true
			}
		}
		if len(o.elems) != len(ho.elems) || !sameElems(a.st, o, ho) {
			if l := (loc{obj: id, arr: true}); !have[l.String()] {
				have[l.String()] = true
				s.locs = append(s.locs, l)
				if b, ok := s.st.heap[id]; ok && len(b.elems) <= 8 && o.havoc == ho.havoc && !o.any {
					if s.keep == nil {
						s.keep = map[ObjID][]elemCell{}
					}
					s.keep[id] = append([]elemCell(nil), b.elems...)
				}
				add = true
			}
		}
		for _, k := range sortedKeys(o.cells) {
			l := loc{obj: id, path: k}
			if have[l.String()] {
				continue
			}
			var hv Val
			if strings.HasPrefix(k, "builder") {
				hv = s.value(l, nil, h)
			} else {
				hv = h.load(Ptr{obj: id, path: k})
			}
			if !s.sameVal(a.st, hv, o.cells[k]) {
				have[l.String()] = true
				s.locs = append(s.locs, l)
				add = true
			}
		}
	}
	return add
}

// checkKept drops the kept elements that the body may change. It reports a change.
func (s *solver) checkKept(a *arrival) bool {
	drop := false
	for id, cs := range s.keep {
		o := a.st.heap[id]
		if o == nil || len(cs) == 0 {
			continue
		}
		left := []elemCell{}
		for _, c := range cs {
			if v := a.st.loadElem(o, c.idx, c.sub); v != nil && a.st.vkey(v) == a.st.vkey(c.v) {
				left = append(left, c)
			} else {
				drop = true
			}
		}
		s.keep[id] = left
	}
	return drop
}

// itemObj: the identity of the object depends on the iteration.
func (s *solver) itemObj(id ObjID) bool {
	n := objNames[id]
	if strings.IndexByte(n, '<') < 0 {
		return false
	}
	dep := false
	mapName(n, func(l Lin) Lin {
		for _, t := range l.t {
			dep = dep || int(t.s) >= s.start
		}
		return l
	})
	return dep
}

func sameElems(st *State, a, b *Obj) bool {
	for i := range a.elems {
		if st.vkey(Num{a.elems[i].idx}) != st.vkey(Num{b.elems[i].idx}) || st.vkey(a.elems[i].v) != st.vkey(b.elems[i].v) {
			return false
		}
	}
	return true
}

func (s *solver) sameVal(st *State, a, b Val) bool {
	if st.vkey(a) == st.vkey(b) {
		return true
	}
	x, ok1 := a.(Num)
	y, ok2 := b.(Num)
	if ok1 && ok2 {
		return st.same(x.l, y.l)
	}
	u, ok1 := a.(Str)
	v, ok2 := b.(Str)
	if ok1 && ok2 {
		return u.b == v.b && st.same(u.lo, v.lo) && st.same(u.hi, v.hi)
	}
	return false
}

// discrete returns the partition key of a value.
func (s *solver) discrete(st *State, v Val) string {
	if s.noPart {
		return ""
	}
	switch x := v.(type) {
	case BoolV:
		if x.kind == 'c' {
			return x.key()
		}
		return "b"
	case Iface:
		if x.isNil {
			return "nil"
		}
		if x.nn || x.dyn != nil {
			return "nn"
		}
		switch st.decide(ifaceNil(x)) {
		case 1:
			return "nil"
		case 0:
			return "nn"
		}
		return "?"
	case NilV:
		return "nil"
	case Ptr:
		if x.idx != nil {
			return "p"
		}
		if o, ok := s.st.heap[x.obj]; ok && !o.fresh || ok && o.fresh {
			return x.key()
		}
		return "p"
	case SliceV:
		if x.nilS {
			return "ns"
		}
		return "s"
	case FuncV:
		return x.key()
	case StructV:
		k := "{"
		for _, f := range x.f {
			k += s.discrete(st, f) + ","
		}
		return k + "}"
	}
	return ""
}

// splitBools decides the conditions of bool locations.
func (s *solver) splitBools(as []*arrival) []*arrival {
	if s.noPart {
		return as
	}
	for _, l := range s.locs {
		if l.arr {
			continue
		}
		next := []*arrival{}
		for _, a := range as {
			b, ok := s.value(l, a.fr, a.st).(BoolV)
			if !ok || b.kind == 'c' {
				next = append(next, a)
				continue
			}
			for _, v := range []bool{true, false} {
				c := a.st.clone()
				for _, t := range c.assume(b, v) {
					f := a.fr.clone()
					s.setValue(l, f, t, kBool(v))
					next = append(next, &arrival{st: t, fr: f, from: a.from, iter: a.iter})
				}
			}
		}
		as = next
	}
	return as
}

// peek: a back edge from which every path leaves the loop without any effect is
// a set of exits of its exact state. It returns nil if the loop may go on.
func (s *solver) peek(a *arrival) []edge {
	type at struct {
		b, prev *ssa.BasicBlock
		fr      *frame
		st      *State
	}
	res := []edge{}
	flag := false
	work := []at{{s.loop.header, nil, a.fr.clone(), a.st.clone()}}
	for n := 0; len(work) > 0; n++ {
		if n > 12 {
			return nil
		}
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.prev != nil {
			if !s.loop.blocks[w.b] {
				res = append(res, edge{w.prev, w.b, w.fr, w.st})
				continue
			}
			if w.b == s.loop.header || s.in.loopsOf(s.fr.fn)[w.b] != nil {
				return nil
			}
			s.in.bindPhis(w.fr, w.b, w.prev)
		}
		for _, i := range w.b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				b, ok := s.in.val(w.fr, x.Cond).(BoolV)
				if !ok {
					return nil
				}
				flag = flag || b.kind != 'l' && b.kind != 'e'
				d := w.st.decide(b)
				for k, v := range []bool{true, false} {
					if d >= 0 && (d == 1) != v {
						continue
					}
					ss := []*State{w.st}
					if d < 0 {
						ss = w.st.clone().assume(b, v)
					}
					for _, t := range ss {
						work = append(work, at{w.b.Succs[k], w.b, w.fr.clone(), t})
					}
				}
			case *ssa.Jump:
				work = append(work, at{w.b.Succs[0], w.b, w.fr, w.st})
			default:
				if !pureInstr(i) {
					return nil
				}
				if outs := s.in.instr(w.fr, w.st, i); len(outs) > 1 {
					return nil
				} else if len(outs) == 1 {
					o := outs[0]
					if o.panic != "" || o.st != w.st || o.fr != nil && o.fr != w.fr {
						return nil
					}
					if v, ok := i.(ssa.Value); ok && o.v != nil {
						w.fr.env[v] = o.v
					}
				}
			}
		}
		switch w.b.Instrs[len(w.b.Instrs)-1].(type) {
		case *ssa.If, *ssa.Jump:
		default:
			return nil
		}
	}
	if !flag { // the bounds of the loop are left to the invariant
		return nil
	}
	return res
}

// pureInstr: the instruction has no effect and cannot fail.
func pureInstr(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.BinOp:
		return x.Op != token.QUO && x.Op != token.REM
	case *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.ChangeType:
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	return false
}

// arrive merges a state into its partition. It reports a change.
func (s *solver) arrive(a *arrival) bool {
	key := ""
	a.vals = nil
	for _, l := range s.locs {
		v := s.value(l, a.fr, a.st)
		a.vals = append(a.vals, v)
		key += s.discrete(a.st, v) + "|"
	}
	if precise && a.from == nil {
		key += "first"
	}
	p := s.parts[key]
	if p == nil {
		p = &part{key: key, first: a, id: len(s.order)}
		p.tmpl = make([]Val, len(s.locs))
		s.parts[key] = p
		s.order = append(s.order, p)
		for i := range s.locs {
			// start with the entry value if it is the same, otherwise general
			ev := s.value(s.locs[i], s.fr, s.st)
			if a.from == nil || s.sameVal(a.st, ev, a.vals[i]) {
				p.tmpl[i] = s.st.normVal(ev)
			} else {
				p.tmpl[i] = s.general(p, i, s.locs[i].String(), nil, a.vals[i], a.st)
			}
		}
		s.candidates(p, a)
		return true
	}
	bind := map[Sym]Lin{}
	changed := false
	for i := range s.locs {
		if !s.match(p, p.tmpl[i], a.vals[i], a.st, bind) {
			p.tmpl[i] = s.general(p, i, s.locs[i].String(), p.tmpl[i], a.vals[i], a.st)
			changed = true
		}
	}
	if changed {
		s.candidates(p, p.first)
		bind = map[Sym]Lin{}
		for i := range s.locs {
			s.match(p, p.tmpl[i], a.vals[i], a.st, bind)
		}
	}
	keep := p.cands[:0:0]
	s.bindKappa(p, a, bind)
	if s.in.lines {
		s.lineBind(p, a, bind)
	}
	for _, c := range p.cands {
		l := substAll(c, bind)
		if a.st.le(l) && (!lineCand(c) || a.st.le(l.neg())) {
			keep = append(keep, c)
		} else {
			if debugLoops && s.in.lines && lineCand(c) {
				fmt.Fprintf(os.Stderr, "    drop %s for %s\n", c.pretty(), a.st.norm(l).pretty())
			}
			changed = true
		}
	}
	p.cands = keep
	return changed
}

// substAll replaces the bound symbols of c simultaneously.
func substAll(c Lin, bind map[Sym]Lin) Lin {
	l := c
	for _, t := range c.t {
		if _, ok := bind[t.s]; ok {
			l = l.addMul(symLin(t.s), -t.k)
		}
	}
	for _, t := range c.t {
		if e, ok := bind[t.s]; ok {
			l = l.addMul(e, t.k)
		}
	}
	return l
}

// kappa counts the iterations, it is a ghost leaf of every partition.
func (s *solver) kappaOf(p *part) Sym {
	k, ok := s.kappa[p.key]
	if !ok {
		k = nonNeg(newSym("iterations"))
		s.kappa[p.key] = k
	}
	return k
}

func (s *solver) bindKappa(p *part, a *arrival, bind map[Sym]Lin) {
	if a.from == nil {
		bind[s.kappaOf(p)] = konst(0)
	} else {
		bind[s.kappaOf(p)] = symLin(s.kappaOf(a.from)).addK(1)
	}
}

func (s *solver) leafSym(p *part, id string) Sym {
	for _, l := range p.leaf {
		if l.id == id {
			return l.sym
		}
	}
	y := newSym("loop " + s.uid + " " + id)
	p.leaf = append(p.leaf, leafInfo{id, y})
	return y
}

func (p *part) isLeaf(y Sym) bool {
	for _, l := range p.leaf {
		if l.sym == y {
			return true
		}
	}
	return false
}

func (s *solver) match(p *part, t, v Val, st *State, bind map[Sym]Lin) bool {
	lin := func(a, b Lin) bool {
		if y, ok := a.single(); ok && p.isLeaf(y) {
			if old, ok := bind[y]; ok {
				return st.same(old, b)
			}
			bind[y] = st.norm(b)
			return true
		}
		return st.same(a, b)
	}
	switch x := t.(type) {
	case Num:
		y, ok := v.(Num)
		return ok && lin(x.l, y.l)
	case Str:
		y, ok := v.(Str)
		if !ok {
			return false
		}
		if x.b.loopAny == s.uid {
			ly, _ := x.b.len.single()
			bind[ly] = st.norm(y.length())
			return true
		}
		return x.b == y.b && lin(x.lo, y.lo) && lin(x.hi, y.hi)
	case SliceV:
		y, ok := v.(SliceV)
		if !ok {
			return false
		}
		if x.arr > 0 && objNames[x.arr] == "any slice "+s.uid {
			if in := st.in; in.owned[x.arr] && !in.ownsAll(st, y) {
				return false
			}
			hy, _ := x.hi.single()
			bind[hy] = st.norm(y.hi.sub(y.lo))
			return true
		}
		return x.arr == y.arr && x.nilS == y.nilS && lin(x.lo, y.lo) && lin(x.hi, y.hi)
	case Iface:
		y, ok := v.(Iface)
		if !ok {
			return false
		}
		if x.isNil || y.isNil {
			return x.isNil && y.isNil || strings.HasPrefix(x.sym, "any:"+s.uid) && !x.nn
		}
		if strings.HasPrefix(x.sym, "any:"+s.uid) {
			return true
		}
		if x.dyn != nil && y.dyn != nil && types.Identical(x.dyn, y.dyn) {
			return s.match(p, x.v, y.v, st, bind)
		}
		return st.vkey(x) == st.vkey(y)
	case StructV:
		y, ok := v.(StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !s.match(p, x.f[i], y.f[i], st, bind) {
				return false
			}
		}
		return true
	case BoolV:
		if x.kind == 'a' && strings.HasPrefix(x.atom.name, "any:"+s.uid) {
			return true
		}
	case Opaque:
		if strings.HasPrefix(x.id, "any:"+s.uid) || x.id == "elems" {
			return true
		}
	case Ptr:
		if objNames[x.obj] == "any ptr "+s.uid {
			return true
		}
	}
	return st.vkey(t) == st.vkey(v)
}

// general widens template t so that it also describes v.
func (s *solver) general(p *part, i int, id string, t, v Val, st *State) Val {
	lin := func(sub string, a *Lin, b Lin) Lin {
		if a != nil {
			if y, ok := a.single(); ok && p.isLeaf(y) {
				return *a
			}
			if st.same(*a, b) {
				return *a
			}
		}
		return symLin(s.leafSym(p, id+sub))
	}
	switch y := v.(type) {
	case Num:
		if x, ok := t.(Num); ok {
			return Num{lin("", &x.l, y.l)}
		}
		return Num{lin("", nil, y.l)}
	case Str:
		if x, ok := t.(Str); ok && x.b == y.b {
			return Str{x.b, lin(".lo", &x.lo, y.lo), lin(".hi", &x.hi, y.hi)}
		}
		if t == nil {
			// a window of a string that is known before the loop
			if ev, ok := s.value(s.locs[i], s.fr, s.st).(Str); ok && ev.b == y.b {
				return Str{y.b, lin(".lo", &ev.lo, y.lo), lin(".hi", &ev.hi, y.hi)}
			}
		}
		ly := s.leafSym(p, id+".len")
		nonNeg(ly)
		b := newStrBase("any:"+s.uid+id, symLin(ly))
		b.loopAny = s.uid
		return b.whole()
	case SliceV:
		if x, ok := t.(SliceV); ok && x.arr == y.arr && x.nilS == y.nilS {
			return SliceV{arr: x.arr, lo: lin(".lo", &x.lo, y.lo), hi: lin(".hi", &x.hi, y.hi)}
		}
		if t == nil {
			// a window of an array that is known before the loop
			if ev, ok := s.value(s.locs[i], s.fr, s.st).(SliceV); ok && ev.arr == y.arr && y.arr > 0 && !ev.nilS && !y.nilS && s.objKnown(y.arr) {
				return SliceV{arr: y.arr, lo: lin(".lo", &ev.lo, y.lo), hi: lin(".hi", &ev.hi, y.hi)}
			}
		}
		ly := s.leafSym(p, id+".len")
		nonNeg(ly)
		var et types.Type
		if y.arr > 0 {
			et = elemType(objTypes[y.arr])
		} else if x, ok := t.(SliceV); ok && x.arr > 0 {
			et = elemType(objTypes[x.arr])
		}
		if et == nil {
			et = types.Typ[types.Int]
		}
		arr := newObjID("any slice "+s.uid, types.NewSlice(et))
		if in := st.in; in.owned != nil {
			x, ok := t.(SliceV)
			own := in.ownsAll(st, y) && (!ok || in.ownsAll(st, x))
			if own {
				in.owned[arr] = true
			} else {
				delete(in.owned, arr)
			}
		}
		return SliceV{arr: arr, lo: konst(0), hi: symLin(ly)}
	case Iface:
		if x, ok := t.(Iface); ok && !x.isNil && !y.isNil && x.dyn != nil && y.dyn != nil && types.Identical(x.dyn, y.dyn) {
			x.v = s.general(p, i, id+".v", x.v, y.v, st)
			return x
		}
		x, ok := t.(Iface)
		nn := !y.isNil && (y.nn || y.dyn != nil) && (t == nil || ok && !x.isNil && (x.nn || x.dyn != nil))
		return Iface{sym: "any:" + s.uid + id + freshKey(""), nn: nn}
	case StructV:
		x, ok := t.(StructV)
		r := StructV{}
		for k := range y.f {
			var xt Val
			if ok && k < len(x.f) {
				xt = x.f[k]
			}
			r.f = append(r.f, s.general(p, i, fmt.Sprintf("%s.%d", id, k), xt, y.f[k], st))
		}
		return r
	case BoolV:
		if t != nil && st.vkey(t) == st.vkey(v) {
			return t
		}
		if y.kind == 'c' && t == nil {
			return y
		}
		return atomB("any:" + s.uid + freshKey(id))
	case FuncV:
		return FuncV{sym: "any:" + s.uid + id, typ: y.typ}
	case Ptr:
		if t == nil && s.discrete(st, y) != "p" {
			return y
		}
		var et types.Type
		if y.idx != nil {
			et = fieldType(elemType(objTypes[y.obj]), y.sub)
		} else {
			et = fieldType(objTypes[y.obj], y.path)
		}
		return Ptr{obj: newObjID("any ptr "+s.uid, et)}
	case NilV:
		return y
	case IterV:
		return y
	}
	if o, ok := v.(Opaque); ok && o.id == "elems" {
		return v
	}
	if t != nil && st.vkey(t) == st.vkey(v) {
		return t
	}
	return Opaque{"any:" + s.uid + freshKey(id)}
}

// objKnown: the object exists before the loop.
func (s *solver) objKnown(id ObjID) bool {
	_, ok := s.st.heap[id]
	return ok || id <= s.startObj
}

// candidates creates the invariant candidates of p that hold in the first arrival.
func (s *solver) candidates(p *part, a *arrival) {
	bind := map[Sym]Lin{}
	for i := range s.locs {
		s.match(p, p.tmpl[i], a.vals[i], a.st, bind)
	}
	s.bindKappa(p, a, bind)
	syms := []Sym{}
	for _, l := range p.leaf {
		if _, ok := bind[l.sym]; ok {
			syms = append(syms, l.sym)
		}
	}
	syms = append(syms, s.kappaOf(p))
	p.cands = nil
	seen := map[string]bool{}
	try := func(c Lin) {
		k := c.String()
		if seen[k] {
			return
		}
		seen[k] = true
		l := substAll(c, bind)
		if a.st.le(l) && (!lineCand(c) || a.st.le(l.neg())) {
			p.cands = append(p.cands, c)
		}
	}
	both := func(l Lin) {
		try(l)
		try(l.neg())
	}
	own := func(l Lin) bool { // only symbols known before the loop
		for _, t := range l.t {
			if !s.known(t.s) {
				return false
			}
		}
		return true
	}
	if s.in.lines {
		s.lineCands(p, a, bind, own, both)
	}
	for i, x := range syms {
		X := symLin(x)
		if l := a.st.norm(bind[x]); l.c > 1<<50 || l.c < -1<<50 {
			continue
		}
		for _, t := range s.terms {
			if t.c > 1<<50 || t.c < -1<<50 {
				continue
			}
			d := X.sub(t)
			try(d)
			try(d.neg())
			try(d.addK(1))
			try(d.neg().addK(1))
		}
		bx := a.st.norm(bind[x])
		if own(bx) {
			both(X.sub(bx))
		}
		for _, k := range s.strides {
			kap := symLin(s.kappaOf(p)).mul(k)
			if x == s.kappaOf(p) {
				break
			}
			if d := a.st.norm(bx.sub(bind[s.kappaOf(p)].mul(k))); own(d) {
				both(X.sub(kap).sub(d))
			} else {
				both(X.sub(kap))
			}
		}
		for _, y := range syms[i+1:] {
			Y := symLin(y)
			by := a.st.norm(bind[y])
			if by.c > 1<<50 || by.c < -1<<50 {
				continue
			}
			both(X.sub(Y))
			try(X.sub(Y).addK(1))
			try(Y.sub(X).addK(1))
			if d := bx.sub(by); own(d) {
				both(X.sub(Y).sub(d))
			}
			if d := bx.add(by); own(d) {
				both(X.add(Y).sub(d))
			}
			for _, t := range s.terms {
				if t.c > 1<<50 || t.c < -1<<50 {
					continue
				}
				try(X.add(Y).sub(t))
				if !t.isConst() {
					try(X.sub(Y).sub(t))
					try(Y.sub(X).sub(t))
				}
			}
		}
	}
}

func (s *solver) known(y Sym) bool {
	if l, ok := lineSyms[y]; ok {
		for _, t := range l.x.t {
			if !s.known(t.s) {
				return false
			}
		}
	}
	if m, ok := mulSyms[y]; ok && !(s.known(m[0]) && s.known(m[1])) {
		return false
	}
	for _, p := range s.order {
		if p.isLeaf(y) || s.kappaOf(p) == y {
			return false
		}
	}
	return true
}

// build makes the header state of p.
func (s *solver) build(p *part) {
	st := s.st.clone()
	fr := s.fr.clone()
	for i, l := range s.locs {
		s.setValue(l, fr, st, p.tmpl[i])
		if l.path != "" && isTok(objTypes[l.obj], "Basket") {
			continue
		}
	}
	kap := s.kappaOf(p)
	for _, c := range p.cands {
		if k := c.coef(kap); k < -1 || k > 1 { // a stride: keep the divisibility
			neg := c.neg().String()
			for _, d := range p.cands {
				if k < 0 && d.String() == neg {
					st.addEQ(c)
				}
			}
		}
	}
	for _, c := range p.cands {
		if s.in.lines && lineCand(c) { // both halves of an equation are there
			if !st.same(c, konst(0)) {
				st.addEQ(c)
			}
			continue
		}
		if !st.le(c) { // skip what is already known
			st.addLE(c)
		}
	}
	st.ev = append(st.ev, Event{kind: "loop", recv: s.uid, site: s.in.site(s.fr.fn, s.in.loopPos(s.loop))})
	p.h, p.hfr = st, fr
}

// leafVal is the value of a leaf in partition p (a symbol, or the fixed value of the location).
func (s *solver) leafVal(p *part, bind map[Sym]Lin, id string) (Lin, bool) {
	for _, l := range p.leaf {
		if l.id == id {
			if bind == nil {
				return symLin(l.sym), true
			}
			e, ok := bind[l.sym]
			return e, ok
		}
	}
	// not generalised in p: take it from the template
	for i, l := range s.locs {
		pre := l.String()
		if !strings.HasPrefix(id, pre) {
			continue
		}
		return s.pick(p.tmpl[i], strings.TrimPrefix(id, pre))
	}
	return Lin{}, false
}

func (s *solver) pick(v Val, sub string) (Lin, bool) {
	switch x := v.(type) {
	case Num:
		return x.l, sub == ""
	case Str:
		if sub == ".lo" {
			return x.lo, true
		}
		if sub == ".hi" {
			return x.hi, true
		}
	case SliceV:
		if sub == ".lo" {
			return x.lo, true
		}
		if sub == ".hi" {
			return x.hi, true
		}
	case StructV:
		if strings.HasPrefix(sub, ".") {
			rest := ""
			f := sub[1:]
			if n := strings.IndexByte(f, '.'); n >= 0 {
				f, rest = f[:n], f[n:]
			}
			var i int
			if _, err := fmt.Sscan(f, &i); err == nil && i < len(x.f) {
				return s.pick(x.f[i], rest)
			}
		}
	case Iface:
		if strings.HasPrefix(sub, ".v") && x.v != nil {
			return s.pick(x.v, sub[2:])
		}
	}
	return Lin{}, false
}

// bexpr is a boundary: a linear expression over leaf ids.
type bexpr struct {
	c    Lin // over symbols known before the loop
	ids  []string
	coef []int64
}

func (s *solver) eval(b bexpr, p *part, bind map[Sym]Lin) (Lin, bool) {
	r := b.c
	for i, id := range b.ids {
		v, ok := s.leafVal(p, bind, id)
		if !ok {
			return Lin{}, false
		}
		r = r.addMul(v, b.coef[i])
	}
	return r, true
}

func (s *solver) toBexpr(p *part, l Lin) (bexpr, bool) {
	b := bexpr{c: Lin{c: l.c}}
	for _, t := range l.t {
		if p.isLeaf(t.s) {
			for _, x := range p.leaf {
				if x.sym == t.s {
					b.ids = append(b.ids, x.id)
					b.coef = append(b.coef, t.k)
				}
			}
		} else if s.known(t.s) && s.before(t.s) {
			b.c = b.c.addMul(symLin(t.s), t.k)
		} else {
			return b, false
		}
	}
	return b, len(b.ids) > 0
}

// before reports whether a symbol exists independent of the loop body.
func (s *solver) before(y Sym) bool {
	if int(y) < s.start {
		return true
	}
	// a function of what existed before
	return interned[symNames[y]] == y && strings.IndexByte(symNames[y], '\'') < 0 && !strings.Contains(symNames[y], "rune(")
}

// finish infers the quantified facts and the termination measure and evaluates the body a last time.
func (s *solver) finish(li *LoopInfo, backs []*arrival, res *regionRes) *regionRes {
	in := s.in
	li.solved++
	backs = s.splitBools(backs)
	binds := map[*arrival]map[Sym]Lin{}
	target := map[*arrival]*part{}
	for _, a := range backs {
		key := ""
		a.vals = nil
		for _, l := range s.locs {
			v := s.value(l, a.fr, a.st)
			a.vals = append(a.vals, v)
			key += s.discrete(a.st, v) + "|"
		}
		p := s.parts[key]
		if p == nil {
			continue
		}
		bind := map[Sym]Lin{}
		for i := range s.locs {
			s.match(p, p.tmpl[i], a.vals[i], a.st, bind)
		}
		s.bindKappa(p, a, bind)
		binds[a] = bind
		target[a] = p
	}
	if debugLoops {
		fmt.Fprintf(os.Stderr, "loop %s at %s: %d partitions, %d backs\n", s.uid, in.site(s.fr.fn, in.loopPos(s.loop)), len(s.order), len(backs))
		for _, p := range s.order {
			fmt.Fprintf(os.Stderr, "  part %s tmpl %s\n", p.key, keys(p.tmpl))
			for _, l := range p.leaf {
				fmt.Fprintf(os.Stderr, "    leaf %s = %s\n", l.id, l.sym)
			}
			for _, c := range p.cands {
				fmt.Fprintf(os.Stderr, "    %s <= 0\n", c.pretty())
			}
		}
	}
	s.termination(li, backs, binds, target)

	// boundaries
	type bcand struct {
		kind   string
		b      *StrBase
		lo, hi Lin
		x      bexpr
	}
	cands := []bcand{}
	seen := map[string]bool{}
	for _, a := range backs {
		if a.from == nil {
			continue
		}
		for _, d := range a.st.decs {
			l, kind := d.lo, "fwd"
			if d.rev {
				l, kind = d.hi, "rev"
			}
			b, ok := s.toBexpr(a.from, a.st.norm(l))
			if !ok {
				// a normalisation may have removed the leaf
				b, ok = s.toBexpr(a.from, l)
			}
			if !ok {
				continue
			}
			k := fmt.Sprintf("%s%s%v%v%v", kind, d.b.name, b.c, b.ids, b.coef)
			if seen[k] {
				continue
			}
			seen[k] = true
			cands = append(cands, bcand{kind, d.b, d.lo, d.hi, b})
		}
	}
	for _, p := range s.order {
		for _, l := range p.leaf {
			k := "unit" + l.id
			if seen[k] {
				continue
			}
			seen[k] = true
			cands = append(cands, bcand{kind: "unit", x: bexpr{ids: []string{l.id}, coef: []int64{1}}})
		}
	}
	type good struct {
		bcand
		dnf   []conj
		from  Lin
		exact bool
	}
	goods := []good{}
	var entryPart *part
	ea := &arrival{st: s.st, fr: s.fr}
	key := ""
	for _, l := range s.locs {
		v := s.value(l, s.fr, s.st)
		ea.vals = append(ea.vals, v)
		key += s.discrete(s.st, v) + "|"
	}
	entryPart = s.parts[key]
	if entryPart == nil {
		return res
	}
	ebind := map[Sym]Lin{}
	for i := range s.locs {
		s.match(entryPart, entryPart.tmpl[i], ea.vals[i], s.st, ebind)
	}
	for _, c := range cands {
		from, ok := s.eval(c.x, entryPart, ebind)
		if !ok {
			continue
		}
		from = s.st.norm(from)
		okAll := len(backs) > 0
		dnf := []conj{}
		for _, a := range backs {
			p, q := a.from, target[a]
			x, ok1 := s.eval(c.x, p, nil)
			if q == nil {
				okAll = false
				break
			}
			y, ok2 := s.eval(c.x, q, binds[a])
			if !ok1 || !ok2 {
				okAll = false
				break
			}
			if c.kind == "unit" {
				if a.st.same(y, x.addK(1)) {
					dnf = append(dnf, s.conjOf(a, x, -1, konst(1)))
					continue
				}
				if a.st.same(y, x.addK(-1)) {
					c.kind = "unitdown"
				}
				okAll = false
				break
			}
			if a.st.same(x, y) {
				continue
			}
			found := false
			for _, d := range a.st.decs {
				if d.b != c.b || d.rev != (c.kind == "rev") {
					continue
				}
				at, step := d.lo, a.st.norm(d.w)
				if d.rev {
					at, step = d.hi, a.st.norm(d.w).neg()
				}
				if a.st.same(at, x) && a.st.same(y, x.add(step)) {
					r := a.st.norm(d.r)
					rs := Sym(-1)
					if z, ok := d.r.single(); ok {
						rs = z
					}
					_ = r
					dnf = append(dnf, s.conjOf(a, x, rs, d.w))
					found = true
					break
				}
			}
			if !found {
				okAll = false
				break
			}
		}
		if okAll && len(dnf) > 0 {
			goods = append(goods, good{c, dnf, from, len(dnf) == len(backs)})
		}
	}
	accs := []func(p *part) (Acc, bool){}
	if in.exact {
		for _, g := range goods {
			if g.kind == "fwd" {
				accs = append(accs, s.accumulators(g.bcand.b, g.bcand.hi, g.x, g.from, entryPart, ebind, backs, target, binds)...)
			}
		}
	}
	if debugLoops {
		fmt.Fprintf(os.Stderr, "  %d accumulators\n", len(accs))
		for _, g := range goods {
			fmt.Fprintf(os.Stderr, "  qfact %s from %s over %v: %d conjs\n", g.kind, g.from.pretty(), g.x.ids, len(g.dnf))
		}
	}
	// the last evaluation with the quantified facts
	out := &regionRes{}
	iters := [][]Event{}
	for _, a := range backs {
		iters = append(iters, a.iter)
	}
	for _, p := range s.order {
		h := p.h.clone()
		h.ev[len(h.ev)-1].iters = iters
		h.ev[len(h.ev)-1].pos = symLin(s.kappaOf(p))
		for _, g := range goods {
			to, ok := s.eval(g.x, p, nil)
			if !ok {
				continue
			}
			h.qf = append(h.qf, QFact{kind: g.kind, b: g.b, from: g.from, to: to, lo: g.lo, hi: g.hi, dnf: g.dnf, loop: s.uid, count: symLin(s.kappaOf(p)), exact: g.exact})
		}
		for _, f := range accs {
			if a, ok := f(p); ok {
				h.acc = append(h.acc, a)
			}
		}
		r := in.region(p.hfr.clone(), s.loop.header, nil, s.loop, h)
		out.outs = append(out.outs, r.outs...)
		out.exits = append(out.exits, r.exits...)
		for _, b := range r.backs {
			in.bindPhis(b.fr, b.to, b.from)
			for _, a := range s.splitBools([]*arrival{{st: b.st, fr: b.fr, from: p}}) {
				out.exits = append(out.exits, s.peek(a)...)
			}
		}
	}
	return out
}

// conjOf describes one passed item: everything the state says about it.
func (s *solver) conjOf(a *arrival, x Lin, r Sym, w Lin) (c conj) {
	c = conj{r: r, w: w}
	st := a.st
	o := newSym("item offset")
	c.o = o
	// x is a linear expression over leaves: solve it for one leaf
	var sub Sym = -1
	var e Lin
	x = st.norm(x)
	for _, t := range x.t {
		if a.from.isLeaf(t.s) && (t.k == 1 || t.k == -1) {
			rest := x.subst(t.s, Lin{})
			e = symLin(o).sub(rest).mul(t.k)
			sub = t.s
			break
		}
	}
	var inner func(l Lin) Lin
	inner = func(l Lin) Lin {
		if sub >= 0 {
			l = l.subst(sub, e)
		}
		return remapLin(l, inner)
	}
	tr := func(l Lin) Lin { return inner(st.norm(l)) }
	r0 := r
	if r >= 0 {
		r = remapSym(r, inner)
		c.r = r
	}
	c.w = tr(w)
	gen := map[Sym]bool{}
	defer func() {
		for y := range gen {
			c.gen = append(c.gen, y)
		}
		sort.Slice(c.gen, func(i, j int) bool { return c.gen[i] < c.gen[j] })
	}()
	bad := func(l Lin) bool { // mentions the loop variables other than through the item
		for _, t := range l.t {
			if !s.known(t.s) {
				return true
			}
			if hasDep(t.s) {
				d := false
				mapName(symNames[t.s], func(l Lin) Lin {
					for _, u := range l.t {
						d = d || !s.known(u.s)
					}
					return l
				})
				if d {
					return true
				}
			}
			if t.s != o && !hasDep(t.s) && !s.before(t.s) {
				gen[t.s] = true
			}
		}
		return false
	}
	about := func(l Lin) bool {
		return (r >= 0 && l.has(r)) || l.has(o)
	}
	for _, l := range st.cons {
		old := false
		for _, h := range a.from.h.cons {
			old = old || h.eq(l)
		}
		l = tr(l)
		if !bad(l) && (about(l) || !old) {
			c.lins = append(c.lins, l)
		}
	}
	// equalities learned in the iteration about what existed before the loop
	for y, v := range st.subst {
		if _, ok := a.from.h.subst[y]; ok || y == r0 || r0 >= 0 && v.has(r0) || !s.known(y) || a.from.isLeaf(y) {
			continue
		}
		v = tr(v)
		if !bad(v) {
			c.eqs = append(c.eqs, symLin(y).sub(v))
		}
	}
	if r >= 0 {
		if v, ok := st.subst[r0]; ok {
			v = tr(v)
			if !bad(v) {
				c.eqs = append(c.eqs, symLin(r).sub(v))
			}
		}
		// symbols defined by the rune
		for y, v := range st.subst {
			if v.has(r0) && s.known(y) {
				v = tr(v)
				if !bad(v) {
					c.eqs = append(c.eqs, symLin(y).sub(v))
				}
			}
		}
	}
	n := len(a.from.h.facts)
	for _, f := range st.facts[min(n, len(st.facts)):] {
		g := &Atom{f.a.name, nil}
		okF := true
		for _, v := range f.a.args {
			v, ok := mapVal(v, tr, bad)
			if !ok {
				okF = false
				break
			}
			g.args = append(g.args, v)
		}
		if okF {
			c.facts = append(c.facts, fact{g, f.v})
		}
	}
	for _, q := range st.qf[min(len(a.from.h.qf), len(st.qf)):] {
		q.from, q.to = tr(q.from), tr(q.to)
		if !bad(q.from) && !bad(q.to) {
			c.qf = append(c.qf, q)
		}
	}
	for _, ev := range a.iter {
		ev.pos, ev.to = tr(ev.pos), tr(ev.to)
		c.evs = append(c.evs, ev)
	}
	return c
}

func mapVal(v Val, f func(Lin) Lin, bad func(Lin) bool) (Val, bool) {
	switch x := v.(type) {
	case Num:
		l := f(x.l)
		return Num{l}, !bad(l)
	case Str:
		lo, hi := f(x.lo), f(x.hi)
		b := remapBase(x.b, f)
		return Str{b, lo, hi}, !bad(lo) && !bad(hi) && !bad(b.len)
	case SliceV:
		x.lo, x.hi = f(x.lo), f(x.hi)
		return x, !bad(x.lo) && !bad(x.hi)
	case StructV:
		r := StructV{}
		for _, y := range x.f {
			z, ok := mapVal(y, f, bad)
			if !ok {
				return nil, false
			}
			r.f = append(r.f, z)
		}
		return r, true
	}
	return v, true
}

// termination looks for a bounded expression that grows in every iteration.
func (s *solver) termination(li *LoopInfo, backs []*arrival, binds map[*arrival]map[Sym]Lin, target map[*arrival]*part) {
	if len(backs) == 0 {
		li.measure = "no iteration repeats"
		return
	}
	ids := []string{}
	seen := map[string]bool{}
	for _, p := range s.order {
		for _, l := range p.leaf {
			if !seen[l.id] {
				seen[l.id] = true
				ids = append(ids, l.id)
			}
		}
	}
	ms := []bexpr{}
	for i, x := range ids {
		ms = append(ms, bexpr{ids: []string{x}, coef: []int64{1}}, bexpr{ids: []string{x}, coef: []int64{-1}})
		for _, y := range ids[i+1:] {
			ms = append(ms, bexpr{ids: []string{x, y}, coef: []int64{1, -1}}, bexpr{ids: []string{x, y}, coef: []int64{-1, 1}},
				bexpr{ids: []string{x, y}, coef: []int64{1, 1}}, bexpr{ids: []string{x, y}, coef: []int64{-1, -1}})
		}
	}
	// edges of the partition graph
	reach := map[*part]map[*part]bool{}
	for _, a := range backs {
		if target[a] == nil {
			continue
		}
		if reach[a.from] == nil {
			reach[a.from] = map[*part]bool{}
		}
		reach[a.from][target[a]] = true
	}
	for range s.order {
		for _, p := range s.order {
			for q := range reach[p] {
				for r := range reach[q] {
					reach[p][r] = true
				}
			}
		}
	}
	for _, m := range ms {
		ok := true
		for _, a := range backs {
			q := target[a]
			if q == nil {
				ok = false
				break
			}
			if a.from != q && !reach[q][a.from] {
				continue // not on a cycle
			}
			x, ok1 := s.eval(m, a.from, nil)
			y, ok2 := s.eval(m, q, binds[a])
			if !ok1 || !ok2 || !a.st.le(x.addK(1).sub(y)) {
				ok = false
				break
			}
			bounded := false
			for _, t := range append(s.boundTerms(), konst(1)) {
				if a.st.le(x.sub(t)) {
					bounded = true
					break
				}
			}
			if !bounded {
				x := a.st.norm(x)
				for _, c := range a.st.cons {
					d := x.sub(c) // x <= d
					stable := true
					for _, t := range d.t {
						if !s.stable(t.s) {
							stable = false
							break
						}
					}
					if stable {
						bounded = true
						break
					}
				}
			}
			if !bounded {
				ok = false
				break
			}
		}
		if ok {
			li.measure = fmt.Sprint(m.ids, m.coef)
			return
		}
	}
	// repeated because of a callback that reports success
	cb := true
	for _, a := range backs {
		found := false
		for _, e := range a.iter {
			if e.kind == "scope" && e.ok {
				found = true
			}
		}
		if !found {
			cb = false
		}
	}
	if cb {
		li.measure = "repeats as long as the callback returns true"
		return
	}
	li.bad++
	li.why = "no quantity grows towards a bound in every iteration"
}

// stable: the symbol denotes the same value in each iteration.
func (s *solver) stable(y Sym) bool {
	if !s.known(y) {
		return false
	}
	if int(y) < s.start {
		return true
	}
	n := symNames[y]
	if strings.ContainsRune(n, '\'') || strings.ContainsRune(n, '@') {
		return false
	}
	dep := false
	mapName(n, func(l Lin) Lin {
		for _, t := range l.t {
			dep = dep || int(t.s) >= s.start
		}
		return l
	})
	return !dep
}

func (s *solver) boundTerms() []Lin {
	r := append([]Lin(nil), s.terms...)
	for _, t := range s.terms {
		r = append(r, t.neg())
	}
	return r
}

// accumulators finds the leafs that hold the value of the digits passed by the boundary x.
func (s *solver) accumulators(b *StrBase, hi Lin, x bexpr, from Lin, ep *part, ebind map[Sym]Lin, backs []*arrival, target map[*arrival]*part, binds map[*arrival]map[Sym]Lin) []func(p *part) (Acc, bool) {
	res := []func(p *part) (Acc, bool){}
	seen := map[string]bool{}
	for _, p := range s.order {
		for _, l := range p.leaf {
			if seen[l.id] {
				continue
			}
			seen[l.id] = true
			id := l.id
			v0, ok := s.leafVal(ep, ebind, id)
			if !ok {
				continue
			}
			// the digits in front of the loop
			for _, base := range []int64{8, 10, 16} {
				for _, sign := range []int64{1, -1} {
					start := from
					if !s.st.same(v0, konst(0)) {
						ok = false
						for _, d := range s.st.decs {
							if d.b == b && !d.rev && s.st.same(d.lo.add(d.w), from) {
								if v, is := s.st.digit(d.r, base); is && s.st.same(v0, v.mul(sign)) {
									start, ok = s.st.norm(d.lo), true
								}
							}
						}
						if !ok {
							continue
						}
					}
					if !s.accumulates(b, x, id, base, sign, backs, target, binds) {
						continue
					}
					base, sign := base, sign
					res = append(res, func(p *part) (Acc, bool) {
						to, ok1 := s.eval(x, p, nil)
						v, ok2 := s.leafVal(p, nil, id)
						return Acc{b: b, hi: hi, from: start, to: to, val: v, base: base, sign: sign}, ok1 && ok2
					})
				}
			}
		}
	}
	return res
}

func (s *solver) accumulates(b *StrBase, x bexpr, id string, base, sign int64, backs []*arrival, target map[*arrival]*part, binds map[*arrival]map[Sym]Lin) bool {
	for _, a := range backs {
		p, q := a.from, target[a]
		if q == nil {
			return false
		}
		at, ok1 := s.eval(x, p, nil)
		to, ok2 := s.eval(x, q, binds[a])
		v, ok3 := s.leafVal(p, nil, id)
		w, ok4 := s.leafVal(q, binds[a], id)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			return false
		}
		if a.st.same(at, to) && a.st.same(v, w) {
			continue
		}
		found := false
		for _, d := range a.st.decs {
			if d.b != b || d.rev || !a.st.same(d.lo, at) || !a.st.same(d.lo.add(d.w), to) {
				continue
			}
			if g, ok := a.st.digit(d.r, base); ok && a.st.same(w, v.mul(base).add(g.mul(sign))) {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return len(backs) > 0
}
