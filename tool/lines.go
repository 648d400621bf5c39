package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Counting functions of the places of a string, used by C31: the number of line ends (N) and of
// tabs (T) before x, and the width (W) of the part of the last line before x. They are symbols
// that are tied by what the state knows about the bytes between two places.

type lineSym struct {
	fn byte
	b  *StrBase
	x  Lin
}

var lineSyms = map[Sym]lineSym{}

// mulSyms: products of two symbols.
var mulSyms = map[Sym][2]Sym{}

// byteRead is a byte the code looked at.
type byteRead struct {
	b  *StrBase
	at Lin
	v  Lin
}

func rawLine(fn byte, b *StrBase, x Lin) Lin {
	if x.isConst() && x.c == 0 {
		return konst(0)
	}
	y := internSym(fmt.Sprintf("line%c(%s%s)", fn, b.name, x))
	if _, ok := lineSyms[y]; !ok {
		lineSyms[y] = lineSym{fn, b, x}
		if fn != 'W' {
			nonNeg(y)
		}
	}
	return symLin(y)
}

func (st *State) line(fn byte, b *StrBase, x Lin) Lin { return st.norm(rawLine(fn, b, st.norm(x))) }

// product of two linear expressions, expanded.
func product(a, b Lin) Lin {
	r := b.mul(a.c)
	for _, t := range a.t {
		r = r.add(symLin(t.s).mul(t.k * b.c))
		for _, u := range b.t {
			x, y := t.s, u.s
			if x > y {
				x, y = y, x
			}
			m := internSym(fmt.Sprintf("mul(%s,%s)", symLin(x), symLin(y)))
			mulSyms[m] = [2]Sym{x, y}
			r = r.add(symLin(m).mul(t.k * u.k))
		}
	}
	return r
}

type lineStep struct {
	b        *StrBase
	from, to Lin
	nl, tab  int // 1: the byte is one, 0: there is none, -1: not known
}

func classOf(st *State, v Lin, k int64) int {
	if st.same(v, konst(k)) {
		return 1
	}
	t := st.clone()
	t.addEQ(v.addK(-k))
	if t.dead || !t.possible() {
		return 0
	}
	return -1
}

func (st *State) lineSteps() []lineStep {
	r := []lineStep{}
	for _, x := range st.bytes {
		at := st.norm(x.at)
		r = append(r, lineStep{x.b, at, at.addK(1), classOf(st, x.v, '\n'), classOf(st, x.v, '\t')})
	}
	for _, d := range st.decs {
		from := st.norm(d.lo)
		to := st.norm(d.lo.add(d.w))
		if d.rev {
			from, to = st.norm(d.hi.sub(d.w)), st.norm(d.hi)
		}
		r = append(r, lineStep{d.b, from, to, classOf(st, d.r, '\n'), classOf(st, d.r, '\t')})
	}
	for _, f := range st.facts {
		if f.a.name != "streq" || !f.v {
			continue
		}
		x, ok1 := f.a.args[0].(Str)
		y, ok2 := f.a.args[1].(Str)
		if !ok1 || !ok2 {
			continue
		}
		k, ok := y.constVal()
		if !ok {
			x, y = y, x
			k, ok = y.constVal()
		}
		if !ok {
			continue
		}
		for i := 0; i < len(k); i++ {
			is := func(c byte) int {
				if k[i] == c {
					return 1
				}
				return 0
			}
			r = append(r, lineStep{x.b, st.norm(x.lo).addK(int64(i)), st.norm(x.lo).addK(int64(i) + 1), is('\n'), is('\t')})
		}
	}
	for _, q := range st.qf {
		if q.b == nil {
			continue
		}
		from, to := st.norm(q.from), st.norm(q.to)
		switch q.kind {
		case "rev":
			from, to = to, from
		case "unitrev":
			from, to = to.addK(1), from.addK(1)
		}
		if !st.le(from.sub(to)) {
			continue
		}
		none := func(c byte) int {
			ok := st.excluded(q, func(t *State, cj conj) bool {
				if cj.r >= 0 {
					return classOf(t, symLin(cj.r), int64(c)) == 0
				}
				for _, f := range cj.facts {
					if f.a.name == "streq" && !f.v {
						x, _ := f.a.args[0].(Str)
						y, _ := f.a.args[1].(Str)
						if x.b == nil || y.b == nil {
							continue
						}
						k, ok := y.constVal()
						if ok && k == string(c) && x.b == q.b && t.same(x.lo, symLin(cj.o)) {
							return true
						}
					}
				}
				return false
			})
			if ok {
				return 0
			}
			return -1
		}
		r = append(r, lineStep{q.b, from, to, none('\n'), none('\t')})
	}
	return r
}

type linePoint struct {
	b *StrBase
	x Lin
}

// lineFacts ties the counting functions of the places that the state knows and of the given ones.
func (st *State) lineFacts(pts ...linePoint) {
	tab := st.in.lineTab
	for round := 0; round < 2 && !st.dead; round++ {
		// products follow their factors
		for _, y := range st.symbols() {
			m, ok := mulSyms[y]
			if !ok {
				continue
			}
			a, b := st.norm(symLin(m[0])), st.norm(symLin(m[1]))
			if !a.eq(symLin(m[0])) || !b.eq(symLin(m[1])) {
				st.addEQ(st.norm(symLin(y)).sub(st.norm(product(a, b))))
			}
		}
		st.samePlaces()
		if st.dead {
			return
		}
		steps := st.lineSteps()
		points := map[string]linePoint{}
		add := func(b *StrBase, x Lin) {
			x = st.norm(x)
			points[b.name+"|"+x.String()] = linePoint{b, x}
		}
		for _, p := range pts {
			add(p.b, p.x)
		}
		for _, s := range steps {
			add(s.b, s.from)
			add(s.b, s.to)
		}
		for _, y := range st.symbols() {
			if l, ok := lineSyms[y]; ok {
				add(l.b, l.x)
			}
		}
		eq := func(a, b Lin) {
			if d := st.norm(a.sub(b)); !(d.isConst() && d.c == 0) {
				st.addEQ(d)
			}
		}
		clear := func(b *StrBase, from, to Lin) {
			d := st.line('T', b, to).sub(st.line('T', b, from))
			eq(st.line('W', b, to), st.line('W', b, from).add(to).sub(from).sub(d).add(product(tab, st.norm(d))))
		}
		for _, s := range steps {
			if st.dead {
				return
			}
			n0, n1 := st.line('N', s.b, s.from), st.line('N', s.b, s.to)
			t0, t1 := st.line('T', s.b, s.from), st.line('T', s.b, s.to)
			switch s.tab {
			case 0:
				eq(t1, t0)
			case 1:
				eq(t1, t0.addK(1))
			}
			switch s.nl {
			case 1:
				eq(n1, n0.addK(1))
				eq(st.line('W', s.b, s.to), konst(0))
			case 0:
				eq(n1, n0)
				clear(s.b, s.from, s.to)
			}
		}
		ks := sortedKeys(points)
		for _, k := range ks { // a concatenation
			p := points[k]
			if p.b.parts == nil || !st.same(p.x, p.b.len) {
				continue
			}
			n, w, t := konst(0), konst(0), konst(0)
			known := true
			for _, s := range p.b.parts {
				if k, ok := s.constVal(); ok {
					n = n.addK(int64(strings.Count(k, "\n")))
					t = t.addK(int64(strings.Count(k, "\t")))
					for _, c := range []byte(k) {
						switch {
						case c == '\n':
							w, known = konst(0), true
						case c == '\t':
							w = w.add(tab)
						default:
							w = w.addK(1)
						}
					}
					continue
				}
				dn := st.line('N', s.b, s.hi).sub(st.line('N', s.b, s.lo))
				dt := st.line('T', s.b, s.hi).sub(st.line('T', s.b, s.lo))
				n, t = n.add(dn), t.add(dt)
				if st.same(dn, konst(0)) {
					w = w.add(s.length()).sub(dt).add(product(tab, st.norm(dt)))
				} else {
					known = false
				}
			}
			eq(st.line('N', p.b, p.x), n)
			eq(st.line('T', p.b, p.x), t)
			if known {
				eq(st.line('W', p.b, p.x), w)
			}
		}
		for i, k := range ks {
			a := points[k]
			for _, m := range ks[i+1:] {
				b := points[m]
				if a.b != b.b || st.dead {
					continue
				}
				if st.same(a.x, b.x) {
					for _, fn := range []byte("NTW") {
						eq(st.line(fn, a.b, a.x), st.line(fn, b.b, b.x))
					}
					continue
				}
				lo, hi := a, b
				if st.le(b.x.sub(a.x)) {
					lo, hi = b, a
				} else if !st.le(a.x.sub(b.x)) {
					continue
				}
				for _, fn := range []byte("NT") { // nothing between means nothing at any place between
					n := st.line(fn, lo.b, lo.x)
					if !st.same(n, st.line(fn, hi.b, hi.x)) {
						continue
					}
					for _, k := range ks {
						m := points[k]
						if m.b == lo.b && st.le(lo.x.sub(m.x)) && st.le(m.x.sub(hi.x)) {
							eq(st.line(fn, m.b, m.x), n)
						}
					}
				}
				if st.same(st.line('N', lo.b, lo.x), st.line('N', hi.b, hi.x)) {
					clear(lo.b, lo.x, hi.x)
				}
			}
		}
		st.samePlaces()
	}
}

// normMul rewrites the products of l by what is known of their factors.
func (st *State) normMul(l Lin) Lin {
	for k := 0; k < 2; k++ {
		l = st.norm(l)
		for _, t := range l.t {
			if m, ok := mulSyms[t.s]; ok {
				l = l.subst(t.s, product(st.norm(symLin(m[0])), st.norm(symLin(m[1]))))
			}
		}
	}
	return st.norm(l)
}

// samePlaces: equal places have equal counts.
func (st *State) samePlaces() {
	for k := 0; k < 3 && !st.dead; k++ {
		more := false
		for _, y := range st.symbols() {
			if l, ok := lineSyms[y]; ok {
				if d := st.norm(symLin(y).sub(st.line(l.fn, l.b, l.x))); !(d.isConst() && d.c == 0) {
					st.addEQ(d)
					more = true
				}
			}
		}
		if !more {
			return
		}
	}
}

// symbols of the constraints of the state.
func (st *State) symbols() []Sym {
	seen := map[Sym]bool{}
	add := func(l Lin) {
		for _, t := range l.t {
			seen[t.s] = true
		}
	}
	for _, c := range st.cons {
		add(c)
	}
	for y, e := range st.subst {
		seen[y] = true
		add(e)
	}
	r := []Sym{}
	for y := range seen {
		r = append(r, y)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// resolveParts gives a window of a concatenation as the parts it consists of.
func resolveParts(st *State, s Str) Str {
	if s.b.parts == nil {
		return s
	}
	off := konst(0)
	parts, in := []Str{}, false
	for i := 0; ; i++ {
		if !in && st.same(off, s.lo) {
			in = true
		}
		if in && st.same(off, s.hi) {
			return concat(st, parts...)
		}
		if i == len(s.b.parts) {
			return s
		}
		if in {
			parts = append(parts, s.b.parts[i])
		}
		off = off.add(s.b.parts[i].length())
	}
}

// lastLine splits by the last line end of s. rest is nil if there is none.
type lastRes struct {
	st    *State
	found bool
	at    Lin // absolute place of the line end
	tail  Str // what follows, of the original string
}

func (in *Interp) lastLine(st *State, s Str, caller *ssa.Function) []lastRes {
	// a concatenation whose last parts are known
	if s.b.parts != nil && st.same(s.lo, konst(0)) && st.same(s.hi, s.b.len) {
		off := s.b.len
		for i := len(s.b.parts) - 1; i >= 0; i-- {
			p := s.b.parts[i]
			if k, ok := p.constVal(); ok {
				if n := strings.LastIndexByte(k, '\n'); n >= 0 {
					at := off.addK(int64(n - len(k)))
					var tail Str
					if n == len(k)-1 && i+1 < len(s.b.parts) {
						tail = concat(st, s.b.parts[i+1:]...)
					} else {
						tail = concat(st, append([]Str{constStr(k[n+1:])}, s.b.parts[i+1:]...)...)
					}
					return []lastRes{{st, true, at, tail}}
				}
			} else if !st.same(st.line('N', p.b, p.hi), st.line('N', p.b, p.lo)) {
				return nil
			}
			off = off.sub(p.length())
		}
	}
	res := []lastRes{}
	for _, o := range in.indexModel("strings.LastIndex", []Val{s, constStr("\n")}, st, caller, 0) {
		i := o.rets[0].(Num).l
		o.st.lineFacts(linePoint{s.b, s.lo}, linePoint{s.b, s.hi}, linePoint{s.b, s.lo.add(i).addK(1)})
		if i.isConst() && i.c == -1 {
			res = append(res, lastRes{o.st, false, Lin{}, s})
			continue
		}
		at := o.st.norm(s.lo.add(i))
		res = append(res, lastRes{o.st, true, at, Str{s.b, at.addK(1), s.hi}})
	}
	return res
}

// lineModel: the library functions that a line count may use.
func (in *Interp) lineModel(name string, fn *ssa.Function, args []Val, st *State, caller *ssa.Function) []Outcome {
	if len(args) < 2 {
		return nil
	}
	s, ok := args[0].(Str)
	sub := ""
	switch x := args[1].(type) {
	case Str:
		k, isK := x.constVal()
		if !isK {
			return nil
		}
		sub = k
	case Num:
		k := st.norm(x.l)
		if !k.isConst() {
			return nil
		}
		sub = string(rune(k.c))
	default:
		return nil
	}
	if !ok {
		return nil
	}
	s = resolveParts(st, s)
	st.lineFacts(linePoint{s.b, s.lo}, linePoint{s.b, s.hi})
	count := func(st *State, f byte) Lin { return st.line(f, s.b, s.hi).sub(st.line(f, s.b, s.lo)) }
	switch name {
	case "strings.Count":
		switch sub {
		case "\n":
			return []Outcome{{st: st, rets: []Val{Num{count(st, 'N')}}}}
		case "\t":
			return []Outcome{{st: st, rets: []Val{Num{count(st, 'T')}}}}
		}
	case "strings.Split", "strings.SplitAfter":
		if sub != "\n" {
			return nil
		}
		res := []Outcome{}
		for _, r := range in.lastLine(st, s, caller) {
			n := count(r.st, 'N').addK(1)
			r.st.addLE(n.neg().addK(1))
			t := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
			id := symObj(freshKey("lines"), types.NewSlice(t.Elem()))
			o := r.st.obj(id)
			o.elems = []elemCell{{idx: n.addK(-1), v: r.tail}}
			res = append(res, Outcome{st: r.st, rets: []Val{SliceV{arr: id, lo: konst(0), hi: n}}})
		}
		return res
	case "strings.LastIndex", "strings.LastIndexByte":
		if sub != "\n" || s.b.parts == nil {
			return nil
		}
		res := []Outcome{}
		for _, r := range in.lastLine(st, s, caller) {
			if !r.found {
				res = append(res, Outcome{st: r.st, rets: []Val{num(-1)}})
			} else {
				res = append(res, Outcome{st: r.st, rets: []Val{Num{r.at.sub(s.lo)}}})
			}
		}
		return res
	case "strings.ReplaceAll", "strings.Replace":
		by, ok := args[2].(Str)
		if !ok {
			return nil
		}
		if len(args) == 4 {
			n, ok := args[3].(Num)
			if !ok || !st.le(n.l.addK(1)) {
				return nil
			}
		}
		if k, isK := by.constVal(); !isK || k != "\n" || sub != "\r\n" {
			return nil
		}
		// without a line end nothing changes; otherwise the part up to the last line end becomes
		// another text with as many line ends
		res := []Outcome{}
		for _, r := range in.lastLine(st, s, caller) {
			if !r.found {
				res = append(res, Outcome{st: r.st, rets: []Val{s}})
				continue
			}
			x := symStr(freshKey("replaced"))
			r.st.addLE(x.length().sub(r.at.sub(s.lo)))
			r.st.addEQ(rawLine('N', x.b, x.b.len).sub(r.st.line('N', s.b, r.at).sub(r.st.line('N', s.b, s.lo))))
			res = append(res, Outcome{st: r.st, rets: []Val{concat(r.st, x, constStr("\n"), r.tail)}})
		}
		return res
	}
	return nil
}

// ------------------------------------------------------------ loops

// linePlaces are the places of partition p the counting functions are taken at.
func (s *solver) linePlaces(p *part) []linePoint {
	r := []linePoint{}
	for _, l := range p.leaf {
		x := symLin(l.sym)
		r = append(r, linePoint{s.in.lineBase, x}, linePoint{s.in.lineBase, x.addK(1)})
	}
	for _, q := range s.linePos {
		if x, ok := s.eval(q.x, p, nil); ok {
			r = append(r, linePoint{q.b, x})
		}
	}
	return r
}

// lineBind binds the counting functions of p's places to those of the arrival.
func (s *solver) lineBind(p *part, a *arrival, bind map[Sym]Lin) {
	pts := []linePoint{}
	if a.from != nil {
		pts = append(pts, s.linePlaces(a.from)...)
	}
	mine := s.linePlaces(p)
	vals := []linePoint{}
	for _, q := range mine {
		x := a.st.norm(substAll(q.x, bind))
		vals = append(vals, linePoint{q.b, x})
	}
	a.st.lineFacts(append(pts, vals...)...)
	for i, q := range mine {
		for _, fn := range []byte("NTW") {
			if y, ok := rawLine(fn, q.b, q.x).single(); ok {
				bind[y] = a.st.line(fn, vals[i].b, vals[i].x)
			}
		}
	}
}

func (s *solver) lineCands(p *part, a *arrival, bind map[Sym]Lin, own func(Lin) bool, both func(Lin)) {
	s.lineBind(p, a, bind)
	pts := s.linePlaces(p)
	for i, q := range pts {
		for _, l := range p.leaf {
			b, ok := bind[l.sym]
			if !ok {
				continue
			}
			for _, fn := range []byte("NTW") {
				f := rawLine(fn, q.b, q.x)
				y, _ := f.single()
				if d := a.st.norm(b.sub(bind[y])); own(d) {
					both(symLin(l.sym).sub(f).sub(d))
				}
				if d := a.st.norm(b.add(bind[y])); own(d) {
					both(symLin(l.sym).add(f).sub(d))
				}
			}
		}
		w := rawLine('W', q.b, q.x)
		both(w)
		n := rawLine('N', q.b, q.x)
		if y, ok := n.single(); ok {
			if d := a.st.norm(bind[y]); own(d) {
				both(n.sub(d))
			}
		}
		for _, r := range pts[i+1:] {
			if r.b == q.b {
				both(rawLine('N', q.b, q.x).sub(rawLine('N', r.b, r.x)))
			}
		}
	}
}

// newLinePos collects the places the body looked at. It reports a change.
func (s *solver) newLinePos(a *arrival) bool {
	if a.from == nil {
		return false
	}
	found := false
	add := func(b *StrBase, at Lin) {
		x, ok := s.toBexpr(a.from, a.st.norm(at))
		if !ok {
			x, ok = s.toBexpr(a.from, at)
		}
		if !ok {
			return
		}
		k := fmt.Sprintf("%s%v%v%v", b.name, x.c, x.ids, x.coef)
		for _, q := range s.linePos {
			if q.key == k {
				return
			}
		}
		s.linePos = append(s.linePos, linePos{k, b, x})
		found = true
	}
	for _, y := range a.st.bytes {
		add(y.b, y.at)
	}
	for _, d := range a.st.decs {
		if d.rev {
			add(d.b, d.hi)
		} else {
			add(d.b, d.lo)
		}
	}
	return found
}

type linePos struct {
	key string
	b   *StrBase
	x   bexpr
}

// lineCand: the candidate is half of an equation between counting functions.
func lineCand(c Lin) bool {
	if len(lineSyms) == 0 {
		return false
	}
	for _, t := range c.t {
		if _, ok := lineSyms[t.s]; ok {
			return true
		}
	}
	return false
}
