package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C15", "reference monitors over the abstract interpretation of the combinators: each read of a sub reader, its position, its order and the returned result are checked against the definition for sub readers with arbitrary outcomes", 60, checkC15,
		"sub readers restore on failure and move forward on success")
	register("C16", "reference monitors over the abstract interpretation of the lookahead and search readers: positions, order and results of the sub reads and the position after the read", 40, checkC16,
		"sub readers restore on failure and move forward on success")
}

// Mon is a reference monitor. Its variables live in a ghost object, so that loop invariants
// relate them to the variables of the program.
type Mon struct {
	c      *Ck
	in     *Interp
	subj   string
	id     ObjID
	run    *Run
	cur    *State
	reader Iface
	// called for every read of a sub reader and at the end
	read  func(e Event)
	other func(e Event)
	ret   func(st *State, ok bool, err Val, pos Lin)
}

var ghostType = types.NewStruct([]*types.Var{
	types.NewVar(0, nil, "at", types.Typ[types.Int]),    // where the next read has to start
	types.NewVar(0, nil, "last", types.Typ[types.Int]),  // where the last read started
	types.NewVar(0, nil, "count", types.Typ[types.Int]), // successful reads
	types.NewVar(0, nil, "ok", types.Typ[types.Bool]),   // no read failed
	types.NewVar(0, nil, "any", types.Typ[types.Bool]),  // there was a read
	types.NewVar(0, nil, "done", types.Typ[types.Bool]), // no further read is allowed
	types.NewVar(0, nil, "err", types.Universe.Lookup("error").Type()),
	types.NewVar(0, nil, "end", types.Typ[types.Int]),
}, nil)

var ghostField = map[string]int{"at": 0, "last": 1, "count": 2, "ok": 3, "any": 4, "done": 5, "err": 6, "end": 7}

func (m *Mon) get(n string) Val {
	return m.cur.load(Ptr{obj: m.id, path: fmt.Sprintf(".%d", ghostField[n])})
}
func (m *Mon) num(n string) Lin {
	if v, ok := m.get(n).(Num); ok {
		return v.l
	}
	return symLin(freshSym("ghost"))
}
func (m *Mon) is(n string, v bool) bool {
	b, ok := m.get(n).(BoolV)
	if !ok {
		return false
	}
	d := m.cur.decide(b)
	return v && d == 1 || !v && d == 0
}
func (m *Mon) set(n string, v Val) {
	m.cur.store(Ptr{obj: m.id, path: fmt.Sprintf(".%d", ghostField[n])}, v)
}
func (m *Mon) setN(n string, l Lin)  { m.set(n, Num{l}) }
func (m *Mon) setB(n string, b bool) { m.set(n, kBool(b)) }
func (m *Mon) ob(ok bool, clause, detail string) bool {
	return m.c.ob(ok, m.subj, clause, detail, m.cur)
}
func (m *Mon) same(a, b Lin) bool { return m.cur.same(a, b) }
func (m *Mon) le(a, b Lin) bool   { return m.cur.le(a.sub(b)) }
func (m *Mon) lt(a, b Lin) bool   { return m.cur.le(a.sub(b).addK(1)) }
func (m *Mon) p0() Lin            { return m.run.p0 }

// monitor runs the reader under a monitor that prepare configures.
func (c *Ck) monitor(rd *ReaderCase, subj string, prepare func(m *Mon), set ...func(*Interp)) {
	in := c.interp()
	rd.in = in
	for _, s := range set {
		s(in)
	}
	made := 0
	c.guarded(subj, func() {
		st := in.newState()
		pt, p0, L, b := c.symScanner(in, st)
		for _, md := range rd.make(c, in, st) {
			made++
			r := &Run{name: subj, in: in, sc: pt.obj, p0: p0, L: L, text: b, args: rd.args}
			m := &Mon{c: c, in: in, subj: subj, run: r, reader: md.v}
			s := md.st.clone()
			s.ev = nil
			m.id = s.alloc("ghost", ghostType)
			s.obj(m.id).local = true
			m.cur = s
			m.setN("at", p0)
			m.setN("last", p0.addK(-1))
			m.setN("count", konst(0))
			m.setB("ok", true)
			m.setB("any", false)
			m.setB("done", false)
			m.set("err", Iface{isNil: true})
			m.setN("end", p0)
			prepare(m)
			old := in.onEvent
			in.onEvent = func(st *State, e Event) {
				if old != nil {
					old(st, e)
				}
				if st.dead {
					return
				}
				if e.kind == "read" && m.read != nil {
					m.cur = st
					m.read(e)
				} else if m.other != nil {
					m.cur = st
					m.other(e)
				}
			}
			outs := in.invoke(md.v, c.readMethod(), []Val{pt}, s, 0, c.p.tok.Func("init"))
			in.onEvent = old
			r.outs = outs
			for _, x := range outs {
				if x.panic != "" {
					c.fail(subj, "does not panic at "+x.panic, "", x.st)
				}
			}
			for _, o := range r.results(c) {
				m.cur = o.st
				m.ret(o.st, o.ok, o.o.rets[len(o.o.rets)-1], o.pos)
			}
		}
		c.ob(made > 0, subj, "makes a reader", "", nil)
	})
	c.absorb()
}

// caseOf makes the reader case of a constructor with the given arguments.
func (c *Ck) caseOf(ctor string, mk func(in *Interp, st *State) []Val) *ReaderCase {
	fn := c.p.tok.Func(ctor)
	if fn == nil {
		c.fail(ctor, "is part of the interface", "function not found", nil)
		return nil
	}
	return &ReaderCase{name: ctor, ctor: ctor, fn: fn, mk: mk}
}

// nestBasic replaces the reads of the readers that asReader makes of a rune or string by the contract.
func (c *Ck) nestBasic() func(*Interp) {
	m := map[string]bool{}
	for _, n := range []string{"Rune", "Lit"} {
		if fn := c.p.tok.Func(n); fn != nil {
			in := newInterp(c.p)
			func() {
				defer func() { recover() }()
				args := []Val{}
				for _, p := range fn.Params {
					args = append(args, c.arg(p.Name(), p))
				}
				for _, o := range in.call(fn, args, nil, in.newState()) {
					if i, ok := o.rets[0].(Iface); ok && i.dyn != nil {
						m[types.TypeString(i.dyn, nil)] = true
					}
				}
			}()
		}
	}
	return func(in *Interp) { in.nested = m }
}

// sub is a sub reader: its value for the constructor and a test whether a read is one of it.
type subReader struct {
	kind string
	v    Val
	key  string
}

func (c *Ck) sub(name, kind string) subReader {
	v := c.anyVal(name, kind)
	return subReader{kind, v, name}
}

// isRead: the event reads with this sub reader.
func (m *Mon) isRead(e Event, s subReader) bool {
	if s.kind == "reader" {
		return e.recv == s.key
	}
	// a reader made of a rune or string: it has to match exactly that
	i, ok := e.args[0].(Iface)
	if !ok || i.dyn == nil {
		return false
	}
	k := "basic:" + s.kind + i.key()
	if m.c.basicOK == nil {
		m.c.basicOK = map[string]bool{}
	}
	if r, ok := m.c.basicOK[k]; ok {
		return r
	}
	// check the reader on a scanner of its own
	d := newCk(m.c.id, m.c.p)
	in := newInterp(m.c.p)
	st := m.cur.clone()
	st.in = in
	st.ev = nil
	good := false
	func() {
		defer func() { recover() }()
		pt := symVal("probe", ptrTo(m.c.p.tok.Type("Scanner").Type())).(Ptr)
		text := in.textOf(st, pt.obj)
		r := &Run{name: "probe", in: in, sc: pt.obj, p0: in.posOf(st, pt.obj), L: text.length(), text: text.b}
		r.outs = in.invoke(i, m.c.readMethod(), []Val{pt}, st, 0, m.c.p.tok.Func("init"))
		val := s.v.(Iface).v
		switch s.kind {
		case "rune":
			v := val.(Num)
			d.ifRune(r, dirn{}, func(x Lin) BoolV { return eqB(x.sub(v.l)) })
		case "string":
			d.ifStr(r, dirn{}, plainAt(text.b), val.(Str))
		}
		good = len(d.viols) == 0 && d.obls > 0
	}()
	m.c.basicOK[k] = good
	return good
}

// seqMon: the readers one after the other.
func seqMon(m *Mon, subs []subReader) {
	n := int64(len(subs))
	m.read = func(e Event) {
		k := m.cur.norm(m.num("count"))
		m.ob(m.is("ok", true), "reads nothing after a failed read", "")
		if m.ob(k.isConst() && k.c < n, "reads each reader once and in order", "more reads than readers") {
			m.ob(m.isRead(e, subs[k.c]), "reads each reader once and in order", fmt.Sprintf("read %d uses %s", k.c+1, e.recv))
		}
		m.ob(m.same(e.pos, m.num("at")), "each read starts where the previous one ended", e.pos.pretty()+" instead of "+m.num("at").pretty())
		m.setN("at", e.to)
		m.setB("any", true)
		if e.ok {
			m.setN("count", k.addK(1))
		} else {
			m.setB("ok", false)
			m.set("err", e.v)
		}
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		if ok {
			m.ob(m.is("ok", true) && m.same(m.num("count"), konst(n)), "succeeds only if all reads succeeded", "")
			m.ob(m.same(pos, m.num("at")), "ends where the last read ended", pos.pretty())
		} else {
			m.ob(m.is("ok", false), "fails only if a read failed", "")
			m.ob(m.sameErr(err, m.get("err")), "returns the error of the read that failed", "")
			m.ob(m.same(pos, m.p0()), "is back at the start after a failure", pos.pretty())
		}
	}
}

func (m *Mon) sameErr(a, b Val) bool {
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if !ok1 || !ok2 {
		return false
	}
	return !x.isNil && !y.isNil && m.cur.vkey(x) == m.cur.vkey(y)
}

func repeatMon(m *Mon, sub subReader, many bool) {
	m.read = func(e Event) {
		m.ob(m.isRead(e, sub), "reads with its reader", e.recv)
		m.ob(m.is("ok", true) && m.lt(m.num("last"), m.num("at")), "repeats only after a read that moved", "")
		m.ob(m.same(e.pos, m.num("at")), "each read starts where the previous one ended", e.pos.pretty()+" instead of "+m.num("at").pretty())
		m.setN("last", e.pos)
		m.setN("at", e.to)
		m.setB("any", true)
		if !e.ok {
			m.setB("ok", false)
		}
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		m.ob(m.is("any", true), "reads at least once", "")
		m.ob(m.is("ok", false) || m.le(m.num("at"), m.num("last")), "repeats until the reader fails or does not move", "")
		m.ob(m.same(pos, m.num("at")), "ends where the last read ended", pos.pretty()+" instead of "+m.num("at").pretty())
		if !many {
			m.ob(ok, "always succeeds", "")
		} else if ok {
			m.ob(m.lt(m.p0(), pos), "succeeds only if something was consumed", "")
		} else {
			m.ob(m.le(pos, m.p0()), "fails only if nothing was consumed", "")
		}
	}
}

func timesMon(m *Mon, sub subReader, n Lin) {
	m.read = func(e Event) {
		m.ob(m.isRead(e, sub), "reads with its reader", e.recv)
		m.ob(m.is("ok", true), "reads nothing after a failed read", "")
		m.ob(m.lt(m.num("count"), n), "reads at most n times", "")
		m.ob(m.same(e.pos, m.num("at")), "each read starts where the previous one ended", e.pos.pretty()+" instead of "+m.num("at").pretty())
		m.setN("at", e.to)
		if e.ok {
			m.setN("count", m.num("count").addK(1))
		} else {
			m.setB("ok", false)
			m.set("err", e.v)
		}
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		if ok {
			m.ob(m.is("ok", true) && m.le(n, m.num("count")), "succeeds only after n successful reads", "count "+m.num("count").pretty())
			m.ob(m.same(pos, m.num("at")), "ends where the last read ended", pos.pretty())
		} else {
			m.ob(m.is("ok", false), "fails only if a read failed", "")
			m.ob(m.sameErr(err, m.get("err")), "returns the error of the read that failed", "")
			m.ob(m.same(pos, m.p0()), "is back at the start after a failure", pos.pretty())
		}
	}
}

func anyMon(m *Mon, subs []subReader) {
	n := int64(len(subs))
	m.read = func(e Event) {
		k := m.cur.norm(m.num("count"))
		m.ob(m.is("done", false), "stops at the first success", "")
		if m.ob(k.isConst() && k.c < n, "tries each reader once and in order", "more reads than readers") {
			m.ob(m.isRead(e, subs[k.c]), "tries each reader once and in order", fmt.Sprintf("read %d uses %s", k.c+1, e.recv))
		}
		m.ob(m.same(e.pos, m.p0()), "each read starts at the start", e.pos.pretty())
		m.setN("count", k.addK(1))
		m.setN("at", e.to)
		if e.ok {
			m.setB("done", true)
		}
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		if ok {
			m.ob(m.is("done", true), "succeeds only if a read succeeded", "")
			m.ob(m.same(pos, m.num("at")), "ends where the successful read ended", pos.pretty())
		} else {
			m.ob(m.is("done", false) && m.same(m.num("count"), konst(n)), "fails only if all reads failed", "")
			m.ob(m.same(pos, m.p0()), "is back at the start after a failure", pos.pretty())
		}
	}
}

func optMon(m *Mon, sub subReader) {
	m.read = func(e Event) {
		m.ob(m.isRead(e, sub), "reads with its reader", e.recv)
		m.ob(m.is("any", false), "reads once", "")
		m.ob(m.same(e.pos, m.p0()), "reads at the start", e.pos.pretty())
		m.setB("any", true)
		m.setN("at", e.to)
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		m.ob(m.is("any", true), "reads once", "")
		m.ob(ok, "always succeeds", "")
		m.ob(m.same(pos, m.num("at")), "ends where the read ended", pos.pretty())
	}
}

func checkC15(c *Ck) {
	max := 4
	if c.thorough {
		max = 7
	}
	c.bound = append(c.bound, fmt.Sprintf("lists of 0..%d sub readers with all outcomes of each; repetitions without bound", max))
	list := func(names []string, kinds []string) []subReader {
		r := []subReader{}
		for i := range names {
			r = append(r, c.sub(names[i], kinds[i]))
		}
		return r
	}
	emptyI := types.NewInterfaceType(nil, nil)
	lv := func(st *State, subs []subReader) Val {
		vs := []Val{}
		for _, s := range subs {
			vs = append(vs, s.v)
		}
		return listVal(st, emptyI, vs)
	}
	nest := c.nestBasic()
	// lists of readers, and lists with a rune and a string
	variants := [][]string{}
	for n := 0; n <= max; n++ {
		ks := []string{}
		for i := 0; i < n; i++ {
			ks = append(ks, "reader")
		}
		variants = append(variants, ks)
	}
	variants = append(variants, []string{"rune"}, []string{"string"}, []string{"reader", "string", "rune"})
	for _, ks := range variants {
		names := []string{}
		for i := range ks {
			names = append(names, fmt.Sprintf("sub%d", i+1))
		}
		subs := list(names, ks)
		nm := "(" + strings.Join(ks, ",") + ")"
		if rd := c.caseOf("Seq", func(in *Interp, st *State) []Val { return []Val{lv(st, subs)} }); rd != nil {
			c.monitor(rd, "Seq"+nm, func(m *Mon) { seqMon(m, subs) }, nest)
		}
		if rd := c.caseOf("Any", func(in *Interp, st *State) []Val { return []Val{lv(st, subs)} }); rd != nil {
			c.monitor(rd, "Any"+nm, func(m *Mon) { anyMon(m, subs) }, nest)
		}
		skip := c.sub("skip", "reader")
		all := []subReader{skip}
		for _, s := range subs {
			all = append(all, s, skip)
		}
		if rd := c.caseOf("SkipSeq", func(in *Interp, st *State) []Val { return []Val{skip.v, lv(st, subs)} }); rd != nil {
			c.monitor(rd, "SkipSeq"+nm, func(m *Mon) { seqMon(m, all) }, nest)
		}
	}
	for _, k := range []string{"reader", "rune", "string"} {
		s := c.sub("i", k)
		mk := func(in *Interp, st *State) []Val { return []Val{s.v} }
		if rd := c.caseOf("Zom", mk); rd != nil {
			c.monitor(rd, "Zom("+k+")", func(m *Mon) { repeatMon(m, s, false) }, nest)
		}
		if rd := c.caseOf("Many", mk); rd != nil {
			c.monitor(rd, "Many("+k+")", func(m *Mon) { repeatMon(m, s, true) }, nest)
		}
		if rd := c.caseOf("Opt", mk); rd != nil {
			c.monitor(rd, "Opt("+k+")", func(m *Mon) { optMon(m, s) }, nest)
		}
	}
	s := c.sub("r", "reader")
	n := symVal("n", types.Typ[types.Int])
	if rd := c.caseOf("Times", func(in *Interp, st *State) []Val { return []Val{n, s.v} }); rd != nil {
		c.monitor(rd, "Times", func(m *Mon) { timesMon(m, s, n.(Num).l) }, nest)
	}
	c.skipWS()
}

// skipWS: the skip reader of SkipWSSeq passes the maximal run of whitespace.
func (c *Ck) skipWS() {
	emptyI := types.NewInterfaceType(nil, nil)
	rd := c.caseOf("SkipWSSeq", func(in *Interp, st *State) []Val { return []Val{listVal(st, emptyI, nil)} })
	if rd == nil {
		return
	}
	rd.run(c)
	ws := func(r Lin) BoolV {
		return orB(eqB(r.addK(-' ')), eqB(r.addK(-'\r')), eqB(r.addK(-'\n')), eqB(r.addK(-'\t')))
	}
	c.ob(len(rd.reads) > 0, "SkipWSSeq", "makes a reader", "", nil)
	for _, r := range rd.reads {
		for _, o := range r.results(c) {
			c.ob(o.ok, "SkipWSSeq()", "succeeds without readers", "", o.st)
			c.ob((dirn{}).covers(r.in, o.st, r.text, r.p0, o.pos, r.L, true, ws), "SkipWSSeq()", "skips only whitespace", "", o.st)
			// the rune at the end is no whitespace
			good := true
			for _, d := range (dirn{}).decode(r.in, o.st.clone(), r.text, o.pos, r.L) {
				if !d.empty && !impossible(d.st, ws(d.r), true) {
					good = false
				}
			}
			c.ob(good, "SkipWSSeq()", "skips all whitespace", "stops at "+o.pos.pretty(), o.st)
		}
	}
}

// ------------------------------------------------------------------ lookahead

func atMon(m *Mon, sub subReader) {
	m.read = func(e Event) {
		m.ob(m.isRead(e, sub), "reads with its reader", e.recv)
		m.ob(m.is("any", false), "reads once", "")
		m.ob(m.same(e.pos, m.p0()), "reads at the start", e.pos.pretty())
		m.setB("any", true)
		m.setB("ok", e.ok)
		m.set("err", e.v)
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		m.ob(m.is("any", true), "reads once", "")
		m.ob(m.is("ok", ok), "succeeds iff its reader does", "")
		m.ob(m.same(pos, m.p0()), "does not move", pos.pretty())
	}
}

func notMon(m *Mon, sub subReader) {
	m.read = func(e Event) {
		m.ob(m.isRead(e, sub), "reads with its reader", e.recv)
		m.ob(m.is("any", false), "reads once", "")
		m.ob(m.same(e.pos, m.p0()), "reads at the start", e.pos.pretty())
		m.setB("any", true)
		m.setB("ok", e.ok)
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		for _, d := range (dirn{}).decode(m.in, st.clone(), m.run.text, m.p0(), m.run.L) {
			m.cur = d.st
			if ok {
				m.ob(m.is("any", true) && m.is("ok", false), "succeeds only if its reader fails", "")
				m.ob(!d.empty, "succeeds only if there is a rune", "")
				m.ob(m.same(pos, m.p0().add(d.w)), "moves over exactly one rune", pos.pretty())
			} else {
				m.ob(d.empty || m.is("any", true) && m.is("ok", true), "fails only if its reader succeeds or there is no rune", "")
				m.ob(m.same(pos, m.p0()), "is back at the start after a failure", pos.pretty())
			}
		}
	}
}

// next is the position behind the rune at l (a symbol without meaning at the end of the text).
func (m *Mon) next(l Lin) Lin {
	for _, d := range (dirn{}).decode(m.in, m.cur.clone(), m.run.text, l, m.run.L) {
		if !d.empty {
			return m.cur.norm(l).add(d.w)
		}
	}
	return symLin(freshSym("behind the end"))
}

// searchMon: sub is tried at each rune border from the start on, after is where the reader ends.
func searchMon(m *Mon, sub subReader, after string, body *subReader) {
	m.read = func(e Event) {
		if body != nil && e.recv == body.key {
			t := m.in.textOf(m.cur, e.obj)
			m.ob(m.is("done", true) && m.is("any", false), "reads the body once, after the tail was found", "")
			base := t.b == m.run.text
			m.ob(base && m.same(t.hi, m.num("last")), "the body sees the text up to the tail", "text up to "+t.hi.pretty()+" instead of "+m.num("last").pretty())
			m.ob(base && m.same(t.lo.add(e.pos), m.p0()), "the body starts at the start", "")
			m.setB("any", true)
			m.setB("ok", e.ok)
			m.setN("count", t.lo.add(e.to))
			return
		}
		m.ob(m.isRead(e, sub), "reads with its reader", e.recv)
		m.ob(e.obj == m.run.sc, "searches in the text", "")
		m.ob(m.is("done", false), "stops at the first success", "")
		m.ob(m.same(e.pos, m.num("at")), "tries every rune border in order", e.pos.pretty()+" instead of "+m.num("at").pretty())
		m.setN("last", e.pos)
		if e.ok {
			m.setB("done", true)
			m.setN("end", e.to)
		} else {
			m.setN("at", m.next(e.pos))
		}
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		want := m.num("last")
		if after == "end" {
			want = m.num("end")
		}
		consumed := body == nil || m.is("any", true) && m.is("ok", true) && m.same(m.num("count"), m.num("last"))
		if ok {
			m.ob(m.is("done", true), "succeeds only if there is a match", "")
			m.ob(m.same(pos, want), "ends at the place of the first match", pos.pretty()+" instead of "+want.pretty())
			m.ob(consumed, "succeeds only if the body consumes the text up to the tail", "")
		} else {
			m.ob(m.same(pos, m.p0()), "is back at the start after a failure", pos.pretty())
			if m.is("done", true) {
				m.ob(body != nil && m.is("any", true) && (m.is("ok", false) || !m.couldEqual(m.num("count"), m.num("last"))), "fails only if there is no match", "")
			} else {
				m.ob(m.is("done", false) && m.same(m.num("last"), m.run.L), "fails only after every place up to the end was tried", "last try at "+m.num("last").pretty())
			}
		}
	}
}

func (m *Mon) couldEqual(a, b Lin) bool { return !impossible(m.cur, eqB(a.sub(b)), true) }

func checkC16(c *Ck) {
	nest := c.nestBasic()
	one := func(ctor string, prepare func(m *Mon, s subReader)) {
		fn := c.p.tok.Func(ctor)
		kinds := []string{"reader"}
		if fn != nil && isEmptyIface(fn.Params[0].Type()) {
			kinds = append(kinds, "rune", "string")
		}
		for _, k := range kinds {
			s := c.sub("i", k)
			if rd := c.caseOf(ctor, func(in *Interp, st *State) []Val { return []Val{s.v} }); rd != nil {
				c.monitor(rd, ctor+"("+k+")", func(m *Mon) { prepare(m, s) }, nest)
			}
		}
	}
	one("At", func(m *Mon, s subReader) { atMon(m, s) })
	one("Not", func(m *Mon, s subReader) { notMon(m, s) })
	one("To", func(m *Mon, s subReader) { searchMon(m, s, "last", nil) })
	one("Past", func(m *Mon, s subReader) { searchMon(m, s, "end", nil) })
	for _, n := range []string{"Body", "BodyTail"} {
		body, tail := c.sub("body", "reader"), c.sub("tail", "reader")
		after := "last"
		if n == "BodyTail" {
			after = "end"
		}
		if rd := c.caseOf(n, func(in *Interp, st *State) []Val { return []Val{body.v, tail.v} }); rd != nil {
			c.monitor(rd, n, func(m *Mon) { searchMon(m, tail, after, &body) }, nest)
		}
	}
	if rd := c.caseOf("AtEnd", func(in *Interp, st *State) []Val { return nil }); rd != nil {
		rd.run(c)
		c.ob(len(rd.reads) > 0, "AtEnd", "makes a reader", "", nil)
		for _, r := range rd.reads {
			for _, o := range r.results(c) {
				c.ob(o.st.same(o.pos, r.p0), "AtEnd", "does not move", "", o.st)
				c.ob(impossible(o.st, eqB(r.p0.sub(r.L)), !o.ok), "AtEnd", "succeeds iff the scanner is at the end", "", o.st)
			}
		}
	}
}
