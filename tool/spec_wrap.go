package main

import (
	"fmt"
	"go/types"
)

func init() {
	register("C14", "reference monitors over the abstract interpretation of the wrapping readers: the read of the wrapped reader, the calls of the map function and the content of the basket are checked for a wrapped reader with arbitrary outcomes that picks itself", 60, checkC14,
		"the wrapped reader restores on failure and moves forward on success")
	register("C23", "abstract interpretation of nested and repeated monitored reads with arbitrary leaf readers; the entries of the log are compared with the reads that took place, for every way in which appending moves the entries", 100, checkC23,
		"the wrapped readers restore on failure and move forward on success")
}

// wrapMon: the wrapped reader is read once at the start and decides the result.
func wrapMon(m *Mon, sub subReader) {
	m.read = func(e Event) {
		m.ob(m.isRead(e, sub) && e.obj == m.run.sc, "reads with the wrapped reader", e.recv)
		m.ob(m.is("any", false), "reads once", "")
		m.ob(m.same(e.pos, m.p0()), "reads at the start", e.pos.pretty())
		m.setB("any", true)
		m.setB("ok", e.ok)
		m.setN("at", e.to)
		m.set("err", e.v)
	}
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		m.ob(m.is("any", true), "reads once", "")
		m.ob(m.same(pos, m.num("at")), "leaves the scanner where the wrapped reader left it", pos.pretty())
		if ok {
			m.ob(m.is("ok", true), "succeeds only if the wrapped reader does", "")
		} else {
			m.ob(m.is("ok", false) && m.sameErr(err, m.get("err")), "returns the error of the wrapped reader", "")
		}
	}
}

// mapMon: the map function is called once after a successful read with the token of the read.
func mapMon(m *Mon, sub subReader, f string) {
	wrapMon(m, sub)
	m.other = func(e Event) {
		if e.kind != "map" || e.recv != f {
			return
		}
		m.ob(m.is("any", true) && m.is("ok", true), "calls the function only after a successful read", "")
		m.ob(m.is("done", false), "calls the function once", "")
		m.setB("done", true)
		good := false
		if len(e.args) == 1 {
			if t, ok := e.args[0].(StructV); ok && len(t.f) == 2 {
				a, ok1 := t.f[0].(Num)
				b, ok2 := t.f[1].(Num)
				good = ok1 && ok2 && m.same(a.l, m.p0()) && m.same(b.l, m.num("at"))
			}
		}
		m.ob(good, "the token covers exactly what was read", "")
	}
	ret := m.ret
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		ret(st, ok, err, pos)
		m.ob(m.is("done", ok), "calls the function exactly after a successful read", "")
	}
}

// pickMon: after a successful read the segment is in the basket, behind what the wrapped reader picked.
func (c *Ck) pickMon(m *Mon, sub subReader, basket *Val, first, nested *segV, info Str) {
	wrapMon(m, sub)
	ret := m.ret
	m.ret = func(st *State, ok bool, err Val, pos Lin) {
		ret(st, ok, err, pos)
		want := []segV{*first}
		if ok {
			want = append(want, *nested, segV{info: info, from: m.p0(), to: m.num("at")})
		}
		for _, o := range c.doCall(m.in, m.subj, c.methodOf("Basket", "Picked"), "Basket.Picked", []Val{*basket}, st) {
			c.lists(m.subj, o.st, o.rets[0], 4, func(st *State, es []Val) {
				if !c.ob(len(es) == len(want), m.subj, "adds exactly one segment after a success and none after a failure", fmt.Sprintf("%d segments instead of %d", len(es), len(want)), st) {
					return
				}
				for i := range es {
					g, good := c.segOf(st, es[i])
					clause := "leaves the other segments as they are"
					if i == len(es)-1 && ok {
						clause = "the segment carries the information and covers exactly what was read"
					}
					c.ob(good && c.sameSeg(st, g, want[i]), m.subj, clause, "", st)
				}
			})
		}
	}
}

// newRule makes a rule with an opaque reader.
func (c *Ck) newRule(st *State, name string) (Ptr, Str, subReader) {
	sub := c.sub(name+" reader", "reader")
	id := st.alloc(name, c.p.typ("Rule"))
	nm := symStr(name + " name")
	for i, f := range structFields(c.p.typ("Rule")) {
		p := Ptr{obj: id, path: fmt.Sprintf(".%d", i)}
		switch f.Name() {
		case "Name":
			st.store(p, nm)
		case "Reader":
			st.store(p, sub.v)
		}
	}
	return Ptr{obj: id}, nm, sub
}

func checkC14(c *Ck) {
	quiet := func(in *Interp) { in.noEffects = true }
	reader := func(subj string, mk func(in *Interp, st *State) []Made, prepare func(m *Mon), set ...func(*Interp)) {
		rd := &ReaderCase{name: subj, ctor: subj, build: mk}
		c.monitor(rd, subj, prepare, append([]func(*Interp){quiet}, set...)...)
	}
	ctor := func(in *Interp, st *State, subj, name string, args ...Val) []Made {
		res := []Made{}
		for _, o := range c.doCall(in, subj, c.p.tok.Func(name), name, args, st) {
			res = append(res, Made{st: o.st, v: asIface(o.rets[0], c.p.typ("Reader"))})
		}
		return res
	}
	mapFn := FuncV{sym: "f", typ: c.p.typ("MapFunc")}
	sub := c.sub("r", "reader")
	reader("Map", func(in *Interp, st *State) []Made { return ctor(in, st, "Map", "Map", sub.v, mapFn) }, func(m *Mon) { mapMon(m, sub, "f") })
	reader("Named", func(in *Interp, st *State) []Made { return ctor(in, st, "Named", "Named", symStr("name"), sub.v) }, func(m *Mon) { wrapMon(m, sub) })
	reader("Monitor", func(in *Interp, st *State) []Made {
		return ctor(in, st, "Monitor", "Monitor", sub.v, Ptr{obj: st.alloc("log", c.p.typ("Log"))}, symStr("info"))
	}, func(m *Mon) { wrapMon(m, sub) })

	// baskets: the wrapped reader picks a segment when it succeeds
	var basket Val
	var first, nested segV
	picks := func(in *Interp) {
		in.readEffect = func(st *State, name string, ok bool) {
			if !ok || basket == nil {
				return
			}
			fn := c.methodOf("Basket", "Add")
			if fn == nil {
				return
			}
			for _, o := range in.call(fn, []Val{basket, nested.v}, nil, st.clone()) {
				if o.panic == "" {
					*st = *o.st
					return
				}
			}
		}
	}
	newBasket := func(in *Interp, subj string, st *State) []*State {
		p := Ptr{obj: st.alloc("basket", c.p.typ("Basket"))}
		basket = p
		first, nested = c.symSeg(st, "first"), c.symSeg(st, "nested")
		res := []*State{}
		for _, o := range c.doCall(in, subj, c.methodOf("Basket", "Add"), "Basket.Add", []Val{p, first.v}, st) {
			res = append(res, o.st)
		}
		return res
	}
	reader("Pick", func(in *Interp, st *State) []Made {
		res := []Made{}
		for _, s := range newBasket(in, "Pick", st) {
			res = append(res, ctor(in, s, "Pick", "Pick", sub.v, basket, symStr("info"))...)
		}
		return res
	}, func(m *Mon) { c.pickMon(m, sub, &basket, &first, &nested, symStr("info")) }, picks)

	// rules
	ptrRule := types.NewPointer(c.p.typ("Rule"))
	asRule := func(p Ptr, outs []Outcome) []Made {
		res := []Made{}
		for _, o := range outs {
			res = append(res, Made{st: o.st, v: Iface{dyn: ptrRule, v: p}})
		}
		return res
	}
	var rname Str
	var rsub subReader
	reader("Rule", func(in *Interp, st *State) []Made {
		p, n, s := c.newRule(st, "rule")
		rname, rsub = n, s
		return []Made{{st: st, v: Iface{dyn: ptrRule, v: p}}}
	}, func(m *Mon) { wrapMon(m, rsub) })
	reader("Rule.Map", func(in *Interp, st *State) []Made {
		p, n, s := c.newRule(st, "rule")
		rname, rsub = n, s
		return asRule(p, c.doCall(in, "Rule.Map", c.methodOf("Rule", "Map"), "Rule.Map", []Val{p, mapFn}, st))
	}, func(m *Mon) { mapMon(m, rsub, "f") })
	reader("Rule.Monitor", func(in *Interp, st *State) []Made {
		p, n, s := c.newRule(st, "rule")
		rname, rsub = n, s
		return asRule(p, c.doCall(in, "Rule.Monitor", c.methodOf("Rule", "Monitor"), "Rule.Monitor", []Val{p, Ptr{obj: st.alloc("log", c.p.typ("Log"))}}, st))
	}, func(m *Mon) { wrapMon(m, rsub) })
	reader("Rule.Pick", func(in *Interp, st *State) []Made {
		p, n, s := c.newRule(st, "rule")
		rname, rsub = n, s
		res := []Made{}
		for _, t := range newBasket(in, "Rule.Pick", st) {
			res = append(res, asRule(p, c.doCall(in, "Rule.Pick", c.methodOf("Rule", "Pick"), "Rule.Pick", []Val{p, basket}, t))...)
		}
		return res
	}, func(m *Mon) { c.pickMon(m, rsub, &basket, &first, &nested, rname) }, picks)
	// all rules of a list
	for k := 0; k < 2; k++ {
		k := k
		subj := fmt.Sprintf("Basket.PickWith, rule %d of 2", k+1)
		reader(subj, func(in *Interp, st *State) []Made {
			ps := []Val{}
			var use Ptr
			for i := 0; i < 2; i++ {
				p, n, s := c.newRule(st, fmt.Sprintf("rule%d", i+1))
				if i == k {
					rname, rsub, use = n, s, p
				}
				ps = append(ps, p)
			}
			res := []Made{}
			for _, t := range newBasket(in, subj, st) {
				l := listVal(t, ptrRule, ps)
				res = append(res, asRule(use, c.doCall(in, subj, c.methodOf("Basket", "PickWith"), "Basket.PickWith", []Val{basket, l}, t))...)
			}
			return res
		}, func(m *Mon) { c.pickMon(m, rsub, &basket, &first, &nested, rname) }, picks)
	}
	c.grammarBasket(reader, picks, &basket, &first, &nested)
}

// grammarBasket: a basket for a grammar gets the segments of all rules of the grammar.
func (c *Ck) grammarBasket(reader func(subj string, mk func(in *Interp, st *State) []Made, prepare func(m *Mon), set ...func(*Interp)), picks func(*Interp), basket *Val, first, nested *segV) {
	ptrRule := types.NewPointer(c.p.typ("Rule"))
	subj := "Scanner.NewBasketFor"
	var rname Str
	var rsub subReader
	reader(subj, func(in *Interp, st *State) []Made {
		p, n, s := c.newRule(st, "rule")
		rname, rsub = n, s
		in.grammarOf = map[string]Val{"g": listVal(st, ptrRule, []Val{p})}
		sc := symVal("s2", ptrTo(c.p.tok.Type("Scanner").Type())).(Ptr)
		res := []Made{}
		for _, o := range c.doCall(in, subj, c.methodOf("Scanner", "NewBasketFor"), subj, []Val{sc, Iface{sym: "g", nn: true}}, st) {
			*basket = o.rets[0]
			*first, *nested = c.symSeg(o.st, "first"), c.symSeg(o.st, "nested")
			for _, q := range c.doCall(in, subj, c.methodOf("Basket", "Add"), "Basket.Add", []Val{*basket, first.v}, o.st) {
				res = append(res, Made{st: q.st, v: Iface{dyn: ptrRule, v: p}})
			}
		}
		return res
	}, func(m *Mon) { c.pickMon(m, rsub, basket, first, nested, rname) }, picks)
}

// --------------------------------------------------------------------- C23

type logEntry struct {
	enter, exit Lin
	level       int64
	info        Str
	err         Val
}

// wantTree describes a reader that is made of monitored readers and opaque leafs.
type monTree struct {
	info string // monitored with this information
	leaf string // an opaque reader
	comb string // Seq, Any
	sub  []*monTree
}

// expect replays the reads of the leafs on the tree: it appends the entries to *log and gives the
// end position and the error.
func (t *monTree) expect(evs *[]Event, at Lin, depth int64, log *[]*logEntry, in *Interp) (end Lin, err Val, ok bool) {
	nilErr := Val(Iface{isNil: true})
	if t.info != "" {
		e := &logEntry{enter: at, level: depth + 1, info: symStr(t.info)}
		*log = append(*log, e)
		e.exit, e.err, ok = t.sub[0].expect(evs, at, depth+1, log, in)
		return e.exit, e.err, ok
	}
	switch t.comb {
	case "Seq":
		cur := at
		for _, s := range t.sub {
			end, err, ok := s.expect(evs, cur, depth, log, in)
			if !ok {
				return end, err, false
			}
			if !(err.(Iface)).isNil {
				return at, err, true
			}
			cur = end
		}
		return cur, nilErr, true
	case "Opt":
		end, err, ok := t.sub[0].expect(evs, at, depth, log, in)
		if ok && !(err.(Iface)).isNil {
			return at, nilErr, true
		}
		return end, nilErr, ok
	}
	if len(*evs) == 0 || (*evs)[0].recv != t.leaf {
		return at, nilErr, false
	}
	e := (*evs)[0]
	*evs = (*evs)[1:]
	return e.to, e.v, true
}

func checkC23(c *Ck) {
	mon := func(info string, s *monTree) *monTree { return &monTree{info: info, sub: []*monTree{s}} }
	leaf := func(n string) *monTree { return &monTree{leaf: n} }
	comb := func(n string, s ...*monTree) *monTree { return &monTree{comb: n, sub: s} }
	trees := map[string]*monTree{
		"one monitored reader":                mon("a", leaf("x")),
		"two nested monitored readers":        mon("a", mon("b", leaf("x"))),
		"three nested monitored readers":      mon("a", mon("b", mon("c", leaf("x")))),
		"a monitored sequence":                mon("a", comb("Seq", mon("b", leaf("x")), mon("c", leaf("y")))),
		"a sequence of monitored readers":     comb("Seq", mon("b", leaf("x")), mon("c", leaf("y"))),
		"an option in a monitored sequence":   mon("a", comb("Seq", comb("Opt", mon("b", leaf("x"))), mon("c", leaf("y")))),
		"a monitored option of nested reads":  mon("a", comb("Opt", mon("b", mon("c", leaf("x"))))),
		"a deep read before a shallow read":   comb("Seq", mon("a", mon("b", leaf("x"))), mon("c", leaf("y"))),
		"nested reads on both sides of a seq": mon("a", comb("Seq", mon("b", mon("c", leaf("x"))), mon("d", leaf("y")))),
	}
	names := sortedKeys(trees)
	c.bound = append(c.bound, "nesting of up to three monitored reads, up to four entries per read, two reads with the same log; every outcome of each leaf; every pattern of moves of the entries")
	for _, n := range names {
		reads := 2
		if n == names[0] || c.thorough {
			reads = 2
		}
		pats := []int64{0, 0xff, 0x55, 0xaa}
		if c.thorough {
			pats = nil
			for p := int64(0); p < 256; p++ {
				pats = append(pats, p)
			}
		} else {
			for i := uint(0); i < 6; i++ {
				pats = append(pats, 1<<i)
			}
		}
		for _, p := range pats {
			c.logCase(n, trees[n], reads, p)
		}
	}
	c.ruleMonitors()
}

// makeTree builds the reader of the tree.
func (c *Ck) makeTree(in *Interp, subj string, t *monTree, log Val, st *State) []Made {
	if t.leaf != "" {
		return []Made{{st: st, v: c.sub(t.leaf, "reader").v.(Iface)}}
	}
	type part struct {
		st *State
		vs []Val
	}
	parts := []part{{st, nil}}
	for _, s := range t.sub {
		next := []part{}
		for _, p := range parts {
			for _, m := range c.makeTree(in, subj, s, log, p.st) {
				next = append(next, part{m.st, append(p.vs[:len(p.vs):len(p.vs)], m.v)})
			}
		}
		parts = next
	}
	res := []Made{}
	for _, p := range parts {
		var outs []Outcome
		switch {
		case t.info != "":
			outs = c.doCall(in, subj, c.p.tok.Func("Monitor"), "Monitor", []Val{p.vs[0], log, symStr(t.info)}, p.st)
		case t.comb == "Opt":
			outs = c.doCall(in, subj, c.p.tok.Func("Opt"), "Opt", []Val{p.vs[0]}, p.st)
		default:
			outs = c.doCall(in, subj, c.p.tok.Func(t.comb), t.comb, []Val{listVal(p.st, types.NewInterfaceType(nil, nil), p.vs)}, p.st)
		}
		for _, o := range outs {
			res = append(res, Made{st: o.st, v: asIface(o.rets[0], c.p.typ("Reader"))})
		}
	}
	return res
}

func (c *Ck) logCase(name string, t *monTree, reads int, pat int64) {
	in := c.interp()
	in.noEffects = true
	in.maxRec = 8
	in.copyAppend = func(n int64) bool { return n < 62 && pat&(1<<uint(n)) != 0 }
	c.guarded(name, func() {
		st := in.newState()
		pt, p0, _, _ := c.symScanner(in, st)
		log := Ptr{obj: st.alloc("log", c.p.typ("Log"))}
		made := c.makeTree(in, name, t, log, st)
		c.ob(len(made) > 0, name, "makes a reader", "", nil)
		type run struct {
			st   *State
			at   Lin
			want []*logEntry
		}
		for _, md := range made {
			runs := []run{{md.st, p0, nil}}
			for k := 0; k < reads; k++ {
				next := []run{}
				for _, r := range runs {
					s := r.st.clone()
					s.ev = nil
					for _, o := range in.invoke(md.v, c.readMethod(), []Val{pt}, s, 0, c.p.tok.Func("init")) {
						if o.st.dead {
							continue
						}
						if o.panic != "" {
							c.fail(name, "does not panic at "+o.panic, "", o.st)
							continue
						}
						evs := []Event{}
						for _, e := range o.st.ev {
							if e.kind == "read" {
								evs = append(evs, e)
							}
						}
						want := append([]*logEntry(nil), r.want...)
						end, err, ok := t.expect(&evs, r.at, 0, &want, in)
						if !c.ob(ok && len(evs) == 0, name, "reads the readers in their order", "", o.st) {
							continue
						}
						_ = err
						c.logIs(name, in, o.st, log, want)
						next = append(next, run{o.st, end, want})
					}
				}
				runs = next
			}
		}
	})
	c.absorb()
}

// logIs compares the entries of the log.
func (c *Ck) logIs(subj string, in *Interp, st *State, log Ptr, want []*logEntry) {
	var es Val
	for i, f := range structFields(c.p.typ("Log")) {
		if f.Name() == "Entries" {
			es = st.load(Ptr{obj: log.obj, path: fmt.Sprintf(".%d", i)})
		}
	}
	c.lists(subj, st, es, len(want)+1, func(st *State, vs []Val) {
		if !c.ob(len(vs) == len(want), subj, "there is one entry for each monitored read", fmt.Sprintf("%d entries instead of %d", len(vs), len(want)), st) {
			return
		}
		for i, v := range vs {
			w := want[i]
			s, ok := v.(StructV)
			if !c.ob(ok, subj, "the entries are known", "", st) {
				continue
			}
			for k, f := range structFields(c.p.typ("LogEntry")) {
				n, _ := s.f[k].(Num)
				switch f.Name() {
				case "EnterAt":
					c.ob(st.same(n.l, w.enter), subj, "the enter position is that of the read", fmt.Sprintf("entry %d: %s", i, n.l.pretty()), st)
				case "ExitAt":
					c.ob(st.same(n.l, w.exit), subj, "the exit position is that of the read", fmt.Sprintf("entry %d: %s instead of %s", i, st.norm(n.l).pretty(), st.norm(w.exit).pretty()), st)
				case "Level":
					c.ob(st.same(n.l, konst(w.level)), subj, "the level is the nesting depth", fmt.Sprintf("entry %d: %s instead of %d", i, n.l.pretty(), w.level), st)
				case "Info":
					c.ob(st.vkey(s.f[k]) == st.vkey(w.info), subj, "the information is that of the monitored reader", "", st)
				case "Error":
					a, ok1 := s.f[k].(Iface)
					b, ok2 := w.err.(Iface)
					if _, isNil := s.f[k].(NilV); isNil {
						a, ok1 = Iface{isNil: true}, true
					}
					c.ob(ok1 && ok2 && (a.isNil && b.isNil || !a.isNil && !b.isNil && st.vkey(a) == st.vkey(b)), subj, "the result is that of the read", fmt.Sprintf("entry %d", i), st)
				}
			}
		}
	})
}

// ruleMonitors: rules are monitored under their name.
func (c *Ck) ruleMonitors() {
	ptrRule := types.NewPointer(c.p.typ("Rule"))
	run := func(subj string, n int, mk func(in *Interp, st *State, ps []Val) []Outcome, logOf func(o Outcome) (Ptr, bool)) {
		for k := 0; k < n; k++ {
			in := c.interp()
			in.noEffects = true
			c.guarded(subj, func() {
				st := in.newState()
				pt, p0, _, _ := c.symScanner(in, st)
				ps := []Val{}
				var nm Str
				var sub subReader
				for i := 0; i < n; i++ {
					p, a, s := c.newRule(st, fmt.Sprintf("rule%d", i+1))
					if i == k {
						nm, sub = a, s
					}
					ps = append(ps, p)
				}
				outs := mk(in, st, ps)
				c.ob(len(outs) > 0, subj, "returns", "", nil)
				for _, o := range outs {
					l, ok := logOf(o)
					if !c.ob(ok, subj, "gives a log", "", o.st) {
						continue
					}
					o.st.ev = nil
					for _, r := range in.invoke(Iface{dyn: ptrRule, v: ps[k]}, c.readMethod(), []Val{pt}, o.st, 0, c.p.tok.Func("init")) {
						if r.panic != "" || r.st.dead {
							continue
						}
						for _, e := range r.st.ev {
							if e.kind == "read" && e.recv == sub.key {
								c.logIs(subj, in, r.st, l, []*logEntry{{enter: p0, exit: e.to, level: 1, info: nm, err: e.v}})
							}
						}
					}
				}
			})
			c.absorb()
		}
	}
	var log Ptr
	have := func(o Outcome) (Ptr, bool) { return log, true }
	run("Rule.Monitor", 1, func(in *Interp, st *State, ps []Val) []Outcome {
		log = Ptr{obj: st.alloc("log", c.p.typ("Log"))}
		return c.doCall(in, "Rule.Monitor", c.methodOf("Rule", "Monitor"), "Rule.Monitor", []Val{ps[0], log}, st)
	}, have)
	run("Log.Monitor", 3, func(in *Interp, st *State, ps []Val) []Outcome {
		log = Ptr{obj: st.alloc("log", c.p.typ("Log"))}
		return c.doCall(in, "Log.Monitor", c.methodOf("Log", "Monitor"), "Log.Monitor", []Val{log, listVal(st, ptrRule, ps)}, st)
	}, have)
	run("MonitorGrammar", 3, func(in *Interp, st *State, ps []Val) []Outcome {
		in.grammarOf = map[string]Val{"g": listVal(st, ptrRule, ps)}
		return c.doCall(in, "MonitorGrammar", c.p.tok.Func("MonitorGrammar"), "MonitorGrammar", []Val{Iface{sym: "g", nn: true}}, st)
	}, func(o Outcome) (Ptr, bool) { p, ok := o.rets[0].(Ptr); return p, ok })
	// a reset log is empty and starts again with the first level
	subj := "Log.Reset"
	in := c.interp()
	in.noEffects = true
	c.guarded(subj, func() {
		st := in.newState()
		pt, p0, _, _ := c.symScanner(in, st)
		l := Ptr{obj: st.alloc("log", c.p.typ("Log"))}
		t := &monTree{info: "a", sub: []*monTree{{leaf: "x"}}}
		for _, md := range c.makeTree(in, subj, t, l, st) {
			for _, o := range in.invoke(md.v, c.readMethod(), []Val{pt}, md.st.clone(), 0, c.p.tok.Func("init")) {
				if o.panic != "" || o.st.dead {
					continue
				}
				for _, r := range c.doCall(in, subj, c.methodOf("Log", "Reset"), subj, []Val{l}, o.st) {
					c.logIs(subj, in, r.st, l, nil)
				}
			}
		}
		_ = p0
	})
	c.absorb()
}
