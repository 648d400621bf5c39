package main

import (
	"fmt"
	"go/types"
	"runtime"
	"strings"
	"sync"
	"unicode/utf8"
)

func init() {
	register("C24", "abstract evaluation of the grammar constructors to the tree of readers of each rule; names, rule lists and invalid readers are read off the result, endless recursion and empty repetitions are decided by a nullability and left-call analysis of the rules", 200, checkC24,
		"the constructors of package tok do what C04-C16 check")
	register("C25", "the rules are extracted as parsing expressions by abstract evaluation; each is compared with the JSON definition by a backwards automaton over all rune classes that decides equal consumption on every text, with the nested value as an arbitrary reader", 20, checkC25,
		"valid UTF-8 texts", "the constructors of package tok do what C04-C16 check")
	register("C26", "the lexical rules are extracted as parsing expressions by abstract evaluation; each is compared with the definition by a backwards automaton over all rune classes that decides equal consumption on every text", 20, checkC26,
		"valid UTF-8 texts", "long brackets up to level 3 (5 in the thorough tier)", "the constructors of package tok do what C04-C16 check")
	register("C27", "the rules are extracted as parsing expressions by abstract evaluation; each is compared with the definition by a backwards automaton over all rune classes that decides equal consumption and the same salt on every text, for salts of a fixed set and any history of the salt", 14, checkC27,
		"valid UTF-8 texts", "salts of a fixed set of strings, every other salt as one", "the constructors of package tok do what C04-C16 check")
}

// ------------------------------------------------------------------ C24

func checkC24(c *Ck) {
	for _, n := range []string{"JSON", "MXT", "Lua"} {
		if c.grammars()[n] == nil {
			c.fail(n, "is part of the interface", "function not found", nil)
		}
	}
	for _, n := range sortedKeys(c.grammars()) {
		g := c.grammar(n)
		if g == nil {
			continue
		}
		names := map[string]string{}
		isRule := func(i int) bool { return isTok(structFields(g.typ)[i].Type(), "Rule") }
		for i, r := range g.rules {
			if !isRule(i) {
				continue
			}
			subj := n + "." + r.field
			if c.ob(r.named, subj, "has a name that is known", "", nil) {
				c.ob(names[r.name] == "", subj, "has a name of its own", "also the name of "+names[r.name], nil)
				names[r.name] = r.field
				c.nameAccepted(subj, r.name)
			}
			c.ob(r.term != nil && !(r.term.op == "invalid" && r.term.why == "nil"), subj, "has a reader", "", nil)
			walkTerm(r.term, func(t *Term) {
				c.ob(t.op != "invalid", subj, "has no invalid reader", t.why, nil)
				if t.op == "ref" {
					c.ob(t.rule < len(g.rules) && isRule(t.rule), subj, "refers to rules of the grammar", "", nil)
				}
			})
		}
		c.ruleList(g, isRule)
		c.termination(g, isRule)
	}
}

func walkTerm(t *Term, f func(*Term)) {
	if t == nil {
		return
	}
	f(t)
	for _, s := range t.subs {
		walkTerm(s, f)
	}
}

func (c *Ck) nameAccepted(subj, name string) {
	c.guarded(subj, func() {
		in := c.interp()
		n := 0
		for _, o := range c.doCall(in, subj, c.p.tok.Func("CheckRuleName"), "CheckRuleName", []Val{constStr(name)}, in.newState()) {
			n++
			e, ok := o.rets[0].(Iface)
			c.ob(ok && e.isNil, subj, "has a name that the rule name check accepts", fmt.Sprintf("%q", name), o.st)
		}
		c.ob(n > 0, subj, "the rule name check returns", "", nil)
	})
}

// ruleList: Grammar gives all rules.
func (c *Ck) ruleList(g *Gram, isRule func(int) bool) {
	subj := g.name + ".Grammar"
	c.guarded(subj, func() {
		fn := c.p.prog.LookupMethod(types.NewPointer(g.typ), g.typ.Obj().Pkg(), "Grammar")
		outs := c.doCall(g.in, subj, fn, "Grammar", []Val{g.ptr}, g.st)
		c.ob(len(outs) == 1, subj, "returns", "", nil)
		for _, o := range outs {
			vs, ok := g.ex.list(o.st, o.rets[0])
			if !c.ob(ok, subj, "gives a list that is known", "", o.st) {
				continue
			}
			seen := map[string]bool{}
			for _, v := range vs {
				p, ok := v.(Ptr)
				c.ob(ok && p.obj == g.ptr.obj && !seen[p.path], subj, "gives each rule once", "", o.st)
				seen[p.path] = true
			}
			for i, r := range g.rules {
				if isRule(i) {
					c.ob(seen[r.ptr.path], subj, "gives all rules", r.field+" is missing", o.st)
				}
			}
		}
	})
}

func (c *Ck) termination(g *Gram, isRule func(int) bool) {
	// which rules can succeed without consuming input: least fixpoint
	null := make([]bool, len(g.rules))
	var nullable func(t *Term) bool
	nullable = func(t *Term) bool {
		return nullableTerm(t, func(i int) bool { return i < len(null) && null[i] }, nullable)
	}
	for changed := true; changed; {
		changed = false
		for i, r := range g.rules {
			if isRule(i) && r.term != nil && !null[i] && nullable(r.term) {
				null[i] = true
				changed = true
			}
		}
	}
	left := make([]map[int]bool, len(g.rules))
	for i, r := range g.rules {
		left[i] = map[int]bool{}
		if !isRule(i) || r.term == nil {
			continue
		}
		subj := g.name + "." + r.field
		walkTerm(r.term, func(t *Term) {
			if t.op == "zom" || t.op == "many" {
				c.ob(!nullable(t.subs[0]), subj, "repeats only what consumes input", t.subs[0].String(), nil)
			}
		})
		var calls func(t *Term)
		calls = func(t *Term) {
			switch t.op {
			case "ref":
				left[i][t.rule] = true
			case "seq":
				for _, s := range t.subs {
					calls(s)
					if !nullable(s) {
						return
					}
				}
			default:
				for _, s := range t.subs {
					calls(s)
				}
			}
		}
		calls(r.term)
	}
	for i, r := range g.rules {
		if !isRule(i) {
			continue
		}
		// is i reachable from itself without consuming?
		via := map[int]int{}
		work := []int{i}
		loop := ""
		for len(work) > 0 && loop == "" {
			x := work[0]
			work = work[1:]
			for y := range left[x] {
				if y == i {
					loop = r.field
					for z := x; z != i; z = via[z] {
						loop = g.rules[z].field + " > " + loop
					}
					loop = r.field + " > " + loop
					break
				}
				if _, ok := via[y]; !ok && y < len(left) {
					via[y] = x
					work = append(work, y)
				}
			}
		}
		c.ob(loop == "", g.name+"."+r.field, "does not reach itself without consuming input", loop, nil)
	}
}

// ------------------------------------------------------------------ comparison

// readTerm gives the expression that the Read method of the grammar reads with.
func (c *Ck) readTerm(g *Gram) *Term {
	var res *Term
	subj := g.name + ".Read"
	c.guarded(subj, func() {
		in := g.in
		g.ex.intercept(in)
		in.noEffects = true
		st := g.st.clone()
		st.ev = nil
		pt, p0, _, _ := c.symScanner(in, st)
		fn := c.p.prog.LookupMethod(types.NewPointer(g.typ), g.typ.Obj().Pkg(), "Read")
		outs := c.doCall(in, subj, fn, "Read", []Val{g.ptr, pt}, st)
		in.summary = nil
		c.ob(len(outs) > 0, subj, "returns", "", nil)
		for _, o := range outs {
			reads := []Event{}
			for _, e := range o.st.ev {
				if e.kind == "read" && e.obj == pt.obj {
					reads = append(reads, e)
				}
			}
			if !c.ob(len(reads) == 1, subj, "reads once", fmt.Sprintf("%d reads", len(reads)), o.st) {
				return
			}
			t := g.ex.term(o.st, reads[0].args[0])
			if res == nil {
				res = t
			}
			c.ob(t == res, subj, "reads with the same rule on all paths", "", o.st)
			c.ob(o.st.same(reads[0].pos, p0), subj, "reads at the start", "", o.st)
			c.ob(o.st.same(reads[0].to, in.posOf(o.st, pt.obj)), subj, "ends where the rule ends", "", o.st)
			for _, r := range splitOK(o.st.clone(), o.rets[0]) {
				c.ob(r.ok == reads[0].ok, subj, "succeeds exactly if the rule does", "", r.st)
			}
		}
	})
	return res
}

func (c *Ck) peg(g *Gram, subj string, cut int, first runeSet, caps []string, mk func(p *Peg) []pcheck) {
	c.pegSym(g, subj, cut, first, caps, nil, mk)
}

// pegSym: the rules in sym are read as one unit of the text.
func (c *Ck) pegSym(g *Gram, subj string, cut int, first runeSet, caps []string, sym []string, mk func(p *Peg) []pcheck) {
	c.guarded(subj, func() { c.pegReport(subj, pegRun(g, cut, first, caps, sym, mk)) })
}

type pegResult struct{ what, text, err string }

func (c *Ck) pegReport(subj string, r pegResult) {
	if r.err != "" {
		c.fail(subj, "can be compared with the definition", r.err, nil)
		return
	}
	c.ob(r.what == "", subj, "consumes exactly what is defined", fmt.Sprintf("%s: differs on the text %q (| marks where the reading may end)", r.what, strings.ReplaceAll(r.text, "¦", "|")), nil)
}

var pegSlots = make(chan bool, runtime.NumCPU())

func pegRun(g *Gram, cut int, first runeSet, caps []string, sym []string, mk func(p *Peg) []pcheck) (out pegResult) {
	defer func() {
		if e := recover(); e != nil {
			pe, ok := e.(pegErr)
			if !ok {
				panic(e)
			}
			out.err = string(pe)
		}
	}()
	ts := []*Term{}
	for _, r := range g.rules {
		if r.term != nil {
			_ = r.term.String()
		}
		ts = append(ts, r.term)
	}
	fresh := func() (*Peg, []pcheck) {
		p := newPeg(append([]*Term{}, ts...), cut, caps)
		for j, f := range sym {
			if i := g.rule(f); i >= 0 {
				null := p.nullable(ts[i])
				p.rules[i] = tSet(runeSet{{symBase + rune(j), symBase + rune(j)}})
				if null {
					p.rules[i] = tOpt(p.rules[i])
				}
			}
		}
		p.syms = sym
		p.nulCache = map[*Term]int{}
		if first != nil {
			p.cutFirst = first
		}
		return p, mk(p)
	}
	_, checks := fresh()
	res := make([]pegResult, len(checks))
	var wg sync.WaitGroup
	for i := range checks {
		p, cs := fresh()
		if cs[i].a == cs[i].b {
			continue
		}
		wg.Add(1)
		pegSlots <- true
		go func(i int) {
			defer func() {
				if e := recover(); e != nil {
					res[i].err = fmt.Sprint(e)
				}
				<-pegSlots
				wg.Done()
			}()
			res[i].what, res[i].text = p.explore(cs[i : i+1])
		}(i)
	}
	wg.Wait()
	for _, r := range res {
		if r.err != "" {
			return r
		}
		if out.what == "" {
			out = r
		}
	}
	return out
}

// compare checks a rule of a grammar against its definition.
func (c *Ck) compare(g *Gram, field string, ref *Term, cut int, first runeSet, caps []string) {
	i := g.rule(field)
	subj := g.name + "." + field
	if !c.ob(i >= 0 && g.rules[i].term != nil, subj, "is a rule", "", nil) {
		return
	}
	c.peg(g, subj, cut, first, caps, func(p *Peg) []pcheck {
		return p.equal(subj, g.rules[i].term, ref)
	})
}

func tRef(g *Gram, field string) *Term { return &Term{op: "ref", rule: g.rule(field)} }
func tNeg(t *Term) *Term               { return tOp("neg", t) }
func tChar() *Term                     { return tSet(anySet()) }
func tTimes(n int, t *Term) *Term {
	l := []*Term{}
	for i := 0; i < n; i++ {
		l = append(l, t)
	}
	return tSeq(l...)
}

// ------------------------------------------------------------------ C25

func checkC25(c *Ck) {
	g := c.grammar("JSON")
	if g == nil {
		return
	}
	cut := g.rule("Value")
	if !c.ob(cut >= 0, "JSON", "has a rule for values", "", nil) {
		return
	}
	value := tRef(g, "Value")
	ws := tZom(tRunes(" \t\n\r"))
	digit := tRange('0', '9')
	hex := tSet(runeSet{{'0', '9'}, {'a', 'f'}, {'A', 'F'}}.norm())
	escape := tAny(tRunes("\"\\/bfnrt"), tSeq(tRune('u'), tTimes(4, hex)))
	char := tAny(tSet(between(0x20, utf8.MaxRune).minus(setOf('"', '\\'))), tSeq(tRune('\\'), escape))
	str := tSeq(tRune('"'), tZom(char), tRune('"'))
	integer := tSeq(tOpt(tRune('-')), tAny(tRune('0'), tSeq(tRange('1', '9'), tZom(digit))))
	fraction := tOpt(tSeq(tRune('.'), digit, tZom(digit)))
	sign := tOpt(tRunes("+-"))
	exponent := tOpt(tSeq(tRunes("eE"), sign, digit, tZom(digit)))
	number := tSeq(integer, fraction, exponent)
	element := tSeq(ws, value, ws)
	array := tSeq(tRune('['), ws, tOpt(tSeq(value, ws, tZom(tSeq(tRune(','), ws, value, ws)))), tRune(']'))
	member := tSeq(ws, str, ws, tRune(':'), element)
	object := tSeq(tRune('{'), tAny(tSeq(ws, tRune('}')), tSeq(member, tZom(tSeq(tRune(','), member)), tRune('}'))))
	val := tAny(str, object, array, number, tLit("true"), tLit("false"), tLit("null"))
	first := setOf([]rune("\"{[-0123456789tfn")...)

	// what a value starts with, for any nested value
	c.peg(g, "JSON.Value starts", cut, nil, nil, func(p *Peg) []pcheck {
		res := []pcheck{}
		for _, env := range p.prepare(g.rules[cut].term) {
			res = append(res, pcheck{what: "starts like a value", a: p.pred(ppred{t: g.rules[cut].term, env: env, k: p.kont(pkont{kind: "true"})}), b: -1, only: first})
		}
		return res
	})
	for _, x := range []struct {
		field string
		ref   *Term
	}{
		{"Value", val}, {"Object", object}, {"Array", array}, {"String", str}, {"Number", number},
		{"Bool", tAny(tLit("true"), tLit("false"))}, {"Null", tLit("null")},
		{"Members", tSeq(member, tZom(tSeq(tRune(','), member)))}, {"Member", member}, {"Key", str},
		{"Elements", tSeq(element, tZom(tSeq(tRune(','), element)))}, {"Element", element},
		{"Characters", tZom(char)}, {"Character", char}, {"Escape", escape}, {"Hex", hex},
		{"Integer", integer}, {"Fraction", fraction}, {"Exponent", exponent}, {"OneNine", tRange('1', '9')},
		{"Digit", digit}, {"Digits", tSeq(digit, tZom(digit))}, {"Sign", sign}, {"WS", ws},
	} {
		c.compare(g, x.field, x.ref, cut, first, nil)
	}
	if t := c.readTerm(g); t != nil {
		c.peg(g, "JSON.Read", cut, first, nil, func(p *Peg) []pcheck { return p.equal("JSON.Read", t, element) })
	}
	c.primitives(g)
}

// ------------------------------------------------------------------ C26

// pairOf gives the begin/end pair of a term, or a new one.
func pairOf(t *Term) string {
	id := "reference"
	walkTerm(t, func(x *Term) {
		if x.op == "beg" && id == "reference" {
			id = x.id
		}
	})
	return id
}

func checkC26(c *Ck) {
	g := c.grammar("Lua")
	if g == nil {
		return
	}
	digit := tRange('0', '9')
	hex := tSet(runeSet{{'0', '9'}, {'a', 'f'}, {'A', 'F'}}.norm())
	letter := runeSet{{'a', 'z'}, {'A', 'Z'}, {'_', '_'}}.norm()
	wordEnd := tNeg(tSet(letter.union(between('0', '9'))))
	keyword := tAny()
	for _, k := range strings.Fields("and break do else elseif end false for function goto if in local nil not or repeat return then true until while") {
		keyword.subs = append(keyword.subs, tSeq(tLit(k), wordEnd))
	}
	name := tSeq(tNeg(keyword), tSet(letter), tZom(tSet(letter.union(between('0', '9')))))
	point := func(d *Term) *Term { return tOpt(tSeq(tRune('.'), d, tZom(d))) }
	exp := func(e string) *Term {
		return tOpt(tSeq(tRunes(e), tOpt(tRunes("+-")), digit, tZom(digit)))
	}
	numeral := tAny(
		tSeq(tRune('0'), tRunes("xX"), hex, tZom(hex), point(hex), exp("pP")),
		tSeq(digit, tZom(digit), point(digit), exp("eE")),
	)
	longest := func(ops ...string) *Term {
		t := tAny()
		for n := 3; n > 0; n-- {
			for _, o := range ops {
				if len(o) == n && letter.has(rune(o[0])) {
					t.subs = append(t.subs, tSeq(tLit(o), wordEnd))
				} else if len(o) == n {
					t.subs = append(t.subs, tLit(o))
				}
			}
		}
		return t
	}
	unop := longest("-", "not", "#", "~")
	binop := longest("+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or")
	caps := []string{"", "=", "==", "==="}
	if c.thorough {
		caps = append(caps, "====", "=====")
	}
	long := func(open string, id string) *Term {
		tail := tSeq(tRune(']'), &Term{op: "end", id: id}, tRune(']'))
		return tSeq(tLit(open), &Term{op: "beg", id: id, subs: []*Term{tZom(tRune('='))}}, tRune('['), tZom(tSeq(tNeg(tail), tChar())), tail)
	}
	nl := tAny(tLit("\r\n"), tLit("\n\r"), tRunes("\r\n"))
	escape := tSeq(tRune('\\'), tAny(
		tRunes("abfnrtv\\\"'"),
		nl,
		tSeq(tRune('z'), tZom(tRunes(" \t\n\r\v\f"))),
		tSeq(tRune('x'), hex, hex),
		tSeq(digit, tOpt(tSeq(digit, tOpt(digit)))),
		tSeq(tLit("u{"), hex, tZom(hex), tRune('}')),
	))
	short := func(q rune) *Term {
		return tSeq(tRune(q), tZom(tAny(escape, tSet(anySet().minus(setOf(q, '\\', '\n', '\r'))))), tRune(q))
	}
	lit := func(t *Term) *Term { return tAny(short('"'), short('\''), long("[", pairOf(t))) }
	comment := func(t *Term) *Term {
		return tAny(long("--[", pairOf(t)), tSeq(tLit("--"), tZom(tSet(anySet().minus(setOf('\n'))))))
	}
	term := func(field string) *Term {
		if i := g.rule(field); i >= 0 {
			return g.rules[i].term
		}
		return nil
	}
	c.compare(g, "Name", name, -1, nil, nil)
	c.compare(g, "Numeral", numeral, -1, nil, nil)
	c.compare(g, "UnOp", unop, -1, nil, nil)
	c.compare(g, "BinOp", binop, -1, nil, nil)
	c.compare(g, "FieldSep", tRunes(",;"), -1, nil, nil)
	c.compare(g, "LiteralString", lit(term("LiteralString")), -1, nil, caps)
	c.compare(g, "Comment", comment(term("Comment")), -1, nil, caps)
	// the functions that make readers of their own
	for _, x := range []struct {
		fn  string
		ref func(*Term) *Term
	}{{"LuaNumeral", func(*Term) *Term { return numeral }}, {"LuaString", lit}, {"LuaComment", comment}} {
		t := c.readerFunc(g, x.fn)
		if t == nil {
			continue
		}
		c.peg(g, x.fn, -1, nil, caps, func(p *Peg) []pcheck { return p.equal(x.fn, t, x.ref(t)) })
	}
	c.primitives(g)
}

// primitives: the readers a grammar is made of follow their definitions, which the comparison of the
// rules relies on.
func (c *Ck) primitives(g *Gram) {
	used := map[string]bool{"Rune": true, "Lit": true}
	for n := range g.ex.used {
		used[n] = true
	}
	ids := []string{"C07", "C09", "C15"}
	for _, n := range []string{"At", "AtEnd", "Not", "To", "Past", "Body", "BodyTail"} {
		if used[n] {
			ids = append(ids, "C16")
			break
		}
	}
	run := func(f func(*Ck)) {
		d := newCk(c.id, c.p)
		d.guarded("check", func() { f(d) })
		d.absorb()
		ctor := func(subj string) bool {
			if i := strings.IndexAny(subj, "( "); i >= 0 {
				subj = subj[:i]
			}
			return used[subj]
		}
		for s := range d.subjects {
			if ctor(s) {
				c.subjects[s] = true
			}
		}
		c.obls += d.obls
		c.done += d.done
		for f := range d.funcs {
			c.funcs[f] = true
		}
		for l := range d.loops {
			c.loops[l] = true
		}
		for _, v := range d.viols {
			if ctor(v.subject()) && !c.seenKeys["v:"+v.key] {
				c.seenKeys["v:"+v.key] = true
				c.viols = append(c.viols, v)
			} else {
				c.done++
			}
		}
	}
	for _, id := range ids {
		run(checks[id])
	}
	if used["Janus"] {
		run(func(d *Ck) { d.janusString() })
	}
}

// readerFunc evaluates a function of package grammar that makes a reader.
func (c *Ck) readerFunc(g *Gram, name string) *Term {
	fn := c.p.gram.Func(name)
	var t *Term
	c.guarded(name, func() {
		g.ex.intercept(g.in)
		outs := c.doCall(g.in, name, fn, name, nil, g.st.clone())
		g.in.summary = nil
		if c.ob(len(outs) == 1, name, "is built in one way", "", nil) {
			t = g.ex.term(outs[0].st, outs[0].rets[0])
		}
	})
	return t
}

// ------------------------------------------------------------------ C27

func checkC27(c *Ck) {
	g := c.grammar("MXT")
	if g == nil {
		return
	}
	id := "reference"
	for _, r := range g.rules {
		if r.term != nil && id == "reference" {
			id = pairOf(r.term)
		}
	}
	caps := []string{"", "a", "ab"}
	if c.thorough {
		caps = append(caps, "/")
	}
	// Each definition refers to the rules that are compared before it.
	prev := map[string]bool{}
	rule := func(field string) *Term {
		if !prev[field] {
			panic("reference to a rule that was not compared: " + field)
		}
		return tRef(g, field)
	}
	cmp := func(field string, ref *Term) {
		c.compare(g, field, ref, -1, nil, caps)
		prev[field] = true
	}
	for _, f := range []string{"WordChar", "Word", "NL", "Marker", "Name", "Arrow", "Comment", "Salt", "Header", "NextMarker", "Content", "EmptyContent", "Chunk", "Chunks"} {
		if !c.ob(g.rule(f) >= 0, "MXT."+f, "is a rule", "", nil) {
			return
		}
	}
	end := tNeg(tChar())
	cmp("WordChar", tRange(0x21, utf8.MaxRune))
	wordchar := rule("WordChar")
	cmp("Word", tMany(wordchar))
	word := rule("Word")
	cmp("NL", tAny(tLit("\n"), tLit("\r\n")))
	nl := rule("NL")
	cmp("Marker", tSeq(tLit("//"), tZom(wordchar)))
	cmp("Name", word)
	cmp("Arrow", tSeq(tZom(tSeq(tNeg(tLit("-->")), wordchar)), tLit("-->")))
	arrow := rule("Arrow")
	cmp("Comment", tSeq(tZom(tSeq(tNeg(arrow), tChar())), tOp("at", arrow)))
	spaces := tMany(tRune(' '))
	capture := &Term{op: "beg", id: id, subs: []*Term{tOpt(word)}}
	cmp("Salt", tSeq(spaces, capture, tZom(tRune(' '))))
	cmp("Header", tSeq(rule("Marker"), spaces, rule("Name"), rule("Comment"), arrow, tAny(rule("Salt"), tSeq(tOp("at", tAny(nl, end)), capture))))
	cmp("NextMarker", tSeq(nl, tLit("//"), &Term{op: "end", id: id}))
	next := rule("NextMarker")
	cmp("Content", tZom(tSeq(tNeg(next), tChar())))
	cmp("EmptyContent", tAny(end, tOp("at", next)))
	cmp("Chunk", tSeq(rule("Header"), tAny(rule("EmptyContent"), tSeq(nl, rule("Content")))))
	cmp("Chunks", tSeq(rule("Chunk"), tZom(tSeq(nl, rule("Chunk")))))
	if t := c.readTerm(g); t != nil {
		c.peg(g, "MXT.Read", -1, nil, caps, func(p *Peg) []pcheck { return p.equal("MXT.Read", t, rule("Chunks")) })
	}
	c.primitives(g)
}
