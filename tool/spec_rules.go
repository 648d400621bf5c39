package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

func init() {
	register("C34", "abstract interpretation of the functions that name, collect, check and connect the rules of a grammar: the rule name check on a symbolic name (loop summaries over its runes), the reflective functions on struct types of every combination of field kinds, the check and the connecting functions on lists of rules", 300, checkC34,
		"a grammar is a pointer to a struct; rules are distinct")
}

// ruleField is a kind of a field in the struct of a grammar.
type ruleField struct {
	what string
	name string // the field name, lower case for unexported
	typ  string
	tag  string
	emb  bool
	rule bool // it is a rule of the grammar
}

var ruleFields = []ruleField{
	{what: "rule", name: "A", typ: "Rule", tag: `name:"a%d"`, rule: true},
	{what: "rule with a long name", name: "A", typ: "Rule", tag: `json:"x" name:"A9+-._%d" xml:"y"`, rule: true},
	{what: "rule with an invalid name", name: "A", typ: "Rule", tag: `name:"%da"`, rule: true},
	{what: "rule with an invalid end", name: "A", typ: "Rule", tag: `name:"a%d "`, rule: true},
	{what: "rule with an empty name", name: "A", typ: "Rule", tag: `name:""`, rule: true},
	{what: "rule without a tag", name: "A", typ: "Rule", rule: true},
	{what: "rule with another tag", name: "A", typ: "Rule", tag: `json:"b%d"`, rule: true},
	{what: "embedded rule", name: "Rule", typ: "Rule", tag: `name:"c%d"`, emb: true, rule: true},
	{what: "unexported rule", name: "a", typ: "Rule", tag: `name:"d%d"`},
	{what: "pointer to a rule", name: "A", typ: "*Rule", tag: `name:"e%d"`},
	{what: "string", name: "A", typ: "string", tag: `name:"f%d"`},
	{what: "unexported number", name: "a", typ: "int"},
	{what: "struct with a name", name: "A", typ: "struct", tag: `name:"1%d"`},
	{what: "type like a rule", name: "A", typ: "like", tag: `name:"g%d"`},
	{what: "reader", name: "A", typ: "Reader", tag: `name:"h%d"`},
}

// grammarStruct makes a struct type with the fields and an object of it.
func (c *Ck) grammarStruct(st *State, fs []ruleField) (Iface, []string) {
	pkg := types.NewPackage("example/g", "g")
	rule := c.p.typ("Rule")
	vars := []*types.Var{}
	tags := []string{}
	for i, f := range fs {
		var t types.Type
		switch f.typ {
		case "Rule":
			t = rule
		case "*Rule":
			t = types.NewPointer(rule)
		case "string":
			t = types.Typ[types.String]
		case "int":
			t = types.Typ[types.Int]
		case "Reader":
			t = c.p.typ("Reader")
		case "like":
			t = types.NewNamed(types.NewTypeName(token.NoPos, pkg, "Like", nil), rule.Underlying(), nil)
		case "struct":
			t = types.NewStruct([]*types.Var{types.NewField(token.NoPos, pkg, "Name", types.Typ[types.String], false)}, nil)
		}
		n := f.name
		if !f.emb {
			n = fmt.Sprintf("%s%d", n, i)
		}
		tag := f.tag
		if strings.Contains(tag, "%d") {
			tag = fmt.Sprintf(tag, i)
		}
		vars = append(vars, types.NewField(token.NoPos, pkg, n, t, f.emb))
		tags = append(tags, tag)
	}
	named := types.NewNamed(types.NewTypeName(token.NoPos, pkg, "G", nil), types.NewStruct(vars, tags), nil)
	id := st.alloc("grammar", named)
	return Iface{dyn: types.NewPointer(named), v: Ptr{obj: id}}, tags
}

func validRuleName(s string) bool {
	letter := func(r rune) bool { return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' }
	for i, r := range s {
		if !letter(r) && (i == 0 || !('0' <= r && r <= '9' || strings.ContainsRune("+-._", r))) {
			return false
		}
	}
	return s != ""
}

// fieldLists gives the lists of up to max kinds.
func fieldLists(max int) [][]ruleField {
	res := [][]ruleField{{}}
	last := res
	for n := 0; n < max; n++ {
		next := [][]ruleField{}
		for _, l := range last {
			for _, f := range ruleFields {
				twice := false
				for _, g := range l {
					twice = twice || f.emb && g.emb
				}
				if !twice {
					next = append(next, append(append([]ruleField(nil), l...), f))
				}
			}
		}
		res = append(res, next...)
		last = next
	}
	return res
}

func checkC34(c *Ck) {
	c.ruleNames()
	max := 2
	if c.thorough {
		max = 3
	}
	c.bound = append(c.bound, fmt.Sprintf("grammar structs with up to %d fields of %d kinds (and a third one that is a rule), lists of up to 3 rules", max, len(ruleFields)))
	all := fieldLists(max)
	if max < 3 {
		rule := ruleFields[0]
		for _, l := range all {
			switch len(l) {
			case 1:
				all = append(all, []ruleField{rule, l[0], rule})
			case 2:
				all = append(all, []ruleField{l[0], l[1], rule})
			}
		}
	}
	for _, fs := range all {
		c.reflectRules(fs)
	}
	c.checkedRules()
	c.connected()
}

// ruleNames: a name is accepted iff it is a letter followed by letters, digits and + - . _
func (c *Ck) ruleNames() {
	subj := "CheckRuleName"
	in := c.interp()
	in.noEffects = true
	c.guarded(subj, func() {
		st := in.newState()
		name := symStr("name")
		L := name.length()
		span := func(x Lin, lo, hi rune) BoolV {
			return andB(leB(konst(int64(lo)).sub(x)), leB(x.addK(-int64(hi))))
		}
		letter := func(x Lin) BoolV { return orB(span(x, 'a', 'z'), span(x, 'A', 'Z')) }
		part := func(x Lin) BoolV {
			r := orB(letter(x), span(x, '0', '9'))
			for _, k := range "+-._" {
				r = orB(r, eqB(x.addK(-int64(k))))
			}
			return r
		}
		fwd := dirn{}
		n := 0
		outs := c.doCall(in, subj, c.p.tok.Func("CheckRuleName"), subj, []Val{name}, st)
		c.errStates(subj, outs, 0, func(st *State, rets []Val, ok bool) {
			n++
			for _, d := range fwd.decode(in, st.clone(), name.b, konst(0), L) {
				if d.empty {
					c.ob(!ok, subj, "refuses the empty name", "", d.st)
					continue
				}
				if ok {
					c.ob(len(d.st.clone().assume(letter(d.r), false)) == 0 || firstOf(d.st, name.b, letter), subj, "accepts only names that start with a letter", "", d.st)
					c.ob((fwd.covers(in, d.st, name.b, st.norm(d.w), L, L, true, part) || fwd.covers(in, d.st, name.b, konst(0), L, L, true, part)), subj, "accepts only names of letters, digits and + - . _", "a rune behind the first one may be another one", d.st)
					continue
				}
				// there is a rune that does not fit
				bad := len(d.st.clone().assume(letter(d.r), true)) == 0
				for _, e := range d.st.decs {
					if e.b == name.b && !e.rev && d.st.same(e.hi, L) && d.st.le(e.lo.neg().addK(1)) && d.st.le(e.lo.sub(L).addK(1)) && len(d.st.clone().assume(part(e.r), true)) == 0 {
						bad = true
					}
				}
				c.ob(bad, subj, "refuses only names with a rune that does not fit", "", d.st)
			}
		})
		c.ob(n > 1, subj, "has outcomes", "", nil)
	})
	c.absorb()
}

// firstOf: what is known about the passed runes implies P for the first one.
func firstOf(st *State, b *StrBase, P pred) bool {
	for _, q := range st.qf {
		if q.kind == "fwd" && q.b == b && st.same(q.from, konst(0)) && st.le(q.to.neg().addK(1)) && st.excluded(q, func(t *State, c conj) bool {
			t.addEQ(symLin(c.o))
			return t.dead || c.r >= 0 && len(t.assume(P(symLin(c.r)), false)) == 0
		}) {
			return true
		}
	}
	return false
}

// reflectRules: the rules of a struct are its exported fields of type Rule.
func (c *Ck) reflectRules(fs []ruleField) {
	ws := []string{}
	for _, f := range fs {
		ws = append(ws, f.what)
	}
	what := " of a struct with " + strings.Join(ws, ", ")
	if len(fs) == 0 {
		what = " of an empty struct"
	}
	nameAt := func(i int) string {
		for k, f := range structFields(c.p.typ("Rule")) {
			if f.Name() == "Name" {
				return fmt.Sprintf(".%d.%d", i, k)
			}
		}
		return ""
	}
	subj := "CollectRules" + what
	in := c.interp()
	c.guarded(subj, func() {
		st := in.newState()
		g, _ := c.grammarStruct(st, fs)
		id := g.v.(Ptr).obj
		n := 0
		for _, o := range c.doCall(in, subj, c.p.tok.Func("CollectRules"), "CollectRules", []Val{g}, st) {
			n++
			want := []string{}
			for i, f := range fs {
				if f.rule {
					want = append(want, fmt.Sprintf(".%d", i))
				}
			}
			c.lists(subj, o.st, o.rets[0], len(fs)+1, func(st *State, es []Val) {
				good := len(es) == len(want)
				for i := range es {
					p, ok := es[i].(Ptr)
					good = good && ok && p.obj == id && p.path == want[i]
				}
				c.ob(good, subj, "gives pointers to the exported fields of type Rule in their order", fmt.Sprint(es), st)
			})
		}
		c.ob(n > 0, subj, "returns", "", nil)
	})
	c.absorb()
	for _, must := range []bool{false, true} {
		fname := "SetRuleNames"
		if must {
			fname = "MustSetRuleNames"
		}
		subj := fname + what
		in := c.interp()
		c.guarded(subj, func() {
			st := in.newState()
			g, tags := c.grammarStruct(st, fs)
			id := g.v.(Ptr).obj
			valid := true
			names := map[int]string{}
			for i, f := range fs {
				if f.typ == "Rule" || f.typ == "like" {
					st.store(Ptr{obj: id, path: nameAt(i)}, symStr(fmt.Sprintf("old%d", i)))
				}
				if f.rule {
					if n := reflect.StructTag(tags[i]).Get("name"); n != "" {
						names[i] = n
						valid = valid && validRuleName(n)
					}
				}
			}
			fn := c.p.tok.Func(fname)
			if fn == nil {
				c.fail(subj, "is part of the interface", "function not found", nil)
				return
			}
			n := 0
			check := func(st *State, ok bool) {
				n++
				if !c.ob(ok == valid, subj, "succeeds iff the names in the tags are valid", "", st) || !ok {
					return
				}
				for i, f := range fs {
					if f.typ != "Rule" && f.typ != "like" {
						continue
					}
					want := Val(symStr(fmt.Sprintf("old%d", i)))
					if s, ok := names[i]; ok {
						want = constStr(s)
					}
					c.ob(st.vkey(st.load(Ptr{obj: id, path: nameAt(i)})) == st.vkey(want), subj, "sets exactly the names of the tags", f.what, st)
				}
			}
			outs := in.callFunc(FuncV{fn: fn}, []Val{g}, st, 0, c.p.tok.Func("init"))
			rest := []Outcome{}
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				if o.panic != "" {
					if must && strings.Contains(o.panic, ": panic") {
						check(o.st, false)
					} else {
						c.fail(subj, "does not panic at "+o.panic, "", o.st)
					}
					continue
				}
				rest = append(rest, o)
			}
			if must {
				for _, o := range rest {
					check(o.st, true)
				}
			} else {
				c.errStates(subj, rest, 0, func(st *State, rets []Val, ok bool) { check(st, ok) })
			}
			c.ob(n > 0, subj, "returns", "", nil)
		})
		c.absorb()
	}
}

// checkedRules: CheckRules refuses a grammar iff a rule has no valid name or no reader.
func (c *Ck) checkedRules() {
	kinds := []struct {
		what, name string
		reader, ok bool
	}{{"a rule", "a", true, true}, {"a rule without a name", "", true, false}, {"a rule with an invalid name", "a b", true, false}, {"a rule without a reader", "b", false, false}}
	ptrRule := types.NewPointer(c.p.typ("Rule"))
	var lists func(l []int, max int, f func([]int))
	lists = func(l []int, max int, f func([]int)) {
		f(l)
		if len(l) < max {
			for i := range kinds {
				lists(append(append([]int(nil), l...), i), max, f)
			}
		}
	}
	for _, fname := range []string{"CheckRules", "MustCheckRules"} {
		lists(nil, 3, func(l []int) {
			ws := []string{}
			valid := true
			for _, k := range l {
				ws = append(ws, kinds[k].what)
				valid = valid && kinds[k].ok
			}
			subj := fname + " of " + strings.Join(ws, ", ")
			if len(l) == 0 {
				subj = fname + " of no rules"
			}
			in := c.interp()
			c.guarded(subj, func() {
				st := in.newState()
				ps := []Val{}
				for i, k := range l {
					p, _, _ := c.newRule(st, fmt.Sprintf("rule%d", i+1))
					for j, f := range structFields(c.p.typ("Rule")) {
						q := Ptr{obj: p.obj, path: fmt.Sprintf(".%d", j)}
						switch f.Name() {
						case "Name":
							st.store(q, constStr(kinds[k].name))
						case "Reader":
							if !kinds[k].reader {
								st.store(q, Iface{isNil: true})
							}
						}
					}
					ps = append(ps, p)
				}
				in.grammarOf = map[string]Val{"g": listVal(st, ptrRule, ps)}
				fn := c.p.tok.Func(fname)
				if fn == nil {
					c.fail(subj, "is part of the interface", "function not found", nil)
					return
				}
				n := 0
				check := func(st *State, ok bool) {
					n++
					c.ob(ok == valid, subj, "succeeds iff every rule has a valid name and a reader", "", st)
				}
				rest := []Outcome{}
				for _, o := range in.callFunc(FuncV{fn: fn}, []Val{Iface{sym: "g", nn: true}}, st, 0, c.p.tok.Func("init")) {
					if o.st.dead {
						continue
					}
					if o.panic != "" {
						if fname == "MustCheckRules" && strings.Contains(o.panic, ": panic") {
							check(o.st, false)
						} else {
							c.fail(subj, "does not panic at "+o.panic, "", o.st)
						}
						continue
					}
					rest = append(rest, o)
				}
				if fname == "MustCheckRules" {
					for _, o := range rest {
						check(o.st, true)
					}
				} else {
					c.errStates(subj, rest, 0, func(st *State, rets []Val, ok bool) { check(st, ok) })
				}
				c.ob(n > 0, subj, "returns", "", nil)
			})
			c.absorb()
		})
	}
}

// connected: after connecting a basket or log with the rules, a read of any of the rules is recorded
// once and under its name.
func (c *Ck) connected() {
	ptrRule := types.NewPointer(c.p.typ("Rule"))
	type how struct {
		name string
		log  bool
		call func(in *Interp, st *State, sc Ptr, hold Ptr, ps []Val) []Outcome
	}
	hows := []how{
		{"Basket.PickWith", false, func(in *Interp, st *State, sc, hold Ptr, ps []Val) []Outcome {
			return c.doCall(in, "Basket.PickWith", c.methodOf("Basket", "PickWith"), "Basket.PickWith", []Val{hold, listVal(st, ptrRule, ps)}, st)
		}},
		{"Scanner.NewBasketFor", false, func(in *Interp, st *State, sc, hold Ptr, ps []Val) []Outcome {
			in.grammarOf = map[string]Val{"g": listVal(st, ptrRule, ps)}
			return c.doCall(in, "Scanner.NewBasketFor", c.methodOf("Scanner", "NewBasketFor"), "Scanner.NewBasketFor", []Val{sc, Iface{sym: "g", nn: true}}, st)
		}},
		{"Log.Monitor", true, func(in *Interp, st *State, sc, hold Ptr, ps []Val) []Outcome {
			return c.doCall(in, "Log.Monitor", c.methodOf("Log", "Monitor"), "Log.Monitor", []Val{hold, listVal(st, ptrRule, ps)}, st)
		}},
		{"MonitorGrammar", true, func(in *Interp, st *State, sc, hold Ptr, ps []Val) []Outcome {
			in.grammarOf = map[string]Val{"g": listVal(st, ptrRule, ps)}
			return c.doCall(in, "MonitorGrammar", c.p.tok.Func("MonitorGrammar"), "MonitorGrammar", []Val{Iface{sym: "g", nn: true}}, st)
		}},
	}
	for _, h := range hows {
		for n := 1; n <= 3; n++ {
			for k := 0; k < n; k++ {
				subj := fmt.Sprintf("%s with %d rules", h.name, n)
				in := c.interp()
				in.noEffects = true
				c.guarded(subj, func() {
					st := in.newState()
					pt, p0, _, _ := c.symScanner(in, st)
					ps := []Val{}
					var nm Str
					var sub subReader
					for i := 0; i < n; i++ {
						p, a, s := c.newRule(st, fmt.Sprintf("rule%d", i+1))
						if i == k {
							nm, sub = a, s
						}
						ps = append(ps, p)
					}
					hold := Ptr{obj: st.alloc("holder", c.p.typ(map[bool]string{true: "Log", false: "Basket"}[h.log]))}
					other := symVal("s2", ptrTo(c.p.tok.Type("Scanner").Type())).(Ptr)
					outs := h.call(in, st, other, hold, ps)
					c.ob(len(outs) > 0, subj, "returns", "", nil)
					for _, o := range outs {
						if len(o.rets) == 1 {
							p, ok := o.rets[0].(Ptr)
							if !c.ob(ok, subj, "gives the holder", "", o.st) {
								continue
							}
							hold = p
						}
						if h.name == "Scanner.NewBasketFor" {
							is := false
							for i, f := range structFields(c.p.typ("Scanner")) {
								if f.Name() == "Tracker" {
									t, _ := o.st.load(Ptr{obj: other.obj, path: fmt.Sprintf(".%d", i)}).(Iface)
									q, ok := t.v.(Ptr)
									is = ok && q.obj == hold.obj
								}
							}
							c.ob(is, subj, "is the tracker of the scanner", "", o.st)
						}
						o.st.ev = nil
						seen := 0
						for _, r := range in.invoke(Iface{dyn: ptrRule, v: ps[k]}, c.readMethod(), []Val{pt}, o.st, 0, c.p.tok.Func("init")) {
							if r.st.dead {
								continue
							}
							if r.panic != "" {
								c.fail(subj, "does not panic at "+r.panic, "", r.st)
								continue
							}
							seen++
							var read *Event
							reads := 0
							for i := range r.st.ev {
								if e := &r.st.ev[i]; e.kind == "read" {
									read = e
									reads++
								}
							}
							if !c.ob(reads == 1 && read.recv == sub.key, subj, "reads with the reader of the rule once", "", r.st) {
								continue
							}
							if h.log {
								c.logIs(subj, in, r.st, hold, []*logEntry{{enter: p0, exit: read.to, level: 1, info: nm, err: read.v}})
								continue
							}
							e, _ := read.v.(Iface)
							for _, q := range c.doCall(in, subj, c.methodOf("Basket", "Picked"), "Basket.Picked", []Val{hold}, r.st) {
								c.lists(subj, q.st, q.rets[0], 3, func(st *State, es []Val) {
									if !e.isNil {
										c.ob(len(es) == 0, subj, "picks nothing after a failure", "", st)
										return
									}
									if c.ob(len(es) == 1, subj, "picks one segment after a success", fmt.Sprint(len(es)), st) {
										g, good := c.segOf(st, es[0])
										c.ob(good && c.sameSeg(st, g, segV{info: nm, from: p0, to: read.to}), subj, "picks what the rule has read under its name", "", st)
									}
								})
							}
						}
						c.ob(seen > 0, subj, "the rule can be read", "", nil)
					}
				})
				c.absorb()
			}
		}
	}
}
