package main

import (
	"fmt"
	"sync"
)

func init() {
	register("C36", "the syntactic rules are extracted as parsing expressions by abstract evaluation; each is compared with the manual's production by a backwards automaton over all rune classes that decides equal consumption on every text in which expressions, blocks, strings and comments are units", 40, checkC36,
		"valid UTF-8 texts", "nested expressions, blocks, literal strings and comments are units of the text", "the constructors of package tok do what C04-C16 check")
}

// ------------------------------------------------------------------ C36

// luaMemo keeps the results for a second analysis of the same rules.
var luaMemo = map[string]pegResult{}

func checkC36(c *Ck) {
	g := c.grammar("Lua")
	if g == nil {
		return
	}
	rule := func(field string) *Term { return tRef(g, field) }
	for _, f := range []string{"SheBang", "Name", "Numeral", "LiteralString", "Comment", "UnOp", "BinOp", "FieldSep", "Field", "FieldList", "TableConstructor", "FuncParams", "FuncBody", "FuncDef", "FuncArgs", "FuncCall", "PrefixExp", "FinalExp", "Exp", "ExpList", "NameList", "VarSuffix", "Var", "VarList", "FuncName", "Label", "RetStat", "Attrib", "AttNameList", "Break", "GoTo", "Do", "While", "Repeat", "IfElse", "For", "ForEach", "Func", "LocalFunc", "LocalAtt", "Stat", "Block", "Chunk", "Script"} {
		if !c.ob(g.rule(f) >= 0 && g.rules[g.rule(f)].term != nil, "Lua."+f, "is a rule", "", nil) {
			return
		}
	}
	skip := tZom(tAny(tRunes(" \t\r\n"), rule("Comment")))
	letters := runeSet{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {'_', '_'}}.norm()
	word := func(s string) *Term {
		if letters.has(rune(s[0])) {
			return tSeq(tLit(s), tNeg(tSet(letters)))
		}
		return tLit(s)
	}
	// seq: words, symbols and parts with white space and comments around them
	seq := func(parts ...interface{}) *Term {
		l := []*Term{skip}
		for _, x := range parts {
			switch x := x.(type) {
			case string:
				l = append(l, word(x))
			case *Term:
				l = append(l, x)
			}
			l = append(l, skip)
		}
		return tSeq(l...)
	}
	sym := []string{"Exp", "Block", "LiteralString", "Comment"}
	type job struct {
		subj string
		key  string
		res  pegResult
	}
	jobs := []*job{}
	var wg sync.WaitGroup
	for _, r := range g.rules {
		if r.term != nil {
			_ = r.term.String()
		}
	}
	compare := func(subj string, t, ref *Term) {
		key := subj + " " + t.String() + " " + ref.String()
		for _, r := range g.rules {
			key += "\n" + r.term.String()
		}
		j := &job{subj: subj}
		jobs = append(jobs, j)
		if r, ok := luaMemo[key]; ok {
			j.res = r
			return
		}
		j.key = key
		wg.Add(1)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					j.res.err = fmt.Sprint(e)
				}
				wg.Done()
			}()
			j.res = pegRun(g, -1, nil, nil, sym, func(p *Peg) []pcheck {
				// a name is an expression, too: it can start like something else (for statements a unit will do)
				if i := g.rule("Exp"); subj != "Lua.Stat" || c.thorough {
					p.rules[i] = tAny(rule("Name"), p.rules[i])
				}
				return p.equal(subj, t, ref)
			})
		}()
	}
	cmp := func(field string, ref *Term) { compare("Lua."+field, g.rules[g.rule(field)].term, ref) }
	exp, block, name := rule("Exp"), rule("Block"), rule("Name")
	// the manual's left recursion as repetition
	nameAndArgs := seq(tOpt(seq(":", name)), rule("FuncArgs"))
	varOrExp := tAny(rule("Var"), seq("(", exp, ")"))

	line := tZom(tSet(anySet().minus(setOf('\r', '\n'))))
	cmp("SheBang", tSeq(tLit("#!"), line, tOp("at", tRunes("\r\n"))))
	cmp("NameList", seq(name, tZom(seq(",", name))))
	cmp("Field", tAny(seq("[", exp, "]", "=", exp), seq(name, "=", exp), exp))
	cmp("FieldList", seq(rule("Field"), tZom(seq(rule("FieldSep"), rule("Field"))), tOpt(rule("FieldSep"))))
	cmp("TableConstructor", seq("{", tOpt(rule("FieldList")), "}"))
	cmp("FuncParams", tAny(seq(rule("NameList"), tOpt(seq(",", "..."))), tLit("...")))
	cmp("FuncBody", seq("(", tOpt(rule("FuncParams")), ")", block, "end"))
	cmp("FuncDef", seq("function", rule("FuncBody")))
	cmp("FuncArgs", tAny(seq("(", tOpt(rule("ExpList")), ")"), rule("TableConstructor"), rule("LiteralString")))
	cmp("FuncCall", tSeq(varOrExp, tMany(nameAndArgs)))
	cmp("PrefixExp", tSeq(varOrExp, tZom(nameAndArgs)))
	cmp("FinalExp", tAny(
		word("nil"), word("false"), word("true"),
		rule("Numeral"), rule("LiteralString"), tLit("..."), rule("FuncDef"),
		seq(rule("UnOp"), exp), rule("TableConstructor"), rule("PrefixExp")))
	cmp("Exp", tAny(seq(rule("FinalExp"), rule("BinOp"), exp), rule("FinalExp")))
	cmp("ExpList", seq(exp, tZom(seq(",", exp))))
	cmp("VarSuffix", seq(tZom(nameAndArgs), tAny(seq("[", exp, "]"), seq(".", name))))
	cmp("Var", tSeq(tAny(name, seq("(", exp, ")", rule("VarSuffix"))), tZom(rule("VarSuffix"))))
	cmp("VarList", seq(rule("Var"), tZom(seq(",", rule("Var")))))
	cmp("FuncName", seq(name, tZom(seq(".", name)), tOpt(seq(":", name))))
	cmp("Label", seq("::", name, "::"))
	cmp("RetStat", seq("return", tOpt(rule("ExpList")), tOpt(tLit(";"))))
	cmp("Attrib", tOpt(seq("<", name, ">")))
	cmp("AttNameList", seq(name, rule("Attrib"), tZom(seq(",", name, rule("Attrib")))))
	cmp("Break", word("break"))
	cmp("GoTo", seq("goto", name))
	cmp("Do", seq("do", block, "end"))
	cmp("While", seq("while", exp, "do", block, "end"))
	cmp("Repeat", seq("repeat", block, "until", exp))
	cmp("IfElse", seq("if", exp, "then", block, tZom(seq("elseif", exp, "then", block)), tOpt(seq("else", block)), "end"))
	cmp("For", seq("for", name, "=", exp, ",", exp, tOpt(seq(",", exp)), "do", block, "end"))
	cmp("ForEach", seq("for", rule("NameList"), "in", rule("ExpList"), "do", block, "end"))
	cmp("Func", seq("function", rule("FuncName"), rule("FuncBody")))
	cmp("LocalFunc", seq("local", "function", name, rule("FuncBody")))
	cmp("LocalAtt", seq("local", rule("AttNameList"), tOpt(seq("=", rule("ExpList")))))
	stats := tAny(tLit(";"), tSeq(rule("VarList"), tLit("="), rule("ExpList")))
	for _, f := range []string{"Label", "Break", "GoTo", "Do", "While", "Repeat", "IfElse", "For", "ForEach", "Func", "LocalFunc", "LocalAtt", "FuncCall"} {
		stats.subs = append(stats.subs, rule(f))
	}
	cmp("Stat", stats)
	cmp("Block", seq(tZom(rule("Stat")), tOpt(rule("RetStat"))))
	cmp("Chunk", block)
	cmp("Script", tSeq(tOpt(rule("SheBang")), block))
	if t := c.readTerm(g); t != nil {
		// the block itself is not a unit here
		for n := 0; t.op == "ref" && n < len(g.rules); n++ {
			t = g.rules[t.rule].term
		}
		compare("Lua.Read", t, g.rules[g.rule("Block")].term)
	}
	wg.Wait()
	for _, j := range jobs {
		if j.key != "" {
			luaMemo[j.key] = j.res
		}
		c.pegReport(j.subj, j.res)
	}
	c.primitives(g)
}
