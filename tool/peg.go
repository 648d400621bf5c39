package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// The readers of a grammar are parsing expressions. Whether an expression succeeds at a position,
// and whether the rest of the reading succeeds behind it, is a boolean function of the rune at the
// position and of finitely many such facts at the next position. So all facts of a set of
// expressions are computed by a deterministic automaton that reads the text backwards. Two
// expressions consume the same on every text if the facts "succeeds and ends at a marked position"
// agree in every reachable state for every marking.

type pegErr string

func pegFail(f string, a ...interface{}) { panic(pegErr(fmt.Sprintf(f, a...))) }

// pkont is what happens behind an expression: a list that ends in a final fact.
type pkont struct {
	kind string // "term", "fail", "true", "mark", "zero", "tend", "envis", "set"
	t    *Term
	env  int // fail, envis, mark (-1: any)
	id   int // set: the pair, env: the value
	next int
}

// pmode changes how an expression sees the text.
type pmode struct {
	kind  string // "", "trunc": the text ends where t matches, "count": n more runes
	t     *Term
	env   int
	n     int
	outer int
}

type ppred struct {
	fail bool
	t    *Term
	env  int
	k    int // success: what follows
	to   int // failure: the captures afterwards
	mode int
	// a fact of what follows
	kont bool
}

type pform struct {
	op   byte // 'c' const, 's' set, 'e' end, 'm' mark, 'n' next, 'o' oracle, '&', '|', '!', 'p' same position
	b    bool
	set  int
	pred int
	subs []*pform
}

var pTrue, pFalse = &pform{op: 'c', b: true}, &pform{op: 'c'}

func pAnd(fs ...*pform) *pform {
	r := []*pform{}
	for _, f := range fs {
		if f.op == 'c' {
			if !f.b {
				return pFalse
			}
			continue
		}
		r = append(r, f)
	}
	if len(r) == 0 {
		return pTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	return &pform{op: '&', subs: r}
}

func pOr(fs ...*pform) *pform {
	r := []*pform{}
	for _, f := range fs {
		if f.op == 'c' {
			if f.b {
				return pTrue
			}
			continue
		}
		r = append(r, f)
	}
	if len(r) == 0 {
		return pFalse
	}
	if len(r) == 1 {
		return r[0]
	}
	return &pform{op: '|', subs: r}
}

func pNot(f *pform) *pform {
	if f.op == 'c' {
		return &pform{op: 'c', b: !f.b}
	}
	return &pform{op: '!', subs: []*pform{f}}
}

// symBase is the first of the runes that stand for what a rule reads.
const symBase = 0x110000

// Peg analyses a set of expressions.
type Peg struct {
	rules    []*Term  // the rules that references stand for
	cut      int      // the rule that is replaced by an arbitrary reader, -1: none
	cutFirst runeSet  // the runes the cut rule starts with
	caps     []string // the strings that are told apart, the value len(caps) is any other string
	ids      []string // the begin/end pairs
	envs     [][]int  // values of the pairs
	envIdx   map[string]int
	konts    []pkont
	kontIdx  map[string]int
	modes    []pmode
	modeIdx  map[string]int
	preds    []ppred
	predIdx  map[string]int
	forms    []*pform
	sets     []runeSet
	setIdx   map[string]int
	litCache map[string]*Term
	begCache map[*Term]map[string]bool
	nulCache map[*Term]int
	interned map[string]*Term
	classes  []rune
	syms     []string // names of the runes that stand for what a rule reads
	names    []string
	member   [][]bool // set, class
	states   int
	steps    int
}

func newPeg(rules []*Term, cut int, caps []string) *Peg {
	p := &Peg{rules: rules, cut: cut, caps: caps, cutFirst: anySet(), envIdx: map[string]int{}, kontIdx: map[string]int{}, modeIdx: map[string]int{}, predIdx: map[string]int{}, setIdx: map[string]int{}, litCache: map[string]*Term{}, begCache: map[*Term]map[string]bool{}, nulCache: map[*Term]int{}, interned: map[string]*Term{}}
	p.mode(pmode{})
	return p
}

func (p *Peg) kont(k pkont) int {
	key := fmt.Sprintf("%s|%p|%d|%d|%d", k.kind, k.t, k.env, k.id, k.next)
	if i, ok := p.kontIdx[key]; ok {
		return i
	}
	p.konts = append(p.konts, k)
	p.kontIdx[key] = len(p.konts) - 1
	return len(p.konts) - 1
}

func (p *Peg) mode(m pmode) int {
	key := fmt.Sprintf("%s|%p|%d|%d|%d", m.kind, m.t, m.env, m.n, m.outer)
	if i, ok := p.modeIdx[key]; ok {
		return i
	}
	p.modes = append(p.modes, m)
	p.modeIdx[key] = len(p.modes) - 1
	return len(p.modes) - 1
}

func (p *Peg) pred(q ppred) int {
	key := fmt.Sprintf("%v|%v|%p|%d|%d|%d|%d", q.fail, q.kont, q.t, q.env, q.k, q.to, q.mode)
	if i, ok := p.predIdx[key]; ok {
		return i
	}
	if len(p.preds) > 200000 {
		pegFail("too many facts")
	}
	p.preds = append(p.preds, q)
	p.forms = append(p.forms, nil)
	p.predIdx[key] = len(p.preds) - 1
	return len(p.preds) - 1
}

func (p *Peg) setID(s runeSet) int {
	key := fmt.Sprint(s)
	if i, ok := p.setIdx[key]; ok {
		return i
	}
	p.sets = append(p.sets, s)
	p.setIdx[key] = len(p.sets) - 1
	return len(p.sets) - 1
}

func (p *Peg) envID(vals []int) int {
	key := fmt.Sprint(vals)
	if i, ok := p.envIdx[key]; ok {
		return i
	}
	p.envs = append(p.envs, append([]int{}, vals...))
	p.envIdx[key] = len(p.envs) - 1
	return len(p.envs) - 1
}

func (p *Peg) idOf(id string) int {
	for i, x := range p.ids {
		if x == id {
			return i
		}
	}
	pegFail("unknown pair")
	return 0
}

// begs lists the pairs that an expression can change.
func (p *Peg) begs(t *Term) map[string]bool {
	if b, ok := p.begCache[t]; ok {
		return b
	}
	b := map[string]bool{}
	p.begCache[t] = b
	if t.op == "beg" {
		b[t.id] = true
	}
	subs := t.subs
	if t.op == "ref" && t.rule != p.cut {
		subs = []*Term{p.rules[t.rule]}
	}
	for _, s := range subs {
		for x := range p.begs(s) {
			b[x] = true
		}
	}
	return b
}

// collectIDs lists all pairs below a term.
func (p *Peg) collectIDs(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "beg" || t.op == "end" {
		for _, x := range p.ids {
			if x == t.id {
				goto subs
			}
		}
		p.ids = append(p.ids, t.id)
	}
subs:
	for _, s := range t.subs {
		p.collectIDs(s, seen)
	}
	if t.op == "ref" && t.rule != p.cut {
		p.collectIDs(p.rules[t.rule], seen)
	}
}

// after lists the captures that are possible behind t.
func (p *Peg) after(t *Term, env int) []int {
	res := []int{env}
	bs := p.begs(t)
	for i, id := range p.ids {
		if !bs[id] {
			continue
		}
		next := []int{}
		for _, e := range res {
			for v := 0; v <= len(p.caps); v++ {
				vals := append([]int{}, p.envs[e]...)
				vals[i] = v
				next = append(next, p.envID(vals))
			}
		}
		res = next
	}
	return res
}

func (p *Peg) lit(s string) *Term {
	if t, ok := p.litCache[s]; ok {
		return t
	}
	p.litCache[s] = tLit(s)
	return p.litCache[s]
}

// nullable: t can succeed without consuming anything.
func (p *Peg) nullable(t *Term) bool {
	switch p.nulCache[t] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	p.nulCache[t] = 3
	r := nullableTerm(t, func(i int) bool {
		if i == p.cut {
			return false
		}
		return p.nullable(p.rules[i])
	}, p.nullable)
	p.nulCache[t] = 2
	if r {
		p.nulCache[t] = 1
	}
	return r
}

func nullableTerm(t *Term, ref func(int) bool, sub func(*Term) bool) bool {
	switch t.op {
	case "set", "not", "invalid", "match":
		return false
	case "seq":
		for _, s := range t.subs {
			if !sub(s) {
				return false
			}
		}
		return true
	case "any":
		for _, s := range t.subs {
			if sub(s) {
				return true
			}
		}
		return false
	case "many", "past", "body", "beg":
		return sub(t.subs[0])
	case "bodytail":
		return sub(t.subs[0]) && sub(t.subs[1])
	case "ref":
		return ref(t.rule)
	}
	return true // zom opt at atend to end unknown
}

// same gives one term for all equal terms.
func (p *Peg) same(t *Term) *Term {
	s := t.String()
	if u, ok := p.interned[s]; ok {
		return u
	}
	p.interned[s] = t
	return t
}

// suc: t succeeds at the position and k holds behind it.
func (p *Peg) suc(t *Term, env, k, mode int) *pform {
	t = p.same(t)
	return &pform{op: 'p', pred: p.pred(ppred{t: t, env: env, k: k, mode: mode})}
}

// fai: t fails at the position and leaves the captures to.
func (p *Peg) fai(t *Term, env, to, mode int) *pform {
	t = p.same(t)
	if len(p.begs(t)) == 0 {
		if env != to {
			return pFalse
		}
		return pNot(p.suc(t, env, p.kont(pkont{kind: "true"}), mode))
	}
	return &pform{op: 'p', pred: p.pred(ppred{fail: true, t: t, env: env, to: to, mode: mode})}
}

// follow: the fact k holds at the position.
func (p *Peg) follow(k, env, mode int) *pform {
	q := p.konts[k]
	switch q.kind {
	case "true":
		return pTrue
	case "mark":
		if q.env >= 0 && q.env != env {
			return pFalse
		}
		return &pform{op: 'm'}
	case "zero":
		if p.modes[mode].kind == "count" && p.modes[mode].n == 0 {
			return pTrue
		}
		return pFalse
	case "tend":
		m := p.modes[mode]
		return p.suc(m.t, m.env, p.kont(pkont{kind: "true"}), m.outer)
	case "envis":
		if q.env == env {
			return pTrue
		}
		return pFalse
	case "set":
		vals := append([]int{}, p.envs[env]...)
		vals[q.id] = q.env
		return p.follow(q.next, p.envID(vals), mode)
	case "term":
		return p.suc(q.t, env, q.next, mode)
	case "fail":
		return p.fai(q.t, env, q.env, mode)
	}
	panic("kont " + q.kind)
}

func (p *Peg) then(t *Term, k int) int {
	t = p.same(t)
	return p.kont(pkont{kind: "term", t: t, next: k})
}

// step: the position holds a rune of the set and the fact of what follows holds behind it.
func (p *Peg) step(set runeSet, k, env, mode int) *pform {
	next, guard := p.advance(mode)
	return pAnd(&pform{op: 's', set: p.setID(set)}, guard, &pform{op: 'n', pred: p.pred(ppred{kont: true, k: k, env: env, mode: next})})
}

// advance is the mode behind one rune, and the condition that there is a rune.
func (p *Peg) advance(mode int) (int, *pform) {
	m := p.modes[mode]
	switch m.kind {
	case "trunc":
		next, guard := p.advance(m.outer)
		n := m
		n.outer = next
		return p.mode(n), pAnd(guard, pNot(p.suc(m.t, m.env, p.kont(pkont{kind: "true"}), m.outer)))
	case "count":
		next, guard := p.advance(m.outer)
		n := m
		n.outer = next
		if n.n >= 0 {
			n.n--
		}
		return p.mode(n), guard
	}
	return mode, pTrue
}

// anything is every rune and every unit.
func (p *Peg) anything() runeSet {
	return runeSet{{0, symBase + rune(len(p.syms)) - 1}}
}

func (p *Peg) atEnd(mode int) *pform {
	m := p.modes[mode]
	switch m.kind {
	case "trunc":
		return p.suc(m.t, m.env, p.kont(pkont{kind: "true"}), m.outer)
	case "count":
		return p.atEnd(m.outer)
	}
	return &pform{op: 'e'}
}

func (p *Peg) form(i int) *pform {
	if f := p.forms[i]; f != nil {
		return f
	}
	q := p.preds[i]
	var f *pform
	switch {
	case q.kont:
		f = p.follow(q.k, q.env, q.mode)
	case q.fail:
		f = p.failForm(q)
	default:
		f = p.sucForm(q)
	}
	p.forms[i] = f
	return f
}

func (p *Peg) envIs(c int) int { return p.kont(pkont{kind: "envis", env: c}) }

func (p *Peg) sucForm(q ppred) *pform {
	t, env, k, mode := q.t, q.env, q.k, q.mode
	switch t.op {
	case "set":
		return p.step(t.set, k, env, mode)
	case "seq":
		for i := len(t.subs) - 1; i >= 0; i-- {
			k = p.then(t.subs[i], k)
		}
		return p.follow(k, env, mode)
	case "any":
		return p.anySuc(t.subs, env, k, mode)
	case "opt":
		fs := []*pform{p.suc(t.subs[0], env, k, mode)}
		for _, c := range p.after(t.subs[0], env) {
			fs = append(fs, pAnd(p.fai(t.subs[0], env, c, mode), p.follow(k, c, mode)))
		}
		return pOr(fs...)
	case "zom":
		p.mustMove(t)
		fs := []*pform{p.suc(t.subs[0], env, p.then(t, k), mode)}
		for _, c := range p.after(t.subs[0], env) {
			fs = append(fs, pAnd(p.fai(t.subs[0], env, c, mode), p.follow(k, c, mode)))
		}
		return pOr(fs...)
	case "many":
		p.mustMove(t)
		return p.suc(t.subs[0], env, p.then(p.zom(t.subs[0]), k), mode)
	case "at":
		fs := []*pform{}
		for _, c := range p.after(t.subs[0], env) {
			fs = append(fs, pAnd(p.suc(t.subs[0], env, p.envIs(c), mode), p.follow(k, c, mode)))
		}
		return pOr(fs...)
	case "neg": // only in references: fails if the sub expression matches, consumes nothing
		fs := []*pform{}
		for _, c := range p.after(t.subs[0], env) {
			fs = append(fs, pAnd(p.fai(t.subs[0], env, c, mode), p.follow(k, c, mode)))
		}
		return pOr(fs...)
	case "not":
		fs := []*pform{}
		for _, c := range p.after(t.subs[0], env) {
			fs = append(fs, pAnd(p.fai(t.subs[0], env, c, mode), p.step(p.anything(), k, c, mode)))
		}
		return pOr(fs...)
	case "atend":
		return pAnd(p.atEnd(mode), p.follow(k, env, mode))
	case "to":
		fs := []*pform{}
		for _, c := range p.after(t.subs[0], env) {
			fs = append(fs, pAnd(p.suc(t.subs[0], env, p.envIs(c), mode), p.follow(k, c, mode)))
			fs = append(fs, pAnd(p.fai(t.subs[0], env, c, mode), p.step(anySet(), p.then(t, k), c, mode)))
		}
		return pOr(fs...)
	case "past":
		fs := []*pform{p.suc(t.subs[0], env, k, mode)}
		for _, c := range p.after(t.subs[0], env) {
			fs = append(fs, pAnd(p.fai(t.subs[0], env, c, mode), p.step(anySet(), p.then(t, k), c, mode)))
		}
		return pOr(fs...)
	case "body", "bodytail":
		if len(p.begs(t)) > 0 {
			pegFail("capture inside of a body")
		}
		m := p.mode(pmode{kind: "trunc", t: t.subs[1], env: env, outer: mode})
		return pAnd(p.suc(t.subs[0], env, p.kont(pkont{kind: "tend"}), m), p.suc(p.search(t), env, k, mode))
	case "beg":
		if len(p.begs(t.subs[0])) > 0 {
			pegFail("capture inside of a capture")
		}
		id := p.idOf(t.id)
		fs, none := []*pform{}, []*pform{}
		for v, c := range p.caps {
			exact := pAnd(p.suc(p.lit(c), env, p.kont(pkont{kind: "true"}), mode),
				p.suc(t.subs[0], env, p.kont(pkont{kind: "zero"}), p.mode(pmode{kind: "count", n: len([]rune(c)), outer: mode})))
			none = append(none, pNot(exact))
			fs = append(fs, pAnd(exact, p.suc(p.lit(c), env, p.kont(pkont{kind: "set", id: id, env: v, next: k}), mode)))
		}
		none = append(none, p.suc(t.subs[0], env, p.kont(pkont{kind: "set", id: id, env: len(p.caps), next: k}), mode))
		return pOr(append(fs, pAnd(none...))...)
	case "end":
		v := p.envs[env][p.idOf(t.id)]
		if v == len(p.caps) {
			return pFalse
		}
		return p.suc(p.lit(p.caps[v]), env, k, mode)
	case "ref":
		if t.rule != p.cut {
			return p.suc(p.rules[t.rule], env, k, mode)
		}
		if mode != 0 {
			pegFail("recursion inside of a body or capture")
		}
		return pAnd(&pform{op: 's', set: p.setID(p.cutFirst)}, &pform{op: 'o', pred: p.pred(ppred{kont: true, k: k, env: env, mode: mode})})
	case "invalid":
		return pFalse
	}
	pegFail("unknown reader: %s", t)
	return nil
}

func (p *Peg) anySuc(subs []*Term, env, k, mode int) *pform {
	if len(subs) == 0 {
		return pFalse
	}
	fs := []*pform{p.suc(subs[0], env, k, mode)}
	for _, c := range p.after(subs[0], env) {
		fs = append(fs, pAnd(p.fai(subs[0], env, c, mode), p.anySuc(subs[1:], c, k, mode)))
	}
	return pOr(fs...)
}

func (p *Peg) zom(t *Term) *Term {
	k := fmt.Sprintf("zom %p", t)
	if z, ok := p.litCache[k]; ok {
		return z
	}
	p.litCache[k] = tZom(t)
	return p.litCache[k]
}

// search is the part of a body reader that finds the tail.
func (p *Peg) search(t *Term) *Term {
	op := "to"
	if t.op == "bodytail" {
		op = "past"
	}
	k := fmt.Sprintf("%s %p", op, t.subs[1])
	if z, ok := p.litCache[k]; ok {
		return z
	}
	p.litCache[k] = tOp(op, t.subs[1])
	return p.litCache[k]
}

func (p *Peg) mustMove(t *Term) {
	if p.nullable(t.subs[0]) {
		pegFail("repetition of %s, which can succeed without consuming input", t.subs[0])
	}
}

// failForm: only for expressions with captures.
func (p *Peg) failForm(q ppred) *pform {
	t, env, to, mode := q.t, q.env, q.to, q.mode
	after := func(a *Term, rest *Term) *pform { // a succeeds and rest fails behind it
		return p.suc(a, env, p.kont(pkont{kind: "fail", t: rest, env: to}), mode)
	}
	switch t.op {
	case "seq":
		if len(t.subs) == 1 {
			return p.fai(t.subs[0], env, to, mode)
		}
		return pOr(p.fai(t.subs[0], env, to, mode), after(t.subs[0], p.tail(t)))
	case "any":
		return p.anyFail(t.subs, env, to, mode)
	case "opt", "zom":
		return pFalse
	case "many", "at", "beg":
		return p.fai(t.subs[0], env, to, mode)
	case "neg":
		return p.suc(t.subs[0], env, p.envIs(to), mode)
	case "not":
		return pOr(p.suc(t.subs[0], env, p.envIs(to), mode), pAnd(p.fai(t.subs[0], env, to, mode), p.atEnd(mode)))
	case "to", "past":
		fs := []*pform{pAnd(p.fai(t.subs[0], env, to, mode), p.atEnd(mode))}
		for _, c := range p.after(t.subs[0], env) {
			fs = append(fs, pAnd(p.fai(t.subs[0], env, c, mode), p.step(anySet(), p.kont(pkont{kind: "fail", t: t, env: to}), c, mode)))
		}
		return pOr(fs...)
	case "ref":
		return p.fai(p.rules[t.rule], env, to, mode)
	}
	pegFail("unknown reader with a capture: %s", t)
	return nil
}

func (p *Peg) tail(t *Term) *Term {
	k := fmt.Sprintf("tail %p", t)
	if z, ok := p.litCache[k]; ok {
		return z
	}
	p.litCache[k] = tSeq(t.subs[1:]...)
	return p.litCache[k]
}

func (p *Peg) anyFail(subs []*Term, env, to, mode int) *pform {
	if len(subs) == 0 {
		if env == to {
			return pTrue
		}
		return pFalse
	}
	fs := []*pform{}
	for _, c := range p.after(subs[0], env) {
		fs = append(fs, pAnd(p.fai(subs[0], env, c, mode), p.anyFail(subs[1:], c, to, mode)))
	}
	return pOr(fs...)
}

// ------------------------------------------------------------------ automaton

// pcheck is a fact that has to hold in each state.
type pcheck struct {
	what string
	a, b int     // both or none, b < 0: see first
	only runeSet // a implies that the rune is in the set
}

type pstate struct {
	bits string
	from int // the state at the next position
	sym  int // class, -1: end
	jump int // state behind the cut rule, -1: it fails
	mark bool
	set  bool // the mark is here or behind
}

// peval computes the facts of a position from those of the next one.
type peval struct {
	p          *Peg
	idx        []int
	carried    []int
	val        []int8
	touched    []int
	next, jump string
	sym        int
	mark       bool
}

func (e *peval) evalP(q int) bool {
	switch e.val[q] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		pegFail("a rule reaches itself without consuming input")
	}
	e.val[q] = 3
	e.touched = append(e.touched, q)
	r := e.eval(e.p.forms[q])
	e.val[q] = 2
	if r {
		e.val[q] = 1
	}
	return r
}

func (e *peval) eval(f *pform) bool {
	switch f.op {
	case 'c':
		return f.b
	case 's':
		return e.sym >= 0 && e.p.member[f.set][e.sym]
	case 'e':
		return e.sym < 0
	case 'm':
		return e.mark
	case 'n':
		return e.sym >= 0 && e.next[e.idx[f.pred]] == '1'
	case 'o':
		return e.jump != "" && e.jump[e.idx[f.pred]] == '1'
	case 'p':
		return e.evalP(f.pred)
	case '!':
		return !e.eval(f.subs[0])
	case '&':
		for _, s := range f.subs {
			if !e.eval(s) {
				return false
			}
		}
		return true
	case '|':
		for _, s := range f.subs {
			if e.eval(s) {
				return true
			}
		}
		return false
	}
	panic("form")
}

func (e *peval) compute(sym int, mark bool, next, jump string) string {
	e.sym, e.mark, e.next, e.jump = sym, mark, next, jump
	for _, i := range e.touched {
		e.val[i] = 0
	}
	e.touched = e.touched[:0]
	b := make([]byte, len(e.carried))
	for i, q := range e.carried {
		b[i] = '0'
		if e.evalP(q) {
			b[i] = '1'
		}
	}
	return string(b)
}

// explore runs the automaton. An expression ends at one position, so one mark per text is enough.
func (p *Peg) explore(checks []pcheck) (string, string) {
	// all facts
	carried := []int{}
	idx := map[int]int{}
	oracle := []int{}
	isOracle := map[int]bool{}
	seen := map[int]bool{}
	work := []int{}
	carry := func(q int) {
		if _, ok := idx[q]; !ok {
			idx[q] = len(carried)
			carried = append(carried, q)
			work = append(work, q)
		}
	}
	var walk func(f *pform)
	walk = func(f *pform) {
		switch f.op {
		case 'n':
			carry(f.pred)
		case 'o':
			carry(f.pred)
			if !isOracle[f.pred] {
				isOracle[f.pred] = true
				oracle = append(oracle, f.pred)
			}
		case 'p':
			if !seen[f.pred] {
				seen[f.pred] = true
				walk(p.form(f.pred))
			}
		}
		for _, s := range f.subs {
			walk(s)
		}
	}
	for _, c := range checks {
		carry(c.a)
		if c.b >= 0 {
			carry(c.b)
		}
	}
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		if !seen[q] {
			seen[q] = true
			walk(p.form(q))
		}
	}
	// classes of runes
	bounds := map[rune]bool{0: true, 0xd800: true, 0xe000: true}
	for _, s := range p.sets {
		for _, x := range s {
			bounds[x[0]] = true
			bounds[x[1]+1] = true
		}
	}
	for _, c := range checks {
		for _, x := range c.only {
			bounds[x[0]] = true
			bounds[x[1]+1] = true
		}
	}
	bs := []int{}
	for r := range bounds {
		bs = append(bs, int(r))
	}
	sort.Ints(bs)
	sig := map[string]bool{}
	p.classes, p.member = nil, make([][]bool, len(p.sets))
	for i, b := range bs {
		if b >= symBase+len(p.syms) || b >= 0xd800 && b < 0xe000 {
			continue
		}
		r := rune(b)
		end := rune(0x10ffff)
		if b >= symBase {
			end = r
		}
		if i+1 < len(bs) {
			end = rune(bs[i+1]) - 1
		}
		// a readable representative
		for _, x := range "ax0 ~" {
			if x >= r && x <= end {
				r = x
				break
			}
		}
		k := ""
		for _, s := range p.sets {
			k += fmt.Sprint(s.has(r))[:1]
		}
		for _, c := range checks {
			k += fmt.Sprint(c.only.has(r))[:1]
		}
		if sig[k] {
			continue
		}
		sig[k] = true
		p.classes = append(p.classes, r)
		for j, s := range p.sets {
			p.member[j] = append(p.member[j], s.has(r))
		}
	}
	// evaluation
	pos := make([]int, len(p.preds))
	for q, i := range idx {
		pos[q] = i
	}
	newEval := func() *peval {
		return &peval{p: p, idx: pos, carried: carried, val: make([]int8, len(p.preds))}
	}
	ev := newEval()
	for i := range p.preds {
		if seen[i] && p.forms[i] == nil {
			p.form(i)
		}
	}
	states := []pstate{}
	index := map[string]int{}
	jumps := []int{} // one state per assignment of the oracle facts
	jumpKey := map[string]bool{}
	var bad *pcheck
	badAt := 0
	add := func(s pstate) {
		for i := range checks {
			c := &checks[i]
			a := s.bits[idx[c.a]] == '1'
			fails := false
			if c.b >= 0 {
				fails = a != (s.bits[idx[c.b]] == '1')
			} else {
				fails = a && (s.sym < 0 || !c.only.has(p.classes[s.sym]))
			}
			if fails && bad == nil {
				states = append(states, s)
				bad, badAt = c, len(states)-1
				return
			}
		}
		key := fmt.Sprint(s.set)[:1] + s.bits
		if _, ok := index[key]; ok {
			return
		}
		index[key] = len(states)
		states = append(states, s)
		k := fmt.Sprint(s.set)
		for _, q := range oracle {
			k += s.bits[idx[q] : idx[q]+1]
		}
		if len(oracle) > 0 && !jumpKey[k] {
			jumpKey[k] = true
			jumps = append(jumps, len(states)-1)
		}
		if len(states) > 60000 {
			pegFail("too many states")
		}
	}
	for _, m := range []bool{false, true} {
		add(pstate{ev.compute(-1, m, "", ""), -1, -1, -1, m, m})
	}
	// without a cut rule the successors of many states can be computed at once
	if len(oracle) == 0 {
		evs := make([]*peval, runtime.NumCPU())
		for i := range evs {
			evs[i] = newEval()
		}
		for lo := 0; lo < len(states) && bad == nil; {
			hi := len(states)
			if hi > lo+512 {
				hi = lo + 512
			}
			succ := make([][2][]string, hi-lo)
			errs := make([]interface{}, len(evs))
			var wg sync.WaitGroup
			for w := range evs {
				if hi-lo < 16 && w > 0 {
					break
				}
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					defer func() { errs[w] = recover() }()
					step := len(evs)
					if hi-lo < 16 {
						step = 1
					}
					for si := lo + w; si < hi; si += step {
						for mi, m := range []bool{false, true} {
							if m && states[si].set {
								continue
							}
							for a := range p.classes {
								succ[si-lo][mi] = append(succ[si-lo][mi], evs[w].compute(a, m, states[si].bits, ""))
							}
						}
					}
				}(w)
			}
			wg.Wait()
			for _, e := range errs {
				if e != nil {
					panic(e)
				}
			}
			for si := lo; si < hi && bad == nil; si++ {
				for a := range p.classes {
					for mi, m := range []bool{false, true} {
						if m && states[si].set || bad != nil {
							continue
						}
						p.steps++
						add(pstate{succ[si-lo][mi][a], si, a, -1, m, m || states[si].set})
					}
				}
			}
			lo = hi
		}
	}
	// work through the pairs of a state and a state behind the cut rule
	type todo struct{ s, j int }
	done := map[todo]bool{}
	for changed := len(oracle) > 0; changed && bad == nil; {
		changed = false
		for si := 0; si < len(states) && bad == nil; si++ {
			for ji := -1; ji < len(jumps) && bad == nil; ji++ {
				j := -1
				if ji >= 0 {
					j = jumps[ji]
				}
				if done[todo{si, j}] {
					continue
				}
				done[todo{si, j}] = true
				if j >= 0 && states[j].set && !states[si].set {
					continue
				}
				changed = true
				for a := range p.classes {
					if j >= 0 && !p.cutFirst.has(p.classes[a]) {
						continue
					}
					for _, m := range []bool{false, true} {
						if m && states[si].set {
							continue
						}
						jump := ""
						if j >= 0 {
							jump = states[j].bits
						}
						p.steps++
						add(pstate{ev.compute(a, m, states[si].bits, jump), si, a, j, m, m || states[si].set})
						if bad != nil {
							break
						}
					}
					if bad != nil {
						break
					}
				}
			}
		}
	}
	p.states += len(states)
	if os.Getenv("TOKDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d facts, %d carried, %d classes, %d states\n", checks[0].what, len(p.preds), len(carried), len(p.classes), len(states))
	}
	if bad == nil {
		return "", ""
	}
	// the text
	var b strings.Builder
	for i, n := badAt, 0; i >= 0 && n < 200; n++ {
		s := states[i]
		if s.mark {
			b.WriteString("¦")
		}
		if s.sym >= 0 {
			if s.jump >= 0 {
				b.WriteString("<value>")
				i = s.jump
				continue
			}
			if r := p.classes[s.sym]; r >= symBase {
				b.WriteString("<" + p.syms[r-symBase] + ">")
			} else {
				b.WriteRune(r)
			}
		}
		i = s.from
	}
	return bad.what, b.String()
}

// prepare fixes the begin/end pairs of the terms.
func (p *Peg) prepare(ts ...*Term) []int {
	for _, t := range ts {
		p.collectIDs(t, map[*Term]bool{})
	}
	envs := []int{}
	vals := make([]int, len(p.ids))
	for {
		envs = append(envs, p.envID(vals))
		i := 0
		for ; i < len(vals); i++ {
			vals[i]++
			if vals[i] <= len(p.caps) {
				break
			}
			vals[i] = 0
		}
		if i == len(vals) {
			break
		}
	}
	return envs
}

// equal gives the checks that two expressions consume the same and capture the same.
func (p *Peg) equal(what string, a, b *Term) []pcheck {
	res := []pcheck{}
	a, b = p.same(a), p.same(b)
	for _, env := range p.prepare(a, b) {
		tos := []int{-1}
		if len(p.begs(a)) > 0 || len(p.begs(b)) > 0 {
			tos = p.after(tSeq(a, b), env)
		}
		for _, to := range tos {
			k := p.kont(pkont{kind: "mark", env: to})
			res = append(res, pcheck{what: what, a: p.pred(ppred{t: a, env: env, k: k}), b: p.pred(ppred{t: b, env: env, k: k})})
		}
	}
	return res
}
