package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ck collects the obligations of one property.
type Ck struct {
	id       string
	p        *Prog
	in       *Interp
	obls     int
	done     int
	subjects map[string]bool
	viols    []Viol
	known    []string
	samples  []string
	rule     string
	bound    []string
	minObl   int
	seenKeys map[string]bool
	thorough bool
	funcs    map[string]bool
	loops    map[string]bool
	sites    int
	made     map[string]bool
	basicOK  map[string]bool
}

// Viol is one undischarged obligation.
type Viol struct {
	key    string // stable identity: subject and clause
	site   string
	detail string
	path   []string
}

func newCk(id string, p *Prog) *Ck {
	return &Ck{id: id, p: p, subjects: map[string]bool{}, seenKeys: map[string]bool{}, funcs: map[string]bool{}, loops: map[string]bool{}}
}

// interp gives a fresh interpreter.
func (c *Ck) interp() *Interp {
	c.absorb()
	c.in = newInterp(c.p)
	return c.in
}

// absorb takes over the statistics of the interpreter in use.
func (c *Ck) absorb() {
	if c.in == nil {
		return
	}
	for f := range c.in.funcs {
		c.funcs[shortName(f)] = true
	}
	for _, l := range c.in.loops {
		c.loops[c.in.site(l.fn, l.pos)] = true
	}
	for _, o := range c.in.out {
		c.fail("analysis", "undecided: "+o, "", nil)
	}
	c.in.out = nil
}

// ob records an obligation about subject; key names the clause.
func (c *Ck) ob(ok bool, subject, clause, detail string, st *State) bool {
	c.subjects[subject] = true
	c.obls++
	if ok {
		c.done++
		if len(c.samples) < 8 && !c.seenKeys["s:"+subject] {
			c.seenKeys["s:"+subject] = true
			c.samples = append(c.samples, subject+": "+clause)
		}
		return true
	}
	c.addViol(subject, clause, detail, st)
	return false
}

func (c *Ck) fail(subject, clause, detail string, st *State) {
	c.ob(false, subject, clause, detail, st)
}

func (c *Ck) addViol(subject, clause, detail string, st *State) {
	k := subject + ": " + clause
	if c.seenKeys["v:"+k] {
		return
	}
	c.seenKeys["v:"+k] = true
	v := Viol{key: k, detail: detail}
	if st != nil {
		v.path = append([]string(nil), st.steps...)
		for _, n := range st.notes {
			v.detail += " [imprecision: " + n + "]"
		}
	}
	c.viols = append(c.viols, v)
}

// guarded runs f; a resource or internal problem of the analysis is an undischarged obligation.
func (c *Ck) guarded(subject string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case fuelErr:
				c.fail(subject, "undecided", x.why, nil)
			case overflowErr:
				c.fail(subject, "undecided", "arithmetic overflow in the analysis", nil)
			default:
				if os.Getenv("TOKPANIC") != "" {
					panic(r)
				}
				c.fail(subject, "undecided", fmt.Sprint("internal: ", r), nil)
			}
		}
	}()
	f()
}

type knownEntry struct{ id, key string }

func readKnown(file string) []knownEntry {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	res := []knownEntry{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		key := strings.TrimSpace(l[i:])
		if j := strings.Index(key, " -- "); j >= 0 {
			key = key[:j]
		}
		res = append(res, knownEntry{l[:i], key})
	}
	return res
}

// checks is the registry, filled by the spec files.
var checks = map[string]func(*Ck){}
var minObls = map[string]int{}
var levelOf = map[string]string{}
var ruleOf = map[string]string{}
var assumeOf = map[string][]string{}

func register(id, rule string, min int, f func(*Ck), assume ...string) {
	checks[id] = f
	ruleOf[id] = rule
	minObls[id] = min
	assumeOf[id] = assume
}

// precise keeps the first round of a loop apart from the others.
var precise bool

// deadline ends an analysis in the precise mode.
var deadline time.Time

func (v Viol) subject() string {
	if i := strings.Index(v.key, ": "); i >= 0 {
		return v.key[:i]
	}
	return v.key
}

// unlisted: there is a violation that is not a known finding.
func (c *Ck) unlisted(kn []knownEntry) bool {
	for _, v := range c.viols {
		hit := false
		for _, k := range kn {
			hit = hit || k.id == c.id && k.key == v.key
		}
		if !hit {
			return true
		}
	}
	return false
}

// retain drops the violations of the subjects that the analysis d has decided.
func (c *Ck) retain(d *Ck) {
	bad := map[string]bool{}
	for _, v := range d.viols {
		bad[v.subject()] = true
	}
	if bad["analysis"] || bad["check"] {
		return
	}
	keep := []Viol{}
	for _, v := range c.viols {
		if bad[v.subject()] || v.subject() != "analysis" && v.subject() != "check" && !d.subjects[v.subject()] {
			keep = append(keep, v)
		} else {
			c.done++
		}
	}
	c.viols = keep
}

func runCheck(id, repo, verif string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := newCk(id, nil)
	c.thorough = tier == "thorough"
	f := checks[id]
	if f == nil {
		fmt.Println("no check for", id)
		return 2
	}
	kn := readKnown(filepath.Join(verif, "known-findings.txt"))
	p, err := load(repo)
	if err != nil {
		c.fail("program", "the source cannot be analysed", err.Error(), nil)
	} else {
		c.p = p
		analyse := func(c *Ck) {
			c.guarded("check", func() { f(c) })
			c.absorb()
			if c.obls < minObls[id] && len(c.viols) == 0 {
				c.fail("check", "the analysis did not reach its subjects", fmt.Sprintf("%d obligations, at least %d expected", c.obls, minObls[id]), nil)
			}
		}
		analyse(c)
		if c.unlisted(kn) && time.Since(t0) < 200*time.Second && os.Getenv("TOKONCE") == "" {
			// What the default precision cannot decide is analysed again with loops whose first
			// round is kept apart. Both analyses are sound: what one of them shows holds.
			precise = true
			deadline = time.Now().Add(500 * time.Second)
			d := newCk(id, p)
			d.thorough = c.thorough
			analyse(d)
			c.retain(d)
		}
	}
	// known findings
	rest := []Viol{}
	for _, v := range c.viols {
		hit := false
		for _, k := range kn {
			if k.id == id && k.key == v.key {
				hit = true
			}
		}
		if hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v.key)
			c.known = append(c.known, v.key)
		} else {
			rest = append(rest, v)
		}
	}
	subj := []string{}
	for s := range c.subjects {
		subj = append(subj, s)
	}
	sort.Strings(subj)
	funcs := []string{}
	for s := range c.funcs {
		funcs = append(funcs, s)
	}
	sort.Strings(funcs)
	if len(c.samples) == 0 {
		c.samples = []string{"none"}
	}
	cov := map[string]interface{}{
		"obligations":        c.obls,
		"discharged":         c.done,
		"explanation":        ruleOf[id],
		"rule":               ruleOf[id],
		"subjects":           subj,
		"functions_analysed": funcs,
		"loops_analysed":     len(c.loops),
		"emptiness_tests":    lpCalls,
		"samples":            c.samples,
		"known_findings":     c.known,
		"checker_cmd":        "./check.sh " + id,
		"trusted_base":       []string{"go/types and x/tools/go/ssa", "the abstract interpreter and models of the standard library in /verif/tool"},
	}
	if len(c.bound) > 0 {
		cov["bounds"] = c.bound
	}
	vs := []map[string]interface{}{}
	for _, v := range rest {
		vs = append(vs, map[string]interface{}{"construct": v.key, "detail": v.detail, "path": v.path})
	}
	if len(vs) > 0 {
		cov["violations_found"] = vs
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": levelFor(id), "coverage": cov,
		"assumptions": append([]string{"sub readers and callbacks given by the caller keep their contract (stated per property)", "arithmetic on positions does not overflow"}, assumeOf[id]...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(rest),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	if len(rest) > 0 {
		rp := filepath.Join(dir, id+".violation.txt")
		var sb strings.Builder
		for _, v := range rest {
			fmt.Fprintf(&sb, "%s\n  %s\n", v.key, v.detail)
			for _, s := range v.path {
				fmt.Fprintf(&sb, "    via %s\n", s)
			}
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("property=%s held: %d obligations on %d subjects (%d functions, %d loops) in %.1fs\n", id, c.obls, len(subj), len(funcs), len(c.loops), time.Since(t0).Seconds())
	return 0
}

func levelFor(id string) string {
	if l := levelOf[id]; l != "" {
		return l
	}
	return "other"
}

// ------------------------------------------------------------------- subjects

// Run is one evaluated function on a symbolic scanner.
type Run struct {
	name string
	fn   *ssa.Function
	in   *Interp
	sc   ObjID
	p0   Lin
	L    Lin
	text *StrBase
	args []Val
	outs []Outcome
}

// symScanner gives the symbolic scanner: its pointer, position, length and text.
func (c *Ck) symScanner(in *Interp, st *State) (Ptr, Lin, Lin, *StrBase) {
	pt := symVal("s", ptrTo(c.p.tok.Type("Scanner").Type())).(Ptr)
	s := in.textOf(st, pt.obj)
	return pt, in.posOf(st, pt.obj), s.length(), s.b
}

// scan evaluates a scanner method with symbolic arguments.
func (c *Ck) scan(name string, set ...func(*Interp)) *Run {
	fn := c.p.method(c.p.tok, "Scanner", name)
	if fn == nil {
		c.fail("Scanner."+name, "is part of the interface", "method not found", nil)
		return nil
	}
	return c.scanFn(name, fn, set...)
}

func (c *Ck) scanFn(name string, fn *ssa.Function, set ...func(*Interp)) *Run {
	in := c.interp()
	for _, s := range set {
		s(in)
	}
	r := &Run{name: "Scanner." + name, fn: fn, in: in}
	c.guarded(r.name, func() {
		st := in.newState()
		pt, p0, L, b := c.symScanner(in, st)
		r.sc, r.p0, r.L, r.text = pt.obj, p0, L, b
		for i, p := range fn.Params {
			if i == 0 {
				r.args = append(r.args, pt)
				continue
			}
			r.args = append(r.args, c.arg(p.Name(), p))
		}
		r.outs = in.call(fn, r.args, nil, st)
	})
	c.absorb()
	return r
}

// arg is the symbolic value of a parameter. Functions and readers are not nil.
func (c *Ck) arg(name string, p *ssa.Parameter) Val {
	v := symVal(name, p.Type())
	if i, ok := v.(Iface); ok {
		i.nn = true
		return i
	}
	return v
}

// live gives the outcomes that return, with the last result split into success and failure.
type Res struct {
	o   *Outcome
	st  *State
	ok  bool
	pos Lin
}

func (r *Run) results(c *Ck) []Res {
	res := []Res{}
	for i := range r.outs {
		o := &r.outs[i]
		if o.panic != "" {
			continue
		}
		if len(o.rets) == 0 {
			res = append(res, Res{o, o.st, true, r.in.posOf(o.st, r.sc)})
			continue
		}
		for _, b := range splitOK(o.st, o.rets[len(o.rets)-1]) {
			res = append(res, Res{o, b.st, b.ok, r.in.posOf(b.st, r.sc)})
		}
	}
	return res
}

type okSplit struct {
	st *State
	ok bool
}

// splitOK interprets a bool or error result.
func splitOK(st *State, v Val) []okSplit {
	var b BoolV
	switch x := v.(type) {
	case BoolV:
		b = x
	case Iface:
		b = ifaceNil(x)
	default:
		return []okSplit{{st, true}}
	}
	switch st.decide(b) {
	case 1:
		return []okSplit{{st, true}}
	case 0:
		return []okSplit{{st, false}}
	}
	res := []okSplit{}
	for _, s := range st.clone().assume(b, true) {
		res = append(res, okSplit{s, true})
	}
	for _, s := range st.clone().assume(b, false) {
		res = append(res, okSplit{s, false})
	}
	return res
}
