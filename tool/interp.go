package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Interp is the abstract interpreter. It evaluates SSA functions over sets of
// abstract states; loops are solved by fixpoints over invariant candidates.
type Interp struct {
	p        *Prog
	exact    bool // integers wrap around
	lines    bool // count line ends and tabs (C31)
	lineTab  Lin
	lineBase *StrBase
	hostile  bool // opaque readers and functions may leave the scanner anywhere
	// sub readers whose contract is replaced, see models.go
	stack      []*ssa.Function
	stackKy    []string
	bottom     ObjID // objects with a higher number were made by the call under analysis
	stackArgs  [][]Val
	recSum     bool // recursive calls are replaced by a summary
	recs       map[*ssa.Function]bool
	loops      map[string]*LoopInfo // termination results, keyed by loop position
	funcs      map[*ssa.Function]bool
	fuel       int
	out        []string // problems that make an answer impossible (fuel, unsupported)
	forks      int
	loopCache  map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	onEvent    func(st *State, e Event)
	onInstr    func(ssa.Instruction)
	onSort     func(st *State, n int64, less func(st *State, i, j int64) []Outcome)
	noEffects  bool                                  // opaque readers change nothing but the scanner
	readEffect func(st *State, name string, ok bool) // what an opaque reader does besides moving
	copyAppend func(n int64) bool                    // an append to n elements moves them to a new array
	grammarOf  map[string]Val                        // the rules of opaque grammars
	inInit     bool                                  // evaluates the initialisation of a package
	maxRec     int                                   // nesting of a function that calls itself
	onBack     func(st *State, site string)
	onReturn   func(st *State)
	summary    func(fn *ssa.Function, args []Val, st *State, site string) []Outcome
	nested     map[string]bool                            // reader types whose nested Read is replaced by the contract of readers
	onWrite    func(st *State, q Ptr, v Val, site string) // a write to an object that existed before
	deep       bool                                       // evaluate longer concrete loops step by step
	onAlloc    func(id ObjID, t types.Type)
	owned      map[ObjID]bool // objects made since owned was set
	dir        int            // direction opaque functions move: 0 forward, -1 backward
}

func (in *Interp) unroll() int {
	if in.deep {
		return 96
	}
	return 48
}

// LoopInfo is the termination verdict of one loop.
type LoopInfo struct {
	fn       *ssa.Function
	pos      token.Pos
	solved   int
	unrolled int
	bad      int
	measure  string
	why      string
}

// Outcome of a function: normal return or panic.
type Outcome struct {
	st    *State
	rets  []Val
	panic string // site and reason
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	free   []Val
	defers []deferred
	in     *Interp
}

type deferred struct {
	fn   FuncV
	call *ssa.CallCommon
	args []Val
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, free: f.free, in: f.in}
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return n
}

// descends: the pointer arguments of a recursive call map one to one to parameters that
// reach them, at least one of them strictly.
func (in *Interp) descends(fn *ssa.Function, args []Val, st *State) bool {
	ptrs := func(vs []Val) []string {
		r := []string{}
		for _, v := range vs {
			if p, ok := v.(Ptr); ok && p.idx == nil && !isBuilder(objTypes[p.obj]) {
				if _, isS := objTypes[p.obj].Underlying().(*types.Struct); isS {
					r = append(r, objNames[p.obj]+p.path)
				}
			}
		}
		return r
	}
	var params []Val
	for i := len(in.stack) - 1; i >= 0; i-- {
		if in.stack[i] == fn {
			params = in.stackArgs[i]
			break
		}
	}
	ps, as := ptrs(params), ptrs(args)
	if len(ps) == 0 || len(as) > len(ps) {
		return false
	}
	strict := func(a, p string) bool {
		return a != p && (strings.Contains(a, "arr("+p+".") || strings.HasPrefix(a, p+"."))
	}
	var try func(i int, used int, some bool) bool
	try = func(i int, used int, some bool) bool {
		if i == len(as) {
			return some
		}
		for k, p := range ps {
			if used&(1<<k) != 0 {
				continue
			}
			if as[i] == p && try(i+1, used|1<<k, some) || strict(as[i], p) && try(i+1, used|1<<k, true) {
				return true
			}
		}
		return false
	}
	return try(0, 0, false)
}

func isBuilder(t types.Type) bool { return isNamed(t, "strings", "Builder") }

type fuelErr struct{ why string }

func newInterp(p *Prog) *Interp {
	return &Interp{p: p, loops: map[string]*LoopInfo{}, funcs: map[*ssa.Function]bool{}, fuel: 3000000, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}}
}

func (in *Interp) newState() *State {
	st := &State{in: in, subst: map[Sym]Lin{}, heap: map[ObjID]*Obj{}}
	for id, o := range in.p.globals {
		st.heap[id] = o.clone()
	}
	return st
}

func (in *Interp) site(fn *ssa.Function, p token.Pos) string {
	if p == token.NoPos {
		return fn.String()
	}
	pos := in.p.fset.Position(p)
	return fmt.Sprintf("%s:%d (%s)", in.p.rel(pos.Filename), pos.Line, shortName(fn))
}

func shortName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/aiq/tok/grammar", "grammar")
	s = strings.ReplaceAll(s, "github.com/aiq/tok", "tok")
	return s
}

// call evaluates fn with args in st (consumed).
func (in *Interp) call(fn *ssa.Function, args []Val, free []Val, st *State) []Outcome {
	if len(fn.Blocks) == 0 {
		return in.external(fn, args, st, nil, token.NoPos)
	}
	n := 0
	for _, f := range in.stack {
		if f == fn {
			n++
		}
	}
	// the same function with the same arguments in an unchanged scanner position recurses endlessly
	ky := fn.String() + keys(normAll(st, args))
	if n > 0 {
		for _, k := range in.stackKy {
			if k == ky {
				st.note("recursion of %s with the same arguments", shortName(fn))
				in.badLoop(fn, fn.Pos(), "calls itself with the same arguments")
				return []Outcome{{st: st, rets: in.freshRets(fn)}}
			}
		}
	}
	if n > 0 && in.recSum && (n > 2 || in.descends(fn, args, st)) {
		// the contract of a function that calls itself: anything it can reach may change
		if in.recs == nil {
			in.recs = map[*ssa.Function]bool{}
		}
		in.recs[fn] = true
		if !in.descends(fn, args, st) {
			in.badLoop(fn, fn.Pos(), "calls itself on structures that are not shown to be smaller")
		} else {
			in.loopInfo(fn, fn.Pos())
		}
		in.havocReach(st, args)
		return []Outcome{{st: st, rets: in.freshRets(fn)}}
	}
	if n > 3+in.maxRec || len(in.stack) > 40+in.maxRec {
		st.note("recursion of %s", shortName(fn))
		in.out = append(in.out, "recursion of "+shortName(fn)+" is not resolved")
		in.havocAll(st)
		return []Outcome{{st: st, rets: in.freshRets(fn)}}
	}
	in.funcs[fn] = true
	if len(in.stack) == 0 {
		in.bottom = nextObj
	}
	in.stack = append(in.stack, fn)
	in.stackKy = append(in.stackKy, ky)
	in.stackArgs = append(in.stackArgs, args)
	defer func() {
		in.stack = in.stack[:len(in.stack)-1]
		in.stackKy = in.stackKy[:len(in.stackKy)-1]
		in.stackArgs = in.stackArgs[:len(in.stackArgs)-1]
	}()
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, free: free, in: in}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = freshVal(p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		} else {
			fr.env[p] = freshVal(p.Name(), p.Type())
		}
	}
	r := in.region(fr, fn.Blocks[0], nil, nil, st)
	if strings.HasPrefix(fn.Name(), "Must") && in.p.inRepo(fn) {
		for i := range r.outs {
			if strings.HasSuffix(r.outs[i].panic, ": panic") {
				r.outs[i].panic += " as documented"
			}
		}
	}
	return r.outs
}

func normAll(st *State, vs []Val) []Val {
	r := make([]Val, len(vs))
	for i, v := range vs {
		if v != nil {
			r[i] = st.normVal(v)
			if p, ok := r[i].(Ptr); ok && isTok(objTypes[p.obj], "Scanner") {
				r[i] = TupleV{[]Val{p, st.normVal(st.load(Ptr{obj: p.obj, path: in1(st)}))}}
			}
		}
	}
	return r
}

func in1(st *State) string { return fmt.Sprintf(".%d", st.in.p.posField) }

func (in *Interp) freshRets(fn *ssa.Function) []Val {
	res := fn.Signature.Results()
	r := []Val{}
	for i := 0; i < res.Len(); i++ {
		r = append(r, freshVal("ret", res.At(i).Type()))
	}
	return r
}

// edge is a control transfer that leaves a region.
type edge struct {
	from, to *ssa.BasicBlock
	fr       *frame
	st       *State
}

type regionRes struct {
	outs         []Outcome
	exits        []edge // out of the loop
	backs        []edge // to the header
	hdrUndecided bool
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// loopsOf finds the natural loops of fn by header.
func (in *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if l, ok := in.loopCache[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &natLoop{s, map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	in.loopCache[fn] = res
	return res
}

type item struct {
	b, prev *ssa.BasicBlock
	fr      *frame
	st      *State
	skipPhi bool
}

// region evaluates from block b (entered from prev). If loop is not nil, the
// evaluation stays inside of the loop: edges back to its header and edges that
// leave it are returned. Inner loops are solved.
func (in *Interp) region(fr *frame, b, prev *ssa.BasicBlock, loop *natLoop, st *State) *regionRes {
	res := &regionRes{}
	loops := in.loopsOf(fr.fn)
	work := []item{{b, prev, fr, st, loop != nil}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.st.dead {
			continue
		}
		in.fuel--
		if in.fuel < 0 || precise && in.fuel%256 == 0 && time.Now().After(deadline) {
			panic(fuelErr{"evaluation budget used up in " + shortName(fr.fn)})
		}
		if !it.skipPhi {
			if loop != nil && it.b == loop.header {
				res.backs = append(res.backs, edge{it.prev, it.b, it.fr, it.st})
				continue
			}
			if loop != nil && !loop.blocks[it.b] {
				res.exits = append(res.exits, edge{it.prev, it.b, it.fr, it.st})
				continue
			}
			if inner := loops[it.b]; inner != nil && inner != loop {
				in.bindPhis(it.fr, it.b, it.prev)
				lr := in.solveLoop(it.fr, inner, it.st)
				res.outs = append(res.outs, lr.outs...)
				for _, e := range lr.exits {
					work = append(work, item{e.to, e.from, e.fr, e.st, false})
				}
				continue
			}
			in.bindPhis(it.fr, it.b, it.prev)
		}
		// execute the instructions, a call may fork
		type cursor struct {
			fr *frame
			st *State
			i  int
		}
		cur := []cursor{{it.fr, it.st, 0}}
		for len(cur) > 0 {
			c := cur[len(cur)-1]
			cur = cur[:len(cur)-1]
			ended := false
			for c.i < len(it.b.Instrs) && !c.st.dead {
				ins := it.b.Instrs[c.i]
				c.i++
				in.fuel--
				if in.onInstr != nil {
					in.onInstr(ins)
				}
				switch x := ins.(type) {
				case *ssa.Phi, *ssa.DebugRef:
					continue
				case *ssa.If:
					cond := in.val(c.fr, x.Cond)
					bv, ok := cond.(BoolV)
					if !ok {
						bv = atomB(freshKey("cond"))
					}
					d := c.st.decide(bv)
					if d < 0 && loop != nil && it.b == loop.header {
						res.hdrUndecided = true
					}
					if d != 0 {
						s, f := c.st, c.fr
						if d < 0 {
							s, f = c.st.clone(), c.fr.clone()
							in.forks++
						}
						var ss []*State
						if d == 1 {
							ss = []*State{s}
						} else {
							ss = s.assume(bv, true)
						}
						for k, t := range ss {
							g := f
							if k < len(ss)-1 {
								g = f.clone()
							}
							t.steps = append(t.steps, in.branch(c.fr.fn, x, true))
							work = append(work, item{it.b.Succs[0], it.b, g, t, false})
						}
					}
					if d != 1 {
						var ss []*State
						if d == 0 {
							ss = []*State{c.st}
						} else {
							ss = c.st.assume(bv, false)
						}
						for k, t := range ss {
							g := c.fr
							if k < len(ss)-1 {
								g = c.fr.clone()
							}
							t.steps = append(t.steps, in.branch(c.fr.fn, x, false))
							work = append(work, item{it.b.Succs[1], it.b, g, t, false})
						}
					}
					ended = true
				case *ssa.Jump:
					work = append(work, item{it.b.Succs[0], it.b, c.fr, c.st, false})
					ended = true
				case *ssa.Return:
					rets := make([]Val, len(x.Results))
					for i, r := range x.Results {
						rets[i] = in.val(c.fr, r)
					}
					res.outs = append(res.outs, Outcome{st: c.st, rets: rets})
					ended = true
				case *ssa.Panic:
					res.outs = append(res.outs, Outcome{st: c.st, panic: in.site(c.fr.fn, x.Pos()) + ": panic"})
					ended = true
				default:
					outs := in.instr(c.fr, c.st, ins)
					if outs == nil { // no fork
						continue
					}
					for k := range outs {
						o := &outs[k]
						if o.st.dead {
							continue
						}
						if o.panic != "" {
							res.outs = append(res.outs, Outcome{st: o.st, panic: o.panic})
							continue
						}
						f := o.fr
						if f == nil {
							f = c.fr.clone()
						}
						if v, ok := ins.(ssa.Value); ok && o.v != nil {
							f.env[v] = o.v
						}
						cur = append(cur, cursor{f, o.st, c.i})
					}
					ended = true
				}
				if ended {
					break
				}
			}
		}
	}
	return res
}

func (in *Interp) branch(fn *ssa.Function, x *ssa.If, v bool) string {
	p := x.Cond.Pos()
	pos := in.p.fset.Position(p)
	if p == token.NoPos {
		return fmt.Sprintf("%s:%v", shortName(fn), v)
	}
	return fmt.Sprintf("%s:%d:%v", in.p.rel(pos.Filename), pos.Line, v)
}

func (in *Interp) bindPhis(fr *frame, b, prev *ssa.BasicBlock) {
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	vs := []pv{}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if k >= 0 {
			vs = append(vs, pv{p, in.val(fr, p.Edges[k])})
		}
	}
	for _, x := range vs {
		fr.env[x.p] = x.v
	}
}

func (in *Interp) val(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return FuncV{fn: x, typ: x.Signature}
	case *ssa.Global:
		return Ptr{obj: globalObj(x)}
	case *ssa.Builtin:
		return Opaque{"builtin"}
	}
	r, ok := fr.env[v]
	if !ok {
		r = freshVal("undef", v.Type())
		fr.env[v] = r
	}
	return r
}

// iout is a forked result of one instruction.
type iout struct {
	st    *State
	fr    *frame
	v     Val
	panic string
}

func (in *Interp) guard(fr *frame, st *State, safe BoolV, what string, pos token.Pos) []iout {
	d := st.decide(safe)
	if d == 1 {
		return nil
	}
	res := []iout{}
	bad := st.clone()
	for _, b := range bad.assume(safe, false) {
		res = append(res, iout{st: b, panic: in.site(fr.fn, pos) + ": " + what})
	}
	if d != 0 {
		for _, g := range st.assume(safe, true) {
			res = append(res, iout{st: g})
		}
	}
	if len(res) == 0 {
		st.dead = true
		return []iout{{st: st}}
	}
	return res
}

// withGuard evaluates f in all states in which safe holds.
func (in *Interp) withGuard(fr *frame, st *State, safe BoolV, what string, pos token.Pos, f func(st *State) Val) []iout {
	g := in.guard(fr, st, safe, what, pos)
	if g == nil {
		return []iout{{st: st, fr: fr, v: f(st)}}
	}
	for i := range g {
		if g[i].panic == "" && !g[i].st.dead {
			g[i].v = f(g[i].st)
		}
	}
	return g
}

// instr evaluates one instruction. nil means: no fork, continue with the same state.
func (in *Interp) instr(fr *frame, st *State, ins ssa.Instruction) []iout {
	set := func(v ssa.Value, x Val) []iout {
		fr.env[v] = x
		return nil
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := st.alloc(x.Comment, t)
		st.obj(id).local = !x.Heap
		return set(x, Ptr{obj: id})
	case *ssa.Store:
		p := in.val(fr, x.Addr)
		return in.deref(fr, st, p, x.Pos(), func(st *State, q Ptr) Val {
			in.fieldStore(fr, st, x)
			in.storeHook(st, q, in.val(fr, x.Val), in.site(fr.fn, x.Pos()))
			return nil
		})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := in.val(fr, x.X)
			return in.deref(fr, st, p, x.Pos(), func(st *State, q Ptr) Val { return st.load(q) })
		case token.NOT:
			if b, ok := in.val(fr, x.X).(BoolV); ok {
				return set(x, b.not())
			}
		case token.SUB:
			if n, ok := in.val(fr, x.X).(Num); ok {
				return set(x, in.wrap(st, x.Type(), n.l.neg()))
			}
		}
		return set(x, freshVal("unop", x.Type()))
	case *ssa.BinOp:
		return in.binop(fr, st, x)
	case *ssa.FieldAddr:
		p := in.val(fr, x.X)
		return in.deref(fr, st, p, x.Pos(), func(st *State, q Ptr) Val {
			if q.idx != nil {
				q.sub = fmt.Sprintf("%s.%d", q.sub, x.Field)
			} else {
				q.path = fmt.Sprintf("%s.%d", q.path, x.Field)
			}
			return q
		})
	case *ssa.Field:
		if s, ok := in.val(fr, x.X).(StructV); ok && x.Field < len(s.f) {
			return set(x, s.f[x.Field])
		}
		return set(x, freshVal("field", x.Type()))
	case *ssa.IndexAddr:
		i, _ := in.val(fr, x.Index).(Num)
		switch s := in.val(fr, x.X).(type) {
		case SliceV:
			n := s.hi.sub(s.lo)
			safe := andB(leB(i.l.neg()), leB(i.l.sub(n).addK(1)))
			return in.withGuard(fr, st, safe, "index out of range", x.Pos(), func(st *State) Val {
				k := st.norm(s.lo.add(i.l))
				return Ptr{obj: s.arr, idx: &k}
			})
		case Ptr:
			if at, ok := objTypes[s.obj].Underlying().(*types.Array); ok && s.path == "" && s.idx == nil {
				safe := andB(leB(i.l.neg()), leB(i.l.addK(1-at.Len())))
				return in.withGuard(fr, st, safe, "index out of range", x.Pos(), func(st *State) Val {
					k := st.norm(i.l)
					return Ptr{obj: s.obj, idx: &k}
				})
			}
			if at, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				if k := st.norm(i.l); k.isConst() && 0 <= k.c && k.c < at.Len() && at.Len() <= 64 {
					if s.idx != nil {
						s.sub = fmt.Sprintf("%s.%d", s.sub, k.c)
					} else {
						s.path = fmt.Sprintf("%s.%d", s.path, k.c)
					}
					return set(x, s)
				}
			}
		case NilV:
			return []iout{{st: st, panic: in.site(fr.fn, x.Pos()) + ": index of nil"}}
		}
		st.note("index of unknown")
		return set(x, Ptr{obj: st.alloc("unknown", elemType(x.X.Type()))})
	case *ssa.Index, *ssa.Lookup:
		if l, ok := ins.(*ssa.Lookup); ok {
			if _, isMap := l.X.Type().Underlying().(*types.Map); isMap {
				return in.mapLookup(fr, st, l)
			}
		}
		return in.index(fr, st, ins)
	case *ssa.Slice:
		return in.slice(fr, st, x)
	case *ssa.MakeClosure:
		b := make([]Val, len(x.Bindings))
		for i := range b {
			b[i] = in.val(fr, x.Bindings[i])
		}
		return set(x, FuncV{fn: x.Fn.(*ssa.Function), binds: b, typ: x.Type()})
	case *ssa.MakeInterface:
		return set(x, Iface{dyn: x.X.Type(), v: in.val(fr, x.X)})
	case *ssa.ChangeInterface:
		return set(x, in.val(fr, x.X))
	case *ssa.ChangeType:
		return set(x, in.val(fr, x.X))
	case *ssa.Convert:
		return in.convert(fr, st, x)
	case *ssa.MultiConvert:
		return set(x, freshVal("conv", x.Type()))
	case *ssa.Extract:
		if t, ok := in.val(fr, x.Tuple).(TupleV); ok && x.Index < len(t.f) {
			return set(x, t.f[x.Index])
		}
		return set(x, freshVal("extract", x.Type()))
	case *ssa.TypeAssert:
		return in.typeAssert(fr, st, x)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		id := st.alloc("make", types.NewSlice(et))
		n, ok := in.val(fr, x.Len).(Num)
		if !ok {
			n = Num{symLin(nonNeg(freshSym("len")))}
		}
		return in.withGuard(fr, st, leB(n.l.neg()), "makeslice: len out of range", x.Pos(), func(st *State) Val {
			return SliceV{arr: id, lo: konst(0), hi: st.norm(n.l)}
		})
	case *ssa.Range:
		if s, ok := in.val(fr, x.X).(Str); ok {
			id := st.alloc("iter", types.NewStruct([]*types.Var{types.NewVar(0, nil, "off", types.Typ[types.Int])}, nil))
			st.store(Ptr{obj: id, path: ".0"}, num(0))
			return set(x, IterV{id, s})
		}
		return set(x, Opaque{freshKey("range")})
	case *ssa.Next:
		return in.next(fr, st, x)
	case *ssa.Call:
		return in.callInstr(fr, st, &x.Call, x, x.Pos())
	case *ssa.Defer:
		d := deferred{call: &x.Call}
		for _, a := range x.Call.Args {
			d.args = append(d.args, in.val(fr, a))
		}
		if f, ok := in.val(fr, x.Call.Value).(FuncV); ok && !x.Call.IsInvoke() {
			d.fn = f
		} else {
			st.note("unsupported defer")
		}
		fr.defers = append(fr.defers, d)
		return nil
	case *ssa.RunDefers:
		cur := []iout{{st: st, fr: fr}}
		n := len(fr.defers)
		for i := n - 1; i >= 0; i-- {
			next := []iout{}
			for _, c := range cur {
				if c.panic != "" {
					next = append(next, c)
					continue
				}
				d := fr.defers[i]
				for _, o := range in.callFunc(d.fn, d.args, c.st, x.Pos(), fr.fn) {
					next = append(next, iout{st: o.st, fr: c.fr.clone(), panic: o.panic})
				}
			}
			cur = next
		}
		return cur
	case *ssa.MakeMap:
		return set(x, in.makeMap(st, x.Type()))
	case *ssa.MapUpdate:
		return in.mapUpdate(fr, st, x)
	case *ssa.MakeChan:
		v := ins.(ssa.Value)
		return set(v, Opaque{freshKey("make")})
	case *ssa.Send, *ssa.Go:
		st.note("unsupported instruction %T", ins)
		return nil
	}
	if v, ok := ins.(ssa.Value); ok {
		st.note("unsupported instruction %T", ins)
		return set(v, freshVal("unsupported", v.Type()))
	}
	st.note("unsupported instruction %T", ins)
	return nil
}

// deref evaluates f with the pointer, or panics for nil.
func (in *Interp) deref(fr *frame, st *State, p Val, pos token.Pos, f func(*State, Ptr) Val) []iout {
	switch q := p.(type) {
	case Ptr:
		return []iout{{st: st, fr: fr, v: f(st, q)}}
	case NilV:
		return []iout{{st: st, panic: in.site(fr.fn, pos) + ": nil dereference"}}
	}
	st.note("dereference of unknown pointer")
	return []iout{{st: st, fr: fr, v: f(st, Ptr{obj: symObj("unknown:"+p.key(), types.NewStruct(nil, nil))})}}
}

// fieldStore reports a store that breaks the invariant of a field.
func (in *Interp) fieldStore(fr *frame, st *State, x *ssa.Store) {
	fa, ok := x.Addr.(*ssa.FieldAddr)
	if !ok || len(nnFields) == 0 {
		return
	}
	t := deptr(fa.X.Type())
	i := fmt.Sprint(fa.Field)
	if !nnField(t, i) {
		return
	}
	if n, ok := in.val(fr, x.Val).(Num); !ok || !st.le(n.l.neg()) {
		brokenFields[types.Unalias(t).(*types.Named).Obj().Name()+"."+i] = true
	}
}

// wrote reports a write to an object that was not made since owned was set.
func (in *Interp) wrote(st *State, q Ptr, v Val, site string) {
	if in.onWrite == nil || st.dead || q.obj <= 0 {
		return
	}
	if !in.owned[q.obj] {
		in.onWrite(st, q, v, site)
		return
	}
	// an array made by append shares its first elements
	if o := st.obj(q.obj); o.parent != nil && o.parent.arr > 0 && (q.idx == nil || !st.le(o.plen.sub(*q.idx))) {
		in.wrote(st, Ptr{obj: o.parent.arr, path: q.path, idx: q.idx}, v, site)
	}
}

// ownsAll: the array of the slice was made since owned was set.
func (in *Interp) ownsAll(st *State, s SliceV) bool {
	for s.arr > 0 {
		if !in.owned[s.arr] {
			return false
		}
		o := st.obj(s.arr)
		if o.parent == nil {
			return true
		}
		s = *o.parent
	}
	return true
}

// wroteTo reports the objects that a call changes.
func (in *Interp) wroteTo(st *State, site string, args ...Val) {
	for _, a := range args {
		switch x := a.(type) {
		case Ptr:
			in.wrote(st, x, nil, site)
		case SliceV:
			in.wrote(st, Ptr{obj: x.arr}, nil, site)
		case MapV:
			in.wrote(st, Ptr{obj: x.obj}, nil, site)
		case Iface:
			if x.v != nil {
				in.wroteTo(st, site, x.v)
			}
		}
	}
}

func (in *Interp) storeHook(st *State, q Ptr, v Val, site string) {
	in.wrote(st, q, v, site)
	if isTok(objTypes[q.obj], "Scanner") && q.idx == nil {
		if q.path == fmt.Sprintf(".%d", in.p.posField) {
			old, _ := st.load(q).(Num)
			n, ok := v.(Num)
			if !ok {
				n = Num{symLin(freshSym("pos"))}
			}
			st.emit(Event{kind: "setpos", obj: q.obj, pos: old.l, to: n.l, site: site})
		} else if q.path == "" {
			st.emit(Event{kind: "setscanner", obj: q.obj, site: site})
		} else if q.path == fmt.Sprintf(".%d", in.p.fullField) {
			st.emit(Event{kind: "settext", obj: q.obj, site: site})
		}
	} else if o := st.obj(q.obj); !o.fresh {
		st.emit(Event{kind: "store", obj: q.obj, recv: q.key(), v: v, site: site})
	} else if q.idx != nil && o.parent != nil {
		st.emit(Event{kind: "store", obj: q.obj, recv: q.key(), v: v, site: site})
	}
	st.store(q, v)
}

func (st *State) emit(e Event) {
	st.ev = append(st.ev, e)
	if st.in.onEvent != nil {
		st.in.onEvent(st, e)
	}
}

func (in *Interp) binop(fr *frame, st *State, x *ssa.BinOp) []iout {
	a, b := in.val(fr, x.X), in.val(fr, x.Y)
	set := func(v Val) []iout {
		fr.env[x] = v
		return nil
	}
	switch x.Op {
	case token.EQL:
		return set(st.equal(a, b))
	case token.NEQ:
		return set(st.equal(a, b).not())
	}
	na, oka := a.(Num)
	nb, okb := b.(Num)
	if oka && okb && !safely(func() {
		na.l.sub(nb.l).addK(1)
		nb.l.sub(na.l).addK(1)
		na.l.add(nb.l)
		if la, lb := st.norm(na.l), st.norm(nb.l); x.Op == token.MUL && la.isConst() {
			lb.mul(la.c)
		} else if x.Op == token.MUL && lb.isConst() {
			la.mul(lb.c)
		}
	}) {
		// beyond the range of the analysis: an unknown value
		return set(freshVal("arith", x.Type()))
	}
	if oka && okb {
		switch x.Op {
		case token.ADD:
			return set(in.wrap(st, x.Type(), na.l.add(nb.l)))
		case token.SUB:
			return set(in.wrap(st, x.Type(), na.l.sub(nb.l)))
		case token.LSS:
			return set(leB(na.l.sub(nb.l).addK(1)))
		case token.LEQ:
			return set(leB(na.l.sub(nb.l)))
		case token.GTR:
			return set(leB(nb.l.sub(na.l).addK(1)))
		case token.GEQ:
			return set(leB(nb.l.sub(na.l)))
		case token.MUL:
			la, lb := st.norm(na.l), st.norm(nb.l)
			if la.isConst() {
				return set(in.wrap(st, x.Type(), lb.mul(la.c)))
			}
			if lb.isConst() {
				return set(in.wrap(st, x.Type(), la.mul(lb.c)))
			}
			if in.lines {
				return set(Num{product(la, lb)})
			}
			return set(Num{symLin(internSym("mul(" + la.String() + "," + lb.String() + ")"))})
		case token.QUO, token.REM:
			la, lb := st.norm(na.l), st.norm(nb.l)
			calc := func(st *State) Val {
				la, lb := st.norm(na.l), st.norm(nb.l)
				if la.isConst() && lb.isConst() && lb.c != 0 {
					if x.Op == token.QUO {
						return num(la.c / lb.c)
					}
					return num(la.c % lb.c)
				}
				r := internSym(x.Op.String() + "(" + la.String() + "," + lb.String() + ")")
				if lb.isConst() && lb.c > 0 && st.le(la) { // truncated towards zero
					q := internSym("/(" + la.String() + "," + lb.String() + ")")
					m := internSym("%(" + la.String() + "," + lb.String() + ")")
					st.addLE(symLin(q))
					st.addLE(symLin(m))
					st.addLE(symLin(m).neg().addK(1 - lb.c))
					st.addEQ(symLin(m).add(symLin(q).mul(lb.c)).sub(la))
				} else if lb.isConst() && lb.c > 0 && st.le(la.neg()) {
					q := internSym("/(" + la.String() + "," + lb.String() + ")")
					m := internSym("%(" + la.String() + "," + lb.String() + ")")
					nonNeg(q)
					st.addLE(symLin(m).neg())
					st.addLE(symLin(m).addK(1 - lb.c))
					st.addEQ(symLin(m).add(symLin(q).mul(lb.c)).sub(la))
				}
				return Num{symLin(r)}
			}
			if lb.isConst() && lb.c != 0 {
				return set(calc(st))
			}
			_ = la
			return in.withGuard(fr, st, eqB(nb.l).not(), "division by zero", x.Pos(), calc)
		}
		if v, ok := bitOp(st.norm(na.l), st.norm(nb.l), x.Op, x.Type()); ok {
			return set(v)
		}
		return set(freshVal("arith", x.Type()))
	}
	sa, oka := a.(Str)
	sb, okb := b.(Str)
	if oka && okb {
		switch x.Op {
		case token.ADD:
			return set(concat(st, sa, sb))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return set(atomB("strcmp"+x.Op.String(), sa, sb))
		}
	}
	ba, oka := a.(BoolV)
	bb, okb := b.(BoolV)
	if oka && okb {
		switch x.Op {
		case token.AND, token.LAND:
			return set(andB(ba, bb))
		case token.OR, token.LOR:
			return set(andB(ba.not(), bb.not()).not())
		}
	}
	return set(freshVal("binop", x.Type()))
}

// wrap is the result of an operation in type t. Positions are ideal integers, in exact mode
// a result outside of the type is an unknown value.
func (in *Interp) wrap(st *State, t types.Type, l Lin) Val {
	if !in.exact {
		return Num{l}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Num{l}
	}
	lo, hi := typeRange(b)
	if k, ok := constOf(st.norm(l)); ok && b.Info()&types.IsInteger != 0 {
		return reduce(k, b)
	}
	if safely(func() { l.sub(hi); lo.sub(l) }) && st.le(l.sub(hi)) && st.le(lo.sub(l)) {
		return Num{l}
	}
	y := freshSym("wrapped")
	addAxiom(y, symLin(y).sub(hi))
	addAxiom(y, lo.sub(symLin(y)))
	return Num{symLin(y)}
}

// addPart joins constants that follow each other.
func addPart(ps []Str, p Str) []Str {
	if k, ok := p.constVal(); ok && len(ps) > 0 {
		if l, ok := ps[len(ps)-1].constVal(); ok {
			return append(ps[:len(ps)-1:len(ps)-1], constStr(l+k))
		}
	}
	return append(ps, p)
}

// concat builds the string of the parts.
func concat(st *State, parts ...Str) Str {
	ps := []Str{}
	all := true
	txt := ""
	n := konst(0)
	for _, p := range parts {
		if k, ok := p.constVal(); ok {
			txt += k
			if k == "" {
				continue
			}
		} else {
			all = false
		}
		if p.b.parts != nil && p.lo.isConst() && p.lo.c == 0 && p.hi.eq(p.b.len) {
			for _, q := range p.b.parts {
				ps = addPart(ps, q)
			}
		} else {
			ps = addPart(ps, Str{p.b, st.norm(p.lo), st.norm(p.hi)})
		}
		n = n.add(p.length())
	}
	if all {
		return constStr(txt)
	}
	if len(ps) == 1 {
		return ps[0]
	}
	key := "cat("
	for _, p := range ps {
		key += p.key() + "+"
	}
	key += ")"
	b, ok := symStrs[key]
	if !ok {
		b = newStrBase(key, st.norm(n))
		b.name = key
		b.parts = ps
		symStrs[key] = b
	}
	return b.whole()
}

// equal builds the condition a == b.
func (st *State) equal(a, b Val) BoolV {
	switch x := a.(type) {
	case RType:
		if y, ok := b.(RType); ok {
			return kBool(types.Identical(x.t, y.t))
		}
	case Num:
		if y, ok := b.(Num); ok {
			return eqB(x.l.sub(y.l))
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			if y.kind == 'c' {
				if y.c != y.neg {
					return x
				}
				return x.not()
			}
			if x.kind == 'c' {
				return st.equal(b, a)
			}
			if x.key() == y.key() {
				return kBool(true)
			}
			return atomB("booleq", x, y)
		}
	case Str:
		if y, ok := b.(Str); ok {
			return strEq(x, y)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if y.isNil {
			return ifaceNil(x)
		}
		if x.isNil {
			return ifaceNil(y)
		}
		if x.dyn != nil && y.dyn != nil {
			if !types.Identical(x.dyn, y.dyn) {
				return kBool(false)
			}
			return st.equal(x.v, y.v)
		}
		if x.key() == y.key() {
			return kBool(true)
		}
		return atomB("ifaceeq", x, y)
	case Ptr:
		switch y := b.(type) {
		case NilV:
			return kBool(false)
		case Ptr:
			if st.vkey(x) == st.vkey(y) {
				return kBool(true)
			}
			ox, oy := st.obj(x.obj), st.obj(y.obj)
			if (ox.fresh || oy.fresh) && x.obj != y.obj {
				return kBool(false)
			}
			return atomB("ptreq", x, y)
		}
	case NilV:
		switch y := b.(type) {
		case NilV:
			return kBool(true)
		case Ptr:
			return kBool(false)
		case SliceV, FuncV, Iface:
			return st.equal(y, a)
		}
	case SliceV:
		if x.nilS {
			return kBool(true)
		}
		if st.obj(x.arr).fresh {
			return kBool(false)
		}
		return atomB("isnil", x)
	case FuncV:
		return kBool(x.isNil)
	case StructV:
		if y, ok := b.(StructV); ok && len(x.f) == len(y.f) {
			bs := []BoolV{}
			for i := range x.f {
				bs = append(bs, st.equal(x.f[i], y.f[i]))
			}
			return andB(bs...)
		}
	}
	if a.key() == b.key() {
		return kBool(true)
	}
	return atomB("eq", a, b)
}

func ifaceNil(x Iface) BoolV {
	if x.isNil {
		return kBool(true)
	}
	if x.dyn != nil || x.nn {
		return kBool(false)
	}
	return atomB("isnil", x)
}

// strEq builds the condition x == y.
func strEq(x, y Str) BoolV {
	if a, ok := x.constVal(); ok {
		if b, ok := y.constVal(); ok {
			return kBool(a == b)
		}
		x, y = y, x
	} else if _, ok := y.constVal(); !ok && y.key() < x.key() {
		x, y = y, x
	}
	return andB(eqB(x.length().sub(y.length())), atomB("streq", x, y))
}

func (in *Interp) index(fr *frame, st *State, ins ssa.Instruction) []iout {
	var X, I ssa.Value
	commaOk := false
	switch x := ins.(type) {
	case *ssa.Index:
		X, I = x.X, x.Index
	case *ssa.Lookup:
		X, I = x.X, x.Index
		commaOk = x.CommaOk
	}
	v := ins.(ssa.Value)
	if a, ok := in.val(fr, X).(StructV); ok {
		if i, ok := in.val(fr, I).(Num); ok {
			if k := st.norm(i.l); k.isConst() && 0 <= k.c && k.c < int64(len(a.f)) {
				fr.env[v] = a.f[k.c]
				return nil
			}
			safe := andB(leB(i.l.neg()), leB(i.l.addK(1-int64(len(a.f)))))
			return in.withGuard(fr, st, safe, "index out of range", ins.Pos(), func(st *State) Val {
				return freshVal("index", v.Type())
			})
		}
	}
	s, ok := in.val(fr, X).(Str)
	i, ok2 := in.val(fr, I).(Num)
	if !ok || !ok2 {
		st.note("unsupported index")
		_ = commaOk
		fr.env[v] = freshVal("index", v.Type())
		return nil
	}
	safe := andB(leB(i.l.neg()), leB(i.l.sub(s.length()).addK(1)))
	outs := in.withGuard(fr, st, safe, "index out of range", ins.Pos(), func(st *State) Val {
		v := st.byteAt(s, i.l)
		if y, ok := v.(Num); ok && in.lines {
			st.bytes = append(st.bytes, byteRead{s.b, st.norm(s.lo.add(i.l)), y.l})
		}
		return v
	})
	// an ASCII byte is the rune at its place
	res := []iout{}
	for _, o := range outs {
		y, ok := o.v.(Num)
		if o.panic != "" || o.st.dead || !ok || y.l.isConst() || s.b.isK {
			res = append(res, o)
			continue
		}
		for _, d := range in.decode(o.st, Str{s.b, o.st.norm(s.lo.add(i.l)), o.st.norm(s.hi)}, false) {
			if d.empty || d.st.dead {
				continue
			}
			t := d.st.clone()
			d.st.addLE(d.r.addK(-127))
			d.st.addEQ(y.l.sub(d.r))
			t.addLE(konst(128).sub(d.r))
			t.addLE(konst(128).sub(y.l))
			for _, q := range []*State{d.st, t} {
				if !q.dead {
					f := o.fr
					if q == t {
						f = o.fr.clone()
					}
					res = append(res, iout{st: q, fr: f, v: y})
				}
			}
		}
	}
	return res
}

// byteAt is the byte of s at i.
func (st *State) byteAt(s Str, i Lin) Val {
	at := st.norm(s.lo.add(i))
	if s.b.isK && at.isConst() && 0 <= at.c && at.c < int64(len(s.b.konst)) {
		return num(int64(s.b.konst[at.c]))
	}
	y := internSym("byte(" + s.b.name + at.String() + ")")
	if len(axioms[y]) == 0 {
		addAxiom(y, symLin(y).neg())
		addAxiom(y, symLin(y).addK(-255))
	}
	return Num{symLin(y)}
}

func (in *Interp) slice(fr *frame, st *State, x *ssa.Slice) []iout {
	v := in.val(fr, x.X)
	lin := func(y ssa.Value, def Lin) Lin {
		if y == nil {
			return def
		}
		if n, ok := in.val(fr, y).(Num); ok {
			return n.l
		}
		return symLin(freshSym("bound"))
	}
	switch s := v.(type) {
	case Str:
		lo := lin(x.Low, konst(0))
		hi := lin(x.High, s.length())
		safe := andB(leB(lo.neg()), leB(lo.sub(hi)), leB(hi.sub(s.length())))
		return in.withGuard(fr, st, safe, "slice bounds out of range", x.Pos(), func(st *State) Val {
			return Str{s.b, st.norm(s.lo.add(lo)), st.norm(s.lo.add(hi))}
		})
	case SliceV:
		lo := lin(x.Low, konst(0))
		n := s.hi.sub(s.lo)
		hi := lin(x.High, n)
		// capacity is not tracked: the upper bound is taken against the length
		safe := andB(leB(lo.neg()), leB(lo.sub(hi)), leB(hi.sub(n)))
		return in.withGuard(fr, st, safe, "slice bounds out of range", x.Pos(), func(st *State) Val {
			r := s
			r.lo, r.hi = st.norm(s.lo.add(lo)), st.norm(s.lo.add(hi))
			return r
		})
	case Ptr:
		if at, ok := objTypes[s.obj].Underlying().(*types.Array); ok && s.path == "" {
			lo := lin(x.Low, konst(0))
			hi := lin(x.High, konst(at.Len()))
			safe := andB(leB(lo.neg()), leB(lo.sub(hi)), leB(hi.addK(-at.Len())))
			return in.withGuard(fr, st, safe, "slice bounds out of range", x.Pos(), func(st *State) Val {
				return SliceV{arr: s.obj, lo: st.norm(lo), hi: st.norm(hi)}
			})
		}
	}
	st.note("slice of unknown")
	fr.env[x] = freshVal("slice", x.Type())
	return nil
}

func (in *Interp) convert(fr *frame, st *State, x *ssa.Convert) []iout {
	v := in.val(fr, x.X)
	to := x.Type().Underlying()
	set := func(v Val) []iout {
		fr.env[x] = v
		return nil
	}
	switch s := v.(type) {
	case Num:
		if b, ok := to.(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				if narrows(x.X.Type(), b) && !st.fits(s.l, b) {
					y := internSym("conv:" + b.Name() + "(" + st.norm(s.l).String() + ")")
					return set(Num{symLin(y)})
				}
				return set(s)
			}
			if b.Info()&types.IsString != 0 { // string(rune)
				l := st.norm(s.l)
				if l.isConst() {
					return set(constStr(string(rune(l.c))))
				}
				str := symStr("string(" + l.String() + ")")
				st.addLE(str.b.len.neg().addK(1))
				st.addLE(str.b.len.addK(-4))
				return set(str)
			}
		}
	case Str:
		if sl, ok := to.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return set(in.runes(st, s, sl))
			} else if ok && b.Kind() == types.Uint8 {
				id := st.alloc("bytes", types.NewSlice(sl.Elem()))
				st.obj(id).fresh = false
				bytesOf[id] = s
				return set(SliceV{arr: id, lo: konst(0), hi: st.norm(s.length())})
			}
		}
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return set(s)
		}
	}
	if types.Identical(x.X.Type().Underlying(), to) {
		return set(v)
	}
	return set(symVal("conv:"+types.TypeString(to, nil)+"("+st.vkey(v)+")", x.Type()))
}

// bytesOf: the arrays that were made of the bytes of a string.
var bytesOf = map[ObjID]Str{}

func narrows(from types.Type, to *types.Basic) bool {
	f, ok := from.Underlying().(*types.Basic)
	if !ok {
		return true
	}
	rank := func(b *types.Basic) (int, bool) {
		uns := b.Info()&types.IsUnsigned != 0
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8, uns
		case types.Int16, types.Uint16:
			return 16, uns
		case types.Int32, types.Uint32:
			return 32, uns
		}
		return 64, uns
	}
	a, ua := rank(f)
	b, ub := rank(to)
	if ua == ub {
		return b < a
	}
	if ua && !ub {
		return b <= a
	}
	return true
}

// fits reports whether l is in the range of b.
func (st *State) fits(l Lin, b *types.Basic) bool {
	var min, max int64
	switch b.Kind() {
	case types.Int8:
		min, max = -128, 127
	case types.Uint8:
		min, max = 0, 255
	case types.Int16:
		min, max = -32768, 32767
	case types.Uint16:
		min, max = 0, 65535
	case types.Int32:
		min, max = -1<<31, 1<<31-1
	case types.Uint32:
		min, max = 0, 1<<32-1
	case types.Uint64, types.Uint, types.Uintptr:
		return st.le(l.neg())
	default:
		if st.in.exact {
			lo, hi := typeRange(b)
			return st.le(lo.sub(l)) && st.le(l.sub(hi))
		}
		return true
	}
	return st.le(l.neg().addK(min)) && st.le(l.addK(-max))
}

// runes is []rune(s).
func (in *Interp) runes(st *State, s Str, sl *types.Slice) Val {
	mkArr := func(vs []Val) Val {
		id := st.alloc("runes", types.NewSlice(sl.Elem()))
		for i, v := range vs {
			k := konst(int64(i))
			st.store(Ptr{obj: id, idx: &k}, v)
		}
		return SliceV{arr: id, lo: konst(0), hi: konst(int64(len(vs)))}
	}
	if k, ok := s.constVal(); ok {
		vs := []Val{}
		for _, r := range k {
			vs = append(vs, num(int64(r)))
		}
		return mkArr(vs)
	}
	if s.b.runes != nil && st.norm(s.lo).isConst() && s.hi.eq(s.b.len) {
		return mkArr(s.b.runes)
	}
	v := symVal("runes("+st.vkey(s)+")", types.NewSlice(sl.Elem())).(SliceV)
	st.addLE(v.hi.sub(s.length()))
	return v
}

func (in *Interp) typeAssert(fr *frame, st *State, x *ssa.TypeAssert) []iout {
	v, ok := in.val(fr, x.X).(Iface)
	if !ok {
		fr.env[x] = freshVal("assert", x.Type())
		st.note("type assertion of unknown")
		return nil
	}
	res := func(st *State, f *frame, ok bool, val Val) iout {
		if x.CommaOk {
			if !ok {
				val = zeroVal(x.AssertedType)
			}
			return iout{st: st, fr: f, v: TupleV{[]Val{val, kBool(ok)}}}
		}
		if !ok {
			return iout{st: st, panic: in.site(fr.fn, x.Pos()) + ": type assertion"}
		}
		return iout{st: st, fr: f, v: val}
	}
	it, isI := x.AssertedType.Underlying().(*types.Interface)
	if v.isNil {
		return []iout{res(st, fr, false, nil)}
	}
	if v.dyn != nil {
		if isI {
			if types.Implements(v.dyn, it) {
				return []iout{res(st, fr, true, v)}
			}
			return []iout{res(st, fr, false, nil)}
		}
		if types.Identical(v.dyn, x.AssertedType) {
			return []iout{res(st, fr, true, v.v)}
		}
		return []iout{res(st, fr, false, nil)}
	}
	// symbolic
	if v.kind != "" {
		_, basic := x.AssertedType.Underlying().(*types.Basic)
		if basic && (v.kind == "reader" || isKind(x.AssertedType, types.Int32) || isKind(x.AssertedType, types.String)) {
			return []iout{res(st, fr, false, nil)}
		}
		if isI && it.NumMethods() > 0 && types.Implements(in.p.tok.Type("Reader").Type(), it) {
			if v.kind == "reader" {
				n := v
				return []iout{res(st, fr, true, n)}
			}
			return []iout{res(st, fr, false, nil)}
		}
		if v.kind == "other" && !isI && types.Implements(x.AssertedType, in.p.tok.Type("Reader").Type().Underlying().(*types.Interface)) {
			return []iout{res(st, fr, false, nil)}
		}
	}
	cond := atomB("typeis:"+types.TypeString(x.AssertedType, nil), Iface{sym: v.sym})
	mkv := func() Val {
		if isI {
			n := v
			n.nn = true
			return n
		}
		return symVal(v.sym+".("+types.TypeString(x.AssertedType, nil)+")", x.AssertedType)
	}
	if isI && v.nn && in.p.alwaysImplements(x.X.Type(), it) {
		return []iout{res(st, fr, true, mkv())}
	}
	switch st.decide(cond) {
	case 1:
		return []iout{res(st, fr, true, mkv())}
	case 0:
		return []iout{res(st, fr, false, nil)}
	}
	outs := []iout{}
	o := st.clone()
	for _, t := range st.assume(cond, true) {
		outs = append(outs, res(t, fr.clone(), true, mkv()))
	}
	for _, t := range o.assume(cond, false) {
		outs = append(outs, res(t, fr.clone(), false, nil))
	}
	return outs
}

// next is the step of a string range loop.
func (in *Interp) next(fr *frame, st *State, x *ssa.Next) []iout {
	it, ok := in.val(fr, x.Iter).(IterV)
	if !ok {
		st.note("unsupported range")
		fr.env[x] = freshVal("next", x.Type())
		return nil
	}
	offP := Ptr{obj: it.obj, path: ".0"}
	off := st.load(offP).(Num)
	outs := []iout{}
	for _, d := range in.decode(st, Str{it.str.b, st.norm(it.str.lo.add(off.l)), it.str.hi}, false) {
		if d.empty {
			outs = append(outs, iout{st: d.st, fr: fr.clone(), v: TupleV{[]Val{kBool(false), num(0), num(0)}}})
			continue
		}
		d.st.store(offP, Num{off.l.add(d.w)})
		outs = append(outs, iout{st: d.st, fr: fr.clone(), v: TupleV{[]Val{kBool(true), off, Num{d.r}}}})
	}
	return outs
}

func sortStrings(m map[string]bool) []string {
	k := []string{}
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func isKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == k
}
