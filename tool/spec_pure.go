package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C29", "effect analysis by abstract interpretation: every write to an object that existed before a read or a description is collected on all paths and compared with the documented holders; the held values are compared with what was read", 200, checkC29,
		"sub readers and functions given by the user have effects of their own only on what they were connected to")
}

var valueReaders = []string{"BoolReader", "IntReader", "UintReader"}

// unchanged: the write stores what is there already, except for the fields that keep tells.
func (c *Ck) unchanged(st *State, t types.Type, old, v Val, skip func(types.Type, string) bool) bool {
	if s, ok := v.(StructV); ok {
		u, isS := t.Underlying().(*types.Struct)
		o, isO := old.(StructV)
		if isS && isO && len(s.f) == u.NumFields() && len(o.f) == len(s.f) {
			for i := range s.f {
				if !skip(t, u.Field(i).Name()) && !c.unchanged(st, u.Field(i).Type(), o.f[i], s.f[i], skip) {
					return false
				}
			}
			return true
		}
	}
	return v != nil && old != nil && st.decide(st.equal(old, v)) == 1
}

// holder: the field is one of the documented value holders.
func holder(t types.Type, field string) bool {
	for _, n := range valueReaders {
		if isTok(t, n) && field == "Value" {
			return true
		}
	}
	return false
}

// allowedWrite tells whether a write keeps within the documented holders.
func (c *Ck) allowedWrite(st *State, q Ptr, v Val, connected bool) bool {
	if q.obj == 0 {
		return false
	}
	t := objTypes[q.obj]
	if isTok(t, "Scanner") {
		return true
	}
	if connected {
		for _, n := range []string{"Basket", "Log"} {
			if isTok(t, n) {
				return true
			}
		}
		if s, ok := t.Underlying().(*types.Slice); ok && (isTok(s.Elem(), "Segment") || isTok(s.Elem(), "LogEntry")) {
			return true
		}
	}
	if q.idx == nil && strings.Count(q.path, ".") == 1 {
		var i int
		fmt.Sscan(q.path[1:], &i)
		if u, ok := t.Underlying().(*types.Struct); ok && i < u.NumFields() && holder(t, u.Field(i).Name()) {
			return true
		}
	}
	if v == nil {
		return false
	}
	ft := fieldType(t, q.path)
	if q.idx != nil {
		return false
	}
	return c.unchanged(st, ft, st.load(q), v, holder)
}

func checkC29(c *Ck) {
	quiet := func(in *Interp) { in.noEffects = true }
	nested := c.contract()
	for _, rd := range c.readerCases(2) {
		rd := rd
		connected := rd.ctor == "Pick" || rd.ctor == "Monitor"
		janus := rd.ctor == "Janus" && rd.idx == 0
		for _, method := range []string{"Read", "What"} {
			method := method
			subj := rd.name + "." + method
			c.guarded(subj, func() {
				in := c.interp()
				quiet(in)
				nested(in)
				st := in.newState()
				pt, _, _, _ := c.symScanner(in, st)
				n := 0
				for _, m := range rd.make(c, in, st) {
					n++
					in.owned = map[ObjID]bool{}
					in.onWrite = func(st *State, q Ptr, v Val, site string) {
						if janus && method == "Read" && q.obj > 0 && st.obj(q.obj).fresh {
							for _, e := range st.ev {
								if e.kind == "read" && e.ok {
									return // the string of the end, after a success
								}
							}
						}
						ok := c.allowedWrite(st, q, v, connected && method == "Read")
						c.ob(ok, subj, "changes nothing but the documented holders", fmt.Sprintf("%s writes to %s%s", site, objNames[q.obj], q.path), st)
					}
					args := []Val{}
					if method == "Read" {
						args = append(args, pt)
					}
					s := m.st.clone()
					s.ev = nil
					outs := in.invoke(m.v, c.ifaceMethod(method), args, s, 0, c.p.tok.Func("init"))
					in.onWrite, in.owned = nil, nil
					c.ob(len(outs) > 0, subj, "returns", "", nil)
				}
				c.ob(n > 0, subj, "is made", "", nil)
			})
			c.absorb()
		}
	}
	c.heldValues()
	c.janusString()
}

// heldValues: after a read the value readers hold the value that was read.
func (c *Ck) heldValues() {
	reader := func(in *Interp, subj, ctor string, args []Val, st *State, pt Ptr) []Outcome {
		fn := c.p.tok.Func(ctor)
		res := []Outcome{}
		for _, m := range c.doCall(in, subj, fn, ctor, args, st) {
			r, ok := m.rets[0].(Ptr)
			if !c.ob(ok, subj, "makes a value reader", "", m.st) {
				continue
			}
			t := fn.Signature.Results().At(0).Type()
			i := fieldOf(deptr(t), "Value")
			if !c.ob(i >= 0, subj, "has a value field", "", m.st) {
				continue
			}
			at := Ptr{obj: r.obj, path: r.path + fmt.Sprintf(".%d", i)}
			// what an earlier read left behind
			m.st.store(at, freshVal("earlier value", structFields(deptr(t))[i].Type()))
			for _, o := range c.doCall(in, subj, c.p.prog.LookupMethod(t, c.p.tok.Pkg, "Read"), "Read", []Val{r, pt}, m.st) {
				o.rets = []Val{o.st.load(at), o.rets[0]}
				res = append(res, o)
			}
		}
		return res
	}
	for _, f := range []numFn{{"Int", true}, {"Uint", false}} {
		f := f
		for _, base := range []int64{8, 10, 16} {
			for _, bits := range []int64{8, 16, 32, 64} {
				base, bits := base, bits
				subj := fmt.Sprintf("%s(%d, %d)", f.name, base, bits)
				c.readNumberBy(subj, f, base, bits, func(in *Interp, st *State, pt Ptr) []Outcome {
					return reader(in, subj, f.name, []Val{num(base), num(bits)}, st, pt)
				})
			}
		}
	}
	c.readBools("Bool", func(in *Interp, subj string, st *State, pt Ptr, format Str) []Outcome {
		return reader(in, subj, "Bool", []Val{format}, st, pt)
	})
}

// janusString: after a successful read of the begin the end expects exactly the string that was read.
func (c *Ck) janusString() {
	subj := "Janus"
	fn := c.p.tok.Func("Janus")
	c.guarded(subj, func() {
		in := c.interp()
		in.noEffects = true
		st := in.newState()
		pt, p0, _, b := c.symScanner(in, st)
		pt2 := symVal("t", ptrTo(c.p.tok.Type("Scanner").Type())).(Ptr)
		args := []Val{symStr("name"), c.anyVal("reader", "reader")}
		for _, m := range c.doCall(in, subj, fn, "Janus", args, st) {
			if !c.ob(len(m.rets) == 2, subj, "makes two readers", "", m.st) {
				continue
			}
			beg, ok1 := m.rets[0].(Iface)
			end, ok2 := m.rets[1].(Iface)
			if !c.ob(ok1 && ok2, subj, "makes two readers", "", m.st) {
				continue
			}
			// a first read on another scanner, then the read
			pt0 := symVal("u", ptrTo(c.p.tok.Type("Scanner").Type())).(Ptr)
			firsts := []Outcome{m}
			for _, o := range c.invokeAll(in, subj, beg, "Read", []Val{pt0}, m.st) {
				for _, r := range splitOK(o.st, o.rets[0]) {
					firsts = append(firsts, Outcome{st: r.st})
				}
			}
			reads := []Outcome{}
			for _, o := range firsts {
				reads = append(reads, c.invokeAll(in, subj, beg, "Read", []Val{pt}, o.st)...)
			}
			for _, o := range reads {
				for _, r := range splitOK(o.st, o.rets[0]) {
					if !r.ok {
						continue // nothing is written, see above
					}
					want := Str{b, p0, in.posOf(r.st, pt.obj)}
					for _, again := range []bool{false, true} {
						st := r.st.clone()
						if again { // a failed read of the begin and a read of the end leave it as it is
							st = nil
							for _, o := range c.invokeAll(in, subj, end, "Read", []Val{pt}, r.st) {
								for _, p := range c.invokeAll(in, subj, beg, "Read", []Val{pt}, o.st) {
									for _, q := range splitOK(p.st, p.rets[0]) {
										if !q.ok {
											st = q.st
										}
									}
								}
							}
							if !c.ob(st != nil, subj, "the begin can fail", "", r.st) {
								continue
							}
						}
						text := in.textOf(st, pt2.obj)
						run := &Run{name: subj + " end", in: in, sc: pt2.obj, p0: in.posOf(st, pt2.obj), L: text.length(), text: text.b}
						run.outs = c.invokeAll(in, subj, end, "Read", []Val{pt2}, st)
						c.ifStr(run, dirn{}, plainAt(text.b), want)
					}
				}
			}
		}
	})
	c.absorb()
}

func (c *Ck) invokeAll(in *Interp, subj string, r Iface, method string, args []Val, st *State) []Outcome {
	res := []Outcome{}
	for _, o := range in.invoke(r, c.ifaceMethod(method), args, st.clone(), 0, c.p.tok.Func("init")) {
		if o.panic != "" {
			c.fail(subj, "does not panic at "+o.panic, "", o.st)
			continue
		}
		if !o.st.dead {
			res = append(res, o)
		}
	}
	return res
}

func fieldOf(t types.Type, name string) int {
	for i, f := range structFields(t) {
		if f.Name() == name {
			return i
		}
	}
	return -1
}
