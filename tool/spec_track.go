package main

import "golang.org/x/tools/go/ssa"

func init() {
	register("C12", "typestate over the abstract interpretation: after a write that changes the position a scanner is dirty until its tracker is updated with that position; no callback, loop iteration or return happens while it is dirty", 60, checkC12)
}

// trackWatch follows the tracker typestate of every scanner.
func (c *Ck) trackWatch(subject *string) func(*Interp) {
	return func(in *Interp) {
		tracker := func(st *State, o ObjID) Iface {
			v, _ := st.load(in.trkPtr(o)).(Iface)
			return v
		}
		// told: the scanner is clean or has no tracker on this path
		told := func(st *State, what string) {
			if st.dead {
				return
			}
			for o, site := range st.dirty {
				t := tracker(st, o)
				noTracker := st.decide(ifaceNil(t)) == 1
				c.ob(noTracker, *subject, "updates the tracker "+what, "the position changed at "+site, st)
			}
		}
		in.onBack = func(st *State, site string) { told(st, "before the loop at "+site+" goes on") }
		in.onReturn = func(st *State) { told(st, "before it returns") }
		in.onEvent = func(st *State, e Event) {
			if st.dead {
				return
			}
			switch e.kind {
			case "setpos":
				if st.same(e.pos, e.to) {
					return
				}
				d := map[ObjID]string{e.obj: e.site}
				for k, v := range st.dirty {
					if k != e.obj {
						d[k] = v
					}
				}
				st.dirty = d
			case "setscanner":
				d := map[ObjID]string{e.obj: e.site}
				for k, v := range st.dirty {
					d[k] = v
				}
				st.dirty = d
			case "update":
				hit := false
				for _, o := range in.scanners(st) {
					t := tracker(st, o)
					if t.sym == "" || t.sym != e.recv {
						continue
					}
					hit = true
					c.ob(st.same(e.pos, in.posOf(st, o)), *subject, "tells the current position at "+e.site, "passed "+e.pos.pretty()+" at "+st.norm(in.posOf(st, o)).pretty(), st)
					if st.dirty[o] != "" {
						d := map[ObjID]string{}
						for k, v := range st.dirty {
							if k != o {
								d[k] = v
							}
						}
						st.dirty = d
					}
				}
				c.ob(hit, *subject, "updates the tracker of a scanner at "+e.site, e.recv, st)
				told(st, "before another tracker is told")
			case "read", "scope", "map", "call":
				told(st, "before the callback at "+e.site)
			}
		}
	}
}

// scanners lists the scanners of the state.
func (in *Interp) scanners(st *State) []ObjID {
	r := []ObjID{}
	for id := range st.heap {
		if isTok(objTypes[id], "Scanner") {
			r = append(r, id)
		}
	}
	return r
}

func checkC12(c *Ck) {
	subj := ""
	w := c.trackWatch(&subj)
	reached := map[ssa.Instruction]bool{}
	hostile := func(in *Interp) {
		in.hostile = true
		in.onInstr = func(i ssa.Instruction) { reached[i] = true }
	}
	ret := func(in *Interp, outs []Outcome) {
		for _, o := range outs {
			if o.panic == "" {
				c.ob(true, subj, "returns", "", nil)
				in.onReturn(o.st)
			}
		}
	}
	for _, n := range c.scannerMethods() {
		subj = "Scanner." + n
		if r := c.scan(n, w, hostile); r != nil {
			ret(r.in, r.outs)
		}
	}
	for _, n := range []string{"NewScanner", "NewRevScanner"} {
		subj = n
		c.withFunc(n, []func(*Interp){w, hostile}, func(in *Interp, st *State, args []Val, outs []Outcome) { ret(in, outs) })
	}
	c.eachReader(func(rd *ReaderCase) {
		subj = rd.name
		rd.run(c, c.contract(), w, hostile)
		for _, x := range rd.reads {
			ret(rd.in, x.outs)
		}
	})
	// nothing outside of the interpreted operations writes a position
	c.allStoresReached(reached)
}
