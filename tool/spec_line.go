package main

func init() {
	register("C31", "abstract interpretation with counting functions over the places of the text (line ends and tabs before a place, width of the last line before it): the returned line and column are compared with those of the position on every path", 2, checkC31,
		"the width of a line is counted in bytes, as the documentation of the scanner does for positions")
}

func first(vs []Val) Val {
	if len(vs) == 0 {
		return nil
	}
	return vs[0]
}

func checkC31(c *Ck) {
	fn := c.p.method(c.p.tok, "Scanner", "LineCol")
	if fn == nil {
		c.fail("Scanner.LineCol", "is part of the interface", "method not found", nil)
		return
	}
	in := c.interp()
	in.lines = true
	c.guarded("Scanner.LineCol", func() {
		st := in.newState()
		pt, p0, _, b := c.symScanner(in, st)
		tab := internSym("tab")
		in.lineTab, in.lineBase = symLin(tab), b
		for _, o := range in.call(fn, []Val{pt, Num{symLin(tab)}}, nil, st) {
			if o.st.dead || o.panic != "" {
				continue
			}
			o.st.lineFacts(linePoint{b, p0})
			if o.st.dead {
				continue
			}
			for i, w := range []struct {
				fn   byte
				name string
			}{{'N', "the line is one plus the number of line ends before the position"}, {'W', "the column is one plus the width of the last line before the position"}} {
				v, ok := Lin{}, false
				if i < len(o.rets) {
					if n, is := o.rets[i].(Num); is {
						v, ok = o.st.norm(n.l), true
					}
				}
				want := o.st.line(w.fn, b, p0).addK(1)
				c.ob(ok && o.st.same(o.st.normMul(v), o.st.normMul(want)), "Scanner.LineCol", w.name, "returns "+v.pretty()+", expected "+want.pretty(), o.st)
			}
		}
	})
}
