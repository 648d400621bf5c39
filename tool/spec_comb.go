package main

func init() {
	register("C05", "abstract interpretation of the Read of every reader a constructor can make, with sub readers that restore on failure and move forward on success: on each failing outcome the position equals the start", 60, checkC05)
}

func checkC05(c *Ck) {
	c.eachReader(func(rd *ReaderCase) {
		rd.run(c, c.contract())
		for _, x := range rd.reads {
			for _, o := range x.results(c) {
				if !o.ok {
					c.ob(o.st.same(o.pos, x.p0), rd.name, "a failing read does not move the scanner", "position "+o.st.norm(o.pos).pretty()+" instead of "+x.p0.pretty(), o.st)
				} else {
					c.ob(o.st.le(o.pos.sub(x.L)) && o.st.le(o.pos.neg()), rd.name, "a read ends in the text", "", o.st)
				}
			}
		}
	})
}
