package main

// Properties C01-C04: the stream, prefixes under faults, reporting, termination.

var bufSizes = []int{0, 0, 1, 2, 3, 5, 7, 16, 16, 17, 31, 32, 64, 100, 128, 256, 1024, 4096}

// swarm draws a configuration and a generator.
func swarm(r *Rand) (*Gen, *WCfg) {
	c := &WCfg{Buf: bufSizes[r.N(len(bufSizes))]}
	g := &Gen{r: r, c: c, maxDepth: 4 + r.N(16), longLen: 1 + r.N(80)}
	if r.P(5) {
		g.maxDepth = 20 + r.N(100)
	}
	if r.P(12) {
		g.longLen = 200 + r.N(5000)
	}
	g.longPct = pick(r, 0, 0, 5, 20)
	g.flushPct = pick(r, 0, 0, 5, 15, 40)
	g.nextPct = pick(r, 0, 4, 12)
	g.rawPct = pick(r, 0, 0, 5, 20)
	g.deepPct = pick(r, 0, 0, 20, 60)
	g.treePct = pick(r, 0, 20, 60)
	g.nsPct = pick(r, 0, 10, 40)
	g.classes = []int{8, 4, 2, 2, 1, 1, 1}
	for i := range g.classes {
		if i > 0 && r.P(40) {
			g.classes[i] = 0
		}
	}
	g.onlyElem = r.P(6)
	g.manyNS = r.P(8)
	g.noPI = r.P(10)
	g.noDTD = r.P(50)
	switch r.N(8) {
	case 0, 1:
		c.Sink = "sw"
	case 2:
		c.Sink = "rich"
	}
	if r.P(10) {
		nl := S(pick(r, "\r\n", "", "\n\n", "\r"))
		c.Newline = &nl
	}
	if r.P(5) {
		c.Version = S(pick(r, "1.1", "2.0"))
	}
	c.NoStrict = r.P(15)
	c.Late = r.P(15)
	return g, c
}

// begin makes the generator's model of the writer that c describes.
func (g *Gen) begin() {
	g.m = newModel(g.c)
}

func size(r *Rand) int {
	if r.P(3) {
		return 100 + r.N(150)
	}
	switch r.N(6) {
	case 0:
		return 1 + r.N(4)
	case 1:
		return 40 + r.N(60)
	}
	return 3 + r.N(25)
}

func one1(c *WCfg, g *Gen) *Scenario {
	c.Ops = g.ops
	return &Scenario{W: []WCfg{*c}}
}

func own(cs ...string) map[string]bool {
	m := map[string]bool{}
	for _, c := range cs {
		m[c] = true
	}
	return m
}

// sinkFaults plans faults that fall inside the stream.
func (g *Gen) sinkFaults(n int, kinds ...string) {
	total := len(g.m.out) + 1
	if g.c.Indent == "std" || g.c.Indent == "stdstr" || g.c.Indent == "recstd" || g.c.Enc != "" {
		total += total / 2
	}
	buf := g.c.Buf
	if buf == 0 {
		buf = 2048
	}
	for ; n > 0; n-- {
		f := Fault{Kind: kinds[g.r.N(len(kinds))], Transient: g.r.P(40)}
		switch f.Kind {
		case "sink-call", "sink-late":
			f.At = g.r.N(2 + total/buf + len(g.ops)/4)
			if g.r.P(50) {
				f.At = g.r.N(4)
			}
		case "indent":
			f.At = g.r.N(1 + 3*len(g.ops))
		default:
			f.At = g.r.N(total)
			switch g.r.N(5) {
			case 0: // at the edge of a buffer
				f.At = g.r.N(total/buf+1)*buf + g.r.N(3) - 1
			case 1: // at the edge of a call
				if len(g.offs) > 0 {
					f.At = g.offs[g.r.N(len(g.offs))] + g.r.N(3) - 1
				}
			case 2:
				f.At = g.r.N(12)
			}
			if f.At < 0 {
				f.At = 0
			}
		}
		g.c.Faults = append(g.c.Faults, f)
	}
}

// smallBuf makes it likely that data reaches the sink inside calls.
func smallBuf(r *Rand, c *WCfg) {
	if r.P(60) {
		c.Buf = pick(r, 1, 2, 3, 5, 8, 16, 17, 32, 40, 64)
	}
}

func indentMode(r *Rand, c *WCfg) {
	c.Indent = pick(r, "", "", "", "std", "stdstr", "rec", "recstd", "recflush")
	if c.Indent == "stdstr" || c.Indent == "recstd" {
		c.IndentStr = S(pick(r, "  ", "\t", "xx", "\x02"))
	}
	if c.Indent == "rec" || c.Indent == "recflush" {
		c.WrapPre = S(pick(r, "", "", ".", "w"))
	}
}

var simEncs = []string{"iso-8859-1", "iso-8859-15", "windows-1252", "koi8-r", "utf-16be", "utf-16le", "utf-16", "shift_jis", "euc-jp", "euc-kr", "gbk", "gb18030", "big5"}

func encMode(r *Rand, c *WCfg, g *Gen) {
	c.Enc = simEncs[r.N(len(simEncs))]
	c.EncLabel = S(c.Enc)
	enc := c.Enc
	g.encOK = func(s string) bool { return inRepertoire(enc, s) }
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 360000, Thorough: 18000000,
		Rule: "Random histories of accepted calls (all node kinds, both entry-point families, nesting, raw, flushes anywhere) on random buffer sizes and sink interfaces; the sink is compared with the reference model at every write and every flush. One run in 2500 repeats a short group of calls 70000 times in the same place and expects the same bytes each time.",
		Real: "xmlwriter, bufio", Stub: "sink",
		Gen: func(r *Rand, idx int) *Scenario {
			if r.N(2500) == 0 {
				return roundsRun(r)
			}
			g, c := swarm(r)
			c.NoEnforce = r.P(15)
			if r.P(8) {
				c.Sink = "bufio"
			}
			if r.P(12) {
				g.optPct = 10
			}
			g.sweep = r.P(10)
			g.mayHuge()
			g.begin()
			g.history(size(r))
			return one1(c, g)
		},
		Check: func(sc *Scenario, x *Ctx) *Violation {
			if sc.Mode == "rounds" {
				return checkRounds(sc, x)
			}
			r := x.run(&sc.W[0], func(r *Run) { r.flags.own = own("stream", "prefix", "rejected") })
			return r.V
		},
	})

	register(&Prop{
		ID: "C02", Quick: 300000, Thorough: 15000000,
		Rule:   "Random histories (rejected calls included) on a sink that tears, refuses, cuts short or completes-and-fails a write at a chosen byte or call, heals or stays dead, or cuts the caller off inside a call; then arbitrary further calls. At every sink write the sink must hold a prefix of what the same calls deliver to a sink that never fails (a twin execution with a one-byte buffer).",
		Real:   "xmlwriter, its standard indenter, bufio, x/text transform and encoders",
		Stub:   "sink, caller, recording indenter",
		Faults: []string{"sink-byte", "sink-call", "sink-late", "sink-short", "sink-crash"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			c.NoEnforce = r.P(15)
			g.badPct = pick(r, 0, 5, 20)
			g.dirtyPct = 15
			if g.flushPct == 40 {
				g.flushPct = 5
			}
			kinds := []string{"sink-byte", "sink-byte", "sink-call", "sink-late", "sink-short", "sink-crash"}
			if r.P(25) {
				encMode(r, c, g)
				kinds = []string{"sink-byte", "sink-byte", "sink-call", "sink-late", "sink-crash"} // x/text ignores short counts
			} else {
				indentMode(r, c)
			}
			g.begin()
			g.history(size(r))
			if r.P(93) {
				g.sinkFaults(1+r.Pick([]int{80, 15, 5}), kinds...)
			}
			c.Tail = g.tail()
			return one1(c, g)
		},
		Check: checkC02,
	})
	register(&Prop{
		ID: "C03", Quick: 360000, Thorough: 18000000,
		Rule:   "Random histories under one or two faults of the sink, the encoder or the indenter; the call that hits the fault, every later call that has to produce output and every later flush must report it, and no call may fail that does not fail on a perfect sink with a different buffer.",
		Real:   "xmlwriter, its standard indenter, bufio, x/text transform and encoders",
		Stub:   "sink, failing indenter wrapper, failing encoder wrapper",
		Faults: []string{"sink-byte", "sink-call", "sink-late", "sink-short", "enc", "indent"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			c.NoEnforce = r.P(15)
			g.badPct = pick(r, 0, 5, 15)
			g.dirtyPct = 15
			kinds := []string{"sink-byte", "sink-byte", "sink-call", "sink-late", "sink-short"}
			if r.P(30) {
				encMode(r, c, g)
				kinds = []string{"sink-byte", "sink-byte", "sink-call", "sink-late", "enc", "enc"}
			} else {
				indentMode(r, c)
				if len(c.Indent) > 3 && c.Indent[:3] == "rec" && r.P(30) {
					kinds = []string{"indent"}
				}
			}
			g.begin()
			g.history(size(r))
			if r.P(93) {
				g.sinkFaults(1+r.Pick([]int{85, 15}), kinds...)
			}
			c.Tail = g.tail()
			return one1(c, g)
		},
		Check: checkC03,
	})
	register(&Prop{
		ID: "C04", Quick: 450000, Thorough: 22500000,
		Rule:   "Random histories (rejected and half-way rejected calls, all configurations) stopped by a fault of the sink, indenter or encoder or by a half-way rejection, followed by long random sequences of further calls: every call returns within a bounded number of seam crossings and CPU time, no panic, depth within bounds.",
		Real:   "xmlwriter, its standard indenter, bufio, x/text transform and encoders",
		Stub:   "sink, failing indenter wrapper, failing encoder wrapper",
		Faults: []string{"sink-byte", "sink-call", "sink-late", "sink-short", "enc", "indent"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			c.NoEnforce = r.P(25)
			g.badPct = pick(r, 0, 5, 30)
			g.dirtyPct = 40
			kinds := []string{"sink-byte", "sink-call", "sink-late", "sink-short"}
			switch r.N(4) {
			case 0:
				encMode(r, c, g)
				kinds = []string{"sink-byte", "sink-call", "sink-late", "enc", "enc"}
			case 1, 2:
				indentMode(r, c)
				if len(c.Indent) > 3 && c.Indent[:3] == "rec" {
					kinds = append(kinds, "indent", "indent", "indent")
				}
			}
			g.begin()
			g.history(size(r))
			if r.P(80) {
				g.sinkFaults(1+r.Pick([]int{70, 20, 10}), kinds...)
			}
			for k := 1 + r.N(4); k > 0; k-- {
				c.Tail = append(c.Tail, g.tail()...)
			}
			return one1(c, g)
		},
		Check: func(sc *Scenario, x *Ctx) *Violation {
			r := x.run(&sc.W[0], func(r *Run) {
				r.flags.own = own("depth-bound", "endall")
				r.flags.tailAlways = true
			})
			return r.V
		},
	})
}

func checkC02(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	free := plainCfg(c)
	free.Buf, free.Sink = 1, ""
	ops := withFlush(c.Ops)
	a := x.twin(free, ops, twinOpt{})
	if a.Pan != nil {
		return a.panicked(ops)
	}
	b := x.twin(c, c.Ops, twinOpt{ref: a.Sink.data, hasRef: true, stop: true, tail: c.Tail})
	if v := b.panicked(c.Ops); v != nil {
		return v
	}
	if b.Sink.bad != "" {
		return viol("prefix", "%s", b.Sink.bad)
	}
	if b.Sink.afterFail > 0 {
		return viol("write-after-failure", "%d bytes were delivered after the sink had failed", b.Sink.afterFail)
	}
	for i, o := range c.Ops {
		if i >= len(b.Err) || b.Failed >= 0 && i >= b.Failed {
			break
		}
		if (o.F == "Flush" || o.F == "EndAllFlush") && b.Err[i] == nil && a.Err[i] == nil && b.Len[i] != a.Len[i] {
			return viol("stream", "the flush in call %d succeeded and left %d of %d bytes in the sink", i, b.Len[i], a.Len[i])
		}
	}
	return nil
}

func checkC03(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	free := plainCfg(c)
	free.Buf, free.Sink = 1<<16, ""
	a := x.twin(free, c.Ops, twinOpt{})
	if a.Pan != nil {
		return a.panicked(c.Ops)
	}
	b := x.run(&c, func(r *Run) { r.flags.own = own("unreported", "unreported-later", "wrong-error") })
	if b.V != nil {
		return b.V
	}
	for i, r := range b.Res {
		if r.Tail || r.Failed {
			break
		}
		if r.Err != nil && i < len(a.Err) && a.Err[i] == nil && (len(a.W.fired) == 0 || b.W.indFail == nil) {
			return viol("invented", "call %d (%s) returned %v, though nothing had failed", i, opStr(r.O), r.Err)
		}
	}
	return nil
}
