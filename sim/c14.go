package main

// C14: the ways of writing one tree.

import (
	"bytes"
	"fmt"
)

// style is one way of expressing a tree as calls.
type style struct {
	name string
	r    *Rand // nil: fixed
	elem string
}

// The ways to write a startable node: structured Write, WriteX, Block, generic
// and specific procedural calls, content deferred to the end or a later node.
var waysElem = []string{"Write", "WriteX", "Block", "proc", "procX", "deferred", "deferredX", "half"}

func (st *style) way(ways []string) string {
	if st.r == nil {
		for _, w := range ways {
			if w == st.elem {
				return w
			}
		}
		return ways[0]
	}
	return ways[st.r.N(len(ways))]
}

func (st *style) generic(w string) bool {
	if st.r != nil {
		return st.r.P(50)
	}
	return w != "procX" && w != "deferredX" && w != "WriteX"
}

func (st *style) flag(pct int) bool { return st.r != nil && st.r.P(pct) }

// expand appends the calls that write n.
func (st *style) expand(ops []Op, n Node) []Op {
	op := func(gen bool, start bool, n Node) {
		f := "Write"
		if start {
			f = "Start"
		}
		if !gen {
			f += "X"
		}
		ops = append(ops, Op{F: f, N: []Node{n}})
	}
	end := func(gen bool, n Node) {
		var names []string
		if st.flag(30) && n.T != "Comment" && n.T != "CData" {
			names = []string{string(n.N)}
			if n.T == "Elem" && n.P != "" && st.flag(50) {
				names = []string{string(n.P), string(n.N)}
			}
		}
		switch {
		case st.flag(15):
			ops = append(ops, Op{F: "EndAny"})
		case !gen && n.T != "Elem":
			ops = append(ops, Op{F: "EndX", Kind: n.T})
		case !gen:
			ops = append(ops, Op{F: "EndX", Kind: n.T, Names: names})
		default:
			ops = append(ops, Op{F: "End", Kind: n.T, Names: names})
		}
	}
	switch n.T {
	case "Elem":
		w := st.way(waysElem)
		gen := st.generic(w)
		head := n
		head.C = nil
		switch w {
		case "Write":
			op(true, false, n)
		case "WriteX":
			op(false, false, n)
		case "Block":
			if st.flag(30) {
				head.C = n.C[:st.r.N(len(n.C)+1)]
			}
			ops = append(ops, Op{F: "Block", N: append([]Node{head}, n.C[len(head.C):]...)})
		case "deferred", "deferredX":
			op(gen, true, n)
			end(gen, n)
		case "half": // some of the content deferred, the rest written later
			k := len(n.C) / 2
			head.C = n.C[:k]
			op(gen, true, head)
			for _, c := range n.C[k:] {
				ops = st.expand(ops, c)
			}
			end(gen, n)
		default:
			k := 0
			if st.flag(40) {
				k = st.r.N(len(n.A) + 1)
			}
			head.A = n.A[:k]
			full := n.F && st.flag(50)
			if full {
				head.F = false
			}
			op(gen, true, head)
			if rest := n.A[k:]; len(rest) > 1 && (st.r == nil && w == "procX" || st.flag(40)) {
				ops = append(ops, Op{F: pick(NewRand(uint64(len(rest))), "WriteX", "Write"), N: rest})
			} else {
				for _, a := range rest {
					op(gen, false, a)
				}
			}
			for _, c := range n.C {
				ops = st.expand(ops, c)
			}
			if full {
				ops = append(ops, Op{F: "EndFull"})
			} else {
				end(gen, n)
			}
		}
	case "Comment", "CData":
		w := st.way([]string{"Write", "WriteX", "Block", "proc", "procX", "deferred", "deferredX"})
		gen := st.generic(w)
		head, inner := Node{T: n.T}, Node{T: n.T + "Content", V: n.V}
		switch w {
		case "Write":
			op(true, false, n)
		case "WriteX":
			op(false, false, n)
		case "Block":
			if n.V == "" {
				ops = append(ops, Op{F: "Block", N: []Node{head}})
			} else {
				ops = append(ops, Op{F: "Block", N: []Node{head, inner}})
			}
		case "deferred", "deferredX":
			op(gen, true, n)
			end(gen, n)
		default:
			op(gen, true, head)
			if n.V != "" {
				op(gen, false, inner)
			}
			end(gen, n)
		}
	case "DTD": // (its content is C here; the API has no structured form)
		w := st.way([]string{"Block", "proc", "procX"})
		gen := st.generic(w)
		head := n
		head.C = nil
		structured := true
		for _, c := range n.C {
			structured = structured && c.T != "Elem" // (nothing else needs it)
		}
		if w == "Block" && structured {
			ops = append(ops, Op{F: "Block", N: append([]Node{head}, n.C...)})
			break
		}
		op(gen, true, head)
		for _, c := range n.C {
			ops = st.expand(ops, c)
		}
		end(gen, n)
	case "DTDAttList":
		w := st.way([]string{"Write", "WriteX", "Block", "proc", "procX", "deferred", "deferredX"})
		gen := st.generic(w)
		head := n
		head.A = nil
		switch w {
		case "Write":
			op(true, false, n)
		case "WriteX":
			op(false, false, n)
		case "Block":
			ops = append(ops, Op{F: "Block", N: append([]Node{head}, n.A...)})
		case "deferred", "deferredX":
			op(gen, true, n)
			end(gen, n)
		default:
			op(gen, true, head)
			for _, a := range n.A {
				op(gen, false, a)
			}
			end(gen, n)
		}
	default:
		op(st.r == nil && st.elem != "WriteX" && st.elem != "procX" || st.flag(50), false, n)
	}
	return ops
}

func (st *style) all(trees []Node) []Op {
	var ops []Op
	for _, t := range trees {
		ops = st.expand(ops, t)
	}
	// several writes in one call
	if st.r != nil && st.r.P(40) {
		var m []Op
		for _, o := range ops {
			if k := len(m); k > 0 && (o.F == "Write" || o.F == "Start") && m[k-1].F == o.F && st.r.P(40) {
				m[k-1].N = append(append([]Node(nil), m[k-1].N...), o.N...)
			} else {
				m = append(m, o)
			}
		}
		ops = m
	}
	return ops
}

func init() {
	register(&Prop{
		ID: "C14", Quick: 120000, Thorough: 6000000,
		Rule:   "A tree (elements with attributes, namespaces and mixed content, comments, CDATA, processing instructions, doctypes, attribute lists; one in six with something invalid in it) written somewhere in a document in seven fixed and three random ways: structured Write and WriteX, Block, generic and node-specific start/write/end, content deferred or half deferred, several nodes per call. Bytes, acceptance and final depth must agree; then all again with the sink failing at the same byte. One run in eight: any history, with refused and failing calls, against the same history with every call of several nodes, every block and every write of a startable node taken apart.",
		Real:   "xmlwriter, its standard indenter, bufio, x/text",
		Stub:   "sink, caller",
		Faults: []string{"sink-byte", "indent"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			c.NoEnforce = r.P(10)
			g.rawPct = 0
			g.badPct, g.dirtyPct = 0, 0
			if r.P(15) {
				encMode(r, c, g)
				c.Sink = ""
			}
			switch r.N(4) {
			case 0:
				c.Indent = "std"
			case 1:
				c.Indent, c.IndentStr = "stdstr", S(pick(r, "  ", "\t", ""))
			}
			g.treePct = pick(r, 30, 60, 85)
			g.nsPct = pick(r, 0, 20, 50)
			if r.P(12) {
				return genFlat(r, g, c)
			}
			g.begin()
			// the document around it
			inDTD := r.P(15)
			deep := pick(r, 0, 0, 1, 3, 6, 7, 8, 14, 15, 16, 17, 33)
			if r.P(70) || inDTD {
				g.emit(g.asOp(g.doc(), true))
			}
			if inDTD && r.P(50) {
				g.emit(g.asOp(g.dtd(), true))
			} else if !inDTD {
				for k := 0; k < deep; k++ {
					if r.P(20) && k > 0 {
						g.emit(g.asOp(g.content(1), false))
					}
					n := g.elem(1)
					g.emit(g.asOp(n, true))
				}
			}
			if r.P(20) {
				g.emit(Op{F: "Flush"})
			}
			sc := one1(c, g)
			for k := 1 + r.N(3); k > 0; k-- {
				var n Node
				if f := g.m.top(); f != nil && f.kind == "DTD" {
					n = pick(r, g.dtdLeaf("DTDAttList"), g.dtdLeaf("DTDAttList"), g.comment(), g.dtdLeaf("DTDElem"), g.dtdLeaf("DTDEntity"), g.dtdLeaf("Notation"))
				} else if inDTD {
					n = g.dtd()
					for j := r.N(5); j > 0; j-- {
						n.C = append(n.C, pick(r, g.dtdLeaf("DTDAttList"), g.dtdLeaf("DTDAttList"), g.comment(), g.dtdLeaf("DTDElem"), g.dtdLeaf("DTDEntity"), g.dtdLeaf("Notation")))
					}
				} else {
					n = g.elem(pick(r, 1, 2, 4, 7))
					if r.P(20) {
						n = g.content(3)
					}
				}
				sc.Trees = append(sc.Trees, n)
			}
			if r.P(16) {
				spoil(g, &sc.Trees[r.N(len(sc.Trees))])
			}
			w := &sc.W[0]
			if t := sc.Trees[0]; r.P(8) && (t.T == "Elem" || t.T == "DTD" || t.T == "DTDAttList") {
				// refused up front, however it is put
				t = g.mangle(t)
				if g.try(Op{F: "Start", N: []Node{t}}) == Clean {
					sc.Mode = "refused"
					sc.Trees = []Node{t}
					if t.T == "Elem" && r.P(70) {
						w.Tail = append(w.Tail, Op{F: "WriteX", N: []Node{{T: "Attr", N: "after", V: "1"}}})
					}
				}
			}
			if r.P(40) {
				w.Tail = append(w.Tail, pick(r, Op{F: "WriteX", N: []Node{{T: "Comment", V: "c"}}}, Op{F: "WriteX", N: []Node{{T: "Elem", N: "e"}}}, Op{F: "WriteX", N: []Node{{T: "Text", V: "t"}}}, Op{F: "EndAny"}))
			}
			w.Tail = append(w.Tail, pick(r, Op{F: "EndAll"}, Op{F: "EndAll"}, Op{F: "EndDoc"}, Op{F: "EndAllFlush"}))
			if r.P(60) {
				w.Faults = []Fault{{Kind: "sink-byte", At: r.N(1 << 20), Transient: r.P(40)}} // (taken modulo the length)
			}
			return sc
		},
		Check: checkC14,
	})
}

// spoil makes something in a tree invalid.
func spoil(g *Gen, n *Node) {
	if len(n.C) > 0 && g.r.P(70) {
		spoil(g, &n.C[g.r.N(len(n.C))])
		return
	}
	if len(n.A) > 0 && g.r.P(60) {
		a := &n.A[g.r.N(len(n.A))]
		*a = g.mangle(*a)
		return
	}
	switch n.T {
	case "Comment":
		n.V = S(pick(g.r, "a--b", "a-", "\x00", "\xff", "--", "-"))
	case "CData":
		n.V = S(pick(g.r, "a]]>b", "\x00", "\xff"))
	case "DTDAttList":
		if g.r.P(50) {
			n.A = append(n.A, Node{T: "DTDAttr", N: "x", Typ: "CDATA", Def: 2, V: "v"})
			return
		}
		*n = g.mangle(*n)
	case "Elem":
		if g.r.P(50) && n.P == "" {
			n.A = append(n.A, Node{T: "Attr", P: "z", U: "1", N: "a"}, Node{T: "Attr", P: "z", U: "2", N: "b"})
			return
		}
		*n = g.mangle(*n)
	default:
		*n = g.mangle(*n)
	}
}

func checkC14(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	styles := []*style{{name: "structured", elem: "Write"}, {name: "node-specific structured", elem: "WriteX"}, {name: "block", elem: "Block"},
		{name: "generic calls", elem: "proc"}, {name: "node-specific calls", elem: "procX"}, {name: "deferred", elem: "deferred"}, {name: "half deferred", elem: "half"}}
	for k := 0; k < 3; k++ {
		styles = append(styles, &style{name: fmt.Sprintf("random mix %d", k), r: NewRand(sc.Seed, uint64(sc.Index), uint64(k))})
	}
	for _, t := range sc.Trees {
		if hasAttrOrRaw(t, true) {
			return nil
		}
	}
	if sc.Mode == "flat" {
		return checkFlat(sc, x)
	}
	if sc.Mode == "refused" {
		return refusedAlike(sc, styles, x)
	}
	var hist [][]Op
	for _, st := range styles {
		ops := append(append([]Op(nil), c.Ops...), st.all(sc.Trees)...)
		hist = append(hist, withFlush(append(ops, c.Tail...)))
	}
	pc := plainCfg(c)
	var first *Twin
	for k, st := range styles {
		t := x.twin(pc, hist[k], twinOpt{stopEr: true})
		if v := t.panicked(hist[k]); v != nil {
			return v
		}
		if k == 0 {
			first = t
			continue
		}
		a, b := lastErr(first.Err), lastErr(t.Err)
		if (a == nil) != (b == nil) {
			return viol("results", "%s ended with %v, %s with %v", styles[0].name, a, st.name, b)
		}
		if a != nil {
			continue
		}
		if !bytes.Equal(first.Sink.data, t.Sink.data) {
			return viol("bytes", "%s and %s deliver different bytes: %s", st.name, styles[0].name, diffAt(t.Sink.data, first.Sink.data))
		}
		if first.Depth[len(first.Depth)-1] != t.Depth[len(t.Depth)-1] {
			return viol("depth", "%s ends at depth %d, %s at %d", st.name, t.Depth[len(t.Depth)-1], styles[0].name, first.Depth[len(first.Depth)-1])
		}
	}
	if lastErr(first.Err) != nil {
		x.probe("rejected trees")
		return nil
	}
	x.probe("accepted trees")
	if len(c.Faults) == 0 || len(first.Sink.data) == 0 {
		return nil
	}
	fc := pc
	f := c.Faults[0]
	if f.Kind != "sink-byte" {
		return nil
	}
	f.At %= len(first.Sink.data)
	fc.Faults = []Fault{f}
	want := first.Sink.data[:f.At]
	for k, st := range styles {
		t := x.twin(fc, hist[k], twinOpt{stopEr: true, tail: []Op{{F: "Flush"}}})
		if v := t.panicked(hist[k]); v != nil {
			return v
		}
		if lastErr(t.Err) == nil || t.W.failure == nil {
			return viol("unreported", "with the sink failing at byte %d, %s reported nothing", f.At, st.name)
		}
		if !bytes.Equal(t.Sink.data, want) {
			return viol("fault-bytes", "with the sink failing at byte %d, %s left %s", f.At, st.name, diffAt(t.Sink.data, want))
		}
	}
	return nil
}

// genFlat is any history with many calls that stand for several, some of them
// refused in the middle.
func genFlat(r *Rand, g *Gen, c *WCfg) *Scenario {
	g.badPct = pick(r, 0, 5, 15)
	g.dirtyPct = pick(r, 0, 0, 10)
	g.nextPct = pick(r, 0, 5)
	g.optPct = pick(r, 0, 0, 5)
	g.deepPct = pick(r, 0, 20)
	if r.P(20) {
		c.Indent = pick(r, "rec", "recstd")
	}
	wrong := pick(r, 0, 20, 50)
	g.extra = func(g *Gen) (Op, bool) {
		if !r.P(40) {
			return Op{}, false
		}
		o := g.several(wrong)
		return o, len(o.N) > 0 && g.try(o) != Dirty
	}
	g.begin()
	g.history(1 + r.N(25))
	if r.P(20) {
		if o := g.several(80); len(o.N) > 0 {
			g.ops = append(g.ops, o, pick(r, Op{F: "EndAny"}, Op{F: "Next"}, Op{F: "WriteX", N: []Node{{T: "Comment", V: "c"}}}), Op{F: "EndAll"}, Op{F: "Flush"})
		}
	}
	sc := one1(c, g)
	sc.Mode = "flat"
	if w := &sc.W[0]; r.P(30) {
		w.Faults = []Fault{{Kind: pick(r, "sink-byte", "indent"), At: r.N(pick(r, 8, 60, 400)), Transient: r.P(40)}}
	}
	return sc
}

// several makes a call out of nodes which, but for the wrong ones, can follow
// each other.
func (g *Gen) several(wrong int) Op {
	m := g.m
	defer func() { g.m = m }()
	g.m = m.clone()
	o := Op{F: pick(g.r, "Block", "Block", "Block", "Write", "WriteX")}
	if o.F == "Block" {
		n := pick(g.r, g.elem(0), g.elem(1), g.elem(1), Node{T: "Comment"}, Node{T: "CData"}, Node{T: "DTD", N: "d"}, Node{T: "DTDAttList", N: "l"}, Node{T: "Doc"})
		if g.r.P(wrong / 5) {
			n = g.mangle(n)
		}
		o.N = append(o.N, n)
		g.m.Apply(Op{F: "Start", N: o.N})
	}
	for k := g.r.N(5); k > 0; k-- {
		c := g.goodOp()
		if c.F != "Write" && c.F != "WriteX" || len(c.N) != 1 || o.F == "WriteX" && c.N[0].T == "Attr" {
			continue
		}
		if g.m.Apply(c) == Acc {
			o.N = append(o.N, c.N[0])
		}
	}
	if g.r.P(wrong) {
		n := g.anyNode()
		if g.r.P(50) {
			n = g.mangle(n)
		}
		if writable(n.T) && !(o.F == "WriteX" && n.T == "Attr") {
			i := 0
			if o.F == "Block" {
				i = 1
			}
			i += g.r.N(len(o.N) - i + 1)
			o.N = append(o.N[:i:i], append([]Node{n}, o.N[i:]...)...)
		}
	}
	return o
}

// flatten puts each call into those it stands for.
func flatten(ops []Op, r *Rand) (flat []Op, group []int) {
	for i, o := range ops {
		add := func(f string, n Node) {
			if (f == "Write" || f == "WriteX") && startable(n.T) && r.P(50) {
				flat = append(flat, Op{F: pick(r, "Start", "StartX"), N: []Node{n}}, Op{F: "End", Kind: n.T})
				group = append(group, i, i)
				return
			}
			flat = append(flat, Op{F: f, N: []Node{n}})
			group = append(group, i)
		}
		switch o.F {
		case "Start", "StartX":
			for _, n := range o.N {
				add(pick(r, "Start", "StartX"), n)
			}
		case "Write", "WriteX":
			for _, n := range o.N {
				add(pick(r, "Write", "WriteX"), n)
			}
		case "Block":
			add(pick(r, "Start", "StartX"), o.N[0])
			for _, n := range o.N[1:] {
				add(pick(r, "Write", "WriteX"), n)
			}
			flat = append(flat, Op{F: "End", Kind: o.N[0].T})
			group = append(group, i)
		default:
			flat = append(flat, o)
			group = append(group, i)
		}
	}
	return
}

// checkFlat: a call that stands for several does what they do one after the
// other, up to the first that is refused or fails.
func checkFlat(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	ops := append(append([]Op(nil), c.Ops...), c.Tail...)
	pc := c
	pc.Ops, pc.Tail = nil, nil
	a := x.twin(pc, ops, twinOpt{})
	if v := a.panicked(ops); v != nil {
		return v
	}
	flat, group := flatten(ops, NewRand(sc.Seed, uint64(sc.Index), 77))
	b := x.twin(pc, flat, twinOpt{group: group})
	if v := b.panicked(flat); v != nil {
		return v
	}
	if a.Pan != nil || b.Pan != nil {
		return nil
	}
	sink := len(c.Faults) > 0 && c.Faults[0].Kind == "sink-byte" // (which call meets it depends on the buffering)
	if sink && (a.W.failure == nil) != (b.W.failure == nil) {
		return viol("fault-bytes", "the sink fails under the calls: %v, under the calls they stand for: %v", a.W.failure, b.W.failure)
	}
	for k, i := range b.Group {
		if sink && a.W.failure != nil {
			break
		}
		if k+1 < len(b.Group) && b.Group[k+1] == i {
			continue
		}
		if len(ops[i].N) > 1 {
			x.probe("calls of several nodes")
			if a.Err[i] != nil {
				x.probe("calls of several nodes refused or failed")
			}
		}
		if (a.Err[i] == nil) != (b.Err[k] == nil) {
			return viol("results", "call %d (%s) returned %v, the calls it stands for %v", i, opStr(ops[i]), a.Err[i], b.Err[k])
		}
		if a.Depth[i] != b.Depth[k] {
			return viol("depth", "call %d (%s) leaves depth %d, the calls it stands for %d", i, opStr(ops[i]), a.Depth[i], b.Depth[k])
		}
		if f := ops[i].F; (f == "Flush" || f == "EndAllFlush") && a.Err[i] == nil && a.Len[i] != b.Len[k] {
			return viol("bytes", "after call %d (%s) the sink holds %d bytes, after the calls it stands for %d", i, opStr(ops[i]), a.Len[i], b.Len[k])
		}
	}
	if !bytes.Equal(a.Sink.data, b.Sink.data) {
		return viol("bytes", "the calls and those they stand for deliver different bytes: %s", diffAt(a.Sink.data, b.Sink.data))
	}
	return nil
}

// refusedAlike: a node refused up front leaves the same behind whichever call it was in.
func refusedAlike(sc *Scenario, styles []*style, x *Ctx) *Violation {
	c := sc.W[0]
	m := newModel(&c)
	for _, o := range c.Ops {
		if m.Apply(o) != Acc {
			return nil
		}
	}
	pc := plainCfg(c)
	var first *Twin
	for k, st := range styles {
		op := st.expand(nil, sc.Trees[0])[0]
		if op.F != "Write" && op.F != "WriteX" && op.F != "Block" && op.F != "Start" && op.F != "StartX" || m.clone().Apply(op) != Clean {
			return nil
		}
		ops := withFlush(append(append(append([]Op(nil), c.Ops...), op), c.Tail...))
		t := x.twin(pc, ops, twinOpt{})
		if v := t.panicked(ops); v != nil {
			return v
		}
		if t.Err[len(c.Ops)] == nil {
			return viol("results", "%s accepts %s", st.name, opStr(op))
		}
		if k == 0 {
			first = t
			continue
		}
		if i := sameErrs(first.Err, t.Err, len(ops)); i >= 0 {
			return viol("results", "after the refusal of %s (%s) call %d (%s) returned %v, after that of the %s form %v", opStr(op), st.name, i, opStr(ops[i]), t.Err[i], styles[0].name, first.Err[i])
		}
		if !bytes.Equal(first.Sink.data, t.Sink.data) {
			return viol("bytes", "after the refusal of %s, %s and %s deliver different bytes: %s", opStr(op), st.name, styles[0].name, diffAt(t.Sink.data, first.Sink.data))
		}
	}
	x.probe("refused alike")
	return nil
}

func hasAttrOrRaw(n Node, top bool) bool {
	for _, c := range n.C {
		if hasAttrOrRaw(c, false) {
			return true
		}
	}
	return n.T == "Attr" || n.T == "Raw" || n.T == "CommentContent" || n.T == "CDataContent" || n.T == "DTDAttr"
}

func lastErr(l []error) error {
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}
