package main

// C15 (raw output), C16 (error collector), C19 (deferred parts), C20 (enforcement).

import (
	"bytes"
	"errors"
	"fmt"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Prop{
		ID: "C15", Quick: 300000, Thorough: 15000000,
		Rule: "Histories in which up to half of the calls are raw writes of arbitrary bytes, at every point of a start tag, a comment, a declaration or between nodes, with explicit next calls. The same history without the raw writes, flushed after every call by a twin, gives the pieces between which the raw bytes must appear; calls must have the same results and depths. Explicit next calls, and raw nodes inside structured content, are compared with the reference machine.",
		Real: "xmlwriter, bufio", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			c.NoEnforce = r.P(15)
			g.rawPct = 0
			g.nextPct = pick(r, 0, 8, 25)
			g.badPct = pick(r, 0, 0, 15)
			g.frags = []string{"a", "b c", " ", "é", "<", "&", ">", "日", "x", "'", "\"", "hi", "> ", "&lt;", "\n", "0", "?"}
			for i := range g.classes { // raw bytes of every kind
				g.classes[i] += r.N(3)
			}
			pct := pick(r, 5, 20, 40)
			g.extra = func(g *Gen) (Op, bool) {
				if !r.P(pct) {
					return Op{}, false
				}
				v := g.text()
				if r.P(30) {
					v = pick(r, "<x/>", ">", "/>", "-->", "]]>", "?>", "", "<", " a=\"b\"", "&amp;", "<!--", "\x00", "\xff\xfe", strings.Repeat("r", 1+r.N(200)))
				}
				return g.asOp(Node{T: "Raw", V: S(v)}, false), true
			}
			g.begin()
			g.history(size(r))
			if r.P(25) { // raw nodes inside structured content
				for i := range g.ops {
					o := &g.ops[i]
					raw := Node{T: "Raw", V: S(pick(r, "", "r", g.text()))}
					switch {
					case o.F == "Block" && r.P(60) || (o.F == "Write" || o.F == "WriteX" && o.N[0].T != "Attr") && r.P(10):
						at := 1 + r.N(len(o.N))
						o.N = append(append(append([]Node(nil), o.N[:at]...), raw), o.N[at:]...)
						continue
					case r.P(20):
						for j := range o.N {
							if n := &o.N[j]; n.T == "Elem" && len(n.C) == 0 {
								n.C = []Node{raw}
								if r.P(20) {
									n.C = append(n.C, raw)
								}
							}
						}
						continue
					}
					for j := range g.ops[i].N {
						if n := &g.ops[i].N[j]; n.T == "Elem" && g.ops[i].F != "Block" && r.P(60) {
							at := r.N(len(n.C) + 1)
							n.C = append(append(append([]Node(nil), n.C[:at]...), Node{T: "Raw", V: S(g.text())}), n.C[at:]...)
						}
					}
				}
			}
			return one1(c, g)
		},
		Check: checkC15,
	})
	register(&Prop{
		ID: "C16", Quick: 300000, Thorough: 15000000,
		Rule:   "Histories with refused calls and with sink failures, whose results are fed in random groups (empty ones too) to a collector from several call sites, one call after another or lazily; after every collecting call its fields, Set, Panic, Unwrap, errors.Is/As and message are compared with a two-line model, and the must form with a fresh collector per group.",
		Real:   "xmlwriter (ErrCollector and writer), bufio",
		Stub:   "sink, caller",
		Faults: []string{"sink-byte", "sink-call", "sink-late"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			g.badPct = pick(r, 0, 0, 5, 20, 50)
			g.dirtyPct = 10
			g.begin()
			g.history(size(r))
			if r.P(50) {
				g.sinkFaults(1, "sink-byte", "sink-byte", "sink-call", "sink-late")
			}
			sc := one1(c, g)
			for k := r.N(12); k > 0; k-- {
				sc.Sched = append(sc.Sched, r.N(pick(r, 2, 4, 12)))
			}
			return sc
		},
		Check: checkC16,
	})
	register(&Prop{
		ID: "C19", Quick: 300000, Thorough: 15000000,
		Rule:   "Histories dense in nodes started with attributes and content attached, each part carrying a token of its own, completed by whatever call comes next (sibling, child, attribute, every form of end, next, flush) at depths around the growth of the node stack; compared with the reference machine, given that the history without the attached parts agrees with it. Then with an indenter or sink failure, or invalid content, inside the deferred output and retries after it: the failing call reports it and no token is delivered twice.",
		Real:   "xmlwriter, its standard indenter, bufio",
		Stub:   "sink, recording indenter, caller",
		Faults: []string{"sink-byte", "indent"},
		Gen:    genC19,
		Check:  checkC19,
	})
	register(&Prop{
		ID: "C20", Quick: 180000, Thorough: 9000000,
		Rule:   "Random histories run with enforcement; the calls it accepted are run again with enforcement, without it and with strict characters toggled, side by side, also with the sink failing at the same byte: same bytes, results and depths. Random histories of misplaced and invalid nodes run without enforcement: nothing may be rejected but contradictory arguments and ends of what is not open.",
		Real:   "xmlwriter, its standard indenter, bufio, x/text",
		Stub:   "sink, caller",
		Faults: []string{"sink-byte", "sink-call"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			g.badPct = pick(r, 0, 10, 30)
			g.noDTD = r.P(30)
			if r.P(30) {
				c.Indent = pick(r, "std", "stdstr", "rec")
				c.IndentStr = " "
			}
			if r.P(10) {
				encMode(r, c, g)
				c.Sink = ""
			}
			mode := "accepted"
			if r.P(35) {
				mode = "wild"
				c.Indent, c.Enc, c.EncLabel = "", "", ""
				c.NoEnforce = true
				g.badPct = pick(r, 0, 30)
				g.extra = func(g *Gen) (Op, bool) {
					if !r.P(60) {
						return Op{}, false
					}
					n := g.anyNode()
					if r.P(40) {
						n = g.mangle(n)
					}
					if r.P(10) && len(n.C) > 0 {
						n.C[r.N(len(n.C))] = g.mangle(n.C[0])
					}
					o := g.asOp(n, startable(n.T) && (!writable(n.T) || r.P(50)))
					return o, g.try(o) == Acc
				}
			} else {
				g.classes[5] += r.N(5) // discouraged characters
				g.frags = append(append([]string(nil), plainFrags...), "\u0085", "\u0084", "\u0080", "\uFDD0", "\U0001FFFE", "\x7f")
			}
			g.begin()
			g.history(size(r))
			sc := one1(c, g)
			sc.Mode = mode
			if r.P(25) {
				for k := 1 + r.N(4); k > 0; k-- {
					sc.Sched = append(sc.Sched, r.N(1<<16))
				}
			}
			if r.P(40) && mode == "accepted" {
				sc.W[0].Faults = []Fault{{Kind: pick(r, "sink-byte", "sink-byte", "sink-call"), At: r.N(1 << 20), Transient: r.P(40)}}
				sc.W[0].Tail = g.tail()
			}
			return sc
		},
		Check: checkC20,
	})
}

// --- C15 ---

func allRaw(o Op) bool {
	if o.F != "Write" && o.F != "WriteX" {
		return false
	}
	for _, n := range o.N {
		if n.T != "Raw" {
			return false
		}
	}
	return len(o.N) > 0
}

func stripRaw(ns []Node) []Node {
	var l []Node
	for _, n := range ns {
		if n.T == "Raw" {
			continue
		}
		n.C = stripRaw(n.C)
		l = append(l, n)
	}
	return l
}

// agrees reports whether a history does what the reference machine says.
func (x *Ctx) agrees(c WCfg, ops []Op) *Violation {
	c.Faults, c.Tail, c.Ops = nil, nil, ops
	r := newRun(&c, x.Log)
	r.flags.noTail = true
	r.run()
	x.absorb(r)
	return r.V
}

func checkC15(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	if c.Enc != "" || c.Indent != "" {
		return nil
	}
	// a half-way refusal ends the comparison
	ops := c.Ops
	m := newModel(&c)
	for i, o := range ops {
		if m.Apply(o) == Dirty {
			ops = ops[:i]
			break
		}
	}
	ops = withFlush(ops)
	var bare, still []Op // without raw calls; and without next calls
	nested := false
	for _, o := range ops {
		if allRaw(o) {
			continue
		}
		if hasKind(o, "Raw") {
			nested = true
			o.N = stripRaw(o.N)
			if len(o.N) == 0 {
				continue
			}
		}
		bare = append(bare, o)
		if o.F != "Next" {
			still = append(still, o)
		}
	}
	full := x.twin(plainCfg(c), ops, twinOpt{})
	if v := full.panicked(ops); v != nil {
		return v
	}
	depth := -1
	for i, o := range ops {
		if allRaw(o) {
			x.probe("raw writes")
			if full.Err[i] != nil {
				return viol("raw-rejected", "the raw write in call %d was refused: %v", i, full.Err[i])
			}
			if full.Depth[i] != depth {
				return viol("raw-depth", "the raw write in call %d changed the depth from %d to %d", i, depth, full.Depth[i])
			}
		}
		depth = full.Depth[i]
	}
	if nested {
		if v := x.agrees(c, ops); v != nil && x.agrees(c, bare) == nil {
			return viol("nested", "with raw nodes among others (without them it does what it must): %s", v.Msg)
		}
	} else {
		var fl []Op
		for _, o := range bare {
			fl = append(fl, o, Op{F: "Flush"})
		}
		pieces := x.twin(plainCfg(c), fl, twinOpt{})
		whole := x.twin(plainCfg(c), bare, twinOpt{})
		if v := pieces.panicked(fl); v != nil {
			return v
		}
		if !bytes.Equal(pieces.Sink.data, whole.Sink.data) { // another property's business
			x.probe("no verdict: flushing changes the stream")
			return nil
		}
		var want []byte
		k, last := 0, 0
		for i, o := range ops {
			if allRaw(o) {
				for _, n := range o.N {
					want = append(want, n.V...)
				}
				continue
			}
			if (full.Err[i] == nil) != (pieces.Err[2*k] == nil) || full.Depth[i] != pieces.Depth[2*k] {
				return viol("state", "call %d (%s) returned %v at depth %d; without the raw writes before it %v at depth %d", i, opStr(o), full.Err[i], full.Depth[i], pieces.Err[2*k], pieces.Depth[2*k])
			}
			end := pieces.Len[2*k+1]
			want = append(want, pieces.Sink.data[last:end]...)
			last = end
			k++
		}
		if !bytes.Equal(full.Sink.data, want) {
			return viol("bytes", "the stream is not the one without raw writes with the raw bytes put in: %s", diffAt(full.Sink.data, want))
		}
	}
	if len(still) < len(bare) {
		x.probe("histories with explicit next calls")
		if v := x.agrees(c, bare); v != nil && x.agrees(c, still) == nil {
			return viol("next", "with the next calls (without them it does what it must): %s", v.Msg)
		}
	}
	return nil
}

// --- C16 ---

type site struct {
	file string
	line int
}

func here() (s site) {
	_, f, l, _ := runtime.Caller(1)
	return site{f, l}
}

func (s site) next() site { return site{s.file, s.line + 1} }

// collecting call sites; the call stands on the same line as here() or on the next.
var sites = []func(ec *xw.ErrCollector, errs []error) site{
	func(ec *xw.ErrCollector, errs []error) site { s := here(); ec.Do(errs...); return s },
	func(ec *xw.ErrCollector, errs []error) site { s := here(); ec.Do(errs...); return s },
	func(ec *xw.ErrCollector, errs []error) (s site) {
		defer func() { _ = recover() }()
		for i := 0; i < 2; i++ {
			s = here().next()
			ec.Do(errs...)
			errs = nil
		}
		return s
	},
}

func must(ec *xw.ErrCollector, errs []error) (s site, pan any) {
	defer func() { pan = recover() }()
	s = here().next()
	ec.Must(errs...)
	return s, nil
}

type want16 struct {
	err   error
	index int
	at    site
}

// holds compares a collector with what it has to hold.
func (w *want16) holds(ec *xw.ErrCollector, what string) *Violation {
	if ec.Err != w.err {
		return viol("held", "%s: it holds %v, the first error was %v", what, ec.Err, w.err)
	}
	var got error
	mark := errors.New("mark")
	got = mark
	ec.Set(&got)
	pan := func() (p any) { defer func() { p = recover() }(); ec.Panic(); return nil }()
	if w.err == nil {
		if got != mark {
			return viol("reported", "%s: Set assigned %v although nothing failed", what, got)
		}
		if pan != nil {
			return viol("reported", "%s: Panic panicked with %v although nothing failed", what, pan)
		}
		if errors.Unwrap(ec) != nil {
			return viol("reported", "%s: Unwrap gives %v although nothing failed", what, errors.Unwrap(ec))
		}
		return nil
	}
	if ec.Index != w.index {
		return viol("position", "%s: the position is %d, the error was number %d of its call", what, ec.Index, w.index)
	}
	if filepath.Base(ec.File) != filepath.Base(w.at.file) || ec.Line != w.at.line {
		return viol("position", "%s: the source location is %s:%d, it was %s:%d", what, filepath.Base(ec.File), ec.Line, filepath.Base(w.at.file), w.at.line)
	}
	var as *xw.ErrCollector
	if !errors.Is(got, w.err) || !errors.As(got, &as) || as != ec {
		return viol("reported", "%s: Set assigned %v, not the collector with %v", what, got, w.err)
	}
	if pe, ok := pan.(error); !ok || !errors.Is(pe, w.err) || !strings.Contains(pe.Error(), filepath.Base(w.at.file)) {
		return viol("reported", "%s: Panic panicked with %v, must with the collector holding %v", what, pan, w.err)
	}
	if errors.Unwrap(ec) != w.err {
		return viol("reported", "%s: Unwrap gives %v", what, errors.Unwrap(ec))
	}
	msg := ec.Error()
	for _, p := range []string{w.err.Error(), strconv.Itoa(w.at.line), strconv.Itoa(w.index), filepath.Base(w.at.file)} {
		if !strings.Contains(msg, p) {
			return viol("reported", "%s: the message %q does not mention %q", what, msg, p)
		}
	}
	return nil
}

func checkC16(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	fc := plainCfg(c)
	fc.Faults = c.Faults
	ops := withFlush(c.Ops)
	t := x.twin(fc, ops, twinOpt{})
	if v := t.panicked(ops); v != nil {
		return v
	}
	ec := &xw.ErrCollector{}
	var w want16
	mix := &xw.ErrCollector{} // fed by both forms in turn
	var xm want16
	errs := t.Err
	for k, g := 0, 0; len(errs) > 0 || g < len(sc.Sched); g++ {
		n := len(errs)
		if g < len(sc.Sched) {
			n = min(max(0, sc.Sched[g]), n)
		}
		group := errs[:n:n]
		errs = errs[n:]
		at := sites[g%len(sites)](ec, group)
		what := fmt.Sprintf("after collecting call %d (calls %d to %d)", g, k, k+n-1)
		k += n
		for i, e := range group {
			if e != nil && w.err == nil {
				w = want16{e, i + 1, at}
			}
		}
		if v := w.holds(ec, what); v != nil {
			return v
		}
		x.probe("collecting calls")

		// the must form, on a collector of its own
		mc := &xw.ErrCollector{}
		var mw want16
		s, pan := must(mc, group)
		for i, e := range group {
			if e != nil {
				mw = want16{e, i + 1, s}
				break
			}
		}
		if mw.err == nil {
			if pan != nil {
				return viol("must", "%s: Must panicked with %v although nothing failed", what, pan)
			}
		} else if pe, ok := pan.(error); !ok || !errors.Is(pe, mw.err) {
			return viol("must", "%s: Must panicked with %v, must with the collector holding %v", what, pan, mw.err)
		}
		if v := mw.holds(mc, "Must "+what); v != nil {
			return v
		}

		// both forms on one collector
		how, first := "do", -1
		for i, e := range group {
			if e != nil {
				first = i
				break
			}
		}
		var ms site
		if (g*5+n)%3 == 0 {
			how = "must"
			var pan any
			ms, pan = must(mix, group)
			if first >= 0 && pan == nil {
				return viol("must", "%s: Must did not panic although call %d failed", what, first)
			}
			if first < 0 && pan != nil && xm.err == nil {
				return viol("must", "%s: Must panicked with %v although nothing failed", what, pan)
			}
			if first >= 0 && xm.err != nil {
				if pe, ok := pan.(error); !ok || !errors.Is(pe, xm.err) {
					return viol("must", "%s: Must panicked with %v, the first error was %v", what, pan, xm.err)
				}
			}
		} else {
			ms = sites[(g+n)%len(sites)](mix, group)
		}
		if first >= 0 && xm.err == nil {
			xm = want16{group[first], first + 1, ms}
		}
		if v := xm.holds(mix, "with Do and Must in turn, "+how+" "+what); v != nil {
			return v
		}
	}
	// a failing sink is reported through it
	if t.Failed >= 0 {
		x.probe("histories with a sink failure")
		var err error
		ec.Set(&err)
		if err == nil {
			return viol("lost", "the sink failed in call %d and the collector reports nothing", t.Failed)
		}
		for i := 0; i < t.Failed; i++ {
			if t.Err[i] != nil {
				return nil // a refused call came first
			}
		}
		if m := newModel(&c); accAll(m, ops[:t.Failed+1]) && !t.W.isFailure(err) {
			return viol("lost", "the sink failed in call %d with %v and the collector reports %v", t.Failed, t.W.failure, err)
		}
	}
	return nil
}

func accAll(m *Model, ops []Op) bool {
	for _, o := range ops {
		if m.Apply(o) != Acc {
			return false
		}
	}
	return true
}

// --- C19 ---

func tokenize(ns []Node, k *int, r *Rand) {
	for i := range ns {
		n := &ns[i]
		*k++
		tok := S(fmt.Sprintf("k%dk", *k))
		switch n.T {
		case "Attr":
			n.V, n.Cv, n.I = tok, "", 0
		case "Text", "Comment", "CData", "PI":
			n.V = tok
		case "DTDAttr":
			n.V, n.Def = tok, 1
		}
		tokenize(n.A, k, r)
		tokenize(n.C, k, r)
	}
}

func genC19(r *Rand, idx int) *Scenario {
	g, c := swarm(r)
	smallBuf(r, c)
	c.NoEnforce = r.P(10)
	g.oftenMany = true
	g.rawPct = 0
	g.treePct = pick(r, 60, 90)
	g.nextPct = pick(r, 3, 15)
	g.badPct = pick(r, 0, 0, 10)
	g.noDTD = r.P(40)
	g.deepPct = pick(r, 0, 40, 70)
	g.maxDepth = pick(r, 5, 9, 10, 18, 34)
	if r.P(50) {
		c.Indent = pick(r, "rec", "rec", "recflush", "std", "recstd")
		c.IndentStr = " "
	}
	g.extra = func(g *Gen) (Op, bool) { // more deferral than the plain mix has
		f := g.m.top()
		if f == nil || !r.P(30) {
			return Op{}, false
		}
		var n Node
		switch f.kind {
		case "Elem":
			n = g.elem(2)
			if r.P(25) {
				n = pick(r, g.comment(), g.cdata())
			}
		case "DTD":
			n = g.dtdLeaf("DTDAttList")
		default:
			return Op{}, false
		}
		o := g.asOp(n, true)
		return o, len(g.m.stack) < g.maxDepth && g.try(o) == Acc
	}
	g.begin()
	g.history(size(r))
	k := 0
	for i := range g.ops {
		if o := g.ops[i]; o.F != "Block" {
			for j := range o.N {
				if n := &o.N[j]; startable(n.T) {
					tokenize(o.N[j:j+1], &k, r)
				}
			}
		}
	}
	// the stream has changed
	g.m = newModel(c)
	g.offs = nil
	for _, o := range g.ops {
		if g.m.Apply(o) == Dirty {
			break
		}
		g.offs = append(g.offs, len(g.m.out))
	}
	mode := ""
	if r.P(15) && spoilDeferred(g) {
		sc := one1(c, g)
		sc.Mode = "spoilt"
		return sc
	}
	if r.P(55) {
		mode = "fault"
		if r.P(25) { // invalid content deep inside
			for try := 0; try < 10; try++ {
				o := &g.ops[r.N(len(g.ops))]
				if (o.F == "Start" || o.F == "StartX") && len(o.N) > 0 {
					n := &o.N[r.N(len(o.N))]
					if n.T == "Elem" && len(n.C) > 0 {
						spoil(g, &n.C[r.N(len(n.C))])
						break
					}
				}
			}
		} else if c.Indent == "rec" || c.Indent == "recstd" || c.Indent == "recflush" {
			g.sinkFaults(1, "indent", "indent", "sink-byte")
		} else {
			g.sinkFaults(1, "sink-byte")
		}
		c.Tail = append(g.tail(), g.tail()...)
	}
	sc := one1(c, g)
	sc.Mode = mode
	return sc
}

// spoilDeferred makes something invalid that is attached to a started node.
func spoilDeferred(g *Gen) bool {
	for try := 0; try < 10; try++ {
		o := &g.ops[g.r.N(len(g.ops))]
		if o.F != "Start" && o.F != "StartX" {
			continue
		}
		n := &o.N[g.r.N(len(o.N))]
		switch {
		case n.T == "Elem" && len(n.C) > 0 && g.r.P(70):
			spoil(g, &n.C[g.r.N(len(n.C))])
		case (n.T == "Elem" || n.T == "DTDAttList") && len(n.A) > 0:
			a := &n.A[g.r.N(len(n.A))]
			if n.T == "DTDAttList" && g.r.P(50) {
				a.Def, a.V = pick(g.r, 2, 3, 9), "v"
				break
			}
			*a = g.mangle(*a)
		case n.T == "Comment":
			n.V = S(pick(g.r, "a--b", "\x00", "\xff", "--x"))
		case n.T == "CData":
			n.V = S(pick(g.r, "a]]>b", "\x00", "\xff"))
		default:
			continue
		}
		return true
	}
	return false
}

// afterRefusal: the refusal of a part that was attached to a node is reported by
// the call that came to write it and by no later one. Whatever is open can be ended.
func afterRefusal(sc *Scenario, x *Ctx) *Violation {
	c := plainCfg(sc.W[0])
	ops := sc.W[0].Ops
	at := -1
	m := newModel(&c)
	var kept []Op // (without the calls refused altogether)
	for _, o := range ops {
		res := m.Apply(o)
		if res != Clean || len(o.N) > 1 { // (one refused at a later node has done the earlier ones)
			kept = append(kept, o)
		}
		if res == Dirty {
			at = len(kept) - 1
			break
		}
	}
	if at < 0 {
		return nil
	}
	ops = kept
	t := x.twin(c, ops, twinOpt{})
	if v := t.panicked(ops); v != nil {
		return v
	}
	if t.Err[at] == nil {
		// it may have been accepted after all, against the rules; then it is in the stream
		free := c
		free.NoEnforce = true
		a, b := x.twin(c, withFlush(ops), twinOpt{}), x.twin(free, withFlush(ops), twinOpt{})
		if k := len(ops); k < len(a.Err) && k < len(b.Err) && a.Err[k] == nil && b.Err[k] == nil && string(a.Sink.data) == string(b.Sink.data) {
			return nil
		}
		return viol("unreported", "call %d (%s) came to write the refused part and returned nil", at, opStr(ops[at]))
	}
	var tail []Op
	for d := t.Depth[at]; d >= 0; d-- {
		tail = append(tail, Op{F: "EndAny"})
	}
	tail = append(tail, Op{F: "Flush"})
	t = x.twin(c, append(ops[:at+1:at+1], tail...), twinOpt{})
	if v := t.panicked(ops); v != nil {
		return v
	}
	for i := at + 1; i < len(t.Err); i++ {
		if err := t.Err[i]; err != nil {
			if dashed(ops[:at+1]) {
				return nil // (a comment that cannot be ended as it stands)
			}
			return viol("again", "call %d (%s) was refused (%v); then end %d of what was open returned %v", at, opStr(ops[at]), t.Err[at], i-at, err)
		}
	}
	x.probe("refused parts")
	return twice(ops, string(t.Sink.data), x)
}

// dashed: a comment's content ends in a dash, so that ending the comment, if it is
// still open, is refused.
func dashed(ops []Op) bool {
	var in func(ns []Node) bool
	in = func(ns []Node) bool {
		for _, n := range ns {
			if (n.T == "CommentContent" || n.T == "Comment") && strings.HasSuffix(string(n.V), "-") || in(n.A) || in(n.C) {
				return true
			}
		}
		return false
	}
	for _, o := range ops {
		if in(o.N) {
			return true
		}
	}
	return false
}

func twice(ops []Op, out string, x *Ctx) *Violation {
	all := map[string]int{}
	for _, o := range ops {
		for _, t := range tokens(o.N, nil) {
			all[t]++
		}
	}
	for _, t := range sortedKeys(all) {
		if all[t] > 1 {
			continue
		}
		x.probe("tokens followed")
		if n := strings.Count(out, t); n > 1 {
			return viol("twice", "the part %s was delivered %d times: %.300q", t, n, out)
		}
	}
	return nil
}

// strip removes the attached parts of started nodes.
func stripDeferred(ops []Op) []Op {
	var l []Op
	for _, o := range ops {
		o.N = append([]Node(nil), o.N...)
		if o.F == "Start" || o.F == "StartX" || o.F == "Block" {
			for i := range o.N {
				n := &o.N[i]
				if o.F == "Block" && i > 0 {
					continue
				}
				switch n.T {
				case "Elem", "DTDAttList":
					n.A, n.C = nil, nil
				case "Comment", "CData":
					n.V = ""
				}
			}
		}
		l = append(l, o)
	}
	return l
}

func tokens(ns []Node, l []string) []string {
	for _, n := range ns {
		if strings.HasPrefix(string(n.V), "k") && strings.HasSuffix(string(n.V), "k") && len(n.V) > 2 {
			l = append(l, string(n.V))
		}
		l = tokens(n.C, tokens(n.A, l))
	}
	return l
}

func checkC19(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	if c.Enc != "" {
		return nil
	}
	if sc.Mode == "spoilt" {
		return afterRefusal(sc, x)
	}
	if sc.Mode == "" {
		pc := c
		if pc.Indent == "std" || pc.Indent == "stdstr" || pc.Indent == "recstd" {
			pc.Indent = "" // (compared below)
		}
		if v := x.agrees(pc, withFlush(c.Ops)); v != nil {
			if x.agrees(pc, stripDeferred(withFlush(c.Ops))) == nil {
				return viol("deferred", "with attached parts (without them it does what it must): %s", v.Msg)
			}
			x.probe("no verdict: wrong without attached parts too")
			return nil
		}
	}
	r := x.run(&c, func(r *Run) {
		r.flags.own = own("unreported", "wrong-error")
	})
	if r.V != nil {
		return r.V
	}
	return twice(c.Ops, string(r.Sink.data), x)
}

// --- C20 ---

func checkC20(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	if sc.Mode == "wild" {
		c.NoEnforce = true
		c.Faults = nil
		r := x.run(&c, func(r *Run) {
			r.flags.own = own("rejected")
			r.flags.noTail = true
		})
		return r.V
	}
	pc := plainCfg(c)
	pc.NoEnforce = false
	t := x.twin(pc, c.Ops, twinOpt{})
	if v := t.panicked(c.Ops); v != nil {
		return v
	}
	m := newModel(&pc)
	var ops []Op
	for i, o := range c.Ops {
		if m.Apply(o) == Dirty || len(o.N) > 1 && t.Err[i] != nil {
			break // half-way
		}
		if t.Err[i] == nil {
			ops = append(ops, o)
		}
	}
	ops = withFlush(ops)
	ref := x.twin(pc, ops, twinOpt{})
	for i, e := range ref.Err {
		if e != nil { // (a refused call had left a trace: another property's business)
			x.probe("no verdict")
			return nil
		}
		_ = i
	}
	f := c.Faults
	if len(f) > 0 {
		k := f[0]
		n := len(ref.Sink.data) + 1
		if k.Kind == "sink-call" {
			n = ref.Sink.calls + 1
		}
		k.At %= n
		f = []Fault{k}
	}
	for _, v := range []struct {
		what             string
		enforce, toggled bool
	}{{"without enforcement", false, false}, {"without enforcement, strict characters toggled", false, true}, {"not strict", true, true}} {
		vc := pc
		vc.NoEnforce = !v.enforce
		if v.toggled {
			vc.NoStrict = !vc.NoStrict
			if v.enforce {
				vc.NoStrict = true
			}
		}
		a := x.twin(vc, ops, twinOpt{})
		if w := a.panicked(ops); w != nil {
			return w
		}
		if w := compare20(ref, a, ops, v.what); w != nil {
			return w
		}
		x.probe("variants compared")
		if len(f) == 0 {
			continue
		}
		fc := pc
		fc.Faults, vc.Faults = f, f
		p, q := x.twin(fc, ops, twinOpt{stop: true, tail: []Op{{F: "Flush"}}}), x.twin(vc, ops, twinOpt{stop: true, tail: []Op{{F: "Flush"}}})
		if w := compare20(p, q, ops, v.what+", with the sink failing"); w != nil {
			return w
		}
	}
	// switched off and on again in between
	if len(sc.Sched) == 0 {
		return nil
	}
	var on, off []Op
	k := 0
	for i, o := range ops {
		for _, at := range sc.Sched {
			if at%len(ops) == i {
				on = append(on, Op{F: "Opt", Kind: "enforce", D: 1})
				off = append(off, Op{F: "Opt", Kind: "enforce", D: k % 2})
				k++
			}
		}
		on, off = append(on, o), append(off, o)
	}
	a, b := x.twin(pc, on, twinOpt{}), x.twin(pc, off, twinOpt{})
	if w := b.panicked(off); w != nil {
		return w
	}
	return compare20(a, b, off, "with enforcement switched off and on in between")
}

func compare20(a, b *Twin, ops []Op, what string) *Violation {
	for i := range a.Err {
		if i >= len(b.Err) || (a.Err[i] == nil) != (b.Err[i] == nil) || errCode(a.Err[i]) != errCode(b.Err[i]) {
			o := Op{F: "Flush"}
			if i < len(ops) {
				o = ops[i]
			}
			var e error
			if i < len(b.Err) {
				e = b.Err[i]
			}
			return viol("results", "call %d (%s) returned %v, %s %v", i, opStr(o), a.Err[i], what, e)
		}
		if a.Depth[i] != b.Depth[i] {
			return viol("depth", "the depth after call %d is %d, %s %d", i, a.Depth[i], what, b.Depth[i])
		}
	}
	if len(a.Err) != len(b.Err) {
		return viol("results", "%s it fails after %d calls, otherwise after %d", what, len(b.Err), len(a.Err))
	}
	if !bytes.Equal(a.Sink.data, b.Sink.data) {
		return viol("bytes", "%s the sink holds %s", what, diffAt(b.Sink.data, a.Sink.data))
	}
	return nil
}
