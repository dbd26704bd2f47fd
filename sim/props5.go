package main

// Properties C22-C24: XML declarations, settings changed on the way, streaming.

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	register(&Prop{
		ID: "C22", Quick: 600000, Thorough: 15000000,
		Rule:   "Documents whose XML declarations set, force, suppress and leave out the version, the encoding and standalone in every combination, through every entry point, on writers with and without an encoding, with the writer's version and newline string changed on the way; every declaration in the stream is read back and compared with what was asked for; in part of the runs the sink fails inside it.",
		Real:   "xmlwriter, bufio, x/text encoders",
		Stub:   "sink, caller",
		Faults: []string{"sink-byte", "sink-call"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			c.NoEnforce = r.P(20)
			g.richDoc = true
			g.noDTD, g.noPI = r.P(80), r.P(80)
			g.rawPct = 0
			if r.P(40) {
				g.optPct = 12
			}
			if r.P(20) {
				g.badPct = 10
			}
			if r.P(40) {
				encMode(r, c, g)
				switch r.N(4) {
				case 0:
					c.EncLabel = ""
				case 1:
					c.EncLabel = S(g.encName())
				case 2:
					c.EncLabel = S(strings.ToUpper(c.Enc))
				}
			}
			if r.P(50) {
				nl := S(pick(r, "\r\n", "", "\n\n", "\r", "  "))
				c.Newline = &nl
			}
			if r.P(40) {
				c.Version = S(pick(r, "1.0", "1.1", "2.0", "a\"b"))
			}
			g.extra = func(g *Gen) (Op, bool) {
				f := g.m.top()
				switch {
				case f == nil && g.r.P(70):
					n := g.doc()
					if g.r.P(12) { // an encoding that cannot be named
						bad := S(pick(g.r, "9", "-a", "a b", "é", "a:b", "a\x00", "_", "a\"", "utf/8", "\xff"))
						n.SE, n.FE = false, &bad
						if g.m.enforce {
							g.emit(g.asOp(n, true))
							return Op{F: "Flush"}, true
						}
					}
					if g.r.P(15) {
						if o := g.block(n); o.F != "" {
							return o, true
						}
					}
					return g.asOp(n, true), true
				case f != nil && f.kind == "Doc" && g.r.P(40):
					return pick(g.r, Op{F: "EndDoc"}, Op{F: "End", Kind: "Doc"}, Op{F: "EndAny"}, Op{F: "EndAll"}), true
				}
				return Op{}, false
			}
			g.begin()
			g.history(2 + r.N(14))
			if r.P(25) {
				g.sinkFaults(1, "sink-byte", "sink-byte", "sink-call")
				c.Tail = g.tail()
			}
			return one1(c, g)
		},
		Check: checkC22,
	})
	register(&Prop{
		ID: "C23", Quick: 200000, Thorough: 15000000,
		Rule: "Histories during which the caller assigns the writer's public fields (Enforce, StrictChars, Version, NewlineString, Indenter, InitialBufSize) between any two calls, at every state of the node stack; compared with the reference machine call by call, and with the same history in which further assignments are made and taken back before the next call, and in which the initial settings are assigned after opening instead of given as options.",
		Real: "xmlwriter, bufio", Stub: "sink, caller, wrapping indenter",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			c.NoEnforce = r.P(25)
			g.allOpts, g.optPct = true, pick(r, 8, 15, 30)
			g.badPct = pick(r, 0, 8, 20)
			g.dirtyPct = 5
			g.richDoc = r.P(30)
			if r.P(25) {
				c.Indent = "std"
			}
			g.extra = func(g *Gen) (Op, bool) { // calls whose outcome hangs on the setting
				k := len(g.ops)
				if k == 0 || !g.r.P(5) && (g.ops[k-1].F != "Opt" || g.r.P(40)) {
					return Op{}, false
				}
				return g.hinging()
			}
			g.begin()
			g.history(size(r))
			return one1(c, g)
		},
		Check: checkC23,
	})
	register(&Prop{
		ID: "C24", Quick: 200000, Thorough: 10000000,
		Rule: "Random histories on every buffer size, with strings far longer than the buffer, on plain sinks and through encoders: after every call that succeeded the sink must hold all but the last buffer's worth of what has been produced. One run in 200 writes a document of some hundred thousand nodes to a sink that keeps nothing and measures the live heap at a quarter of the way and at the end.",
		Real: "xmlwriter, its standard indenter, bufio, x/text encoders; the Go heap", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			if r.N(200) == 0 {
				return longRun(r)
			}
			g, c := swarm(r)
			if c.Buf == 4096 {
				c.Buf = 512
			}
			c.NoEnforce = r.P(15)
			g.flushPct = pick(r, 0, 0, 0, 4)
			if r.P(50) {
				g.longPct, g.longLen = 20, pick(r, 50, 500, 5000)
			}
			g.badPct = pick(r, 0, 0, 8)
			g.mayHuge()
			if r.P(25) {
				encMode(r, c, g)
			} else if r.P(20) {
				c.Indent = pick(r, "rec", "inject")
				c.WrapPre = S(pick(r, "", "w"))
			}
			g.begin()
			g.history(size(r))
			return one1(c, g)
		},
		Check: checkC24,
	})
}

// --- C22 ---

// declAt reads one XML declaration.
func declAt(s string) (fields []string, rest string, ok bool) {
	if !strings.HasPrefix(s, "<?xml") {
		return nil, s, false
	}
	s = s[5:]
	for _, name := range []string{"version", "encoding", "standalone"} {
		v := ""
		if pre := " " + name + `="`; strings.HasPrefix(s, pre) {
			k := strings.IndexByte(s[len(pre):], '"')
			if k < 0 {
				return nil, s, false
			}
			v = "=" + undo(s[len(pre):len(pre)+k])
			s = s[len(pre)+k+1:]
		}
		fields = append(fields, v)
	}
	if strings.Join(fields, "") == "" && strings.HasPrefix(s, " ") {
		s = s[1:]
	}
	if !strings.HasPrefix(s, "?>") {
		return nil, s, false
	}
	return fields, s[2:], true
}

var undoRefs = strings.NewReplacer("&#34;", `"`, "&#39;", "'", "&lt;", "<", "&gt;", ">", "&#xD;", "\r", "&#x9;", "\t", "&#xA;", "\n", "&amp;", "&")

func undo(s string) string { return undoRefs.Replace(s) }

func checkC22(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	ops := withFlush(c.Ops)
	a := x.twin(plainCfg(c), ops, twinOpt{})
	if v := a.panicked(ops); v != nil {
		return v
	}
	// where each declaration stands, and what it must say
	m := newModel(&c)
	type decl struct {
		at     int
		fields []string
		nl     string
	}
	var want []decl
	end := len(ops)
	for i, o := range ops {
		for _, n := range o.N {
			if n.T == "Doc" && o.F != "Block" && len(o.N) > 1 {
				return nil // (one declaration per call here)
			}
		}
		before, label := len(m.out), m.label
		doc := len(o.N) > 0 && o.N[0].T == "Doc"
		version, nl, enforce := m.version, m.newline, m.enforce
		res := m.Apply(o)
		if !doc {
			if (res == Acc) != (a.Err[i] == nil) || res == Dirty {
				end = i
				break
			}
			continue
		}
		n := o.N[0]
		e := label
		if n.FE != nil {
			e = string(*n.FE)
		}
		if enforce && res != Clean && !n.SE && !validEncName(e) {
			if a.Err[i] == nil {
				return viol("accepted", "call %d (%s) declares the encoding %q and returned nil", i, opStr(o), e)
			}
			x.probe("encodings refused")
			end = i
			break
		}
		if res != Acc {
			if res == Clean && a.Err[i] == nil {
				return nil // (misplaced: not this property's business)
			}
			if res == Dirty {
				end = i
				break
			}
			continue
		}
		if a.Err[i] != nil {
			if len(o.N) > 1 {
				return nil
			}
			return viol("rejected", "call %d (%s) must be accepted, returned %v", i, opStr(o), a.Err[i])
		}
		d := decl{fields: []string{"", "", ""}, nl: nl}
		out := string(m.out[before:])
		d.at = before
		if k := strings.Index(out, "<?xml"); k >= 0 { // (without enforcement it first completes what is open)
			d.at += k
		} else {
			return nil
		}
		if !n.SV {
			switch {
			case n.FV != nil:
				d.fields[0] = "=" + sane(string(*n.FV))
			case version != "":
				d.fields[0] = "=" + sane(version)
			default:
				d.fields[0] = "=1.0"
			}
		}
		if !n.SE && e != "" {
			d.fields[1] = "=" + sane(e)
		}
		if n.SA != nil {
			d.fields[2] = map[bool]string{true: "=yes", false: "=no"}[*n.SA]
		}
		want = append(want, d)
	}
	last := a.Len[len(a.Len)-1]
	if end < len(ops) { // what came before the call that ends it
		b := x.twin(plainCfg(c), withFlush(ops[:end]), twinOpt{})
		a, last = b, b.Len[len(b.Len)-1]
		if b.Err[len(b.Err)-1] != nil {
			return nil
		}
	}
	got := string(a.Sink.data[:last])
	if c.Enc != "" {
		for _, r := range string(m.out) {
			if r >= 0x80 && odd(c.Enc, r) {
				return nil
			}
		}
		back, err := encodings[c.Enc].NewDecoder().Bytes(a.Sink.data[:last])
		if err != nil {
			return viol("decode", "the stream does not decode as %s: %v", c.Enc, err)
		}
		got = resolveRefs(c.Enc, string(back))
	}
	for k, d := range want {
		if d.at > len(got) {
			return viol("declaration", "declaration %d is missing from %.200q", k, got)
		}
		f, rest, ok := declAt(got[d.at:])
		if !ok {
			return viol("declaration", "declaration %d does not read as one: %.200q", k, got[d.at:])
		}
		for j, name := range []string{"version", "encoding", "standalone"} {
			if f[j] != d.fields[j] {
				return viol("declaration", "declaration %d: %s%s is wanted, it says %s%s: %.200q", k, name, d.fields[j], name, f[j], got[d.at:])
			}
		}
		if !strings.HasPrefix(rest, d.nl) {
			return viol("declaration", "declaration %d is not followed by the newline string %q: %.200q", k, d.nl, got[d.at:])
		}
		next := len(d.nl)
		if len(rest) > next && rest[next] != '<' && k+1 == len(want) && d.at+len(got[d.at:])-len(rest)+next < len(m.out) && m.out[d.at+len(got[d.at:])-len(rest)+next] == '<' {
			return viol("declaration", "declaration %d is followed by more than the newline string %q: %.200q", k, d.nl, got[d.at:])
		}
		x.probe("declarations read back")
	}
	if len(c.Faults) == 0 {
		return nil
	}
	r := x.run(&c, func(r *Run) {
		r.flags.own = own("unreported", "unreported-later")
		r.flags.opFilter = func(o Op) bool { return hasKind(o, "Doc") }
	})
	return r.V
}

// --- C23 ---

func checkC23(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	r := x.run(&c, func(r *Run) { r.flags.own = own("stream", "prefix", "rejected", "accepted", "depth") })
	if r.V != nil {
		return r.V
	}
	ops := withFlush(c.Ops)
	ref := x.twin(plainCfg(c), ops, twinOpt{})
	if v := ref.panicked(ops); v != nil {
		return v
	}
	if v := newlineTwin(&c, x); v != nil {
		return v
	}
	n := 0
	for _, o := range ops {
		if o.F == "Opt" {
			n++
		}
	}
	x.Probe["assignments"] += n

	// the initial settings assigned after opening
	late := plainCfg(c)
	late.Late = !late.Late
	if v := compareTwins(x, "with the settings made at the other time", ref, x.twin(late, ops, twinOpt{}), ops, nil); v != nil {
		return v
	}

	// further assignments, taken back before the next call
	m := newModel(&c)
	rnd := NewRand(sc.Seed, uint64(sc.Index), hashStr("C23"))
	var more []Op
	var at []int
	pre, has := "", false
	for _, o := range ops {
		b2i := map[bool]int{true: 1}
		if rnd.P(40) {
			k := rnd.N(5)
			if c.Indent == "std" && k == 4 {
				k = 2
			}
			switch k {
			case 0:
				more = append(more, Op{F: "Opt", Kind: "enforce", D: 1 - b2i[m.enforce]}, Op{F: "Opt", Kind: "enforce", D: b2i[m.enforce]})
			case 1:
				more = append(more, Op{F: "Opt", Kind: "strict", D: 1 - b2i[m.strict]}, Op{F: "Opt", Kind: "strict", D: b2i[m.strict]})
			case 2:
				more = append(more, Op{F: "Opt", Kind: "newline", Names: []string{"NL"}}, Op{F: "Opt", Kind: "newline", Names: []string{m.newline}})
			case 3:
				more = append(more, Op{F: "Opt", Kind: "version", Names: []string{"V"}}, Op{F: "Opt", Kind: "version", Names: []string{m.version}})
			case 4:
				more = append(more, Op{F: "Opt", Kind: "indenter", Names: []string{"I"}, D: 1}, Op{F: "Opt", Kind: "indenter", Names: []string{pre}, D: b2i[has]})
			}
		}
		if o.F == "Opt" && o.Kind == "indenter" {
			pre, has = o.Names[0], o.D != 0
		}
		at = append(at, len(more))
		more = append(more, o)
		m.Apply(o)
	}
	return compareTwins(x, "with settings changed and changed back between calls", ref, x.twin(plainCfg(c), more, twinOpt{}), ops, at)
}

// hinging is a call that enforcement (or strictness) accepts and its absence does not, or the other way round.
func (g *Gen) hinging() (Op, bool) {
	for try := 0; try < 12; try++ {
		n := g.anyNode()
		if n.T == "Raw" {
			continue
		}
		if g.r.P(70) {
			n = g.mangle(n)
		}
		n.C = nil
		o := g.asOp(n, startable(n.T) && (!writable(n.T) || g.r.P(50)))
		f := &g.m.enforce
		if g.r.P(25) {
			f = &g.m.strict
		}
		now := g.try(o)
		*f = !*f
		then := g.try(o)
		*f = !*f
		if now != then && (now != Dirty || g.r.P(10)) {
			return o, true
		}
	}
	return Op{}, false
}

// newlineTwin: with the standard indenter, the newlines of each call are those in force then.
func newlineTwin(c *WCfg, x *Ctx) *Violation {
	if c.Indent != "std" {
		return nil
	}
	const mark = "\x02"
	var fl, same []Op
	for _, o := range c.Ops {
		fl = append(fl, o, Op{F: "Flush"})
		if o.F == "Opt" && o.Kind == "newline" {
			o = Op{F: "Flush"}
		}
		same = append(same, o, Op{F: "Flush"})
	}
	with := func(nl string) *Twin {
		d, s := plainCfg(*c), S(nl)
		d.Newline = &s
		return x.twin(d, same, twinOpt{})
	}
	a, b := x.twin(plainCfg(*c), fl, twinOpt{}), with(mark)
	if a.Pan != nil || b.Pan != nil || bytes.Contains(with("").Sink.data, []byte(mark)) {
		return nil
	}
	nl, at, bt := "\n", 0, 0
	if c.Newline != nil {
		nl = string(*c.Newline)
	}
	for i := range fl {
		if fl[i].F == "Opt" && fl[i].Kind == "newline" {
			nl = fl[i].Names[0]
		}
		if (a.Err[i] == nil) != (b.Err[i] == nil) {
			return viol("settings", "call %d (%s) returns %v with the newline string changed on the way, otherwise %v", i/2, opStr(fl[i]), a.Err[i], b.Err[i])
		}
		if i%2 == 1 {
			got, must := string(a.Sink.data[at:a.Len[i]]), strings.ReplaceAll(string(b.Sink.data[bt:b.Len[i]]), mark, nl)
			if got != must {
				return viol("settings", "call %d (%s) writes %.80q, with the newline string %q in force it must write %.80q", i/2, opStr(fl[i-1]), got, nl, must)
			}
			at, bt = a.Len[i], b.Len[i]
		}
	}
	x.probe("changed newline strings under the standard indenter")
	return nil
}

// compareTwins: call i of a is call at[i] of b (call i without at).
func compareTwins(x *Ctx, what string, a, b *Twin, ops []Op, at []int) *Violation {
	if b.Pan != nil {
		return b.panicked(b.C.Ops)
	}
	for i := range ops {
		j := i
		if at != nil {
			j = at[i]
		}
		if i >= len(a.Err) || j >= len(b.Err) {
			return viol("settings", "call %d: %s the run ends early", i, what)
		}
		if (a.Err[i] == nil) != (b.Err[j] == nil) || a.Depth[i] != b.Depth[j] {
			return viol("settings", "call %d (%s): %s it returns %v (depth %d), otherwise %v (depth %d)", i, opStr(ops[i]), what, b.Err[j], b.Depth[j], a.Err[i], a.Depth[i])
		}
	}
	if string(a.Sink.data) != string(b.Sink.data) {
		return viol("settings", "%s the sink holds %s", what, diffAt(b.Sink.data, a.Sink.data))
	}
	return nil
}

// --- C24 ---

func checkC24(sc *Scenario, x *Ctx) *Violation {
	if sc.Mode == "long" {
		return checkLong(sc, x)
	}
	c := sc.W[0]
	if c.Sink == "bufio" {
		return nil
	}
	buf, slack := c.Buf, 0
	if buf <= 0 {
		buf = 2048
	}
	ops := withFlush(c.Ops)
	a := x.twin(plainCfg(c), ops, twinOpt{})
	if v := a.panicked(ops); v != nil {
		return v
	}
	m := newModel(&c)
	if c.Enc != "" {
		slack = 3 // part of a character
	}
	checked := 0
	for i, o := range ops {
		res := m.Apply(o)
		if (res == Acc) != (a.Err[i] == nil) || res == Dirty {
			return nil
		}
		for _, r := range string(m.out[checked:]) {
			if r >= 0x80 && c.Enc != "" && odd(c.Enc, r) {
				return nil
			}
		}
		checked = len(m.out)
		if a.Err[i] != nil || c.Enc != "" && i%7 != 0 && i+1 < len(ops) {
			continue
		}
		held := a.Len[i]
		if c.Enc != "" {
			back, err := encodings[c.Enc].NewDecoder().Bytes(a.Sink.data[:held])
			if err != nil {
				return nil // (C07)
			}
			held = len(resolveRefs(c.Enc, string(back)))
		}
		limit := buf + slack
		if o.F == "Flush" || o.F == "EndAllFlush" {
			limit = 0
			if t := m.out[max(0, len(m.out)-3):]; c.Enc != "" && partial(t) {
				limit = 3
			}
		}
		if w := len(m.out) - held; w > limit {
			return viol("withheld", "after call %d (%s) %d bytes have been produced and %d delivered: %d are withheld, the buffer is %d", i, opStr(o), len(m.out), held, w, buf)
		}
		x.probe("calls measured")
		if len(m.out) > buf {
			x.probe("calls measured after more than a buffer was produced")
		}
	}
	return nil
}

// partial: t ends in the first bytes of a character.
func partial(t []byte) bool {
	for k := len(t) - 1; k >= 0; k-- {
		if utf8.RuneStart(t[k]) {
			return !utf8.FullRune(t[k:])
		}
	}
	return false
}

// longRun: the tail is the body, repeated; the operations open what is around it.
func longRun(r *Rand) *Scenario {
	sc := longBody(r, 3+r.N(10))
	if r.P(60) { // other names in every round
		sc.Sched = []int{1}
	}
	return sc
}

// roundsRun is a short body, so often that no counter of two bytes is enough.
func roundsRun(r *Rand) *Scenario {
	sc := longBody(r, 1+r.N(3))
	sc.Mode = "rounds"
	return sc
}

func longBody(r *Rand, n int) *Scenario {
	g, c := swarm(r)
	c.Indent = pick(r, "", "std")
	c.Sink = ""
	c.Late = false
	g.maxDepth = 6
	g.longLen, g.longPct, g.huge = 20, 5, 0
	g.rawPct = 0
	g.noDTD = true
	g.begin()
	open := []Node{{T: "Doc"}}
	for k := r.N(12); k >= 0; k-- {
		open = append(open, Node{T: "Elem", N: S(g.name())})
	}
	for _, n := range open {
		g.emit(Op{F: "StartX", N: []Node{n}})
	}
	if r.P(25) { // declarations instead
		g.m = newModel(c)
		g.ops = nil
		g.emit(Op{F: "StartX", N: []Node{{T: "Doc"}}})
		g.emit(Op{F: "StartX", N: []Node{{T: "DTD", N: "d"}}})
	}
	base := len(g.m.stack)
	sc := &Scenario{Mode: "long"}
	c.Tail = nil
	pre := len(g.ops)
	for len(g.ops) < pre+n {
		g.commit(g.goodOp())
		if len(g.m.stack) < base {
			break
		}
	}
	ops := g.ops
	body := append([]Op(nil), ops[pre:]...)
	c.Ops = ops[:pre:pre]
	c.Tail = body
	sc.W = []WCfg{*c}
	return sc
}

// renamed gives every node names and values that were not there before.
func renamed(nodes []Node, suffix string) []Node {
	out := append([]Node(nil), nodes...)
	for i := range out {
		n := &out[i]
		if n.T == "Attr" {
			continue // (its namespace belongs to an element that is still open)
		}
		for _, p := range []*S{&n.P, &n.N, &n.V, &n.U} {
			if *p != "" && *p != "xml" && *p != "xmlns" {
				*p += S(suffix)
			}
		}
		n.A, n.C = renamed(n.A, suffix), renamed(n.C, suffix)
		for j := range n.A {
			if a := &n.A[j]; a.T == "Attr" {
				for _, p := range []*S{&a.P, &a.N, &a.V, &a.U} {
					if *p != "" && *p != "xml" && *p != "xmlns" {
						*p += S(suffix)
					}
				}
			}
		}
	}
	return out
}

type countingSink struct{ n int }

func (s *countingSink) Write(p []byte) (int, error) { s.n += len(p); return len(p), nil }

var _ io.Writer = (*countingSink)(nil)

func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

// longWriter opens the writer of a long run and makes the calls before the body.
func longWriter(c *WCfg, out io.Writer, x *Ctx) (w *xw.Writer, do func(o Op) error, ok bool) {
	var opts []xw.Option
	if c.Buf > 0 {
		opts = append(opts, func(w *xw.Writer) { w.InitialBufSize = c.Buf })
	}
	if c.Indent == "std" {
		opts = append(opts, xw.WithIndent())
	}
	w = xw.Open(out, opts...)
	do = func(o Op) (err error) {
		nodes := make([]xw.Node, len(o.N))
		for j := range o.N {
			nodes[j] = build(o.N[j])
		}
		err, pan := safeCall(func() error { return call(w, o, nodes) })
		if pan != nil {
			err = fmt.Errorf("panic: %v", pan)
		}
		x.Calls++
		return err
	}
	for _, o := range c.Ops {
		if do(o) != nil {
			return w, do, false
		}
	}
	return w, do, true
}

// round makes the calls of the body once and ends what they left open.
func round(w *xw.Writer, do func(o Op) error, body []Op, base int) (errs []bool, ok bool) {
	for _, o := range body {
		errs = append(errs, do(o) != nil) // (what is refused is the business of other properties)
	}
	for w.Depth() > base {
		if do(Op{F: "EndAny"}) != nil && do(Op{F: "WriteX", N: []Node{{T: "CommentContent", V: "."}}}) != nil {
			return errs, false
		}
	}
	return errs, w.Depth() == base
}

// checkRounds: a round of calls in the same place writes the same bytes every time.
func checkRounds(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	var b bytes.Buffer
	w, do, ok := longWriter(&c, &b, x)
	if !ok {
		return nil
	}
	base := w.Depth()
	var first string
	var ferrs []bool
	const rounds = 70000
	for k := 0; k < rounds; k++ {
		b.Reset()
		errs, ok := round(w, do, c.Tail, base)
		err := w.Flush()
		if k == 1 {
			first, ferrs = b.String(), errs
			if !ok || err != nil {
				return nil
			}
		}
		if k > 1 && (b.String() != first || fmt.Sprint(errs) != fmt.Sprint(ferrs) || !ok || err != nil) {
			return viol("drift", "the same %d calls in the same place write %.200q the second time and %.200q (%v, refused %v) the %dth time", len(c.Tail), first, b.String(), err, errs, k+1)
		}
	}
	x.Log.add("rounds:"+first, rounds, w.Depth())
	x.probe("documents of 70000 rounds")
	return nil
}

func checkLong(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	sink := &countingSink{}
	w, do, ok := longWriter(&c, sink, x)
	if !ok {
		return nil
	}
	base := w.Depth()
	const rounds = 10000
	var quarter int64
	for k := 0; k < rounds; k++ {
		body := c.Tail
		if sc.Sched != nil {
			body = append([]Op(nil), body...)
			for i := range body {
				body[i].N = renamed(body[i].N, fmt.Sprint(k))
			}
		}
		if _, ok := round(w, do, body, base); !ok {
			return nil
		}
		if k == rounds/4 {
			quarter = liveHeap()
		}
	}
	grown := liveHeap() - quarter
	runtime.KeepAlive(w)
	x.Log.add("long", sink.n, w.Depth())
	x.probe("long documents")
	if grown > 128<<10 {
		return viol("retained", "the live heap grew by %d KiB while %d rounds of %d calls were written, with the same %d nodes open", grown>>10, rounds*3/4, len(c.Tail), base+1)
	}
	return nil
}
