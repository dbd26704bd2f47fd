package main

// C13: several writers under a seeded scheduler.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"

	xw "github.com/shabbyrobe/xmlwriter"
)

// stmtPoints: the package under test was built with a scheduling point before
// every statement; otherwise control can only pass at the seams.
var stmtPoints bool

var curSched *sched

// sched lets exactly one task run at a time. Its choices are pairs: how many
// scheduling points to let pass, and which task goes on then.
type sched struct {
	choices  []int
	pos, gap int
	cur      int
	alive    []int
	wake     []chan struct{}
	fin      chan struct{}
	points   int
	switches int
	waits    int // in a row, without a statement in between
}

func newSched(n int, choices []int) *sched {
	s := &sched{choices: choices, fin: make(chan struct{})}
	for i := 0; i < n; i++ {
		s.alive = append(s.alive, i)
		s.wake = append(s.wake, make(chan struct{}))
	}
	s.next()
	return s
}

// next sets the distance to the next switch.
func (s *sched) next() {
	s.gap = -1
	if s.pos < len(s.choices) {
		s.gap = max(1, s.choices[s.pos])
	}
}

func (s *sched) choose() int {
	t := 0
	if s.pos+1 < len(s.choices) {
		t = s.choices[s.pos+1]
	}
	s.pos += 2
	s.next()
	return s.alive[((t%len(s.alive))+len(s.alive))%len(s.alive)]
}

func (s *sched) yield() {
	s.points++
	s.waits = 0
	if s.gap < 0 {
		return
	}
	if s.gap--; s.gap > 0 {
		return
	}
	me := s.cur
	t := s.choose()
	if t == me {
		return
	}
	s.switches++
	s.cur = t
	s.wake[t] <- struct{}{}
	<-s.wake[me]
}

// blocked lets the next task run, since this one cannot go on; false if there
// is no other, or they all wait.
func (s *sched) blocked() bool {
	me := s.cur
	for i, a := range s.alive {
		if a == me && len(s.alive) > 1 && s.waits < 4*len(s.alive) {
			s.waits++
			s.switches++
			s.cur = s.alive[(i+1)%len(s.alive)]
			s.wake[s.cur] <- struct{}{}
			<-s.wake[me]
			return true
		}
	}
	return false
}

// done ends the current task.
func (s *sched) done() {
	for i, a := range s.alive {
		if a == s.cur {
			s.alive = append(s.alive[:i:i], s.alive[i+1:]...)
			break
		}
	}
	if len(s.alive) == 0 {
		close(s.fin)
		return
	}
	s.cur = s.alive[0]
	s.wake[s.cur] <- struct{}{}
}

// run executes the tasks to the end.
func (s *sched) run(tasks []func()) {
	curSched = s
	for i := range tasks {
		go func(i int) {
			<-s.wake[i]
			defer s.done()
			tasks[i]()
		}(i)
	}
	s.cur = 0
	s.wake[0] <- struct{}{}
	<-s.fin
	curSched = nil
}

// pool holds the argument values the writers share.
type pool struct {
	nodes map[string]xw.Node
	src   map[string]Node
	args  map[string]*args
	opts  map[string]xw.Option
}

// args are the variadic slices of one call, shared by everyone who makes it.
type args struct {
	op     Op
	starts []xw.Startable
	writes []xw.Writable
	attrs  []xw.Attr
}

func newPool() *pool {
	return &pool{nodes: map[string]xw.Node{}, src: map[string]Node{}, args: map[string]*args{}, opts: map[string]xw.Option{}}
}

var spareAttr = xw.Attr{Name: "spare", Value: "spare"}
var spareDTDAttr = xw.DTDAttr{Name: "spare", Type: "spare"}
var spareWritable = xw.Text("spare")
var spareStartable = xw.Comment{Content: "spare"}

// roomy gives a slice spare capacity holding a mark.
func roomy[T any](l []T, spare T) []T {
	if l == nil {
		return nil
	}
	b := make([]T, 0, len(l)+2)
	b = append(b, l...)
	b = append(b, spare, spare)
	return b[:len(l)]
}

func marksLeft[T any](l []T, spare T) bool {
	if l == nil {
		return true
	}
	b := l[:len(l)+2]
	return reflect.DeepEqual(b[len(l)], spare) && reflect.DeepEqual(b[len(l)+1], spare)
}

func (p *pool) node(n Node) xw.Node {
	kb, _ := json.Marshal(n)
	k := string(kb)
	if v, ok := p.nodes[k]; ok {
		return v
	}
	v := value(n)
	switch e := v.(type) {
	case xw.Elem:
		for i := range n.C {
			e.Content[i] = p.node(n.C[i]).(xw.Writable)
		}
		e.Attrs, e.Content = roomy(e.Attrs, spareAttr), roomy(e.Content, xw.Writable(spareWritable))
		v = e
	case xw.DTDAttList:
		e.Attrs = roomy(e.Attrs, spareDTDAttr)
		v = e
	}
	if n.Ptr {
		v = pointer(v)
	}
	p.nodes[k], p.src[k] = v, n
	return v
}

func (p *pool) call(o Op) *args {
	kb, _ := json.Marshal(o)
	k := string(kb)
	if a, ok := p.args[k]; ok {
		return a
	}
	a := &args{op: o}
	for i, n := range o.N {
		v := p.node(n)
		if o.F == "Start" || o.F == "Block" && i == 0 {
			a.starts = append(a.starts, v.(xw.Startable))
			continue
		}
		if w, ok := v.(xw.Writable); ok {
			a.writes = append(a.writes, w)
		}
		if w, ok := deref(v).(xw.Attr); ok {
			a.attrs = append(a.attrs, w)
		}
	}
	a.starts, a.writes, a.attrs = roomy(a.starts, xw.Startable(spareStartable)), roomy(a.writes, xw.Writable(spareWritable)), roomy(a.attrs, spareAttr)
	p.args[k] = a
	return a
}

// callShared makes a call with the very values and slices others use as well.
func callShared(w *xw.Writer, o Op, p *pool) error {
	switch o.F {
	case "Start":
		return w.Start(p.call(o).starts...)
	case "Write":
		return w.Write(p.call(o).writes...)
	case "Block":
		a := p.call(o)
		return w.Block(a.starts[0], a.writes...)
	case "WriteX":
		if o.N[0].T == "Attr" {
			return w.WriteAttr(p.call(o).attrs...)
		}
	}
	l := make([]xw.Node, len(o.N))
	for i := range o.N {
		l[i] = p.node(o.N[i])
	}
	return call(w, o, l)
}

func sortedKeys[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// modified names an argument that a writer changed.
func (p *pool) modified() string {
	for _, k := range sortedKeys(p.nodes) {
		v := p.nodes[k]
		bad := !reflect.DeepEqual(v, build(p.src[k]))
		switch e := deref(v).(type) {
		case xw.Elem:
			bad = bad || !marksLeft(e.Attrs, spareAttr) || !marksLeft(e.Content, xw.Writable(spareWritable))
		case xw.DTDAttList:
			bad = bad || !marksLeft(e.Attrs, spareDTDAttr)
		}
		if bad {
			return fmt.Sprintf("%.200s", k)
		}
	}
	for _, k := range sortedKeys(p.args) {
		a := p.args[k]
		bad := !marksLeft(a.starts, xw.Startable(spareStartable)) || !marksLeft(a.writes, xw.Writable(spareWritable)) || !marksLeft(a.attrs, spareAttr)
		q := newPool().call(a.op)
		if bad || !reflect.DeepEqual(a.starts, q.starts) || !reflect.DeepEqual(a.writes, q.writes) || !reflect.DeepEqual(a.attrs, q.attrs) {
			return fmt.Sprintf("%.200s", k)
		}
	}
	return ""
}

// Solo is what one writer did.
type Solo struct {
	W     *World
	Sink  *Sink
	Ind   *SimIndenter
	Err   []int
	Msg   []string
	Depth []int
	Len   []int
	Pan   string
	PanAt int
}

// soloTask is one writer's life; p is nil when it shares nothing.
func soloTask(c *WCfg, log *hasher, p *pool, yield func()) (*Solo, func()) {
	s := &Solo{W: &World{log: log, fired: map[string]int{}, yield: yield}, PanAt: -1}
	if p != nil {
		s.W.opts = p.opts
	}
	s.Sink = &Sink{W: s.W}
	return s, func() {
		var w *xw.Writer
		if _, pan := safeCall(func() error { w, s.Ind, _ = openWriter(c, s.W, s.Sink); return nil }); pan != nil {
			s.Pan = fmt.Sprint(pan)
			return
		}
		for i, o := range append(append([]Op(nil), c.Ops...), c.Tail...) {
			s.W.steps, s.W.short = 0, false
			if yield != nil {
				yield()
			}
			err, pan := safeCall(func() error {
				if p != nil {
					return callShared(w, o, p)
				}
				l := make([]xw.Node, len(o.N))
				for j := range o.N {
					l[j] = build(o.N[j])
				}
				return call(w, o, l)
			})
			if pan != nil {
				s.Pan, s.PanAt = fmt.Sprint(pan), i
				return
			}
			s.Err = append(s.Err, errCode(err))
			m := ""
			if err != nil {
				m = err.Error()
			}
			s.Msg = append(s.Msg, m)
			s.Depth = append(s.Depth, w.Depth())
			s.Len = append(s.Len, len(s.Sink.data))
			log.add("op:"+o.F, errCode(err), w.Depth())
		}
	}
}

// differ compares a writer's life among others with its life alone.
func (s *Solo) differ(alone *Solo) string {
	for i := range alone.Err {
		switch {
		case i >= len(s.Err):
			return fmt.Sprintf("call %d did not return (%s), alone it did", i, s.Pan)
		case s.Err[i] != alone.Err[i] || s.Msg[i] != alone.Msg[i]:
			return fmt.Sprintf("call %d returned %q, alone %q", i, s.Msg[i], alone.Msg[i])
		case s.Depth[i] != alone.Depth[i]:
			return fmt.Sprintf("the depth after call %d was %d, alone %d", i, s.Depth[i], alone.Depth[i])
		}
	}
	if s.Pan != alone.Pan || s.PanAt != alone.PanAt || len(s.Err) != len(alone.Err) {
		return fmt.Sprintf("call %d ended with %q, alone with %q at call %d", s.PanAt, s.Pan, alone.Pan, alone.PanAt)
	}
	if !bytes.Equal(s.Sink.data, alone.Sink.data) {
		return "its sink holds " + diffAt(s.Sink.data, alone.Sink.data)
	}
	if (s.Ind == nil) != (alone.Ind == nil) || s.Ind != nil && !reflect.DeepEqual(plainRecs(s.Ind.recs), plainRecs(alone.Ind.recs)) {
		return "its indenter saw other transitions"
	}
	return ""
}

// plainRecs leaves out when the bytes reached the sink.
func plainRecs(l []GotEv) []GotEv {
	r := append([]GotEv(nil), l...)
	for i := range r {
		r[i].Sink = 0
	}
	return r
}

func init() {
	register(&Prop{
		ID: "C13", Quick: 180000, Thorough: 9000000,
		Rule:   "Two to four writers, each in a goroutine of its own, of which the seeded scheduler lets exactly one run: control passes at call boundaries, at every sink write, indenter callback and encoder step and, the package being built with a scheduling point before every statement, anywhere inside a call. Writers share option values, node values and argument slices (with marked spare capacity), and some of them fail. Every writer is compared with itself running alone, and the shared arguments with fresh copies.",
		Real:   "xmlwriter (a scheduling point inserted before each statement at build time), its standard indenter, bufio, x/text",
		Stub:   "goroutine scheduling, sinks, recording indenters, callers",
		Faults: []string{"sink-byte", "sink-call", "sink-late", "sink-short", "enc", "indent"},
		Gen:    genC13,
		Check:  checkC13,
	})
}

func genC13(r *Rand, idx int) *Scenario {
	sc := &Scenario{}
	n := pick(r, 2, 2, 2, 3, 4)
	same := r.P(60)
	for k := 0; k < n; k++ {
		g, c := swarm(r)
		smallBuf(r, c)
		c.NoEnforce = r.P(10)
		switch {
		case same && k > 0 && r.P(70):
			first := sc.W[0]
			if r.P(60) {
				*c = first
				c.Faults = nil
				g.c = c
			} else {
				c.Ops, c.NoEnforce = first.Ops, first.NoEnforce
			}
			g.begin()
			for _, o := range c.Ops {
				g.m.Apply(o)
				g.offs = append(g.offs, len(g.m.out))
			}
			g.ops = c.Ops
		default:
			if r.P(25) {
				encMode(r, c, g)
				c.Sink = ""
			}
			if r.P(40) {
				indentMode(r, c)
				if c.Indent == "stdstr" && r.P(50) {
					c.IndentStr = "  "
				}
			}
			g.treePct = pick(r, 20, 50, 80)
			g.nsPct = pick(r, 0, 20, 50)
			g.badPct = pick(r, 0, 0, 15)
			g.begin()
			if r.P(2) { // far down
				for i := 20 + r.N(60); i > 0; i-- {
					g.emit(Op{F: "StartX", N: []Node{{T: "Elem", N: "d"}}})
				}
			}
			g.history(len(g.ops) + 1 + r.N(pick(r, 6, 12, 30)))
			c.Ops = g.ops
		}
		if r.P(35) {
			kinds := []string{"sink-byte", "sink-call", "sink-late", "sink-short"}
			if c.Enc != "" {
				kinds = append(kinds, "enc", "enc")
			}
			if c.Indent == "rec" || c.Indent == "recstd" || c.Indent == "recflush" {
				kinds = append(kinds, "indent", "indent")
			}
			g.sinkFaults(1, kinds...)
			if r.P(50) {
				c.Tail = g.tail()
			}
		}
		sc.W = append(sc.W, *c)
	}
	span := pick(r, 1, 3, 10, 40, 200, 1000)
	if !stmtPoints {
		span = pick(r, 1, 2, 4, 10)
	}
	for k := r.N(pick(r, 3, 20, 60, 150)); k > 0; k-- {
		gap := 1 + r.N(span)
		if r.P(20) {
			gap = 1 + r.N(2)
		}
		if r.P(10) {
			gap = 1 + r.N(400)
		}
		sc.Sched = append(sc.Sched, gap, r.N(n))
	}
	return sc
}

var leakTries int

func checkC13(sc *Scenario, x *Ctx) *Violation {
	if sc.Mode == "solo" { // (helper: one writer against the reference machine)
		return soloModel(&sc.W[0], x)
	}
	p := newPool()
	s := newSched(len(sc.W), sc.Sched)
	together := make([]*Solo, len(sc.W))
	tasks := make([]func(), len(sc.W))
	for i := range sc.W {
		together[i], tasks[i] = soloTask(&sc.W[i], x.Log, p, s.yield)
	}
	s.run(tasks)
	x.Log.add("sched", s.points, s.switches)
	x.Probe["control switches"] += s.switches
	x.Probe["scheduling points"] += s.points
	for i, t := range together {
		x.Calls += len(t.Err)
		x.Steps += t.W.total
		for k, v := range t.W.fired {
			x.Fired[k] += v
		}
		alone, run := soloTask(&sc.W[i], x.Log, nil, nil)
		run()
		if d := t.differ(alone); d != "" {
			return viol("interference", "writer %d of %d: %s", i, len(sc.W), d)
		}
		if t.Pan != "" && t.Pan != fmt.Sprint(crashed{}) {
			x.probe("writers that panicked, alone as well")
		}
	}
	if m := p.modified(); m != "" {
		return viol("modified", "a writer modified an argument it was given: %s", m)
	}
	// what an earlier writer of this process left behind would affect both alike
	for i := range sc.W {
		c := sc.W[i]
		if len(c.Faults) > 0 || leakTries > 3 {
			continue
		}
		if v := soloModel(&c, x); v != nil {
			leakTries++
			one := &Scenario{Prop: "C13", Seed: sc.Seed, Index: sc.Index, Mode: "solo", W: []WCfg{c}}
			dir, err := os.MkdirTemp("", "solo")
			if err != nil {
				continue
			}
			f := filepath.Join(dir, "solo.json")
			one.save(f)
			class, _, _, err := outcome(f)
			os.RemoveAll(dir)
			if err == nil && class == "" {
				leakTries = 0
				return viol("leak", "writer %d of %d, alone but after other writers: %s (in a process of its own it does not)", i, len(sc.W), v.Msg)
			}
		}
	}
	return nil
}

func soloModel(c *WCfg, x *Ctx) *Violation {
	r := newRun(c, newHasher())
	r.flags.noTail = true
	r.run()
	return r.V
}
