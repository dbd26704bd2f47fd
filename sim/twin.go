package main

// Runs without the model: one execution is compared with another.

import (
	"bytes"

	xw "github.com/shabbyrobe/xmlwriter"
)

// Twin is a plain execution of a list of calls.
type Twin struct {
	C      WCfg
	W      *World
	Sink   *Sink
	Ind    *SimIndenter
	X      *xw.Writer
	Err    []error
	Depth  []int
	Len    []int // bytes in the sink after each call
	Pan    any
	PanAt  int
	Group  []int // twinOpt.group of the calls made
	Failed int   // index of the call that hit the first failure, -1 if none did
}

type twinOpt struct {
	ref    []byte // the sink may only ever hold a prefix of this
	hasRef bool
	stop   bool // stop at the first failure (of a seam) and run tail
	stopEr bool // stop at the first error of any kind
	tail   []Op
	group  []int // of each call: after an error the rest of its group is left out
}

func (x *Ctx) twin(c WCfg, ops []Op, opt twinOpt) *Twin {
	t := &Twin{C: c, Failed: -1}
	t.W = &World{log: x.Log, fired: map[string]int{}}
	t.Sink = &Sink{W: t.W}
	if opt.hasRef {
		t.Sink.ref = func() []byte { return opt.ref }
	}
	t.X, t.Ind, _ = openWriter(&t.C, t.W, t.Sink)
	do := func(i int, o Op) bool {
		nodes := make([]xw.Node, len(o.N))
		for j := range o.N {
			nodes[j] = build(o.N[j])
		}
		t.W.steps = 0
		t.W.short = false
		err, pan := safeCall(func() error { return call(t.X, o, nodes) })
		t.Sink.settle(err)
		if pan != nil {
			err = errClosed
		}
		t.Err = append(t.Err, err)
		t.Depth = append(t.Depth, t.X.Depth())
		t.Len = append(t.Len, len(t.Sink.data))
		x.Log.add("op:"+o.F, errCode(err), t.X.Depth())
		x.Calls++
		if t.Failed < 0 && (t.W.failure != nil || t.W.indFail != nil) {
			t.Failed = i
		}
		if pan != nil {
			t.Pan, t.PanAt = pan, i
			return false
		}
		return true
	}
	done := false
	bad := -1
	for i, o := range ops {
		if opt.group != nil && opt.group[i] == bad {
			continue
		}
		if !do(i, o) {
			done = true
			break
		}
		if k := len(t.Err) - 1; opt.group != nil && t.Err[k] != nil {
			bad = opt.group[i]
		}
		if opt.group != nil {
			t.Group = append(t.Group, opt.group[i])
			continue
		}
		if opt.stop && t.Failed >= 0 || opt.stopEr && t.Err[i] != nil {
			break
		}
	}
	if !done && (t.Failed >= 0 || !opt.stop) {
		for j, o := range opt.tail {
			if !do(len(t.Err)+j, o) {
				break
			}
		}
	}
	for k, v := range t.W.fired {
		x.Fired[k] += v
	}
	x.Steps += t.W.total
	return t
}

// panicked turns an unexpected panic into a violation (a simulated crash is not one).
func (t *Twin) panicked(ops []Op) *Violation {
	switch p := t.Pan.(type) {
	case nil, crashed:
		return nil
	case hung:
		return viol("hang", "call %d did not return after %d seam crossings", t.PanAt, p.steps)
	}
	o := Op{F: "?"}
	if t.PanAt < len(ops) {
		o = ops[t.PanAt]
	}
	return viol("panic", "call %d (%s) panicked: %v", t.PanAt, opStr(o), t.Pan)
}

func plainCfg(c WCfg) WCfg {
	c.Faults = nil
	c.Ops, c.Tail = nil, nil
	return c
}

func withFlush(ops []Op) []Op {
	return append(append([]Op(nil), ops...), Op{F: "Flush"})
}

func isPrefix(p, of []byte) bool { return bytes.HasPrefix(of, p) }

// sameErrs compares the outcomes of two executions call by call.
func sameErrs(a, b []error, n int) int {
	for i := 0; i < n && i < len(a) && i < len(b); i++ {
		if (a[i] == nil) != (b[i] == nil) {
			return i
		}
	}
	return -1
}
