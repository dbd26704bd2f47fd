package main

// Minimisation: drop and simplify parts of a scenario while it keeps violating
// the same invariant.

import (
	"fmt"
	"os"
	"strconv"
	"time"
	"unicode/utf8"
)

type shrinker struct {
	cur   *Scenario
	class string
	out   string
	end   time.Time
	tries int
	hard  bool
	tmp   string
}

func (s *shrinker) test(c *Scenario) bool {
	if time.Now().After(s.end) {
		return false
	}
	if len(c.W) == 0 || len(s.cur.Trees) > 0 && len(c.Trees) == 0 {
		return false
	}
	for _, w := range c.W {
		for _, l := range [][]Op{w.Ops, w.Tail} {
			for _, o := range l {
				if len(o.N) == 0 && (o.F == "Block" || o.F == "Start" || o.F == "StartX" || o.F == "Write" || o.F == "WriteX") {
					return false
				}
			}
		}
	}
	s.tries++
	curIndex.Add(1)
	if s.hard {
		f := s.out + ".try"
		c.save(f)
		cl, _, _, err := outcome(f)
		os.Remove(f)
		return err == nil && cl == s.class
	}
	v, _ := evaluate(c, false)
	return v != nil && v.Class == s.class
}

// try applies an edit to a copy and keeps it if the violation survives.
func (s *shrinker) try(edit func(c *Scenario) bool) bool {
	c := s.cur.clone()
	if !edit(c) {
		return false
	}
	if !s.test(c) {
		return false
	}
	s.cur = c
	s.cur.save(s.out)
	return true
}

// list drops chunks, then single items, of the slice that get selects.
func dropList[T any](s *shrinker, get func(c *Scenario) *[]T) bool {
	changed := false
	n := len(*get(s.cur))
	for size := (n + 1) / 2; size >= 1; size /= 2 {
		for at := 0; at < len(*get(s.cur)); {
			a, k := at, size
			ok := s.try(func(c *Scenario) bool {
				l := get(c)
				if a >= len(*l) {
					return false
				}
				e := a + k
				if e > len(*l) {
					e = len(*l)
				}
				*l = append((*l)[:a:a], (*l)[e:]...)
				return true
			})
			if ok {
				changed = true
			} else {
				at += size
			}
			if time.Now().After(s.end) {
				return changed
			}
		}
	}
	return changed
}

func (s *shrinker) str(get func(c *Scenario) *S) bool {
	changed := false
	for _, simple := range []S{"", "a"} {
		v := *get(s.cur)
		if v == simple || len(v) <= len(simple) {
			continue
		}
		if s.try(func(c *Scenario) bool { *get(c) = simple; return true }) {
			return true
		}
	}
	for size := len(*get(s.cur)) / 2; size >= 1; size /= 2 {
		for at := 0; at+size <= len(*get(s.cur)); {
			a := at
			if s.try(func(c *Scenario) bool {
				v := *get(c)
				*get(c) = v[:a] + v[a+size:]
				return utf8.ValidString(string(*get(c))) || !utf8.ValidString(string(v))
			}) {
				changed = true
			} else {
				at += size
			}
			if time.Now().After(s.end) {
				return changed
			}
		}
	}
	return changed
}

// nodePath addresses a node inside a scenario.
type nodePath func(c *Scenario) *Node

func (s *shrinker) node(p nodePath) bool {
	ch := false
	n := *p(s.cur)
	ch = dropList(s, func(c *Scenario) *[]Node { return &p(c).A }) || ch
	ch = dropList(s, func(c *Scenario) *[]Node { return &p(c).C }) || ch
	for i := range p(s.cur).A {
		i := i
		ch = s.node(func(c *Scenario) *Node { return &p(c).A[i] }) || ch
	}
	for i := range p(s.cur).C {
		i := i
		ch = s.node(func(c *Scenario) *Node { return &p(c).C[i] }) || ch
	}
	for _, f := range []func(n *Node) *S{
		func(n *Node) *S { return &n.V }, func(n *Node) *S { return &n.N }, func(n *Node) *S { return &n.P },
		func(n *Node) *S { return &n.U }, func(n *Node) *S { return &n.Pub }, func(n *Node) *S { return &n.Sys }, func(n *Node) *S { return &n.ND },
	} {
		f := f
		if *f(p(s.cur)) != "" {
			ch = s.str(func(c *Scenario) *S { return f(p(c)) }) || ch
		}
	}
	if n.F {
		ch = s.try(func(c *Scenario) bool { p(c).F = false; return true }) || ch
	}
	if n.Ptr {
		ch = s.try(func(c *Scenario) bool { p(c).Ptr = false; return true }) || ch
	}
	if n.Cv != "" {
		ch = s.try(func(c *Scenario) bool { p(c).Cv = ""; p(c).I = 0; return true }) || ch
	}
	if n.SE || n.SV || n.SA != nil || n.FE != nil || n.FV != nil {
		ch = s.try(func(c *Scenario) bool {
			x := p(c)
			x.SE, x.SV, x.SA, x.FE, x.FV = false, false, nil, nil, nil
			return true
		}) || ch
	}
	return ch
}

func (s *shrinker) ops(get func(c *Scenario) *[]Op) bool {
	ch := dropList(s, get)
	for i := 0; i < len(*get(s.cur)); i++ {
		i := i
		ch = dropList(s, func(c *Scenario) *[]Node { return &(*get(c))[i].N }) || ch
		if len((*get(s.cur))[i].Names) > 0 {
			ch = s.try(func(c *Scenario) bool { (*get(c))[i].Names = nil; return true }) || ch
		}
		for j := range (*get(s.cur))[i].N {
			j := j
			ch = s.node(func(c *Scenario) *Node { return &(*get(c))[i].N[j] }) || ch
		}
	}
	return ch
}

func (s *shrinker) run() {
	for round := 0; round < 6; round++ {
		ch := dropList(s, func(c *Scenario) *[]int { return &c.Sched })
		if len(s.cur.W) > 1 {
			ch = dropList(s, func(c *Scenario) *[]WCfg { return &c.W }) || ch
		}
		for w := range s.cur.W {
			w := w
			ch = dropList(s, func(c *Scenario) *[]Fault { return &c.W[w].Faults }) || ch
			ch = s.ops(func(c *Scenario) *[]Op { return &c.W[w].Ops }) || ch
			ch = s.ops(func(c *Scenario) *[]Op { return &c.W[w].Tail }) || ch
			for _, e := range []func(c *WCfg) bool{
				func(c *WCfg) bool { x := c.Sink != ""; c.Sink = ""; return x },
				func(c *WCfg) bool { x := c.Indent != ""; c.Indent = ""; return x },
				func(c *WCfg) bool { x := c.Enc != ""; c.Enc, c.EncLabel = "", ""; return x },
				func(c *WCfg) bool { x := c.Newline != nil; c.Newline = nil; return x },
				func(c *WCfg) bool { x := c.WrapPre != ""; c.WrapPre = ""; return x },
				func(c *WCfg) bool { x := c.IndentStr != ""; c.IndentStr = ""; return x },
				func(c *WCfg) bool { x := c.Version != ""; c.Version = ""; return x },
				func(c *WCfg) bool { x := c.NoStrict; c.NoStrict = false; return x },
				func(c *WCfg) bool { x := c.Late; c.Late = false; return x },
				func(c *WCfg) bool { x := c.NoEnforce; c.NoEnforce = false; return x },
				func(c *WCfg) bool { x := c.Buf != 0; c.Buf = 0; return x },
				func(c *WCfg) bool { x := c.Buf != 0 && c.Buf != 16; c.Buf = 16; return x },
			} {
				e := e
				ch = s.try(func(c *Scenario) bool { return e(&c.W[w]) }) || ch
			}
			for f := range s.cur.W[w].Faults {
				f := f
				for _, at := range []int{0, 1, s.cur.W[w].Faults[f].At / 2, s.cur.W[w].Faults[f].At - 1} {
					at := at
					ch = s.try(func(c *Scenario) bool {
						x := &c.W[w].Faults[f]
						if at < 0 || x.At <= at {
							return false
						}
						x.At = at
						return true
					}) || ch
				}
				ch = s.try(func(c *Scenario) bool { x := &c.W[w].Faults[f]; y := x.Transient; x.Transient = false; return y }) || ch
			}
		}
		if len(s.cur.Trees) > 0 {
			ch = dropList(s, func(c *Scenario) *[]Node { return &c.Trees }) || ch
			for i := range s.cur.Trees {
				i := i
				ch = s.node(func(c *Scenario) *Node { return &c.Trees[i] }) || ch
			}
		}
		for i := range s.cur.Sched {
			i := i
			ch = s.try(func(c *Scenario) bool { x := c.Sched[i] != 0; c.Sched[i] = 0; return x }) || ch
		}
		if !ch || time.Now().After(s.end) {
			return
		}
	}
}

func shrinkMain(args []string) int {
	sc, err := loadScenario(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	secs, _ := strconv.Atoi(args[2])
	s := &shrinker{cur: sc, class: sc.Class, out: args[1], end: time.Now().Add(time.Duration(secs) * time.Second)}
	s.cur.save(s.out)
	watchdog()
	// a class that only shows as the death of the process is tried in children
	s.hard = sc.Class == "crash" || sc.Class == "leak" || sc.Class == "hang" && !softHang(sc)
	s.run()
	fmt.Printf("%d candidates\n", s.tries)
	return 0
}

func softHang(sc *Scenario) bool {
	f, err := os.CreateTemp("", "soft")
	if err != nil {
		return false
	}
	f.Close()
	defer os.Remove(f.Name())
	sc.save(f.Name())
	c := spawn(3*time.Minute, "inner", f.Name())
	return c.code == 1
}
