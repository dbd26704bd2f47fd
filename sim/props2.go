package main

// Properties decided on whole documents: C05, C06, C10, C17, C18; and on
// acceptance: C08, C09.

import "strings"

func hasKind(o Op, kinds ...string) bool {
	var in func(ns []Node) bool
	in = func(ns []Node) bool {
		for _, n := range ns {
			for _, k := range kinds {
				if n.T == k {
					return true
				}
			}
			if in(n.C) || in(n.A) {
				return true
			}
		}
		return false
	}
	return in(o.N)
}

func isEnd(o Op) bool { return strings.HasPrefix(o.F, "End") }

// disciplined turns a generator into one for a single well-formed document.
func (g *Gen) disciplined() {
	g.disc = true
	g.rawPct = 0
	g.noMerge = true
	g.onlyElem = false
}

func docCheck(goCheck bool, extra func(sc *Scenario, x *Ctx) *Violation) func(sc *Scenario, x *Ctx) *Violation {
	return func(sc *Scenario, x *Ctx) *Violation {
		c := sc.W[0]
		if extra != nil {
			if v := extra(sc, x); v != nil {
				return v
			}
		}
		d := x.document(&c, sc.Mode == "known")
		if d.V != nil {
			return d.V
		}
		if !d.verdict {
			x.probe("no verdict: " + d.why)
			return nil
		}
		return d.judge(x, "UTF-8", goCheck)
	}
}

func isDTDKind(t string) bool {
	switch t {
	case "DTD", "DTDElem", "DTDEntity", "DTDAttList", "DTDAttr", "Notation":
		return true
	}
	return false
}

// misplacedOnly: the call would be refused whatever its names and contents were.
func (r *Run) misplacedOnly(o Op) bool {
	var plain func(l []Node) []Node
	plain = func(l []Node) []Node {
		l = append([]Node(nil), l...)
		for i := range l {
			n := &l[i]
			n.A, n.C = plain(n.A), plain(n.C)
			if n.P, n.U = "", ""; n.T != "Text" && n.T != "CommentContent" && n.T != "CDataContent" && n.T != "Comment" && n.T != "CData" && n.T != "Raw" {
				n.N = "a"
			}
			switch n.T {
			case "DTDAttr":
				n.Typ, n.Def, n.V = "CDATA", 2, ""
			case "DTDEntity":
				n.Pub, n.Sys, n.ND, n.V, n.PE = "", "", "", "v", false
			case "DTD", "Notation":
				n.Pub, n.Sys = "", "s"
			case "DTDElem":
				n.V = "ANY"
			default:
				if n.V != "" {
					n.V = "v"
				}
			}
		}
		return l
	}
	if len(o.N) > 1 {
		return false // (which of them is to blame)
	}
	o.N = plain(o.N)
	return r.M.clone().Apply(o) == Clean
}

// acceptance checks which calls are accepted, for those the filter selects.
func acceptance(filter func(o Op) bool, classes ...string) func(sc *Scenario, x *Ctx) *Violation {
	return func(sc *Scenario, x *Ctx) *Violation {
		c := sc.W[0]
		r := x.run(&c, func(r *Run) {
			r.flags.own = own(append([]string{"accepted", "rejected"}, classes...)...)
			r.flags.opFilter = filter
			r.flags.noTail = true
		})
		return r.V
	}
}

func init() {
	register(&Prop{
		ID: "C05", Quick: 300000, Thorough: 15000000,
		Rule: "One disciplined document per run (doctype, namespaces, all node kinds, both entry-point families), with refused calls (bad names, bad content, misplaced nodes, wrong ends) interspersed anywhere and random buffering; the caller skips what returned an error. The delivered bytes are parsed by an independent strict XML 1.0 parser and compared item by item with what was written, then cross-checked with encoding/xml.",
		Real: "xmlwriter, bufio", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			c.Newline, c.Version = nil, ""
			g.disciplined()
			g.emptyRaw = pick(r, 0, 0, 4)
			g.noDTD = r.P(40)
			g.badPct = pick(r, 0, 10, 30, 50)
			g.dirtyPct = 5
			g.sweep = r.P(20)
			g.mayHuge()
			g.begin()
			g.history(size(r))
			return one1(c, g)
		},
		Check: docCheck(true, nil),
	})
	register(&Prop{
		ID: "C06", Quick: 360000, Thorough: 18000000,
		Rule: "Documents of elements, attributes, text and attribute defaults whose strings mix markup, delimiters, white space, carriage returns, every plane of Unicode, forbidden characters and invalid UTF-8, split over several text calls and across buffer boundaries of any size; parsed back and compared.",
		Real: "xmlwriter, bufio", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			c.Newline, c.Version = nil, ""
			g.disciplined()
			g.emptyRaw = pick(r, 0, 0, 4)
			g.noPI, g.noComment, g.noCData = true, true, true
			g.noDTD = r.P(60)
			g.nsPct = 0
			for i := range g.classes {
				g.classes[i] = r.N(6)
			}
			g.classes[0]++
			smallBuf(r, c)
			c.NoEnforce = r.P(15)
			g.sweep = r.P(30)
			g.mayHuge()
			g.begin()
			g.history(size(r))
			return one1(c, g)
		},
		Check: docCheck(true, nil),
	})
	register(&Prop{
		ID: "C08", Quick: 360000, Thorough: 18000000,
		Rule: "Histories in which up to half of the calls must be refused (every node kind in every parent at every depth, attributes after the start tag is complete, bad names, bad content, wrong ends). Acceptance is compared with the documented placement table; and the same history without the refused calls, executed by a twin, must give the same bytes, depths and results.",
		Real: "xmlwriter, its standard indenter, bufio", Stub: "sink, caller, recording indenter",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			g.badPct = pick(r, 15, 35, 50)
			if r.P(12) {
				g.optPct = 10
			}
			g.noDTD = r.P(25)
			c.Indent = pick(r, "", "", "", "std", "stdstr", "rec", "rec", "inject")
			if c.Indent == "stdstr" {
				c.IndentStr = "\t"
			}
			if r.P(10) {
				g.frags, g.extra = delimFrags(), delimiters
			}
			g.begin()
			g.history(size(r))
			return one1(c, g)
		},
		Check: checkC08,
	})
	register(&Prop{
		ID: "C09", Quick: 450000, Thorough: 22500000,
		Rule: "Deep histories dominated by starts and by every form of end (by kind, name, prefix and name, full, any, to a depth, document, all), a third of them wrong for the current node; results, depth and closing tags are compared with a stack model after every call.",
		Real: "xmlwriter, bufio", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			g.noDTD = r.P(30)
			g.deepPct = 40
			g.maxDepth = 3 + r.N(30)
			bad, multi := pick(r, 0, 10, 35), pick(r, 2, 6, 15)
			c.NoEnforce = r.P(10)
			g.extra = func(g *Gen) (Op, bool) {
				if r.P(bad) {
					if o := g.badEnd(); g.try(o) == Clean {
						return o, true
					}
				}
				if r.P(multi) {
					if o := g.multiEnd(); g.try(o) == Acc {
						return o, true
					}
				}
				return Op{}, false
			}
			g.begin()
			g.history(size(r) + 5)
			return one1(c, g)
		},
		Check: acceptance(isEnd, "depth", "stream", "prefix", "endall", "depth-bound"),
	})
	register(&Prop{
		ID: "C10", Quick: 300000, Thorough: 15000000,
		Rule: "Documents whose elements and attributes draw few prefixes with few URIs in every order, through structured and procedural calls, with conflicting and otherwise refused attributes interspersed and start tags completed in every way; acceptance is compared with the rule and every parsed start tag with the declarations it must carry.",
		Real: "xmlwriter, bufio", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			c.Newline, c.Version = nil, ""
			g.disciplined()
			g.noDTD, g.noPI, g.noCData, g.noComment = true, true, true, r.P(50)
			g.oftenMany = true
			g.nsPct = pick(r, 40, 70, 95)
			g.treePct = pick(r, 0, 30, 60)
			g.nextPct = pick(r, 0, 10)
			g.badPct = pick(r, 0, 5, 20)
			conflict := pick(r, 0, 10, 25)
			if r.P(8) { // (conflicts are refused all the same)
				c.NoEnforce, g.badPct = true, 0
			}
			g.extra = func(g *Gen) (Op, bool) {
				if r.P(conflict) {
					if n := g.nsConflict(); n != nil {
						if o := g.asOp(*n, false); g.try(o) == Clean {
							return o, true
						}
					}
				}
				return Op{}, false
			}
			g.begin()
			g.history(size(r))
			return one1(c, g)
		},
		Check: func(sc *Scenario, x *Ctx) *Violation {
			f := acceptance(func(o Op) bool { return hasKind(o, "Attr", "Elem") })
			if sc.W[0].NoEnforce {
				return f(sc, x)
			}
			return docCheck(false, f)(sc, x)
		},
	})
	register(&Prop{
		ID: "C17", Quick: 360000, Thorough: 18000000,
		Rule: "Documents of comments, CDATA sections and PIs whose contents are strings over the delimiter characters and forbidden characters, written in one to many calls with refused writes in between; acceptance is compared with the rule (over the joined content), and the parsed constructs with what was accepted (30% of the runs are fragments outside any document, for acceptance alone).",
		Real: "xmlwriter, bufio", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			c.Newline, c.Version = nil, ""
			frag := r.P(30)
			if !frag {
				g.disciplined()
			}
			g.emptyRaw = pick(r, 0, 0, 4)
			g.noDTD = r.P(80)
			g.nsPct = 0
			g.dirtyPct = 20
			smallBuf(r, c)
			g.frags = delimFrags()
			for k := 0; k < 4; k++ {
				g.frags = append(g.frags, string(g.edgeRune(k&1 == 0)))
			}
			if r.P(50) {
				for k := 0; k < 6; k++ {
					g.frags = append(g.frags, string(g.anyRune()))
				}
				g.frags = append(g.frags, plainFrags...)
			}
			g.extra = delimiters
			g.begin()
			g.history(size(r))
			sc := one1(c, g)
			if frag {
				sc.Mode = "fragment"
			}
			return sc
		},
		Check: func(sc *Scenario, x *Ctx) *Violation {
			f := func(o Op) bool {
				return hasKind(o, "Comment", "CommentContent", "CData", "CDataContent", "PI") || isEnd(o)
			}
			if sc.Mode == "fragment" {
				return acceptance(f)(sc, x)
			}
			return docCheck(false, acceptance(f))(sc, x)
		},
	})
	register(&Prop{
		ID: "C18", Quick: 360000, Thorough: 18000000,
		Rule: "Doctypes with declarations of every kind (external identifiers and values with either quote, parameter and unparsed entities, attribute lists started or written whole, every default), comments in between and bad declarations (names, identifiers, contradictory fields) refused; parsed back from a document, or compared with the reference stream where declarations stand alone.",
		Real: "xmlwriter, bufio", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			c.Newline, c.Version = nil, ""
			g.noDTD = false
			smallBuf(r, c)
			g.nsPct = 0
			g.dirtyPct = 25
			g.badPct = pick(r, 0, 10, 30)
			sc := &Scenario{}
			if r.P(60) {
				g.disciplined()
				g.extra = func(g *Gen) (Op, bool) {
					if g.m.top() == nil || g.m.top().kind != "Doc" || g.dtdDone || g.rootDone {
						return Op{}, false
					}
					return g.asOp(g.dtd(), true), true
				}
				sc.Mode = "doc"
			} else {
				g.extra = func(g *Gen) (Op, bool) {
					f := g.m.top()
					if f != nil || r.P(20) {
						return Op{}, false
					}
					t := pick(r, "DTD", "DTD", "DTD", "DTDElem", "DTDEntity", "DTDAttList", "DTDAttr", "Notation")
					o := g.asOp(g.node(t), t == "DTD" || t == "DTDAttList" && r.P(60))
					return o, g.try(o) == Acc
				}
			}
			g.begin()
			g.history(size(r))
			c.Ops = g.ops
			sc.W = []WCfg{*c}
			return sc
		},
		Check: func(sc *Scenario, x *Ctx) *Violation {
			f := func(o Op) bool {
				for _, n := range o.N {
					if !isDTDKind(n.T) {
						return false
					}
				}
				return len(o.N) > 0
			}
			if sc.Mode == "doc" {
				return docCheck(false, acceptance(f))(sc, x)
			}
			return acceptance(f, "stream", "prefix")(sc, x)
		},
	})
}

func checkC08(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	r := x.run(&c, func(r *Run) {
		r.flags.own = own("accepted", "rejected", "depth")
		r.flags.opFilter = func(o Op) bool { return !isEnd(o) }
		r.flags.accepted = r.misplacedOnly
		r.flags.noTail = true
	})
	if r.V != nil {
		return r.V
	}
	var good, all []Op
	var idx []int
	for i, res := range r.Res {
		if res.Model == Dirty || res.Model == Clean && (res.Err == nil || res.Pending) || res.Err != nil && len(res.O.N) > 1 { // (part of it was made)
			break
		}
		all = append(all, res.O)
		if res.Model == Acc && res.Err == nil {
			good = append(good, res.O)
			idx = append(idx, i)
		}
	}
	if len(all) == len(good) {
		return nil
	}
	x.probe("histories with refused calls")
	full, part := withFlush(all), withFlush(good)
	a := x.twin(plainCfg(c), full, twinOpt{})
	b := x.twin(plainCfg(c), part, twinOpt{})
	if v := a.panicked(full); v != nil {
		return v
	}
	if v := b.panicked(part); v != nil {
		return v
	}
	for j, i := range idx {
		if i < len(a.Depth) && (a.Depth[i] != b.Depth[j] || (a.Err[i] == nil) != (b.Err[j] == nil)) {
			return viol("trace", "call %d (%s) gives %v and depth %d after the refused calls, %v and depth %d without them", i, opStr(all[i]), a.Err[i], a.Depth[i], b.Err[j], b.Depth[j])
		}
	}
	if string(a.Sink.data) != string(b.Sink.data) {
		return viol("trace", "refused calls change the stream: %s", diffAt(a.Sink.data, b.Sink.data))
	}
	if a.Ind != nil && b.Ind != nil && (a.Ind.kind == "rec" || a.Ind.kind == "inject") {
		for i, e := range a.Ind.recs {
			if i >= len(b.Ind.recs) || e.Last != b.Ind.recs[i].Last || e.Next != b.Ind.recs[i].Next {
				return viol("trace", "with the refused calls the indenter is told, %d transitions in, of %s of %s after %s of %s (child %d), without them of something else", i, stName(e.Next.St), e.Next.K, stName(e.Last.St), e.Last.K, e.Next.Ch)
			}
		}
	}
	return nil
}

// delimFrags are pieces of which contents over the delimiters are made.
func delimFrags() []string {
	return []string{"-", "-", "]", "]", "]]", ">", "?", "->", "]>", "a", "", "é", "--", "]]>", "?>", "\x00", "\xff", "\uFFFE", "!--", "<", "\u0085", "\u0084"}
}

// delimiters writes such contents into comments, CDATA sections and PIs.
func delimiters(g *Gen) (Op, bool) {
	f := g.m.top()
	var o Op
	switch {
	case f != nil && (f.kind == "Comment" || f.kind == "CData"):
		if g.r.P(15) {
			o = pick(g.r, Op{F: "EndAny"}, Op{F: "End", Kind: f.kind}, Op{F: "EndX", Kind: f.kind})
			break
		}
		if g.r.P(g.emptyRaw) {
			o = g.asOp(Node{T: "Raw"}, false)
			break
		}
		s := ""
		for k := g.r.N(4); k > 0; k-- {
			s += g.frags[g.r.N(len(g.frags))]
		}
		o = g.asOp(Node{T: f.kind + "Content", V: S(s)}, false)
	case f == nil && !g.disc || f != nil && (f.kind == "Elem" || f.kind == "Doc" && g.r.P(30)):
		s := ""
		for k := g.r.N(4); k > 0; k-- {
			s += g.frags[g.r.N(len(g.frags))]
		}
		switch g.r.N(4) {
		case 0:
			o = g.asOp(Node{T: "PI", N: S(pick(g.r, "t", "pi", "xml", "XmL", "a b", "t?>", "x", "xmlx")), V: S(s)}, false)
		case 1:
			o = g.asOp(Node{T: "Comment", V: S(pick(g.r, "", s))}, g.r.P(80))
		case 2:
			o = g.asOp(Node{T: "CData", V: S(pick(g.r, "", s))}, g.r.P(80))
		default:
			return Op{}, false
		}
	default:
		return Op{}, false
	}
	return o, g.try(o) != Dirty
}
