package main

// C07 (encodings), C11 (standard indenter), C12 (custom indenter).

import (
	"bytes"
	"strconv"
	"strings"
	"unicode/utf8"
)

func init() {
	register(&Prop{
		ID: "C07", Quick: 300000, Thorough: 15000000,
		Rule:   "Histories in thirteen encodings with text and attribute values inside and outside the repertoire, buffers of a few bytes so that every multi-byte character meets every boundary, flushes anywhere and sink errors at any byte; after every flush the sink is decoded, references to unrepresentable characters are resolved, and the result compared with the UTF-8 stream of the reference model.",
		Real:   "xmlwriter, bufio, x/text transform and encoders",
		Stub:   "sink, caller",
		Faults: []string{"sink-byte", "sink-call", "sink-late"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			c.Sink = ""
			g.rawPct = 0
			c.Buf = pick(r, 0, 1, 2, 3, 5, 8, 16, 17, 18, 19, 20, 21, 32, 33, 40, 64, 100)
			g.badPct = pick(r, 0, 0, 10)
			for i := 3; i < 7; i++ {
				g.classes[i] += r.N(4)
			}
			encMode(r, c, g)
			if r.P(20) {
				c.EncLabel = S(strings.ToUpper(c.Enc))
			}
			g.mayHuge()
			g.begin()
			g.history(size(r))
			if r.P(50) {
				g.sinkFaults(1, "sink-byte", "sink-byte", "sink-call", "sink-late")
				c.Tail = g.tail()
			}
			return one1(c, g)
		},
		Check: checkC07,
	})
	register(&Prop{
		ID: "C11", Quick: 360000, Thorough: 18000000,
		Rule: "Documents (and arbitrary histories) written with the standard indenter and without it, the newline and indent strings being control characters that nothing else can put in the stream; every insertion is located, must be one newline and the indent string repeated, removed again must leave the plain stream, and in documents is checked against the markup around it.",
		Real: "xmlwriter, its standard indenter, bufio", Stub: "sink, caller",
		Gen: func(r *Rand, idx int) *Scenario {
			if r.N(5000) == 0 {
				sc := roundsRun(r)
				sc.W[0].Indent = "std"
				return sc
			}
			g, c := swarm(r)
			c.Version = ""
			nl := S(pick(r, "\x02", "\x02", "\x02\x02"))
			c.Newline = &nl
			c.Indent, c.IndentStr = "stdstr", S(pick(r, "\x03", "\x03", "\x03\x03", ""))
			if r.P(10) {
				c.Indent = "recstd"
				if c.IndentStr == "" {
					c.IndentStr = "\x03"
				}
			}
			g.rawPct = 0
			g.noDTD = r.P(50)
			g.badPct = pick(r, 0, 0, 10, 25)
			mode := ""
			if r.P(75) {
				g.disciplined()
				mode = "doc"
				if r.P(30) {
					mode = "elems"
					g.onlyElem, g.noPI, g.noComment, g.noCData, g.noDTD = true, true, true, true, true
					g.extra = func(g *Gen) (Op, bool) { // nothing but elements under the document either
						f := g.m.top()
						if f == nil || f.kind != "Doc" {
							return Op{}, false
						}
						if g.rootDone {
							return Op{F: "EndAll"}, true
						}
						return g.asOp(g.elem(3), true), true
					}
				}
			} else {
				c.NoEnforce = r.P(20)
			}
			g.begin()
			g.history(size(r))
			for k := 0; k < 3 && r.P(12); k++ {
				at := r.N(len(g.ops) + 1)
				o := Op{F: "Opt", Kind: "istr", Names: []string{pick(r, "\x03", "\x03\x03", "\x04", "\x04\x03", "\x03\x03\x03", "")}}
				if r.P(40) {
					o = Op{F: "Opt", Kind: "newline", Names: []string{pick(r, "\x02", "\x02\x02", "\x02\x02\x02")}}
				}
				g.ops = append(append(g.ops[:at:at], Op{F: "Flush"}, o), g.ops[at:]...)
			}
			sc := one1(c, g)
			sc.Mode = mode
			if r.N(25) == 0 && c.IndentStr != "" {
				sc.Mode = "nonl"
			}
			return sc
		},
		Check: checkC11,
	})
	register(&Prop{
		ID: "C12", Quick: 360000, Thorough: 18000000,
		Rule:   "Histories with an indenter that records, flushes, wraps or itself writes through the writer, and that fails at a random callback in half of the runs (or the sink does); the callbacks of each accepted call are compared with the transitions of the reference model and the stream with the model's.",
		Real:   "xmlwriter, bufio",
		Stub:   "indenter, sink, caller",
		Faults: []string{"indent", "sink-byte"},
		Gen: func(r *Rand, idx int) *Scenario {
			g, c := swarm(r)
			smallBuf(r, c)
			c.NoEnforce = r.P(10)
			c.Indent = pick(r, "rec", "rec", "recflush", "inject")
			c.WrapPre = S(pick(r, "", ".", "w<"))
			g.badPct = pick(r, 0, 0, 10)
			g.dirtyPct = 10
			g.noDTD = r.P(30)
			if r.P(15) {
				g.frags, g.extra = delimFrags(), delimiters
			}
			g.begin()
			g.history(size(r))
			if r.P(50) {
				g.sinkFaults(1, "indent", "indent", "indent", "indent", "sink-byte")
				c.Tail = []Op{{F: "Flush"}}
			}
			return one1(c, g)
		},
		Check: checkC12,
	})
}

// --- C07 ---

// resolveRefs replaces numeric references to characters the encoding lacks.
func resolveRefs(enc, s string) string {
	if !strings.Contains(s, "&#") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "&#") {
			if e := strings.IndexByte(s[i:], ';'); e > 2 && e < 12 {
				num, base := s[i+2:i+e], 10
				if num[0] == 'x' {
					num, base = num[1:], 16
				}
				if v, err := strconv.ParseUint(num, base, 32); err == nil && v <= utf8.MaxRune && !runeOK(enc, rune(v)) {
					b.WriteRune(rune(v))
					i += e + 1
					continue
				}
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func checkC07(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	if c.Enc == "" {
		return nil
	}
	// without faults: decode at every flush
	m := newModel(&c)
	ops := withFlush(c.Ops)
	a := x.twin(plainCfg(c), ops, twinOpt{})
	if v := a.panicked(ops); v != nil {
		return v
	}
	dec := encodings[c.Enc].NewDecoder()
	checked := 0
	for i, o := range ops {
		res := m.Apply(o)
		if (res == Acc) != (a.Err[i] == nil) {
			if res == Acc {
				return viol("rejected", "call %d (%s) must be accepted whatever the encoding, returned %v", i, opStr(o), a.Err[i])
			}
			return nil
		}
		if res == Dirty {
			break
		}
		for _, r := range string(m.out[checked:]) {
			if r >= 0x80 && odd(c.Enc, r) { // the encoder itself does not round-trip this one
				x.probe("histories cut at a character x/text does not round-trip")
				return nil
			}
		}
		checked = len(m.out)
		if o.F != "Flush" && o.F != "EndAllFlush" || i+1 < len(ops) && i%5 != 0 {
			continue
		}
		back, err := dec.Bytes(a.Sink.data[:a.Len[i]])
		if err != nil {
			return viol("decode", "after the flush in call %d the sink does not decode as %s: %v", i, c.Enc, err)
		}
		x.probe("streams decoded")
		got := resolveRefs(c.Enc, string(back))
		if got != string(m.out) {
			return viol("stream", "after the flush in call %d the sink decodes as %s", i, diffAt([]byte(got), m.out))
		}
		if strings.Contains(string(back), "&#") && string(back) != string(m.out) {
			x.probe("streams with unrepresentable characters")
		}
	}
	if len(c.Faults) == 0 {
		return nil
	}
	b := x.run(&c, func(r *Run) {
		r.flags.own = own("unreported", "unreported-later", "prefix", "write-after-failure")
		r.flags.refFixed = true
		ref := a.Sink.data
		r.Sink.ref = func() []byte { return ref }
	})
	return b.V
}

// --- C11 ---

type insertion struct{ at, depth int }

// insertions aligns the indented with the plain stream from (i, j) to (iEnd, jEnd),
// written under one newline and one indent string.
func insertions(ind, plain []byte, i, iEnd, j, jEnd int, nl, is string) ([]insertion, *Violation) {
	var ins []insertion
	for ind, plain = ind[:iEnd], plain[:jEnd]; i < len(ind); {
		if j < len(plain) && ind[i] == plain[j] && (ind[i] != 2 || bytes.HasSuffix(plain[:j], []byte("?>")) || j > 0 && plain[j-1] == 2) {
			i++
			j++
			continue
		}
		if !bytes.HasPrefix(ind[i:], []byte(nl)) {
			return nil, viol("altered", "the indented stream differs by more than insertions: %s", diffAt(ind[i:], plain[j:]))
		}
		i += len(nl)
		k := 0
		for is != "" && bytes.HasPrefix(ind[i:], []byte(is)) {
			k++
			i += len(is)
		}
		if i < len(ind) && (ind[i] == 3 || ind[i] == 4 || ind[i] == 2 && !(j < len(plain) && plain[j] == 2)) {
			return nil, viol("insertion", "an insertion at offset %d of the plain stream is not one newline and the indent string repeated", j)
		}
		if is == "" {
			k = -1
		}
		ins = append(ins, insertion{j, k})
	}
	if j != len(plain) {
		return nil, viol("altered", "the indented stream lacks the end of the plain stream: %s", diffAt(ind, plain))
	}
	return ins, nil
}

// markup is what stands at an offset of a (well-formed) plain stream.
type markup struct {
	start, end int
	kind       string // tag, close, empty, text, cdata, comment, pi, decl, subset, endsubset, enddoctype, attdef, endattlist
	depth      int    // enclosing elements and declarations
}

// lexDoc splits a well-formed document into its pieces.
func lexDoc(s string) ([]markup, bool) {
	var l []markup
	depth := 0
	add := func(a, b int, kind string, d int) { l = append(l, markup{a, b, kind, d}) }
	until := func(i int, e string) int {
		k := strings.Index(s[i:], e)
		if k < 0 {
			return -1
		}
		return i + k + len(e)
	}
	quotedEnd := func(i int, stop string) int { // first byte of stop outside quotes
		q := byte(0)
		for ; i < len(s); i++ {
			switch {
			case q != 0:
				if s[i] == q {
					q = 0
				}
			case s[i] == '"' || s[i] == '\'':
				q = s[i]
			case strings.IndexByte(stop, s[i]) >= 0:
				return i
			}
		}
		return -1
	}
	inDTD := false
	for i := 0; i < len(s); {
		e := -1
		switch {
		case s[i] == 2 && len(l) > 0 && l[0].kind == "decl" && len(l) == 1: // end of the XML declaration
			e = i + 1
			for e < len(s) && s[e] == 2 {
				e++
			}
			l[0].end = e
			i = e
			continue
		case inDTD && s[i] == ']':
			if i+1 >= len(s) || s[i+1] != '>' {
				return nil, false
			}
			depth--
			add(i, i+2, "enddoctype", depth)
			inDTD = false
			e = i + 2
		case strings.HasPrefix(s[i:], "<!--"):
			e = until(i+4, "-->")
			add(i, e, "comment", depth)
		case strings.HasPrefix(s[i:], "<![CDATA["):
			e = until(i, "]]>")
			add(i, e, "cdata", depth)
		case strings.HasPrefix(s[i:], "<?"):
			e = until(i, "?>")
			k := "pi"
			if i == 0 && strings.HasPrefix(s, "<?xml ") {
				k = "decl"
			}
			add(i, e, k, depth)
		case strings.HasPrefix(s[i:], "<!DOCTYPE"):
			e = quotedEnd(i, "[>")
			if e < 0 {
				return nil, false
			}
			add(i, e, "decl", depth)
			if s[e] == '[' {
				l[len(l)-1].end = e + 1
				inDTD = true
				depth++
				e++
			} else {
				add(e, e+1, "enddoctype", depth)
				e++
			}
		case strings.HasPrefix(s[i:], "<!ATTLIST"):
			// the name, then one definition per leading space
			e = i + len("<!ATTLIST ")
			for e < len(s) && s[e] != ' ' && s[e] != '>' {
				e++
			}
			add(i, e, "decl", depth)
			depth++
			for e < len(s) && s[e] == ' ' {
				b := e
				// name, type, default
				for k := 0; k < 3 && e < len(s) && s[e] == ' '; k++ {
					e++
					if s[e] == '"' {
						e = until(e+1, `"`)
					} else if s[e] == '(' {
						e = until(e, ")")
					} else {
						h := strings.HasPrefix(s[e:], "#FIXED ")
						for e < len(s) && s[e] != ' ' && s[e] != '>' {
							e++
						}
						if h {
							k--
						}
					}
					if e < 0 {
						return nil, false
					}
				}
				add(b, e, "attdef", depth)
			}
			depth--
			if e >= len(s) || s[e] != '>' {
				return nil, false
			}
			add(e, e+1, "endattlist", depth)
			e++
		case strings.HasPrefix(s[i:], "<!"):
			e = quotedEnd(i, ">") + 1
			add(i, e, "decl", depth)
		case strings.HasPrefix(s[i:], "</"):
			e = until(i, ">")
			depth--
			add(i, e, "close", depth)
		case s[i] == '<':
			e = quotedEnd(i, ">") + 1
			if e > 0 && s[e-2] == '/' {
				add(i, e, "empty", depth)
			} else {
				add(i, e, "tag", depth)
				depth++
			}
		default:
			e = i
			for e < len(s) && s[e] != '<' {
				e++
			}
			add(i, e, "text", depth)
		}
		if e <= i {
			return nil, false
		}
		i = e
	}
	return l, true
}

// noNewlines: where the newline string is empty only the indentation is added, and
// it is the same as with any other newline string.
func noNewlines(c WCfg, x *Ctx) *Violation {
	ops := withFlush(c.Ops)
	for _, o := range ops {
		if hasKind(o, "Raw") || hasControl(o.N) {
			return nil
		}
		if o.F == "Opt" && (o.Kind == "istr" && strings.Trim(o.Names[0], "\x03\x04") != "" || o.Kind == "newline" && strings.Trim(o.Names[0], "\x02") != "") {
			return nil
		}
	}
	without := func(ops []Op) (l []Op) {
		for _, o := range ops {
			if o.F == "Opt" && o.Kind == "newline" {
				o.Names = []string{""}
			}
			l = append(l, o)
		}
		return
	}
	pc := plainCfg(c)
	a := x.twin(pc, ops, twinOpt{})
	pc.Newline = new(S)
	b := x.twin(pc, without(ops), twinOpt{})
	for _, t := range []*Twin{a, b} {
		if v := t.panicked(ops); v != nil {
			return v
		}
	}
	if i := sameErrs(a.Err, b.Err, len(ops)); i >= 0 {
		return viol("results", "call %d (%s) returns %v with a newline string and %v with an empty one", i, opStr(ops[i]), a.Err[i], b.Err[i])
	}
	if want := bytes.ReplaceAll(a.Sink.data, []byte{2}, nil); !bytes.Equal(b.Sink.data, want) {
		return viol("insertion", "with an empty newline string: %s", diffAt(b.Sink.data, want))
	}
	x.probe("empty newline strings")
	return nil
}

func checkC11(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	if sc.Mode == "rounds" {
		return checkRounds(sc, x)
	}
	if c.Newline == nil || len(*c.Newline) == 0 || (*c.Newline)[0] != 2 || c.Indent != "stdstr" && c.Indent != "recstd" {
		return nil
	}
	if c.IndentStr == "" && c.Indent == "recstd" || strings.Trim(string(c.IndentStr), "\x03\x04") != "" {
		return nil
	}
	if sc.Mode == "nonl" {
		return noNewlines(c, x)
	}
	ops := withFlush(c.Ops)
	// calls that fail half-way end the comparison
	for i, o := range ops {
		if o.F == "Write" || o.F == "WriteX" || o.F == "Start" || o.F == "StartX" || o.F == "Block" {
			if hasKind(o, "Raw") || hasControl(o.N) {
				ops = ops[:i]
				break
			}
		}
	}
	m := newModel(&c)
	for i, o := range ops {
		if m.Apply(o) == Dirty || m.dead {
			ops = withFlush(ops[:i])
			break
		}
	}
	pc := plainCfg(c)
	a := x.twin(pc, ops, twinOpt{})
	pc.Indent = ""
	b := x.twin(pc, ops, twinOpt{})
	if v := a.panicked(ops); v != nil {
		return v
	}
	if v := b.panicked(ops); v != nil {
		return v
	}
	if i := sameErrs(a.Err, b.Err, len(ops)); i >= 0 {
		return viol("results", "call %d (%s) returns %v with the indenter and %v without", i, opStr(ops[i]), a.Err[i], b.Err[i])
	}
	var ins []insertion
	nl, is := string(*c.Newline), string(c.IndentStr)
	ai, bi := 0, 0
	for i := 0; i <= len(ops) && i <= len(a.Err); i++ {
		change := i < len(ops) && ops[i].F == "Opt" && (ops[i].Kind == "newline" || ops[i].Kind == "istr")
		if !change && i < len(ops) && i < len(a.Err) {
			continue
		}
		ae, be := len(a.Sink.data), len(b.Sink.data)
		if change { // everything so far has been flushed
			if i == 0 {
				ae, be = 0, 0
			} else if ops[i-1].F == "Opt" || ops[i-1].F == "Flush" && a.Err[i-1] == nil {
				ae, be = a.Len[i-1], b.Len[i-1]
			} else {
				return nil
			}
			if s := ops[i].Names[0]; strings.Trim(s, "\x02") != "" && ops[i].Kind == "newline" || s == "" && ops[i].Kind == "newline" || strings.Trim(s, "\x03\x04") != "" && ops[i].Kind == "istr" {
				return nil
			}
		}
		part, v := insertions(a.Sink.data, b.Sink.data, ai, ae, bi, be, nl, is)
		if v != nil {
			return v
		}
		ins = append(ins, part...)
		ai, bi = ae, be
		if change {
			x.probe("strings changed on the way")
			if ops[i].Kind == "newline" {
				nl = ops[i].Names[0]
			} else {
				is = ops[i].Names[0]
			}
		}
	}
	x.Probe["insertions"] += len(ins)
	if sc.Mode == "" {
		return nil
	}
	plain := string(b.Sink.data)
	if toks, err := parseXML(bytes.ReplaceAll(b.Sink.data, []byte{2}, []byte{10})); err != nil || len(toks) == 0 {
		return nil // (not a finished document after shrinking, or another property's business)
	}
	l, ok := lexDoc(plain)
	if !ok {
		return nil
	}
	x.probe("documents examined")
	starts := map[int]int{}
	for i, t := range l {
		starts[t.start] = i
	}
	ended := map[int]bool{}
	for _, in := range ins {
		if in.at == len(plain) {
			if in.depth > 0 {
				return viol("insertion", "the insertion at the end is indented by %d", in.depth)
			}
			ended[in.at] = true
			continue
		}
		i, ok := starts[in.at]
		if !ok {
			return viol("position", "an insertion inside a tag, comment, section or text, before %.60q", plain[in.at:])
		}
		t := l[i]
		if t.kind == "text" || t.kind == "cdata" || i > 0 && (l[i-1].kind == "text" || l[i-1].kind == "cdata") {
			return viol("position", "an insertion next to text or CDATA, before %.60q", plain[in.at:])
		}
		if t.kind == "endattlist" && i > 0 && l[i-1].kind == "decl" {
			return viol("position", "an insertion inside a declaration, before %.60q", plain[in.at:])
		}
		if in.depth >= 0 && in.depth != t.depth {
			return viol("insertion", "an insertion before %.60q is indented by %d, the depth there is %d", plain[in.at:], in.depth, t.depth)
		}
		if ended[in.at] {
			return viol("insertion", "two insertions at the same place, before %.60q", plain[in.at:])
		}
		ended[in.at] = true
	}
	// a document of elements only (no empty text either): every tag on its own line
	for _, o := range ops {
		if hasKind(o, "Text", "CData", "Comment", "PI", "DTD", "Raw") {
			return nil
		}
	}
	for _, t := range l[min(1, len(l)):] {
		switch t.kind {
		case "tag", "close", "empty":
		default:
			return nil
		}
	}
	if len(l) == 0 || l[0].kind != "decl" {
		return nil
	}
	x.probe("element-only documents")
	for i := 2; i < len(l); i++ {
		t := l[i]
		inline := t.kind == "close" && l[i-1].kind == "tag" // an element with nothing in it
		if !inline && !ended[t.start] {
			return viol("line", "%.60q does not start on its own line in %.300q", plain[t.start:], string(a.Sink.data))
		}
		if inline && ended[t.start] {
			return viol("line", "the closing tag of an empty element is on a line of its own: %.300q", string(a.Sink.data))
		}
	}
	return nil
}

func hasControl(ns []Node) bool {
	for _, n := range ns {
		for _, s := range []S{n.V, n.N, n.P, n.Pub, n.Sys, n.ND, n.Typ} {
			if strings.ContainsAny(string(s), "\x02\x03\x04") {
				return true
			}
		}
		if hasControl(n.A) || hasControl(n.C) {
			return true
		}
	}
	return false
}

// --- C12 ---

func checkC12(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	r := x.run(&c, func(r *Run) {
		r.flags.own = own("stream", "prefix", "unreported", "wrong-error", "rejected")
		r.flags.opFilter = func(o Op) bool { return !isEnd(o) || c.Indent == "inject" }
	})
	if r.V != nil {
		return r.V
	}
	if r.Ind == nil {
		return nil
	}
	recs, evs := 0, 0
	broke := false // an earlier call was refused: what the previous transition was is open
	for _, res := range r.Res {
		got, want := r.Ind.recs[recs:res.Recs], r.M.evs[evs:res.Evs]
		recs, evs = res.Recs, res.Evs
		if res.Tail || res.Failed {
			break
		}
		if res.Model == Dirty {
			break
		}
		if res.Model != Acc || res.Err != nil {
			broke = true
			for _, e := range got {
				if res.Model == Clean && res.Err != nil && !res.Pending && len(res.O.N) == 1 && !c.NoEnforce && e.Next.St == 0 && e.Next.K == res.O.N[0].T {
					return viol("events", "call %d (%s) was refused (%v), but reported %s of %s", res.Op, opStr(res.O), res.Err, stName(e.Next.St), e.Next.K)
				}
			}
			continue
		}
		gi := 0
		for wi, w := range want {
			// a processing instruction is written through the raw interface; with or without a notice is fine
			if wi > 0 && want[wi-1].Next.K == "PI" && raws(len(got)-gi, func(i int) Ev { return got[gi+i].Next }) >
				raws(len(want)-wi, func(i int) Ev { return want[wi+i].Next }) {
				gi++
			}
			if gi >= len(got) {
				return viol("events", "call %d (%s) did not report the transition to %s of %s", res.Op, opStr(res.O), stName(w.Next.St), w.Next.K)
			}
			e := got[gi]
			gi++
			if e.Next.St != w.Next.St || e.Next.K != w.Next.K {
				return viol("events", "call %d (%s) reported %s of %s, the coming transition is %s of %s", res.Op, opStr(res.O), stName(e.Next.St), e.Next.K, stName(w.Next.St), w.Next.K)
			}
			if !w.LastAny && !broke && (e.Last.K != w.Last.K || e.Last.St != w.Last.St) {
				return viol("events", "call %d (%s) reported %s of %s as the transition before %s of %s, it was %s of %s", res.Op, opStr(res.O), stName(e.Last.St), e.Last.K, stName(w.Next.St), w.Next.K, stName(w.Last.St), w.Last.K)
			}
			broke = false
			if c.Indent == "recflush" && e.Sink != w.Out {
				return viol("events", "call %d (%s): at the transition to %s of %s %d bytes had been written, must be %d", res.Op, opStr(res.O), stName(w.Next.St), w.Next.K, e.Sink, w.Out)
			}
		}
		if gi < len(got) && got[gi].Next.K == "Raw" && len(want) > 0 && want[len(want)-1].Next.K == "PI" {
			gi++
		}
		if gi < len(got) {
			return viol("events", "call %d (%s) reported %s of %s, no such transition is due", res.Op, opStr(res.O), stName(got[gi].Next.St), got[gi].Next.K)
		}
		x.Probe["transitions compared"] += len(want)
	}
	return nil
}

// raws is the number of Raw transitions in front.
func raws(n int, at func(int) Ev) int {
	for i := 0; i < n; i++ {
		if at(i).K != "Raw" {
			return i
		}
	}
	return n
}

func stName(st int) string { return [...]string{"open", "opened", "ended"}[st%3] }
