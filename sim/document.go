package main

// Drives a writer the way a disciplined caller does (stop treating a call as made
// when it returns an error), then parses what was delivered.

import (
	"regexp"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

type docRun struct {
	data    []byte
	info    *Info
	verdict bool   // every call that was not treated as rejected returned nil
	why     string // why there is none
	V       *Violation
}

func (x *Ctx) document(c *WCfg, known bool) docRun {
	d := docRun{info: newInfo()}
	w := &World{log: x.Log, fired: map[string]int{}}
	sink := &Sink{W: w}
	cc := *c
	cc.Faults = nil
	m := newModel(&cc)
	d.info.wrap = m.wrap
	real, _, _ := openWriter(&cc, w, sink)
	defer func() { x.Steps += w.total }()
	do := func(o Op) (error, bool) {
		nodes := make([]xw.Node, len(o.N))
		for j := range o.N {
			nodes[j] = build(o.N[j])
		}
		w.steps = 0
		err, pan := safeCall(func() error { return call(real, o, nodes) })
		x.Calls++
		x.Log.add("op:"+o.F, errCode(err), real.Depth())
		if pan != nil {
			if h, ok := pan.(hung); ok {
				d.V = viol("hang", "%s did not return after %d seam crossings", opStr(o), h.steps)
			} else {
				d.V = viol("panic", "%s panicked: %v", opStr(o), pan)
			}
			return nil, false
		}
		return err, true
	}
	early := false
	for _, o := range c.Ops {
		mres := m.Apply(o)
		err, ok := do(o)
		if !ok {
			return d
		}
		if err != nil {
			if mres == Clean && len(o.N) < 2 {
				continue
			}
			d.why = "a call failed half-way"
			return d
		}
		d.info.Apply(o)
		if mres != Acc { // accepted what the model refuses: see what comes out
			early = true
			x.probe("accepted what the model refuses")
			break
		}
	}
	fin := func(o Op) bool {
		err, ok := do(o)
		if !ok || err != nil {
			d.why = "the document could not be finished"
			return false
		}
		d.info.Apply(o)
		return true
	}
	if early {
		for k := 0; k < 200 && d.info.depth() > 0; k++ {
			if !fin(Op{F: "EndAny"}) {
				return d
			}
		}
		if len(d.info.root.kids) == 1 && d.info.root.kids[0].n.T == "Doc" {
			has := false
			for _, k := range d.info.root.kids[0].kids {
				has = has || k.n.T == "Elem"
			}
			if !has && !fin(Op{F: "WriteX", N: []Node{{T: "Elem", N: "z"}}}) {
				return d
			}
		}
	}
	if real.Depth() >= 0 && !fin(Op{F: "EndAll"}) {
		return d
	}
	if !fin(Op{F: "Flush"}) {
		return d
	}
	d.data = sink.data
	if d.why = d.info.undisciplined(known); d.why != "" {
		return d
	}
	d.verdict = true
	return d
}

var okEntity = regexp.MustCompile(`^([^%&<]|&#[0-9]+;|&[a-z]+;)*$`)
var okType = regexp.MustCompile(`^([A-Z]+|\([a-z|]+\))$`)

// undisciplined says what the caller itself did wrong, if anything.
func (f *Info) undisciplined(known bool) string {
	if f.loose || len(f.root.kids) != 1 || f.root.kids[0].n.T != "Doc" {
		return "not one document"
	}
	d := f.root.kids[0]
	if d.n.SV || d.n.FV != nil {
		return "a declaration of the caller's own making"
	}
	roots, dtds := 0, 0
	for _, k := range d.kids {
		switch k.n.T {
		case "Elem":
			roots++
		case "DTD":
			dtds++
			if roots > 0 {
				return "doctype after the root element"
			}
		}
	}
	if roots != 1 || dtds > 1 {
		return "not one root element and at most one doctype"
	}
	why := ""
	var walk func(x *inode)
	walk = func(x *inode) {
		switch n := x.n; n.T {
		case "Raw":
			why = "raw output"
		case "PI":
			if n.N == "" && !known {
				why = "empty PI target"
			}
		case "DTDElem":
			if strings.ContainsAny(string(n.V), "<>&\"'%") || strings.TrimSpace(string(n.V)) != string(n.V) {
				why = "content model of the caller's own making"
			}
		case "DTDEntity":
			if n.Sys == "" && n.Pub == "" && !okEntity.MatchString(string(n.V)) {
				why = "entity value of the caller's own making"
			}
		}
		seen := map[string]bool{}
		for _, a := range x.attrs {
			if x.n.T == "Elem" && seen[fullName(a)] {
				why = "duplicate attribute"
			}
			seen[fullName(a)] = true
			if a.T == "DTDAttr" && !okType.MatchString(string(a.Typ)) {
				why = "attribute type of the caller's own making"
			}
		}
		for _, k := range x.kids {
			walk(k)
		}
	}
	walk(f.root)
	return why
}

// familiar says whether encoding/xml, which knows the names of an earlier edition
// and one encoding only, can read the document.
func (f *Info) familiar() bool {
	ok := true
	name := func(s S) {
		if s == "é" {
			return
		}
		for _, r := range s {
			ok = ok && r < 0x80
		}
		ok = ok && strings.Count(string(s), ":") < 2 && !strings.HasPrefix(string(s), ":") && !strings.HasSuffix(string(s), ":")
	}
	var walk func(x *inode)
	walk = func(x *inode) {
		name(x.n.N)
		for _, a := range x.attrs {
			name(a.N)
		}
		if x.n.FE != nil && *x.n.FE != "" && !strings.EqualFold(string(*x.n.FE), "UTF-8") {
			ok = false
		}
		for _, k := range x.kids {
			walk(k)
		}
	}
	walk(f.root)
	return ok
}

// judge parses the delivered bytes and compares them with what was written.
func (d *docRun) judge(x *Ctx, label string, goCheck bool) *Violation {
	toks, err := parseXML(d.data)
	if err != nil {
		return viol("wellformed", "not well-formed at %v in %.300q", err, d.data)
	}
	x.probe("documents parsed")
	want := d.info.tokens(label)
	if diff := diffToks(toks, want); diff != "" {
		return viol("content", "%s in %.300q", diff, d.data)
	}
	if goCheck && d.info.familiar() {
		g, err := goTokens(d.data)
		if err != nil {
			return viol("crosscheck", "encoding/xml refuses %.300q: %v", d.data, err)
		}
		if diff := diffToks(g, reduceForGo(toks)); diff != "" {
			return viol("crosscheck", "encoding/xml reads %.300q differently: %s", d.data, diff)
		}
	}
	return nil
}
