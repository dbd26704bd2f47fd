//go:build c21

package main

// C21: the script interpreter of tester/gotester against direct calls.
// A command is an Op: F "cmd", Kind the node kind, Names the action, name, ws
// and then parameter names and values, N[0].V the content.

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	xw "github.com/shabbyrobe/xmlwriter"
	gotester "github.com/shabbyrobe/xmlwriter/tester/verifgotester"
)

func init() {
	modes["gomain"] = func(args []string) int {
		os.Args = append([]string{"gotester"}, args...)
		gotester.Main()
		return 0
	}
	register(&Prop{
		ID: "C21", Quick: 180000, Thorough: 9000000,
		Rule:   "Random histories turned into scripts (XML text, with debug attributes, comments, CDATA and attribute order varied) and decoded and run by the interpreter against the simulated sink, compared with the same calls made directly on a writer with the same options and sink fault: same bytes, an error exactly when a call was refused or the sink failed, and then an error that wraps it. Unknown actions, kinds, parameters and encodings put in at random places must end the run with an error. Some scripts go through the program itself, in a child process, also with a full output device or a torn script.",
		Real:   "gotester (interpreter and main program), xmlwriter, its standard indenter, bufio, x/text, encoding/xml",
		Stub:   "sink (in the child process: a pipe or /dev/full), caller",
		Faults: []string{"sink-byte", "sink-call", "sink-late"},
		Gen:    genC21,
		Check:  checkC21,
	})
}

// scriptChars drops what a script (an XML document) cannot hold.
func scriptChars(s S) string {
	var b strings.Builder
	for i, r := range string(s) {
		switch {
		case r == 0xFFFD && s[i] != 0xEF, r == 0xFFFE, r == 0xFFFF, r < 0x20 && r != '\t' && r != '\n' && r != '\r':
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// scripter turns calls into commands.
type scripter struct {
	r    *Rand
	out  []Op
	open []string
}

func (s *scripter) cmd(action, kind, name, content string, params ...string) {
	ws := ""
	if s.r.P(15) {
		ws = pick(s.r, "strip", "strip", "preserve")
	}
	names := []string{action, scriptChars(S(name)), ws}
	for i, p := range params {
		if i%2 == 1 {
			p = scriptChars(S(p))
		}
		names = append(names, p)
	}
	c := scriptChars(S(content))
	if ws == "strip" { // what other spaces count as white space is not the script's business
		c = strings.Map(func(r rune) rune {
			switch r {
			case 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
				return 'w'
			}
			if r >= 0x2000 && r <= 0x200a {
				return 'w'
			}
			return r
		}, c)
		if s.r.P(60) {
			c = pick(s.r, "", " ", "\n\t", "\r\n ") + c + pick(s.r, "", " ", "\n", "a\n  b")
		}
	}
	s.out = append(s.out, Op{F: "cmd", Kind: kind, Names: names, N: []Node{{T: "Text", V: S(c)}}})
}

func opt2(ps []string, k string, v S) []string {
	if v != "" {
		return append(ps, k, string(v))
	}
	return ps
}

func boolWord(r *Rand, b bool) string {
	if b {
		return pick(r, "yes", "true", "yes", "Yes", "TRUE")
	}
	return pick(r, "no", "false", "no", "No", "FALSE")
}

func (s *scripter) start(n Node) {
	var ps []string
	switch n.T {
	case "Doc":
		if n.FV != nil {
			ps = append(ps, "version", string(*n.FV))
		}
		if n.FE != nil {
			ps = append(ps, "encoding", string(*n.FE))
		}
		if n.SA != nil {
			ps = append(ps, "standalone", boolWord(s.r, *n.SA))
		}
		s.cmd("start", "doc", "", "", ps...)
	case "Elem":
		s.cmd("start", "elem", string(n.N), "", opt2(opt2(nil, "prefix", n.P), "uri", n.U)...)
	case "DTD":
		s.cmd("start", "dtd", string(n.N), "", opt2(opt2(nil, "public-id", n.Pub), "system-id", n.Sys)...)
	case "DTDAttList":
		s.cmd("start", "dtd-att-list", string(n.N), "")
	case "Comment":
		s.cmd("start", "comment", "", "")
	case "CData":
		s.cmd("start", "cdata", "", "")
	}
	s.open = append(s.open, n.T)
	for _, a := range n.A {
		s.write(a)
	}
	for _, c := range n.C {
		s.write(c)
	}
	if n.T == "CData" && n.V != "" {
		s.cmd("write", "cdata-content", "", string(n.V))
	}
}

var endKinds = map[string]string{"Doc": "doc", "DTD": "dtd", "DTDAttList": "dtd-att-list", "Elem": "elem", "Comment": "comment", "CData": "cdata"}

func (s *scripter) end(full bool) {
	if len(s.open) == 0 {
		return
	}
	k := s.open[len(s.open)-1]
	s.open = s.open[:len(s.open)-1]
	if full && k == "Elem" {
		s.cmd("end", "elem", "", "", "full", pick(s.r, "true", "true", "TRUE"))
	} else if k == "Elem" && s.r.P(5) {
		s.cmd("end", "elem", "", "", "full", "false")
	} else {
		s.cmd("end", endKinds[k], "", "")
	}
}

func (s *scripter) write(n Node) {
	v := string(n.V)
	switch n.T {
	case "Text":
		s.cmd("write", "text", "", v)
	case "Raw":
		switch s.r.N(3) {
		case 0:
			s.cmd("write", "raw", "", v)
		case 1:
			s.cmd("write", "raw", "", v, "next", boolWord(s.r, true))
		default:
			s.cmd("write", "raw", "", v, "next", boolWord(s.r, false))
		}
	case "CDataContent":
		s.cmd("write", "cdata-content", "", v)
	case "Comment":
		s.cmd("write", "comment", "", v)
	case "CData":
		s.cmd("write", "cdata", "", v)
	case "PI":
		s.cmd("write", "pi", "", v, "target", string(n.N))
	case "Attr":
		a := toAttr(n)
		s.cmd("write", "attr", a.Name, a.Value, opt2(opt2(nil, "prefix", n.P), "uri", n.U)...)
	case "Elem", "DTDAttList":
		s.start(n)
		s.end(n.F)
	case "DTDElem":
		s.cmd("write", "dtd-elem", string(n.N), v)
	case "DTDEntity":
		ps := opt2(opt2(opt2(nil, "system-id", n.Sys), "public-id", n.Pub), "ndata-id", n.ND)
		if n.PE || s.r.P(10) {
			ps = append(ps, "is-pe", fmt.Sprint(n.PE))
		}
		s.cmd("write", "dtd-entity", string(n.N), v, ps...)
	case "DTDAttr":
		ps := opt2(nil, "type", n.Typ)
		switch n.Def {
		case 1:
			ps = append(ps, "decl", v, "required", "true")
		case 0, 4:
			ps = append(ps, "decl", v)
			if s.r.P(30) {
				ps = append(ps, "required", "false")
			}
		case 2:
			ps = append(ps, "required", pick(s.r, "true", "TRUE"))
		}
		s.cmd("write", "dtd-attr", string(n.N), "", ps...)
	case "Notation":
		s.cmd("write", "notation", string(n.N), "", opt2(opt2(nil, "system-id", n.Sys), "public-id", n.Pub)...)
	}
}

func (s *scripter) op(o Op) {
	switch o.F {
	case "Start", "StartX":
		for _, n := range o.N {
			s.start(n)
		}
	case "Write", "WriteX":
		for _, n := range o.N {
			s.write(n)
		}
	case "Block":
		s.start(o.N[0])
		for _, n := range o.N[1:] {
			s.write(n)
		}
		s.end(o.N[0].F)
	case "End", "EndX", "EndAny":
		if len(o.Kind) > 0 && s.r.P(30) {
			s.cmd("end", endKinds[o.Kind], "", "") // perhaps not the current one
			if len(s.open) > 0 && s.open[len(s.open)-1] == o.Kind {
				s.open = s.open[:len(s.open)-1]
			}
			return
		}
		s.end(false)
	case "EndFull":
		s.end(true)
	case "EndAll", "EndAllFlush":
		s.cmd("end", "all", "", "")
		s.open = nil
	case "EndDoc":
		s.cmd("end", "doc", "", "")
		if len(s.open) > 0 && s.open[0] == "Doc" {
			s.open = nil
		}
	case "EndTo":
		for len(s.open)-1 > o.D && len(s.open) > 0 {
			s.end(false)
		}
	case "Next":
		s.cmd("write", "raw", "", "")
	}
}

var writeKinds = []string{"attr", "cdata", "cdata-content", "comment", "dtd-attr", "dtd-elem", "dtd-entity", "notation", "pi", "raw", "text"}
var startKindsS = []string{"cdata", "comment", "doc", "dtd", "dtd-att-list", "elem"}

// bad puts a command in that the interpreter cannot know.
func (s *scripter) bad() Op {
	r := s.r
	mk := func(action, kind string, ps ...string) Op {
		return Op{F: "cmd", Kind: kind, Names: append([]string{action, "n", ""}, ps...), N: []Node{{T: "Text"}}}
	}
	switch r.N(7) {
	case 0:
		return mk(pick(r, "", "stop", "Write", "flush"), "text")
	case 1:
		return mk("write", pick(r, "", "texts", "doc", "dtd", "dtd-att-list", "elem", "all", "Text", "nothing"))
	case 2:
		return mk("start", pick(r, "", "text", "pi", "attr", "all", "raw", "element"))
	case 3:
		return mk("end", pick(r, "", "text", "pi", "attr", "any", "raw"))
	case 4:
		return mk("write", writeKinds[r.N(len(writeKinds))], pick(r, "bogus", "Uri", "name2", "decl2"), "x")
	case 5:
		return mk("start", startKindsS[r.N(len(startKindsS))], pick(r, "bogus", "full", "target"), "x")
	}
	if r.P(30) {
		return pick(r, mk("write", "raw", "next", "maybe"), mk("start", "doc", "standalone", "perhaps"))
	}
	return mk("end", pick(r, "all", "cdata", "comment", "doc", "dtd", "dtd-att-list", "elem"), pick(r, "bogus", "depth"), "x")
}

// spoil makes one of the commands into something that may well be refused.
func (s *scripter) spoil() {
	r := s.r
	i := r.N(len(s.out))
	if r.P(20) { // an end, with a parameter that ends do not have
		for k := range s.out {
			j := (i + k) % len(s.out)
			if o := s.out[j]; o.Names[0] == "end" {
				o.Names = append(append([]string(nil), o.Names...), pick(r, "bogus", "depth"), "x")
				s.out[j] = o
				return
			}
		}
	}
	if r.P(50) { // one that only the commands about doctypes make, or some other that is rare
		for k := range s.out {
			j := (i + k) % len(s.out)
			if o := s.out[j]; o.Names[0] == "write" && pick(r, "dtd-elem", "dtd-entity", "dtd-attr", "notation", "pi", "cdata-content", "attr") == o.Kind {
				i = j
				break
			}
		}
	}
	o := s.out[i]
	o.Names = append([]string(nil), o.Names...)
	o.N = append([]Node(nil), o.N...)
	switch r.N(7) {
	case 0:
		o.Names[1] = pick(r, "", "", "a b", "<", "1", "xml")
	case 1:
		o.N[0].V = ""
	case 2:
		o.N[0].V = S(pick(r, "--", "]]>", "?>", "-", "\u0084", "a'b\"c", " "))
	case 3:
		if n := (len(o.Names) - 3) / 2; n > 0 {
			k := 3 + 2*r.N(n)
			o.Names = append(o.Names[:k:k], o.Names[k+2:]...)
		}
	case 4:
		if n := (len(o.Names) - 3) / 2; n > 0 {
			o.Names[4+2*r.N(n)] = pick(r, "", "x", "a b", "true", "'\"", "\u0084")
		}
	case 5: // it stands elsewhere
		s.out = append(s.out[:i:i], s.out[i+1:]...)
		j := r.N(len(s.out) + 1)
		s.out = append(append(append([]Op(nil), s.out[:j]...), o), s.out[j:]...)
		return
	case 6: // it stands there twice
		s.out = append(append(append([]Op(nil), s.out[:i]...), o), s.out[i:]...)
		return
	}
	s.out[i] = o
}

func genC21(r *Rand, idx int) *Scenario {
	g, c := swarm(r)
	smallBuf(r, c)
	c.NoEnforce = r.P(20)
	c.Sink = ""
	g.badPct = pick(r, 0, 0, 0, 2, 5)
	g.disc = r.P(30)
	if r.P(30) {
		c.Indent, c.IndentStr = pick(r, "std", "stdstr"), " "
	}
	g.begin()
	g.history(size(r))
	s := &scripter{r: r}
	for _, o := range g.ops {
		s.op(o)
	}
	if r.P(30) { // an encoding chosen by the script
		enc := pick(r, "UTF-8", "utf-8", "ISO-8859-1", "iso-8859-1", "WINDOWS-1252", "Windows-1252")
		if r.P(10) {
			enc = pick(r, "UTF-16", "KOI8-R", "pants", "LATIN1")
		}
		d := Op{F: "cmd", Kind: "doc", Names: []string{"start", "", "", "encoding", enc}, N: []Node{{T: "Text"}}}
		if len(s.out) > 0 && s.out[0].Kind == "doc" && len(s.out[0].Names) == 3 {
			s.out[0] = d
		} else {
			s.out = append([]Op{d}, s.out...)
		}
	}
	if r.P(12) {
		at := r.N(len(s.out) + 1)
		s.out = append(append(append([]Op(nil), s.out[:at]...), s.bad()), s.out[at:]...)
	}
	if r.P(20) && len(s.out) > 0 {
		s.spoil()
	}
	c.Ops = s.out
	if r.P(35) {
		c.Faults = []Fault{{Kind: pick(r, "sink-byte", "sink-byte", "sink-call", "sink-late"), At: r.N(1 << 20), Transient: r.P(40)}}
	}
	sc := &Scenario{W: []WCfg{*c}, Mode: "lib"}
	if idx%150 == 7 {
		sc.Mode = pick(r, "main", "main", "main", "full", "torn")
		w := &sc.W[0]
		w.Faults, w.NoEnforce, w.NoStrict, w.Newline, w.Version, w.Buf = nil, false, false, nil, "", 0
		if w.Indent != "" {
			w.Indent = "std"
		}
	}
	return sc
}

// cmdParts are the three fixed names and the parameters of a command, and its content.
func cmdParts(o Op) (names []string, content string) {
	names = append(names, o.Names...)
	for len(names) < 3 {
		names = append(names, "")
	}
	if len(o.N) > 0 {
		content = string(o.N[0].V)
	}
	return names[:len(names)-(len(names)-3)%2], content
}

// script renders commands as a script document.
func script(ops []Op) string {
	var b bytes.Buffer
	b.WriteString(`<script name="sim">`)
	for i, o := range ops {
		r := NewRand(hashStr(opStr(o)), uint64(i))
		attrs := []string{"kind", o.Kind}
		names, content := cmdParts(o)
		attrs = append(attrs, "action", names[0])
		if names[1] != "" {
			attrs = append(attrs, "name", names[1])
		}
		if names[2] != "" {
			attrs = append(attrs, "ws", names[2])
		}
		attrs = append(attrs, names[3:]...)
		if r.P(20) {
			attrs = append(attrs, pick(r, "line", "pos", "fn"), pick(r, "12", "", "f"))
		}
		b.WriteString(pick(r, "", "\n", " <!-- c -->", "\n\t") + "<command")
		for n := len(attrs) / 2; n > 0; n-- {
			k := 2 * r.N(n)
			q := pick(r, "\"", "'")
			b.WriteString(pick(r, " ", " ", "\n") + attrs[k] + "=" + q)
			xml.EscapeText(&b, []byte(attrs[k+1]))
			b.WriteString(q)
			attrs = append(attrs[:k], attrs[k+2:]...)
		}
		if content == "" && r.P(50) {
			b.WriteString("/>")
			continue
		}
		b.WriteString(">")
		for content != "" {
			k := len(content)
			if r.P(30) {
				k = r.N(k) + 1
				for k < len(content) && content[k]&0xC0 == 0x80 {
					k++
				}
			}
			if r.P(10) && !strings.Contains(content[:k], "]]>") && !strings.Contains(content[:k], "\r") {
				b.WriteString("<![CDATA[" + content[:k] + "]]>")
			} else {
				xml.EscapeText(&b, []byte(content[:k]))
			}
			if content = content[k:]; content != "" && r.P(30) {
				b.WriteString("<!-- x -->")
			}
		}
		b.WriteString("</command>")
	}
	b.WriteString(pick(NewRand(uint64(len(ops))), "", "\n") + "</script>")
	return b.String()
}

var errUnknown = errors.New("not a command")

// direct performs the commands itself. refused: the writer refused a call.
func direct(ops []Op, out io.Writer, opts []xw.Option) (w *xw.Writer, err error) {
	for _, o := range ops {
		if err := direct1(&w, o, out, opts); err != nil {
			return w, err
		}
	}
	if w == nil {
		return nil, errUnknown // nothing was ever opened
	}
	return w, w.Flush()
}

func direct1(w **xw.Writer, o Op, out io.Writer, opts []xw.Option) error {
	names, content := cmdParts(o)
	action, name := names[0], names[1]
	if names[2] == "strip" {
		content = strings.Join(strings.FieldsFunc(content, func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }), " ")
	}
	p := map[string]string{}
	for i := 3; i < len(names); i += 2 {
		p[names[i]] = names[i+1]
	}
	known := func(keys ...string) bool {
		n := 0
		for _, k := range keys {
			if _, ok := p[k]; ok {
				n++
			}
		}
		return n == len(p)
	}
	truth := func(k string, def bool) (bool, bool) {
		v, ok := p[k]
		if !ok {
			return def, true
		}
		switch strings.ToLower(v) {
		case "yes", "true":
			return true, true
		case "no", "false":
			return false, true
		}
		return false, false
	}
	keys := map[string][]string{
		"write attr": {"prefix", "uri"}, "write cdata": {}, "write cdata-content": {}, "write comment": {},
		"write dtd-attr": {"decl", "type", "required"}, "write dtd-elem": {}, "write dtd-entity": {"is-pe", "ndata-id", "system-id", "public-id"},
		"write notation": {"system-id", "public-id"}, "write pi": {"target"}, "write raw": {"next"}, "write text": {},
		"start cdata": {}, "start comment": {}, "start doc": {"version", "encoding", "standalone"}, "start dtd": {"public-id", "system-id"},
		"start dtd-att-list": {}, "start elem": {"uri", "prefix"},
		"end all": {}, "end cdata": {}, "end comment": {}, "end doc": {}, "end dtd": {}, "end dtd-att-list": {}, "end elem": {"full"},
	}
	ks, ok := keys[action+" "+o.Kind]
	if !ok || !known(ks...) {
		return errUnknown
	}
	if *w == nil {
		if action == "end" {
			return errUnknown
		}
		enc := "UTF-8"
		if v, ok := p["encoding"]; ok {
			enc = strings.ToUpper(v)
		}
		switch enc {
		case "UTF-8":
			*w = xw.Open(out, opts...)
		case "ISO-8859-1", "WINDOWS-1252":
			*w = xw.OpenEncoding(out, enc, encodings[strings.ToLower(enc)].NewEncoder(), opts...)
		default:
			return errUnknown
		}
	}
	x := *w
	switch action + " " + o.Kind {
	case "write attr":
		return x.WriteAttr(xw.Attr{Name: name, Value: content, Prefix: p["prefix"], URI: p["uri"]})
	case "write cdata":
		return x.WriteCData(xw.CData{Content: content})
	case "write cdata-content":
		return x.WriteCDataContent(content)
	case "write comment":
		return x.WriteComment(xw.Comment{Content: content})
	case "write dtd-attr":
		a := xw.DTDAttr{Name: name, Type: xw.DTDAttrType(p["type"])}
		decl, has := p["decl"]
		req := strings.ToLower(p["required"]) == "true"
		a.Value = decl
		switch {
		case has && req:
			a.Default = xw.DTDAttrFixed
		case has:
			a.Default = xw.DTDAttrDefault
		case req:
			a.Default = xw.DTDAttrRequired
		default:
			a.Default = xw.DTDAttrImplied
		}
		return x.WriteDTDAttr(a)
	case "write dtd-elem":
		return x.WriteDTDElem(xw.DTDElem{Name: name, Decl: content})
	case "write dtd-entity":
		return x.WriteDTDEntity(xw.DTDEntity{Name: name, Content: content, IsPE: strings.ToLower(p["is-pe"]) == "true", NDataID: p["ndata-id"], SystemID: p["system-id"], PublicID: p["public-id"]})
	case "write notation":
		return x.WriteNotation(xw.Notation{Name: name, SystemID: p["system-id"], PublicID: p["public-id"]})
	case "write pi":
		return x.WritePI(xw.PI{Target: p["target"], Content: content})
	case "write raw":
		next, ok := truth("next", true)
		if !ok {
			return errUnknown
		}
		if next {
			if err := x.Next(); err != nil {
				return err
			}
		}
		return x.WriteRaw(content)
	case "write text":
		return x.WriteText(content)
	case "start cdata":
		return x.StartCData(xw.CData{})
	case "start comment":
		return x.StartComment(xw.Comment{})
	case "start doc":
		d := xw.Doc{SuppressEncoding: true}
		if v, ok := p["version"]; ok {
			d.ForcedVersion = &v
		}
		if v, ok := p["encoding"]; ok {
			d.ForcedEncoding, d.SuppressEncoding = &v, false
		}
		if _, ok := p["standalone"]; ok {
			b, ok := truth("standalone", false)
			if !ok {
				return errUnknown
			}
			d.Standalone = &b
		}
		return x.StartDoc(d)
	case "start dtd":
		return x.StartDTD(xw.DTD{Name: name, PublicID: p["public-id"], SystemID: p["system-id"]})
	case "start dtd-att-list":
		return x.StartDTDAttList(xw.DTDAttList{Name: name})
	case "start elem":
		return x.StartElem(xw.Elem{Name: name, URI: p["uri"], Prefix: p["prefix"]})
	case "end all":
		return x.EndAll()
	case "end cdata":
		return x.EndCData()
	case "end comment":
		return x.EndComment()
	case "end doc":
		return x.EndDoc()
	case "end dtd":
		return x.EndDTD()
	case "end dtd-att-list":
		return x.EndDTDAttList()
	}
	if strings.ToLower(p["full"]) == "true" {
		return x.EndElemFull()
	}
	return x.EndElem()
}

type c21Run struct {
	W    *World
	Sink *Sink
	err  error
	pan  any
}

func (x *Ctx) c21run(c WCfg, ops []Op, run func(out io.Writer, opts []xw.Option) error) *c21Run {
	r := &c21Run{W: &World{log: x.Log, fired: map[string]int{}}}
	r.Sink = &Sink{W: r.W}
	opts, _ := writerOpts(&c, r.W, r.Sink)
	r.Sink.faults = append([]Fault(nil), c.Faults...)
	r.err, r.pan = safeCall(func() error { return run(r.Sink, opts) })
	x.Log.add("run", errCode(r.err), len(r.Sink.data))
	x.Steps += r.W.total
	x.Calls += len(ops)
	return r
}

func checkC21(sc *Scenario, x *Ctx) *Violation {
	c := sc.W[0]
	ops := c.Ops
	if len(ops) == 0 {
		return nil // what an empty script does is nobody's promise
	}
	text := script(ops)
	x.Log.str(text)
	plain := c
	plain.Faults = nil
	dir := func(out io.Writer, opts []xw.Option) error { _, err := direct(ops, out, opts); return err }
	d := x.c21run(plain, ops, dir)
	if d.pan != nil {
		return nil // C04's business
	}
	// what calls made before the end of the run put out, delivered or not
	full := x.c21run(plain, ops, func(out io.Writer, opts []xw.Option) error {
		w, err := direct(ops, out, opts)
		if w != nil {
			w.Flush()
		}
		return err
	})
	if sc.Mode != "lib" {
		return x.c21main(sc, text, d, full)
	}
	var s gotester.Script
	if err := xml.Unmarshal([]byte(text), &s); err != nil {
		return viol("decode", "the script cannot be decoded: %v", err)
	}
	int1 := func(out io.Writer, opts []xw.Option) error { return s.Run(out, opts...) }
	// twice: a script is not used up by running it
	for n := 0; n < 2; n++ {
		g := x.c21run(plain, ops, int1)
		if v := c21Compare("", g, d, full); v != nil {
			return v
		}
	}
	switch {
	case d.err == nil:
		x.probe("script ran to its end")
	case errors.Is(d.err, errUnknown):
		x.probe("script held something unknown")
	default:
		x.probe("script held a refused call")
	}
	if len(c.Faults) == 0 || len(d.Sink.data) == 0 {
		return nil
	}
	f := c
	f.Faults = append([]Fault(nil), c.Faults...)
	for i := range f.Faults {
		n := len(d.Sink.data)
		if f.Faults[i].Kind != "sink-byte" {
			n = d.Sink.calls
		}
		f.Faults[i].At %= n
	}
	df := x.c21run(f, ops, dir)
	gf := x.c21run(f, ops, int1)
	for k, v := range gf.W.fired {
		x.Fired[k] += v
	}
	if df.pan != nil {
		return nil
	}
	if v := c21Compare(fmt.Sprintf("with %+v: ", f.Faults[0]), gf, df, full); v != nil {
		return v
	}
	if gf.W.failure == nil {
		return viol("fault", "with %+v the direct calls met the fault and the script did not", f.Faults[0])
	}
	if gf.err == nil {
		return viol("unreported", "the output failed (%v) and the run returned nil", gf.W.failure)
	}
	if !errors.Is(gf.err, gf.W.failure) && errors.Is(df.err, df.W.failure) { // (a call may be refused as well)
		return viol("wrong-error", "the output failed (%v) and the run returned %v", gf.W.failure, gf.err)
	}
	return nil
}

func c21Compare(what string, g, d, full *c21Run) *Violation {
	if g.pan != nil {
		return viol("panic", "%srunning the script panicked: %v", what, g.pan)
	}
	if (g.err == nil) != (d.err == nil) {
		return viol("outcome", "%sthe script returned %v, the direct calls %v", what, g.err, d.err)
	}
	if d.err == nil || d.W.failure != nil {
		if !bytes.Equal(g.Sink.data, d.Sink.data) {
			return viol("bytes", "%sscript and direct calls differ: %s", what, diffAt(g.Sink.data, d.Sink.data))
		}
	} else if !isPrefix(g.Sink.data, full.Sink.data) {
		return viol("bytes", "%sthe script put out something the calls before its end do not: %s", what, diffAt(g.Sink.data, full.Sink.data))
	}
	return nil
}

// c21main runs the program itself.
func (x *Ctx) c21main(sc *Scenario, text string, d, full *c21Run) *Violation {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	args := []string{"gomain"}
	if sc.W[0].Indent != "" {
		args = append(args, "-indent")
	}
	x.probe("program run: " + sc.Mode)
	if sc.Mode == "torn" {
		text = text[:int(hashStr(text)%uint64(strings.LastIndex(text, "</script>")))]
	}
	cmd := exec.Command(self, args...)
	cmd.Stdin = strings.NewReader(text)
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	if sc.Mode == "full" {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
		x.Fired["full output device"]++
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	if !t.Stop() {
		return viol("hang", "the program did not end within 60 s")
	}
	if werr != nil {
		if _, ok := werr.(*exec.ExitError); !ok {
			panic(werr)
		}
	}
	x.Log.add("main", len(out.Bytes()), cmd.ProcessState.ExitCode())
	if strings.Contains(eb.String(), "goroutine 1 [") {
		return viol("panic", "the program panicked: %s", firstLine(eb.String()))
	}
	switch {
	case sc.Mode == "torn":
		if werr == nil {
			return viol("unreported", "the program succeeded on a script torn after %d bytes", len(text))
		}
	case sc.Mode == "full" && d.err == nil && len(d.Sink.data) > 0:
		if werr == nil {
			return viol("unreported", "the program succeeded with its output on a full device")
		}
	case sc.Mode == "main":
		if (werr == nil) != (d.err == nil) {
			return viol("outcome", "the program ended with %v, the direct calls returned %v", werr, d.err)
		}
		if d.err == nil && !bytes.Equal(out.Bytes(), d.Sink.data) {
			return viol("bytes", "program and direct calls differ: %s", diffAt(out.Bytes(), d.Sink.data))
		}
		if !isPrefix(out.Bytes(), full.Sink.data) {
			return viol("bytes", "the program put out something the calls before its end do not: %s", diffAt(out.Bytes(), full.Sink.data))
		}
	}
	return nil
}
