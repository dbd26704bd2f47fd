package main

// A small strict XML 1.0 parser (independent of encoding/xml), and the infoset a
// history of accepted calls must produce.

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

type parser struct {
	s    string
	i    int
	toks []string
	text strings.Builder
	inT  bool
}

type perr struct{ msg string }

func (p *parser) fail(f string, a ...any) {
	lo, hi := p.i-20, p.i+20
	if lo < 0 {
		lo = 0
	}
	if hi > len(p.s) {
		hi = len(p.s)
	}
	panic(perr{fmt.Sprintf("offset %d (near %q): ", p.i, p.s[lo:hi]) + fmt.Sprintf(f, a...)})
}

func (p *parser) has(x string) bool { return strings.HasPrefix(p.s[p.i:], x) }
func (p *parser) eof() bool         { return p.i >= len(p.s) }

func (p *parser) eat(x string) bool {
	if p.has(x) {
		p.i += len(x)
		return true
	}
	return false
}

func (p *parser) need(x string) {
	if !p.eat(x) {
		p.fail("expected %q", x)
	}
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (p *parser) ws() bool {
	st := p.i
	for !p.eof() && isWS(p.s[p.i]) {
		p.i++
	}
	return p.i > st
}

func (p *parser) needWS() {
	if !p.ws() {
		p.fail("white space required")
	}
}

func (p *parser) name() string {
	st := p.i
	for !p.eof() {
		r, w := utf8.DecodeRuneInString(p.s[p.i:])
		if st == p.i && !nameStart(r) || !nameChar(r) {
			break
		}
		p.i += w
	}
	if st == p.i {
		p.fail("name expected")
	}
	return p.s[st:p.i]
}

func (p *parser) until(x string) string {
	k := strings.Index(p.s[p.i:], x)
	if k < 0 {
		p.fail("%q not found", x)
	}
	v := p.s[p.i : p.i+k]
	p.i += k + len(x)
	return v
}

func (p *parser) ref(b *strings.Builder) {
	p.need("&")
	v := p.until(";")
	switch v {
	case "lt":
		b.WriteByte('<')
	case "gt":
		b.WriteByte('>')
	case "amp":
		b.WriteByte('&')
	case "quot":
		b.WriteByte('"')
	case "apos":
		b.WriteByte('\'')
	default:
		n, ok := rune(0), false
		if strings.HasPrefix(v, "#x") {
			for _, c := range v[2:] {
				d := strings.IndexRune("0123456789abcdef", c|0x20)
				if d < 0 || n > 0x10FFFF {
					p.fail("bad reference &%s;", v)
				}
				n, ok = n*16+rune(d), true
			}
		} else if strings.HasPrefix(v, "#") {
			for _, c := range v[1:] {
				if c < '0' || c > '9' || n > 0x10FFFF {
					p.fail("bad reference &%s;", v)
				}
				n, ok = n*10+(c-'0'), true
			}
		}
		if !ok || !xmlChar(n) {
			p.fail("bad reference &%s;", v)
		}
		b.WriteRune(n)
	}
}

// attValue reads a quoted attribute value, normalised as XML 1.0 section 3.3.3 demands.
func (p *parser) attValue() string {
	if p.eof() || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("quoted value expected")
	}
	q := p.s[p.i]
	p.i++
	var b strings.Builder
	for {
		if p.eof() {
			p.fail("unterminated attribute value")
		}
		c := p.s[p.i]
		switch {
		case c == q:
			p.i++
			return b.String()
		case c == '<':
			p.fail("'<' in attribute value")
		case c == '&':
			p.ref(&b)
		case isWS(c):
			b.WriteByte(' ')
			p.i++
		default:
			b.WriteByte(c)
			p.i++
		}
	}
}

func (p *parser) literal() string {
	if p.eof() || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("quoted literal expected")
	}
	q := p.s[p.i : p.i+1]
	p.i++
	return p.until(q)
}

func (p *parser) tok(f string, a ...any) {
	if p.inT {
		t := p.text.String()
		p.text.Reset()
		p.inT = false
		if t != "" {
			p.toks = append(p.toks, fmt.Sprintf("text %q", t))
		}
	}
	p.toks = append(p.toks, fmt.Sprintf(f, a...))
}

func (p *parser) comment() {
	p.need("<!--")
	v := p.until("--")
	if !p.eat(">") {
		p.fail("'--' in comment")
	}
	p.tok("comment %q", v)
}

func (p *parser) pi() {
	p.need("<?")
	t := p.name()
	if strings.EqualFold(t, "xml") {
		p.fail("reserved PI target")
	}
	v := ""
	if !p.eat("?>") {
		p.needWS()
		v = p.until("?>")
	}
	p.tok("pi %q %q", t, v)
}

func (p *parser) externalID(publicOnly bool) string {
	switch {
	case p.eat("SYSTEM"):
		p.needWS()
		return fmt.Sprintf("sys=%q", p.literal())
	case p.eat("PUBLIC"):
		p.needWS()
		pub := p.literal()
		if !validPubID(pub) {
			p.fail("bad public ID")
		}
		if publicOnly {
			sv := p.i
			p.ws()
			if p.has(">") {
				p.i = sv
				return fmt.Sprintf("pub=%q", pub)
			}
			p.i = sv
		}
		p.needWS()
		return fmt.Sprintf("pub=%q sys=%q", pub, p.literal())
	}
	return ""
}

func (p *parser) doctype() {
	p.need("<!DOCTYPE")
	p.needWS()
	n := p.name()
	ext := ""
	if p.ws() {
		ext = p.externalID(false)
	}
	p.ws()
	p.tok("doctype %q %s", n, ext)
	if p.eat("[") {
		p.tok("subset")
		for p.ws(); !p.eat("]"); p.ws() {
			p.decl()
		}
		p.ws()
	}
	p.need(">")
	p.tok("/doctype")
}

func (p *parser) decl() {
	switch {
	case p.has("<!--"):
		p.comment()
	case p.eat("<!ELEMENT"):
		p.needWS()
		n := p.name()
		p.needWS()
		d := p.until(">")
		if strings.ContainsAny(d, "<\"'&") || d == "" {
			p.fail("bad content model %q", d)
		}
		p.tok("!elem %q %q", n, strings.TrimSpace(d))
	case p.eat("<!ENTITY"):
		p.needWS()
		pe := false
		if p.eat("%") {
			pe = true
			p.needWS()
		}
		n := p.name()
		p.needWS()
		if p.has("\"") || p.has("'") {
			p.tok("!entity %q pe=%v value=%q", n, pe, p.literal())
		} else {
			e := p.externalID(false)
			if e == "" {
				p.fail("entity definition expected")
			}
			nd := ""
			if p.ws() && p.eat("NDATA") {
				p.needWS()
				nd = p.name()
				if pe {
					p.fail("NDATA on a parameter entity")
				}
			}
			p.tok("!entity %q pe=%v %s ndata=%q", n, pe, e, nd)
		}
		p.ws()
		p.need(">")
	case p.eat("<!NOTATION"):
		p.needWS()
		n := p.name()
		p.needWS()
		e := p.externalID(true)
		if e == "" {
			p.fail("notation needs an external ID")
		}
		p.tok("!notation %q %s", n, e)
		p.ws()
		p.need(">")
	case p.eat("<!ATTLIST"):
		p.needWS()
		p.tok("!attlist %q", p.name())
		for {
			sp := p.ws()
			if p.eat(">") {
				break
			}
			if !sp {
				p.needWS()
			}
			n := p.name()
			p.needWS()
			var ty string
			if p.eat("(") {
				ty = "(" + p.until(")") + ")"
			} else {
				ty = p.name()
			}
			p.needWS()
			switch {
			case p.eat("#REQUIRED"):
				p.tok("!attr %q %q required", n, ty)
			case p.eat("#IMPLIED"):
				p.tok("!attr %q %q implied", n, ty)
			case p.eat("#FIXED"):
				p.needWS()
				p.tok("!attr %q %q fixed %q", n, ty, p.attValue())
			default:
				p.tok("!attr %q %q default %q", n, ty, p.attValue())
			}
		}
		p.tok("/attlist")
	default:
		p.fail("declaration expected")
	}
}

type kv struct{ k, v string }

func elemTok(name string, attrs []kv, ns map[string]string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "elem %q", name)
	for _, a := range attrs {
		fmt.Fprintf(&b, " %s=%q", a.k, a.v)
	}
	var ks []string
	for k := range ns {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " xmlns:%s=%q", k, ns[k])
	}
	return b.String()
}

func (p *parser) element() {
	var open []string
	for {
		if len(open) == 0 || p.has("<") {
			switch {
			case len(open) > 0 && p.has("<!--"):
				p.comment()
			case len(open) > 0 && p.has("<?"):
				p.pi()
			case len(open) > 0 && p.eat("<![CDATA["):
				p.tok("cdata %q", p.until("]]>"))
			case len(open) > 0 && p.eat("</"):
				n := p.name()
				p.ws()
				p.need(">")
				if n != open[len(open)-1] {
					p.fail("</%s> does not match <%s>", n, open[len(open)-1])
				}
				open = open[:len(open)-1]
				p.tok("/elem %q", n)
			default:
				p.need("<")
				n := p.name()
				var attrs []kv
				ns := map[string]string{}
				seen := map[string]bool{}
				for {
					sp := p.ws()
					if p.eat("/>") {
						p.tok("%s", elemTok(n, attrs, ns))
						p.tok("/elem %q", n)
						break
					}
					if p.eat(">") {
						p.tok("%s", elemTok(n, attrs, ns))
						open = append(open, n)
						break
					}
					if !sp {
						p.needWS()
					}
					a := p.name()
					p.ws()
					p.need("=")
					p.ws()
					v := p.attValue()
					if seen[a] {
						p.fail("duplicate attribute %s", a)
					}
					seen[a] = true
					if strings.HasPrefix(a, "xmlns:") {
						ns[a[6:]] = v
					} else {
						attrs = append(attrs, kv{a, v})
					}
				}
			}
			if len(open) == 0 {
				return
			}
			continue
		}
		if p.eof() {
			p.fail("unclosed element %s", open[len(open)-1])
		}
		p.inT = true
		if p.has("]]>") {
			p.fail("']]>' in text")
		}
		if p.has("&") {
			p.ref(&p.text)
		} else {
			p.text.WriteByte(p.s[p.i])
			p.i++
		}
	}
}

var xmlDecl = regexp.MustCompile(`^ version="1\.[0-9]+"( encoding="[A-Za-z][A-Za-z0-9._-]*")?( standalone="(yes|no)")?$`)

// parseXML parses a complete document; err describes why it is not well-formed.
func parseXML(data []byte) (toks []string, err error) {
	p := &parser{}
	defer func() {
		if e := recover(); e != nil {
			if pe, ok := e.(perr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(e)
		}
	}()
	if !utf8.Valid(data) {
		return nil, fmt.Errorf("not valid UTF-8")
	}
	for i, r := range string(data) {
		if !xmlChar(r) {
			return nil, fmt.Errorf("offset %d: character U+%04X is not allowed", i, r)
		}
	}
	s := strings.ReplaceAll(string(data), "\r\n", "\n")
	p.s = strings.ReplaceAll(s, "\r", "\n")
	if p.has("<?xml") && len(p.s) > 5 && isWS(p.s[5]) {
		p.i = 5
		d := ""
		for step := 0; ; step++ {
			sp := p.ws()
			if p.eat("?>") {
				break
			}
			if !sp {
				p.needWS()
			}
			a := p.name()
			p.ws()
			p.need("=")
			p.ws()
			v := p.literal()
			d += fmt.Sprintf(" %s=%q", a, v)
		}
		if !xmlDecl.MatchString(d) {
			p.fail("bad XML declaration%s", d)
		}
		p.tok("xml%s", d)
	}
	root, dt := false, false
	for {
		p.ws()
		if p.eof() {
			break
		}
		switch {
		case p.has("<!--"):
			p.comment()
		case p.has("<?"):
			p.pi()
		case p.has("<!DOCTYPE"):
			if root || dt {
				p.fail("misplaced doctype")
			}
			dt = true
			p.doctype()
		case p.has("<"):
			if root {
				p.fail("second root element")
			}
			root = true
			p.element()
		default:
			p.fail("text outside the root element")
		}
	}
	if !root {
		p.fail("no root element")
	}
	return p.toks, nil
}

// goTokens is the cross-check: what encoding/xml makes of the same bytes, in the
// same notation (elements, text, comments and PIs only; CDATA counts as text).
func goTokens(data []byte) ([]string, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	d.Strict = true
	d.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
	var toks []string
	text := ""
	flush := func() {
		if text != "" {
			toks = append(toks, fmt.Sprintf("text %q", text))
		}
		text = ""
	}
	depth := 0
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch v := t.(type) {
		case xml.CharData:
			if depth > 0 {
				text += string(v)
			}
			continue
		case xml.Directive:
			continue
		case xml.ProcInst:
			if v.Target == "xml" {
				continue
			}
			flush()
			toks = append(toks, fmt.Sprintf("pi %q %q", v.Target, strings.TrimLeft(string(v.Inst), " \t\n\r")))
		case xml.Comment:
			flush()
			toks = append(toks, fmt.Sprintf("comment %q", string(v)))
		case xml.StartElement:
			flush()
			depth++
			nm := func(n xml.Name) string {
				if n.Space != "" {
					return n.Space + ":" + n.Local
				}
				return n.Local
			}
			var attrs []kv
			ns := map[string]string{}
			for _, a := range v.Attr {
				if a.Name.Space == "xmlns" {
					ns[a.Name.Local] = a.Value
				} else {
					attrs = append(attrs, kv{nm(a.Name), a.Value})
				}
			}
			toks = append(toks, elemTok(nm(v.Name), attrs, ns))
		case xml.EndElement:
			flush()
			depth--
			n := v.Name.Local
			if v.Name.Space != "" {
				n = v.Name.Space + ":" + n
			}
			toks = append(toks, fmt.Sprintf("/elem %q", n))
		}
	}
	return toks, nil
}

// reduceForGo maps strict-parser tokens to what goTokens reports.
func reduceForGo(toks []string) []string {
	var out []string
	text := ""
	depth := 0
	inDTD := false
	flush := func() {
		if text != "" {
			out = append(out, fmt.Sprintf("text %q", text))
		}
		text = ""
	}
	for _, t := range toks {
		k, rest, _ := strings.Cut(t, " ")
		switch k {
		case "doctype":
			inDTD = true
		case "/doctype":
			inDTD = false
		case "text", "cdata":
			if depth > 0 {
				text += unq(rest)
			}
		case "elem":
			flush()
			depth++
			out = append(out, t)
		case "/elem":
			flush()
			depth--
			out = append(out, t)
		case "pi", "comment":
			if !inDTD {
				flush()
				out = append(out, t)
			}
		}
	}
	return out
}

func unq(s string) string {
	var v string
	if _, err := fmt.Sscanf(s, "%q", &v); err != nil {
		panic(err)
	}
	return v
}

// --- the infoset of a history ---

type inode struct {
	n     Node
	attrs []Node
	kids  []*inode
	body  string // comment, cdata content
	par   *inode
}

// Info builds the tree a caller has written, from its accepted calls alone.
type Info struct {
	root  *inode
	cur   *inode
	wrap  func(string) string
	loose bool // attributes or content written with nothing open
}

func newInfo() *Info {
	r := &inode{n: Node{T: "root"}}
	return &Info{root: r, cur: r, wrap: func(s string) string { return s }}
}

func (f *Info) start(n Node) {
	x := &inode{n: n, par: f.cur}
	f.cur.kids = append(f.cur.kids, x)
	f.cur = x
	switch n.T {
	case "Elem", "DTDAttList":
		x.attrs = append(x.attrs, n.A...)
		for _, c := range n.C {
			f.write(c)
		}
	case "Comment":
		if n.V != "" {
			x.body = f.wrap(string(n.V))
		}
	case "CData":
		x.body = string(n.V)
	}
}

func (f *Info) end() {
	if f.cur.par != nil {
		f.cur = f.cur.par
	}
}

func (f *Info) write(n Node) {
	switch n.T {
	case "Attr", "DTDAttr", "CommentContent", "CDataContent":
		f.loose = f.loose || f.cur == f.root
	}
	switch n.T {
	case "Attr", "DTDAttr":
		f.cur.attrs = append(f.cur.attrs, n)
	case "CommentContent":
		f.cur.body += f.wrap(string(n.V))
	case "CDataContent":
		f.cur.body += string(n.V)
	case "Elem", "Comment", "CData", "DTDAttList":
		f.start(n)
		f.end()
	case "Raw":
		if n.V != "" {
			f.cur.kids = append(f.cur.kids, &inode{n: n})
		}
	default:
		f.cur.kids = append(f.cur.kids, &inode{n: n})
	}
}

func (f *Info) depth() int {
	d := -1
	for x := f.cur; x.par != nil; x = x.par {
		d++
	}
	return d
}

// Apply records an accepted call.
func (f *Info) Apply(o Op) {
	switch o.F {
	case "Start", "StartX":
		for _, n := range o.N {
			f.start(n)
		}
	case "Write", "WriteX":
		for _, n := range o.N {
			f.write(n)
		}
	case "Block":
		f.start(o.N[0])
		for _, n := range o.N[1:] {
			f.write(n)
		}
		f.end()
	case "End", "EndX", "EndFull", "EndAny":
		f.end()
	case "EndAll", "EndAllFlush", "EndDoc":
		f.cur = f.root
	case "EndTo":
		for f.depth() > o.D && f.cur.par != nil {
			f.end()
		}
	}
}

func lf(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// sane is what an XML parser may hand back for an escaped string.
func sane(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 || !xmlChar(r) {
			b.WriteRune(0xFFFD)
		} else {
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	return b.String()
}

// tokens renders the tree the way the parser reports a document.
func (f *Info) tokens(label string) []string {
	p := &parser{}
	var walk func(x *inode)
	extID := func(n Node, publicOnly bool) string {
		switch {
		case n.Pub != "" && (n.Sys != "" || !publicOnly):
			return fmt.Sprintf("pub=%q sys=%q", n.Pub, lf(string(n.Sys)))
		case n.Pub != "":
			return fmt.Sprintf("pub=%q", n.Pub)
		case n.Sys != "":
			return fmt.Sprintf("sys=%q", lf(string(n.Sys)))
		}
		return ""
	}
	walk = func(x *inode) {
		n := x.n
		switch n.T {
		case "Doc":
			d := ""
			if !n.SV {
				d += ` version="1.0"`
			}
			e := label
			if n.FE != nil {
				e = string(*n.FE)
			}
			if !n.SE && e != "" {
				d += fmt.Sprintf(" encoding=%q", e)
			}
			if n.SA != nil {
				d += fmt.Sprintf(" standalone=%q", map[bool]string{true: "yes", false: "no"}[*n.SA])
			}
			p.tok("xml%s", d)
		case "DTD":
			p.tok("doctype %q %s", n.N, extID(n, false))
			if len(x.kids) > 0 {
				p.tok("subset")
			}
		case "DTDElem":
			p.tok("!elem %q %q", n.N, n.V)
		case "Notation":
			p.tok("!notation %q %s", n.N, extID(n, true))
		case "DTDEntity":
			if n.Sys != "" || n.Pub != "" {
				p.tok("!entity %q pe=%v %s ndata=%q", n.N, n.PE, extID(n, false), n.ND)
			} else {
				p.tok("!entity %q pe=%v value=%q", n.N, n.PE, lf(string(n.V)))
			}
		case "DTDAttList":
			p.tok("!attlist %q", n.N)
			for _, a := range x.attrs {
				def, v := a.Def, sane(string(a.V))
				if def == 0 {
					def = 3
					if a.V != "" {
						def = 1
					}
				}
				switch def {
				case 1:
					p.tok("!attr %q %q default %q", a.N, a.Typ, v)
				case 4:
					p.tok("!attr %q %q fixed %q", a.N, a.Typ, v)
				case 2:
					p.tok("!attr %q %q required", a.N, a.Typ)
				case 3:
					p.tok("!attr %q %q implied", a.N, a.Typ)
				}
			}
			p.tok("/attlist")
		case "Elem":
			ns := map[string]string{}
			var attrs []kv
			if n.P != "" && n.U != "" {
				ns[string(n.P)] = sane(string(n.U))
			}
			for _, a := range x.attrs {
				if a.P != "" && a.U != "" {
					ns[string(a.P)] = sane(string(a.U))
				}
				attrs = append(attrs, kv{fullName(a), sane(attrValue(a))})
			}
			p.tok("%s", elemTok(fullName(n), attrs, ns))
		case "Text":
			p.text.WriteString(sane(f.wrap(string(n.V))))
			p.inT = true
		case "Comment":
			p.tok("comment %q", lf(x.body))
		case "CData":
			p.tok("cdata %q", lf(x.body))
		case "PI":
			p.tok("pi %q %q", n.N, strings.TrimLeft(lf(string(n.V)), " \t\n"))
		}
		for _, k := range x.kids {
			walk(k)
		}
		switch n.T {
		case "Elem":
			p.tok("/elem %q", fullName(n))
		case "DTD":
			p.tok("/doctype")
		}
	}
	for _, k := range f.root.kids {
		walk(k)
	}
	return p.toks
}

func diffToks(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("item %d: parsed %.200s, written %.200s", i, g, w)
		}
	}
	return ""
}
