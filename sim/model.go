package main

// The reference model: what xmlwriter's documentation says each call puts in the
// stream, written without looking at buffers, faults or Go error plumbing. It is
// a plain stack machine producing a byte string.

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// Res is the outcome the model demands of a call.
type Res int

const (
	Acc   Res = iota // accepted: returns nil
	Clean            // rejected without a trace: returns an error, the history can go on
	Dirty            // rejected half-way: returns an error, the caller has to stop
)

func (r Res) String() string { return [...]string{"accepted", "rejected", "rejected half-way"}[r] }

// Ev is one node transition as an indenter sees it.
type Ev struct {
	St int // 0 open, 1 opened, 2 ended
	K  string
	Ch int
}

// EvRec is one expected indenter callback.
type EvRec struct {
	Last, Next Ev
	Out        int  // length of the stream when it happens
	LastAny    bool // the previous transition is not specified here
}

type nsDecl struct {
	p, u    string
	written bool
}

type frame struct {
	kind     string
	n        Node
	opened   bool
	selfDone bool
	children int
	ns       []nsDecl
	tail     string
	used     map[string]bool // generator: attribute names used on this element
}

// Model is the reference stack machine of one writer.
type Model struct {
	enforce, strict         bool
	newline, version, label string
	wrap                    func(string) string
	stack                   []*frame
	out                     []byte
	evs                     []EvRec
	track, inject           bool
	last                    Ev
	lastAny                 bool
	dead                    bool // a Dirty result happened
	maxDepth                int
}

func newModel(c *WCfg) *Model {
	m := &Model{enforce: !c.NoEnforce, strict: !c.NoStrict, newline: "\n", version: string(c.Version), label: "UTF-8"}
	if c.Newline != nil {
		m.newline = string(*c.Newline)
	}
	if c.Enc != "" {
		m.label = string(c.EncLabel)
	}
	m.wrap = func(s string) string { return s }
	if c.Indent == "rec" || c.Indent == "inject" || c.Indent == "recflush" {
		pre := string(c.WrapPre)
		m.wrap = func(s string) string { return pre + s + pre }
	}
	if c.Indent != "" {
		m.track = true
	}
	m.inject = c.Indent == "inject"
	return m
}

// Depth is the number of open nodes minus one.
func (m *Model) Depth() int { return len(m.stack) - 1 }

func (m *Model) top() *frame {
	if len(m.stack) == 0 {
		return nil
	}
	return m.stack[len(m.stack)-1]
}

func (m *Model) put(s ...string) {
	for _, x := range s {
		m.out = append(m.out, x...)
	}
}

func (m *Model) event(st int, k string, ch int) Ev {
	e := Ev{st, k, ch}
	if m.track {
		m.evs = append(m.evs, EvRec{m.last, e, len(m.out), m.lastAny})
		m.lastAny = false
	}
	if m.inject && injectsAt(e) {
		m.put(injectMark)
	}
	return e
}

// --- character classes, from the XML 1.0 productions ---

func nameStart(r rune) bool {
	return r == ':' || r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' ||
		r >= 0xC0 && r <= 0xD6 || r >= 0xD8 && r <= 0xF6 || r >= 0xF8 && r <= 0x2FF ||
		r >= 0x370 && r <= 0x37D || r >= 0x37F && r <= 0x1FFF || r >= 0x200C && r <= 0x200D ||
		r >= 0x2070 && r <= 0x218F || r >= 0x2C00 && r <= 0x2FEF || r >= 0x3001 && r <= 0xD7FF ||
		r >= 0xF900 && r <= 0xFDCF || r >= 0xFDF0 && r <= 0xFFFD
	// (XML has 0x10000-0xEFFFF too; the repository's tests want them refused)
}

func nameChar(r rune) bool {
	return nameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 ||
		r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

// validName accepts the empty string: emptiness is a separate rule per node.
func validName(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for i, r := range s {
		if i == 0 && !nameStart(r) || !nameChar(r) {
			return false
		}
	}
	return true
}

func xmlChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func discouraged(r rune) bool {
	return r >= 0x7F && r <= 0x84 || r >= 0x86 && r <= 0x9F || r >= 0xFDD0 && r <= 0xFDEF || r > 0xFFFF && r&0xFFFE == 0xFFFE
}

// completes: v, after what the node holds already, makes the sequence bad appear.
func completes(tail, v, bad string) bool {
	if k := len(tail) - (len(bad) - 1); k > 0 {
		tail = tail[k:] // (what was written without checks stays as it is)
	}
	return strings.Contains(tail+v, bad)
}

func validChars(s string, strict bool) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if !xmlChar(r) || strict && discouraged(r) {
			return false
		}
	}
	return true
}

func validPubID(s string) bool {
	for _, r := range s {
		if !(r == 0x20 || r == 0xD || r == 0xA || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' ||
			strings.ContainsRune("-'()+,./:=?;!*#@$_%", r)) {
			return false
		}
	}
	return true
}

func validEncName(s string) bool {
	for i, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && (r >= '0' && r <= '9' || r == '.' || r == '_' || r == '-') {
			continue
		}
		return false
	}
	return true
}

// --- escaping ---

// attrPlain are the bytes the writer passes through at the start of an attribute
// value; up to the first other byte an apostrophe stays as it is (both forms mean
// the same in a double-quoted value).
const attrPlain = "'!#$%()*+,-./0123456789:;=?@ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz[]^_`~"

func escape(s string, attr bool) string {
	var b strings.Builder
	if attr {
		rest := strings.TrimLeft(s, attrPlain)
		b.WriteString(s[:len(s)-len(rest)])
		s = rest
	}
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && w == 1:
			b.WriteString("\uFFFD")
		case r == '"':
			b.WriteString("&#34;")
		case r == '\'':
			b.WriteString("&#39;")
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '\r':
			b.WriteString("&#xD;")
		case attr && r == '\t':
			b.WriteString("&#x9;")
		case attr && r == '\n':
			b.WriteString("&#xA;")
		case !xmlChar(r):
			b.WriteString("\uFFFD")
		default:
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	return b.String()
}

// --- placement ---

var placement = map[string]string{ // "-" is "no parent"
	"Doc": "-", "DTD": "- Doc", "DTDEntity": "- DTD", "DTDElem": "- DTD", "DTDAttList": "- DTD", "Notation": "- DTD",
	"DTDAttr": "- DTDAttList", "Comment": "- Doc DTD Elem", "PI": "- Doc Elem", "Elem": "- Doc Elem", "Attr": "- Elem",
	"Text": "- Elem", "CData": "- Elem", "CommentContent": "- Comment", "CDataContent": "- CData",
}

var placed = map[string]map[string]bool{}

func init() {
	for k, v := range placement {
		placed[k] = map[string]bool{}
		for _, p := range strings.Fields(v) {
			placed[k][p] = true
		}
	}
}

func (m *Model) parent() string {
	if f := m.top(); f != nil {
		return f.kind
	}
	return "-"
}

func (m *Model) allowed(kind string) bool {
	return !m.enforce || kind == "Raw" || placed[kind][m.parent()]
}

// --- transitions ---

func dirtyIf(r Res) Res {
	if r != Acc {
		return Dirty
	}
	return Acc
}

// next completes the start of the current node, if it is not complete yet.
func (m *Model) next() Res {
	f := m.top()
	if f == nil {
		return Acc
	}
	f.children++
	if !f.opened {
		return dirtyIf(m.complete(f))
	}
	return Acc
}

func (m *Model) complete(f *frame) Res {
	f.opened = true
	m.last = m.event(1, f.kind, f.children)
	r := Acc
	switch f.kind {
	case "Elem":
		for i := range f.ns {
			if !f.ns[i].written {
				f.ns[i].written = true
				m.put(" xmlns:", f.ns[i].p, `="`, escape(f.ns[i].u, true), `"`)
			}
		}
		if f.children == 0 && !f.n.F && len(f.n.C) == 0 {
			f.selfDone = true
			m.put("/>")
		} else {
			m.put(">")
		}
		for _, c := range f.n.C {
			if r = m.write(c); r != Acc {
				return Dirty
			}
		}
	case "Comment":
		if f.n.V != "" {
			r = m.write(Node{T: "CommentContent", V: f.n.V})
		}
	case "CData":
		if f.n.V != "" {
			r = m.write(Node{T: "CDataContent", V: f.n.V})
		}
	case "DTD":
		if f.children > 0 {
			m.put(" [")
		}
	case "DTDAttList":
		for _, a := range f.n.A {
			if r = m.write(a); r != Acc {
				return Dirty
			}
		}
	}
	if r != Acc {
		return Dirty
	}
	return Acc
}

// pop ends the current node.
func (m *Model) pop() Res {
	f := m.top()
	if f == nil {
		return Clean
	}
	was := f.opened
	if !was {
		if m.complete(f) != Acc {
			return Dirty
		}
	}
	if m.enforce && f.kind == "Comment" && strings.HasSuffix(f.tail, "-") {
		if was {
			return Clean
		}
		return Dirty
	}
	e := m.event(2, f.kind, f.children)
	switch f.kind {
	case "Elem":
		if !f.selfDone {
			m.put("</", fullName(f.n), ">")
		}
	case "Comment":
		m.put("-->")
	case "CData":
		m.put("]]>")
	case "DTD":
		if f.children > 0 {
			m.put("]")
		}
		m.put(">")
	case "DTDAttList":
		m.put(">")
	}
	m.last = e
	m.stack = m.stack[:len(m.stack)-1]
	return Acc
}

func fullName(n Node) string {
	if n.P != "" {
		return string(n.P) + ":" + string(n.N)
	}
	return string(n.N)
}

func (m *Model) attrText(name, value string) { m.put(" ", name, `="`, escape(value, true), `"`) }

// externalID appends PUBLIC/SYSTEM identifiers; false means rejected.
func (m *Model) externalID(pub, sys string) bool {
	if pub != "" {
		if m.enforce && (sys == "" || !validPubID(pub)) {
			return false
		}
		m.put(`PUBLIC "`, pub, `"`)
		if sys != "" {
			m.put(" ")
			return m.quoted(sys)
		}
		return true
	}
	if sys != "" {
		m.put("SYSTEM ")
		return m.quoted(sys)
	}
	return true
}

// quoted appends a literal in whichever quotes it does not contain.
func (m *Model) quoted(s string) bool {
	q := `"`
	if m.enforce && !validChars(s, false) {
		return false
	}
	if strings.Contains(s, `"`) {
		q = `'`
		if m.enforce && strings.Contains(s, `'`) {
			return false
		}
	}
	m.put(q, s, q)
	return true
}

// start pushes a startable node.
func (m *Model) start(n Node) Res {
	if m.enforce {
		switch n.T {
		case "Elem":
			if fullName(n) == "" || !validName(fullName(n)) {
				return Clean
			}
		case "DTD", "DTDAttList":
			if n.N == "" || !validName(string(n.N)) {
				return Clean
			}
		}
	}
	if !m.allowed(n.T) {
		return Clean
	}
	if m.next() != Acc {
		return Dirty
	}
	f := &frame{kind: n.T, n: n}
	m.stack = append(m.stack, f)
	if len(m.stack) > m.maxDepth {
		m.maxDepth = len(m.stack)
	}
	m.last = m.event(0, n.T, 0)
	switch n.T {
	case "Doc":
		m.put("<?xml")
		some := false
		if !n.SV {
			v := m.version
			if v == "" {
				v = "1.0"
			}
			if n.FV != nil {
				v = string(*n.FV)
			}
			m.attrText("version", v)
			some = true
		}
		if !n.SE {
			e := m.label
			if n.FE != nil {
				e = string(*n.FE)
			}
			if e != "" {
				if m.enforce && !validEncName(e) {
					return Dirty
				}
				m.attrText("encoding", e)
				some = true
			}
		}
		if n.SA != nil {
			m.attrText("standalone", map[bool]string{true: "yes", false: "no"}[*n.SA])
			some = true
		}
		if !some {
			m.put(" ")
		}
		m.put("?>", m.newline)
	case "DTD":
		m.put("<!DOCTYPE ", string(n.N))
		if n.Pub != "" || n.Sys != "" {
			m.put(" ")
			if !m.externalID(string(n.Pub), string(n.Sys)) {
				return Dirty
			}
		}
	case "DTDAttList":
		m.put("<!ATTLIST ", string(n.N))
	case "Comment":
		m.put("<!--")
	case "CData":
		m.put("<![CDATA[")
	case "Elem":
		m.put("<", fullName(n))
		if n.P != "" && n.U != "" {
			f.ns = append(f.ns, nsDecl{string(n.P), string(n.U), true})
			m.attrText("xmlns:"+string(n.P), string(n.U))
		}
		for _, a := range n.A {
			if m.write(a) != Acc {
				return Dirty
			}
		}
	}
	return Acc
}

func (m *Model) leaf(kind string) Res {
	if m.next() != Acc {
		return Dirty
	}
	m.event(0, kind, 0)
	m.last = Ev{2, kind, 0}
	return Acc
}

func attrValue(n Node) string {
	switch n.Cv {
	case "":
		return string(n.V)
	case "bool":
		return strconv.FormatBool(n.I != 0)
	case "float32":
		return strconv.FormatFloat(float64(float32(n.I)/8), 'g', -1, 32)
	case "float64":
		return strconv.FormatFloat(float64(n.I)/8, 'g', -1, 64)
	case "int8":
		return strconv.Itoa(int(int8(n.I)))
	case "int16":
		return strconv.Itoa(int(int16(n.I)))
	case "int32":
		return strconv.Itoa(int(int32(n.I)))
	case "uint8":
		return strconv.Itoa(int(uint8(n.I)))
	case "uint16":
		return strconv.Itoa(int(uint16(n.I)))
	case "uint32":
		return strconv.Itoa(int(uint32(n.I)))
	case "uint64":
		return strconv.FormatUint(uint64(n.I), 10)
	}
	return strconv.FormatInt(n.I, 10) // int, int64, uint (non-negative)
}

// write applies one Writable.
func (m *Model) write(n Node) Res {
	v := string(n.V)
	switch n.T {
	case "Raw":
		m.event(0, "Raw", 0)
		m.last = Ev{2, "Raw", 0}
		m.put(v)
		if f := m.top(); f != nil && v != "" {
			f.tail = ""
		}
		return Acc

	case "Text":
		v = m.wrap(v)
		if !m.allowed("Text") {
			return Clean
		}
		if m.leaf("Text") != Acc {
			return Dirty
		}
		m.put(escape(v, false))
		return Acc

	case "CommentContent", "CDataContent":
		comment := n.T == "CommentContent"
		bad, home := "]]>", "CData"
		if comment {
			v, bad, home = m.wrap(v), "--", "Comment"
		}
		tail := ""
		f := m.top()
		if f != nil && f.kind == home {
			tail = f.tail
		}
		if !m.allowed(n.T) {
			return Clean
		}
		if m.enforce {
			if strings.Contains(v, bad) || !validChars(v, m.strict) {
				return Clean
			}
			if f != nil && !f.opened && f.n.V != "" {
				if m.next() != Acc {
					return Dirty
				}
				tail = f.tail
				if completes(tail, v, bad) {
					return Dirty // the deferred content came out, this one is refused
				}
				m.event(0, n.T, 0)
				m.last = Ev{2, n.T, 0}
				goto emit
			}
			if completes(tail, v, bad) {
				return Clean
			}
		}
		if m.leaf(n.T) != Acc {
			return Dirty
		}
		if f != nil && f.kind == home {
			tail = f.tail
		}
	emit:
		m.put(v)
		if f != nil && f.kind == home {
			t := tail + v
			if len(t) > 2 {
				t = t[len(t)-2:]
			}
			f.tail = t
		}
		return Acc

	case "Comment", "CData", "Elem", "DTDAttList":
		if r := m.start(n); r != Acc {
			return r
		}
		return dirtyIf(m.pop())

	case "Attr":
		f := m.top()
		if m.enforce {
			if !m.allowed("Attr") || f != nil && f.opened || n.N == "" || !validName(fullName(n)) {
				return Clean
			}
		}
		declare := false
		if n.P != "" && n.U != "" && f != nil {
			declare = true
			for _, d := range f.ns {
				if d.p == string(n.P) {
					if d.u != string(n.U) {
						return Clean
					}
					declare = false
				}
			}
		}
		m.event(0, "Attr", 0)
		m.attrText(fullName(n), attrValue(n))
		if declare {
			f.ns = append(f.ns, nsDecl{string(n.P), string(n.U), false})
		}
		m.last = Ev{2, "Attr", 0}
		return Acc

	case "PI":
		if m.enforce {
			if !m.allowed("PI") || strings.EqualFold(string(n.N), "xml") || !validName(string(n.N)) ||
				strings.Contains(v, "?>") || !validChars(v, m.strict) {
				return Clean
			}
		}
		if m.leaf("PI") != Acc {
			return Dirty
		}
		m.put("<?", string(n.N), " ", v, "?>")
		return Acc

	case "DTDElem":
		if m.enforce && (!m.allowed(n.T) || n.N == "" || v == "" || !validName(string(n.N))) {
			return Clean
		}
		if m.leaf(n.T) != Acc {
			return Dirty
		}
		m.put("<!ELEMENT ", string(n.N), " ", v, ">")
		return Acc

	case "DTDEntity":
		if m.enforce && (!m.allowed(n.T) || n.N == "" || !validName(string(n.N))) {
			return Clean
		}
		if m.leaf(n.T) != Acc {
			return Dirty
		}
		m.put("<!ENTITY ")
		if n.PE {
			m.put("% ")
		}
		m.put(string(n.N), " ")
		if n.Sys != "" || n.Pub != "" {
			if m.enforce && v != "" || !m.externalID(string(n.Pub), string(n.Sys)) {
				return Dirty
			}
			if n.ND != "" {
				if n.PE || m.enforce && !validName(string(n.ND)) {
					return Dirty
				}
				m.put(" NDATA ", string(n.ND))
			}
		} else if m.enforce && n.ND != "" || !m.quoted(v) {
			return Dirty
		}
		m.put(">")
		return Acc

	case "DTDAttr":
		if m.enforce && (!m.allowed(n.T) || n.N == "" || n.Typ == "" || !validName(string(n.N))) {
			return Clean
		}
		if m.leaf(n.T) != Acc {
			return Dirty
		}
		m.put(" ", string(n.N), " ", string(n.Typ), " ")
		def := n.Def
		if def == 0 {
			def = 3
			if v != "" {
				def = 1
			}
		}
		switch def {
		case 1:
			m.put(`"`, escape(v, true), `"`)
		case 4:
			m.put(`#FIXED "`, escape(v, true), `"`)
		case 2, 3:
			if v != "" {
				return Dirty
			}
			m.put(map[int]string{2: "#REQUIRED", 3: "#IMPLIED"}[def])
		default:
			return Dirty
		}
		return Acc

	case "Notation":
		if m.enforce && (!m.allowed(n.T) || n.N == "" || !validName(string(n.N)) || n.Pub == "" && n.Sys == "") {
			return Clean
		}
		if m.leaf(n.T) != Acc {
			return Dirty
		}
		m.put("<!NOTATION ", string(n.N), " ")
		if n.Sys != "" {
			if !m.externalID(string(n.Pub), string(n.Sys)) {
				return Dirty
			}
		} else if n.Pub != "" {
			if m.enforce && !validPubID(string(n.Pub)) {
				return Dirty
			}
			m.put(`PUBLIC "`, string(n.Pub), `"`)
		}
		m.put(">")
		return Acc
	}
	panic("model: unknown node " + n.T)
}

// end applies End(kind, names...).
func (m *Model) end(kind string, names []string, full bool) Res {
	f := m.top()
	if f == nil || f.kind != kind {
		return Clean
	}
	switch len(names) {
	case 0:
	case 1:
		if kind != "Elem" && kind != "DTD" && kind != "DTDAttList" || string(f.n.N) != names[0] {
			return Clean
		}
	case 2:
		if kind != "Elem" || string(f.n.P) != names[0] || string(f.n.N) != names[1] {
			return Clean
		}
	default:
		return Clean
	}
	if full {
		f.n.F = true
	}
	return m.pop()
}

func (m *Model) popN(n int) Res {
	for i := 0; i < n; i++ {
		if r := m.pop(); r != Acc {
			if i > 0 {
				return Dirty
			}
			return r
		}
	}
	return Acc
}

// Apply applies one call.
func (m *Model) Apply(o Op) Res {
	r := m.apply(o)
	if r == Dirty {
		m.dead = true
	}
	if r != Acc {
		m.lastAny = true
	}
	return r
}

func (m *Model) apply(o Op) Res {
	switch o.F {
	case "Start", "StartX":
		for _, n := range o.N {
			if r := m.start(n); r != Acc {
				return r
			}
		}
	case "Write", "WriteX":
		for _, n := range o.N {
			if r := m.write(n); r != Acc {
				return r
			}
		}
	case "Block":
		if r := m.start(o.N[0]); r != Acc {
			return r
		}
		for _, n := range o.N[1:] {
			if r := m.write(n); r != Acc {
				return r
			}
		}
		return m.pop()
	case "End", "EndX":
		return m.end(o.Kind, o.Names, false)
	case "EndFull":
		return m.end("Elem", o.Names, true)
	case "EndAny":
		return m.pop()
	case "EndAll", "EndAllFlush":
		return m.popN(len(m.stack))
	case "EndDoc":
		if len(m.stack) == 0 {
			return Clean
		}
		if m.stack[0].kind != "Doc" {
			if len(m.stack) == 1 {
				return Clean
			}
			return Dirty
		}
		return m.popN(len(m.stack))
	case "EndTo":
		if m.Depth() <= o.D {
			return Clean
		}
		k := m.Depth() - (o.D + 1)
		if r := m.popN(k); r != Acc {
			return r
		}
		r := m.end(o.Kind, o.Names, false)
		if r != Acc && k > 0 {
			return Dirty
		}
		return r
	case "Next":
		return m.next()
	case "Opt":
		switch o.Kind {
		case "enforce":
			m.enforce = o.D != 0
		case "strict":
			m.strict = o.D != 0
		case "newline":
			m.newline = o.Names[0]
		case "version":
			m.version = o.Names[0]
		case "indenter":
			pre := ""
			if o.D != 0 {
				pre = o.Names[0]
			}
			m.wrap = func(s string) string { return pre + s + pre }
		}
	case "Flush":
	default:
		panic("model: unknown op " + o.F)
	}
	return Acc
}

// clone copies the machine (for trying a call out).
func (m *Model) clone() *Model {
	c := *m
	c.out = nil // nothing reads it back
	c.evs = nil
	c.track = false
	c.stack = make([]*frame, len(m.stack))
	for i, f := range m.stack {
		g := *f
		g.ns = append([]nsDecl(nil), f.ns...)
		c.stack[i] = &g
	}
	return &c
}
