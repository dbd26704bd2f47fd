package main

// History generation. Everything is drawn from the run's own PRNG; each run
// draws its own mix (swarm style) so that runs differ in kind, not only in detail.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Gen generates one writer's history.
type Gen struct {
	r *Rand
	m *Model
	c *WCfg

	disc      bool // one well-formed document, caller discipline kept
	badPct    int  // calls meant to be rejected
	flushPct  int
	nextPct   int
	rawPct    int
	emptyRaw  int // raw writes of nothing, which a document does not show
	deepPct   int // preference for starting elements
	longPct   int // long strings
	longLen   int
	huge      int // strings beyond 64 KiB still to come
	treePct   int // structured Content/Attrs
	classes   []int
	nsPct     int
	noDTD     bool
	noPI      bool
	onlyElem  bool
	encOK     func(s string) bool // restrict names and unescaped content to a repertoire
	noCR      bool
	noSpecial bool // values that an XML parser hands back unchanged
	maxDepth  int
	dirtyPct  int
	rootDone  bool
	dtdDone   bool
	extra     func(g *Gen) (Op, bool)
	ops       []Op
	offs      []int // stream length after each call
	lastAcc   bool
	noMerge   bool
	allOpts   bool // every public field may be set between calls
	richDoc   bool // XML declarations of every form
	sweep     bool // whole blocks of Unicode in texts
	optPct    int  // the caller changes options between calls
	manyNS    bool // many different prefixes
	oftenMany bool // bursts of one call more often
	noComment bool
	noCData   bool
	frags     []string // replaces plainFrags
}

var goodNames = []string{"a", "b", "foo", "bar", "x-y", "_u", "a.b", "n1", "é", "ns:el", "Zz", "aͰ", "longer-element-name", "xmla", "o‿k"}
var asciiNames = []string{"a", "b", "foo", "bar", "x-y", "_u", "a.b", "n1", "Zz", "longer-element-name", "q1"}
var badNames = []string{"-a", "1", "a b", "a<", "a>b", "a\"", "a\x00", "a/b", "\xff", "a=", "!", "a\xc3", "a\n", ".x", "a&b", "×", "a;", "a'", "\u0300a", "😀"}

// characters at the edges of the classes that names are made of
var nameRunes = []rune{':', '_', 'A', 'Z', 'a', 'z', 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D, 0x37F, 0x1FFF, 0x200C, 0x200D, 0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0x65E5, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFFD}
var nameRunes2 = []rune{'-', '.', '0', '9', 0xB7, 0x300, 0x36F, 0x203F, 0x2040}
var notNameRunes = []rune{0, 0x20, ',', '/', ';', '@', '[', '^', '`', '{', 0x7F, 0x80, 0xB6, 0xB8, 0xBF, 0xD7, 0xF7, 0x37E, 0x2000, 0x200B, 0x200E, 0x203E, 0x2041, 0x206F, 0x2190, 0x2BFF, 0x2FF0, 0x3000, 0xE000, 0xF8FF, 0xFDD0, 0xFDEF, 0xFFFE, 0xFFFF, 0x1F600}

func (g *Gen) edgeName() string {
	s := string(nameRunes[g.r.N(len(nameRunes))])
	for g.r.P(25) { // or any of those between the edges
		c := string(rune(0x80 + g.r.N(0xF780)))
		if validName(c) {
			s = c
			break
		}
	}
	for k := g.r.N(5); k > 0; k-- {
		if g.r.P(40) {
			s += string(nameRunes2[g.r.N(len(nameRunes2))])
		} else {
			s += string(nameRunes[g.r.N(len(nameRunes))])
		}
	}
	return s
}

var prefixes = []string{"p", "q", "ns1", "r"}
var uris = []string{"urn:1", "urn:2", "http://x/y?a=1&b=2", "u<>\"'", "ü"}

var textFrags = [][]string{
	{"a", "hello ", "world", "0", "some text", " ", "x=y"},
	{"<", ">", "&", "\"", "'", "&amp;", "<b>", "]]>", "<!--", "-->", "<![CDATA[", "?>", "&#10;", "<?pi", "a<b", "x&y", "q\"q", "it's"},
	{"\t", "\n", "\r", "\r\n", " \t", "  ", "\n\n"},
	{"é", "ü", "ß", "日本", "語", "€", "\u00a0", "Ω", "\u2028", "я"},
	{"😀", "𝒳", "\U0010FFFD", "\uFFFD", "\uE000", "\uD7FF"},
	{"\x00", "\x01", "\x0b", "\x1f", "\uFFFE", "\uFFFF", "\x7f", "\u0085", "\u0080", "\u0084", "\U0001FFFE"},
	{"\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\xaf", "\x80", "\xf4\x90\x80\x80"},
}

// edgeRune is a character at the edge of those that XML allows and does not
// discourage: one of them, or one of the others.
func (g *Gen) edgeRune(good bool) rune {
	for {
		var c rune
		if g.r.P(50) {
			c = rune(g.r.N(17)<<16 + pick(g.r, 0, 1, 0xFFFD, 0xFFFE, 0xFFFF))
		} else {
			c = rune(pick(g.r, 9, 10, 13, 0x1F, 0x20, 0x7E, 0x84, 0x85, 0x9F, 0xD7FF, 0xE000, 0xFDD0, 0xFDEF, 0xFFFD) + g.r.N(3) - 1)
		}
		if c == 13 { // a parser hands it back as a newline where it cannot be escaped
			continue
		}
		if ok := validChars(string(c), true); ok == good && utf8.ValidRune(c) {
			return c
		}
	}
}

// anyRune is any character beyond ASCII that XML allows and does not discourage.
func (g *Gen) anyRune() rune {
	for {
		c := rune(0xA0 + g.r.N(0x110000-0xA0))
		switch g.r.N(4) {
		case 2: // that something might want to drop, to normalise or to take for space
			c = pick(g.r, 0xA0, 0xAD, 0x300, 0x34F, 0x61C, 0x115F, 0x1680, 0x180E, 0x2000+rune(g.r.N(0x10)), 0x2028+rune(g.r.N(7)), 0x205F+rune(g.r.N(16)), 0x212B, 0x3000, 0x3164, 0xFE00+rune(g.r.N(16)), 0xFEFF, 0xFF1C, 0xFFA0, 0xFFF9+rune(g.r.N(5)), 0x1D173, 0xE0001, 0xE0020)
		case 0:
			c = rune(0xA0 + g.r.N(0x760))
		case 1:
			c = rune(0x800 + g.r.N(0xF7FF))
		}
		if utf8.ValidRune(c) && validChars(string(c), true) {
			return c
		}
	}
}

// text returns an arbitrary string for a place where everything is escaped.
func (g *Gen) text() string {
	var b strings.Builder
	n := g.r.N(5)
	if g.r.P(15) {
		n = 0
	}
	for i := 0; i < n; i++ {
		cl := g.r.Pick(g.classes)
		fr := textFrags[cl]
		if (cl == 4 || cl == 5) && g.r.P(30) {
			b.WriteRune(g.edgeRune(cl == 4))
			continue
		}
		if (cl == 3 || cl == 4) && g.r.P(20) {
			b.WriteRune(g.anyRune())
			continue
		}
		b.WriteString(fr[g.r.N(len(fr))])
	}
	if g.sweep && g.r.P(12) { // 64 neighbours
		c := rune(g.r.N(0x110000/64) * 64)
		if g.r.P(60) {
			c = rune(g.r.N(0x10000/64) * 64)
		}
		for k := rune(0); k < 64; k++ {
			if (g.encOK == nil || c >= 0x80) && !(g.noCR && c+k == '\r') {
				b.WriteRune(c + k)
			}
		}
	}
	s := b.String()
	if g.r.P(g.longPct) {
		s = g.stretch(s)
	}
	if g.noCR {
		s = strings.ReplaceAll(s, "\r", "")
	}
	return s
}

// mayHuge lets a run have one or two strings of 16 to 192 KiB, where the buffer is
// not so small that they would take a write for every byte.
func (g *Gen) mayHuge() {
	if (g.c.Buf == 0 || g.c.Buf >= 1024) && g.r.P(4) {
		g.huge = 1 + g.r.N(2)
		if g.longPct < 10 {
			g.longPct = 10
		}
	}
}

// stretch lengthens a string: beyond what buffers of any layer hold, and with
// characters of every width standing across their boundaries.
func (g *Gen) stretch(s string) string {
	n := 1 + g.r.N(g.longLen)
	if g.r.P(30) {
		n = g.longLen - 3 + g.r.N(7)
	} else if g.r.P(4) {
		n = 1<<(5+g.r.N(9)) - 3 + g.r.N(7)
	}
	if g.huge > 0 && g.r.P(25) {
		g.huge--
		n = 1<<(14+g.r.N(4)) - 3 + g.r.N(7)
		if g.r.P(40) {
			n = 1<<16 + g.r.N(1<<17)
		}
	} else if g.r.P(8) { // as long as a few buffers
		buf := g.c.Buf
		if buf == 0 {
			buf = 2048
		}
		n = (1+g.r.N(4))*buf - 1 + g.r.N(3)
	}
	if n <= len(s) || n < 1 {
		return s
	}
	var b strings.Builder
	unit := pick(g.r, "x", "x", "ab ", "y", "é", "日", "aé", "€x", "😀", "é日", "<", "a&b ", "''\"")
	if g.r.P(25) {
		unit = "日本語 é x 😀 "
	}
	for i := g.r.N(4); i > 0; i-- {
		b.WriteByte('z')
	}
	for b.Len()+len(unit) <= n-len(s) {
		b.WriteString(unit)
	}
	if g.r.P(50) {
		return b.String() + s
	}
	return s + b.String()
}

var plainFrags = []string{"a", "b c", " ", "-", "é", "<", "&", ">", "]", "日", "x", "'", "\"", "hi -you", "->", "> ", "&lt;", "]>", "\n", "0]", "?", "\t"}

// plain returns content for places where nothing is escaped; valid unless bad.
func (g *Gen) plain(bad string) string {
	for try := 0; try < 20; try++ {
		var b strings.Builder
		for i, n := 0, g.r.N(4); i < n; i++ {
			fr := plainFrags
			if g.frags != nil {
				fr = g.frags
			}
			switch k := g.r.N(100); {
			case k < 3:
				b.WriteRune(g.edgeRune(true))
			case k < 6:
				b.WriteRune(g.anyRune())
			case k == 6 && g.sweep && g.encOK == nil:
				c := rune(g.r.N(0x10000/64)*64 + g.r.N(2)*g.r.N(17)*0x10000)
				for k := rune(0); k < 64; k++ {
					if r := c + k; r >= 0x20 && utf8.ValidRune(r) && validChars(string(r), true) {
						b.WriteRune(r)
					}
				}
			}
			b.WriteString(fr[g.r.N(len(fr))])
		}
		s := b.String()
		if g.r.P(g.longPct) {
			s = g.stretch(s)
		}
		if !strings.Contains(s, bad) && (g.encOK == nil || g.encOK(s)) {
			return s
		}
	}
	return "z"
}

func (g *Gen) badPlain(bad string) string {
	if g.r.P(25) {
		return pick(g.r, "a", "", "é") + string(g.edgeRune(false)) + pick(g.r, "", "b")
	}
	return pick(g.r, "a", "", "é") + pick(g.r, bad, bad, "\x00", "\x0b", "\xff", "\uFFFF", "\u0085x\u0084", "\uFFFE", "\xc3") + pick(g.r, "", "b")
}

func (g *Gen) name() string {
	if g.disc && g.encOK == nil && g.r.P(2) {
		return g.edgeName()
	}
	if g.disc || g.encOK != nil {
		for {
			n := goodNames[g.r.N(len(goodNames))]
			if g.encOK == nil || g.encOK(n) {
				return n
			}
		}
	}
	if g.r.P(4) {
		return g.edgeName()
	}
	if g.r.P(2) {
		n := 1 + g.r.N(g.longLen)
		if g.r.P(10) {
			n = 1 + g.r.N(5000)
		}
		return strings.Repeat(pick(g.r, "n", "n", "né", "x日"), 1+n/3)
	}
	return goodNames[g.r.N(len(goodNames))]
}

// fan is how many of something a node has: few, now and then many.
func (g *Gen) fan() int {
	switch k := g.r.N(400); {
	case k < 2:
		if g.r.P(3) {
			return g.r.N(300)
		}
		return g.r.N(70)
	case k < 14:
		return 4 + g.r.N(14)
	}
	return g.r.N(4)
}

func (g *Gen) badName() string {
	if g.r.P(15) {
		n := g.edgeName()
		bad := string(notNameRunes[g.r.N(len(notNameRunes))])
		switch g.r.N(4) {
		case 0:
			return bad + n
		case 1:
			return string(nameRunes2[g.r.N(len(nameRunes2))]) + n
		case 2:
			return n + bad + "z"
		}
		return n + bad
	}
	return badNames[g.r.N(len(badNames))]
}

func (g *Gen) prefix() string {
	if g.manyNS && g.r.P(80) {
		return "n" + strconv.Itoa(g.r.N(40))
	}
	p := prefixes[g.r.N(len(prefixes))]
	if g.r.P(10) { // almost the same
		p = pick(g.r, strings.ToUpper(p), p+p, p+"-", p+".", p+"1", "_"+p, p[:1])
	}
	return p
}

func (g *Gen) uri() S {
	u := uris[g.r.N(len(uris))]
	if g.r.P(10) {
		u = g.almost(u)
	}
	return S(u)
}

// almost is nearly the same string, but a different one.
func (g *Gen) almost(s string) string {
	for {
		t := pick(g.r, s+"/", s+"#", s+" ", " "+s, s+"\t", s+"\n", s+s, s+"1", strings.ToUpper(s), strings.Title(s), "x"+s, s[:len(s)-1], s[1:], strings.Replace(s, ":", "::", 1), strings.Replace(s, ":", "%3A", 1))
		if t != s && t != "" && utf8.ValidString(t) {
			return t
		}
	}
}

func (g *Gen) attr(used map[string]bool) (Node, bool) {
	n := Node{T: "Attr", N: S(g.name())}
	if g.r.P(g.nsPct) {
		n.P = S(g.prefix())
		n.N = S(asciiNames[g.r.N(len(asciiNames))])
		if g.r.P(80) {
			n.U = g.uri()
		}
	} else if g.r.P(5) {
		n.U = g.uri() // a URI without a prefix declares nothing
	}
	if g.r.P(12) {
		n.Cv = pick(g.r, "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64")
		n.I = int64(g.r.Next())
		switch g.r.N(4) {
		case 0:
			n.I = int64(g.r.N(300)) - 150
		case 1:
			n.I = pick(g.r, int64(0), 1, -1, 127, 128, -128, 255, 256, 32767, -32768, 65535, 1<<31-1, -1<<31, 1<<32-1, 1<<63-1, -1<<63)
		}
		if n.Cv == "uint" && n.I < 0 {
			n.I = -(n.I + 1)
		}
	} else {
		n.V = S(g.text())
	}
	if used != nil {
		if used[fullName(n)] && g.r.P(50) {
			n.N += S("-" + strconv.Itoa(len(used)))
		}
		if used[fullName(n)] {
			return n, false
		}
		used[fullName(n)] = true
	}
	return n, true
}

func (g *Gen) elem(depth int) Node {
	n := Node{T: "Elem", N: S(g.name())}
	if g.r.P(g.nsPct) {
		n.P = S(g.prefix())
		n.N = S(asciiNames[g.r.N(len(asciiNames))])
		if g.r.P(80) {
			n.U = g.uri()
		}
	} else if g.r.P(4) {
		n.U = g.uri() // a URI without a prefix declares nothing
	}
	n.F = g.r.P(10)
	if g.r.P(g.treePct) {
		used := map[string]bool{}
		ns := map[S]S{}
		if n.P != "" && n.U != "" {
			ns[n.P] = n.U
		}
		for k := g.fan(); k > 0; k-- {
			a, ok := g.attr(used)
			if !ok {
				continue
			}
			if a.P != "" && a.U != "" {
				if u, has := ns[a.P]; has && u != a.U {
					continue
				}
				ns[a.P] = a.U
			}
			n.A = append(n.A, a)
		}
	}
	if depth > 0 && g.r.P(g.treePct) {
		for k := g.fan(); k > 0; k-- {
			n.C = append(n.C, g.content(depth-1))
		}
	}
	return n
}

// content is a node that may stand in an element.
func (g *Gen) content(depth int) Node {
	n := g.child(depth)
	n.Ptr = g.r.P(4)
	return n
}

func (g *Gen) child(depth int) Node {
	if g.onlyElem {
		return g.elem(depth)
	}
	if g.rawPct > 0 && !g.disc && g.r.P(g.rawPct/3) {
		return Node{T: "Raw", V: S(g.text())}
	}
	switch g.r.Pick([]int{40, 30, 12, 12, 6}) {
	case 1:
		return Node{T: "Text", V: S(g.text())}
	case 2:
		if !g.noComment {
			return g.comment()
		}
	case 3:
		if !g.noCData {
			return g.cdata()
		}
	case 4:
		if !g.noPI {
			return g.pi()
		}
	}
	return g.elem(depth)
}

func (g *Gen) comment() Node {
	v := g.plain("--")
	v = strings.TrimRight(v, "-")
	return Node{T: "Comment", V: S(v)}
}

func (g *Gen) cdata() Node { return Node{T: "CData", V: S(g.plain("]]>"))} }

func (g *Gen) pi() Node {
	n := Node{T: "PI", N: S(g.name()), V: S(g.plain("?>"))}
	if strings.EqualFold(string(n.N), "xml") {
		n.N = "p"
	}
	return n
}

// quotable is a string that can stand in a literal, often with one kind of quote.
func (g *Gen) quotable() string {
	q := pick(g.r, "\"", "'")
	s := ""
	for k := 1 + g.r.N(4); k > 0; k-- {
		if g.r.P(10) {
			s += pick(g.r, "\n", "\t", "  ", "\n ", string(g.anyRune()))
			continue
		}
		s += pick(g.r, q, q, "a", " ", "x&#62;y", "é", "http://x/y", "&lt;", ">", "z", pick(g.r, "\x7f", "\u0084", "\ufdd0", "\U0001fffe", "b"))
	}
	return s
}

func (g *Gen) sysID() string {
	if g.r.P(40) {
		if s := g.quotable(); g.encOK == nil || g.encOK(s) {
			return s
		}
	}
	if g.r.P(15) {
		s := pick(g.r, "", " ", "\n", "\t", "%") + g.plain("'") + pick(g.r, "", "", " ", "\n", "\t", "/", "\u00a0", "%", "#f")
		if g.encOK == nil || g.encOK(s) {
			return s
		}
	}
	s := pick(g.r, "sys", "http://x/y.dtd", "a&b", "it's", "say \"hi\"", "", "x y", "é<>")
	if g.encOK != nil && !g.encOK(s) {
		return "sys"
	}
	if g.r.P(g.longPct) {
		s += strings.Repeat(pick(g.r, "s", "é"), g.r.N(g.longLen)/2)
		if g.encOK != nil && !g.encOK(s) {
			return "sys"
		}
	}
	return s
}

// pubChars are the characters that rule PubidChar names, by class; a carriage
// return, which a parser hands back as a newline, is left to histories that are
// not parsed.
const pubChars = "  \nAZazMm059-'()+,./:=?;!*#@$_%"

func (g *Gen) pubID() string {
	if g.r.P(30) {
		var b []byte
		for k := 1 + g.r.N(8); k > 0; k-- {
			b = append(b, pubChars[g.r.N(len(pubChars))])
			if !g.disc && g.r.P(3) {
				b = append(b, '\r')
			}
		}
		s := string(b)
		if g.r.P(g.longPct) {
			s += strings.Repeat(pick(g.r, "x", "A b"), g.r.N(g.longLen)/2)
		}
		return s
	}
	return pick(g.r, "pub", "-//W3C//DTD X 1.0//EN", "a b", "+//x:y?z=1;!*#@$_%", "")
}

// badPubID is a public identifier with one character that is not allowed.
func (g *Gen) badPubID() S {
	s := g.pubID()
	i := g.r.N(len(s) + 1)
	return S(s[:i] + pick(g.r, "\"", "&", "<", ">", "[", "\\", "]", "^", "`", "{", "|", "}", "~", "\t", "\x00", "\x1f", "\x7f", "\u0080", "\u00a0", "é", "\xff", "\v") + s[i:])
}

func (g *Gen) dtdAttr(used map[string]bool) Node {
	n := Node{T: "DTDAttr", N: S(g.name()), Typ: S(pick(g.r, "CDATA", "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(a|b)"))}
	n.Def = g.r.N(5)
	if n.Def == 0 || n.Def == 1 || n.Def == 4 {
		n.V = S(g.text())
	}
	return n
}

func (g *Gen) dtdLeaf(t string) Node {
	n := Node{T: t, N: S(g.name())}
	switch t {
	case "DTDElem":
		n.V = S(pick(g.r, "EMPTY", "ANY", "(a|b)*", "(#PCDATA)", "(a,b?,c+)"))
		if v := g.text(); !g.disc && g.encOK == nil && v != "" && g.r.P(15) {
			n.V = S(v) // as given, whatever it is
			if g.r.P(30) {
				n.V = "#PCDATA"
			}
		}
	case "Notation":
		n.Sys, n.Pub = S(g.sysID()), S(g.pubID())
		if n.Sys == "" && n.Pub == "" {
			n.Sys = "s"
		}
	case "DTDEntity":
		n.PE = g.r.P(25)
		if g.r.P(50) {
			n.V = S(pick(g.r, g.quotable(), g.quotable(), "value", "it's", "say \"hi\"", "&#62;", "", "a b", "&lt;x", strings.Repeat("e", g.r.N(60))))
		} else {
			n.Sys = S(g.sysID())
			if n.Sys == "" {
				n.Sys = "s"
			}
			if g.r.P(50) {
				n.Pub = S(g.pubID())
			}
			if !n.PE && g.r.P(40) {
				n.ND = S(g.name())
			}
		}
	case "DTDAttList":
		if g.r.P(g.treePct) {
			for k := g.fan(); k > 0; k-- {
				n.A = append(n.A, g.dtdAttr(nil))
			}
		}
	}
	return n
}

func (g *Gen) dtd() Node {
	n := Node{T: "DTD", N: S(g.name())}
	switch g.r.N(3) {
	case 0:
		n.Sys = S(g.sysID())
	case 1:
		n.Sys = S(g.sysID())
		if n.Sys != "" {
			n.Pub = S(g.pubID())
		}
	}
	return n
}

// encName is a valid encoding name, with the first and last of every range its
// rule names.
func (g *Gen) encName() string {
	const first = "AZazBYbyMm"
	const rest = first + "09._-5"
	b := []byte{first[g.r.N(len(first))]}
	for i := g.r.N(5); i > 0; i-- {
		b = append(b, rest[g.r.N(len(rest))])
	}
	return string(b)
}

func (g *Gen) doc() Node {
	n := Node{T: "Doc"}
	if g.richDoc {
		return g.declaration()
	}
	if g.r.P(30) {
		b := g.r.P(50)
		n.SA = &b
	}
	n.SE = g.r.P(15)
	if g.disc {
		if g.encOK == nil && g.r.P(15) {
			v := S(pick(g.r, "UTF-8", "utf-8", "x", "x.y_z-1", "ISO-8859-1", ""))
			if g.r.P(50) {
				v = S(g.encName())
			}
			n.FE = &v
		}
	} else {
		n.SV = g.r.P(15)
		if g.r.P(10) {
			v := S(pick(g.r, "1.1", "pants", "", "a<b"))
			n.FV = &v
		}
		if g.r.P(10) {
			v := S(pick(g.r, "pants", "UTF-8", "x.y_z-1", "", "z"+strings.Repeat("9", g.r.N(40))))
			if g.r.P(30) {
				v = S(g.encName())
			}
			n.FE = &v
		}
	}
	return n
}

// declaration is a Doc with any of its fields set, in any combination.
func (g *Gen) declaration() Node {
	r := g.r
	n := Node{T: "Doc", SE: r.P(25), SV: r.P(25)}
	if r.P(40) {
		b := r.P(50)
		n.SA = &b
	}
	if r.P(45) {
		v := S(pick(r, "1.0", "1.1", "", "2", "pants", "a<b&c>d", "it's", "say \"hi\"", "\t\n\r", "\xffx", "\x00", "é"+strings.Repeat("v", r.N(60))))
		if g.encOK != nil && !g.encOK(string(v)) {
			v = "1.0"
		}
		n.FV = &v
	}
	if r.P(45) {
		v := S(g.encName())
		if r.P(40) {
			v = S(pick(r, "UTF-8", "utf-8", "", "ISO-8859-1", "z"+strings.Repeat("9", r.N(60))))
		}
		n.FE = &v
	}
	return n
}

// anyNode is any node at all, valid in itself.
func (g *Gen) anyNode() Node {
	t := pick(g.r, "Raw", "Text", "CommentContent", "CDataContent", "Comment", "CData", "PI", "Attr", "Elem", "Doc", "DTD", "DTDElem", "DTDEntity", "DTDAttList", "DTDAttr", "Notation")
	return g.node(t)
}

func (g *Gen) node(t string) Node {
	switch t {
	case "Raw":
		return Node{T: "Raw", V: S(g.text())}
	case "Text":
		return Node{T: "Text", V: S(g.text())}
	case "CommentContent":
		return Node{T: t, V: S(g.plain("--"))}
	case "CDataContent":
		return Node{T: t, V: S(g.plain("]]>"))}
	case "Comment":
		return g.comment()
	case "CData":
		return g.cdata()
	case "PI":
		return g.pi()
	case "Attr":
		a, _ := g.attr(nil)
		return a
	case "Elem":
		return g.elem(2)
	case "Doc":
		return g.doc()
	case "DTD":
		return g.dtd()
	case "DTDAttr":
		return g.dtdAttr(nil)
	}
	return g.dtdLeaf(t)
}

// mangle makes a node invalid in one of the ways that are refused up front.
func (g *Gen) mangle(n Node) Node {
	bad := S(pick(g.r, "a\x00", "\xff", "\uFFFE", "it's \"it\""))
	switch {
	case g.m.enforce || !g.r.P(20): // (with enforcement these are refused half-way: dirtyOp)
	case n.T == "Doc":
		n.FE = &bad
		return n
	case n.T == "DTD" || n.T == "Notation":
		n.Sys, n.Pub = pick(g.r, bad, n.Sys, ""), pick(g.r, bad, g.badPubID(), "")
		return n
	case n.T == "DTDEntity":
		switch g.r.N(3) {
		case 0:
			n.V, n.Sys, n.Pub = bad, "", ""
		case 1:
			n.Sys, n.Pub = pick(g.r, bad, n.Sys), pick(g.r, bad, g.badPubID())
		case 2:
			n.PE, n.V, n.Sys, n.ND = false, "", "s", S(g.badName())
		}
		return n
	}
	switch n.T {
	case "Elem", "DTD", "DTDAttList", "DTDElem", "DTDEntity", "Notation", "DTDAttr", "PI", "Attr":
		n.N = S(g.badName())
		if g.r.P(10) && n.T != "PI" {
			n.N = ""
			n.P = ""
		}
		switch {
		case n.T == "PI" && g.r.P(60):
			n.N = S(pick(g.r, "xml", "XML", "xMl", "Xml", "xmL", "XMl", "XmL", "xML"))
			if g.r.P(60) {
				n.N = "ok"
				n.V = S(g.badPlain("?>"))
			}
		case n.T == "Notation" && g.r.P(20):
			n.N, n.Sys, n.Pub = "n", "", ""
		case n.T == "DTDElem" && g.r.P(20):
			n.N, n.V = "n", ""
		case n.T == "DTDAttr" && g.r.P(20):
			n.N, n.Typ = "n", ""
		}
	case "CommentContent":
		n.V = S(g.badPlain("--"))
	case "CDataContent":
		n.V = S(g.badPlain("]]>"))
	}
	return n
}

// asOp wraps a node into one of the equivalent calls.
func (g *Gen) asOp(n Node, start bool) Op {
	n.Ptr = g.r.P(6)
	if start {
		return Op{F: pick(g.r, "Start", "StartX"), N: []Node{n}}
	}
	return Op{F: pick(g.r, "Write", "WriteX"), N: []Node{n}}
}

func writable(t string) bool { return t != "Doc" && t != "DTD" }

func (g *Gen) try(o Op) Res { return g.m.clone().Apply(o) }

// badOp is a call the writer has to refuse without a trace, in the current state.
func (g *Gen) badOp() (Op, bool) {
	for try := 0; try < 12; try++ {
		var o Op
		switch g.r.Pick([]int{50, 25, 25}) {
		case 0: // misplaced or invalid node
			n := g.anyNode()
			if n.T == "Raw" {
				continue
			}
			if g.r.P(40) {
				n = g.mangle(n)
			}
			n.C = nil // (a bad tree may be refused half-way)
			o = g.asOp(n, startable(n.T) && (!writable(n.T) || g.r.P(60)))
		case 1: // end of the wrong thing
			o = g.badEnd()
		case 2:
			if n := g.nsConflict(); n != nil {
				o = g.asOp(*n, false)
			} else {
				continue
			}
		}
		if g.try(o) == Clean {
			return o, true
		}
	}
	return Op{}, false
}

func (g *Gen) nsConflict() *Node {
	f := g.m.top()
	if f == nil || f.kind != "Elem" || f.opened || len(f.ns) == 0 {
		return nil
	}
	d := f.ns[g.r.N(len(f.ns))]
	n := Node{T: "Attr", P: S(d.p), U: S(g.almost(d.u)), N: S(asciiNames[g.r.N(len(asciiNames))]), V: S(g.text())}
	return &n
}

var startKinds = []string{"Doc", "DTD", "DTDAttList", "Elem", "Comment", "CData"}

func (g *Gen) badEnd() Op {
	k := startKinds[g.r.N(len(startKinds))]
	f := g.m.top()
	switch g.r.N(7) {
	case 0:
		return Op{F: "EndTo", D: g.m.Depth() + g.r.N(3), Kind: k}
	case 1:
		if f != nil {
			return Op{F: "End", Kind: f.kind, Names: []string{string(f.n.N) + "x"}}
		}
	case 2:
		if f != nil {
			p, n := string(f.n.P), string(f.n.N)
			o := Op{F: "End", Kind: f.kind, Names: pick(g.r, []string{"zz", n}, []string{p, n + "x"}, []string{"a", "b", "c"}, []string{"", n}, []string{n, ""}, []string{n, p}, []string{p + ":" + n}, []string{p + ":", n}, []string{"", p + ":" + n}, []string{p + "x", n}, []string{""}, []string{p}, []string{"", ""}, []string{strings.ToUpper(n)}, []string{n, n}, []string{p, n, ""}, []string{n + " "}, []string{" " + n}, []string{n + "\n"}, []string{p + " ", n}, []string{p, " " + n}, []string{n + "\x00"}, []string{n + n})}
			if a, b, ok := strings.Cut(n, ":"); ok && g.r.P(40) {
				o.Names = pick(g.r, []string{a, b}, []string{a}, []string{b}, []string{p, b}, []string{p + ":" + a, b})
			}
			switch g.r.N(6) {
			case 0:
				o.F, o.D = "EndTo", g.m.Depth()-1
			case 1:
				if f.kind == "Elem" {
					o.F, o.Kind = "EndFull", ""
				}
			}
			return o
		}
	case 3:
		return Op{F: "EndFull"}
	case 4:
		if f != nil && f.kind == "Elem" {
			return Op{F: "EndFull", Names: []string{string(f.n.N) + "y"}}
		}
	case 5:
		return Op{F: "EndDoc"}
	}
	if g.r.P(20) {
		o := Op{F: "End", Kind: oddKinds[g.r.N(len(oddKinds))]}
		if g.r.P(25) {
			o.F, o.D = "EndTo", g.m.Depth()-1-g.r.N(2)
		}
		if f != nil && g.r.P(25) {
			o.Names = []string{string(f.n.N)}
		}
		return o
	}
	if k == "Doc" || g.r.P(50) {
		return Op{F: "End", Kind: k}
	}
	return Op{F: "EndX", Kind: k}
}

// endOp ends the current node in one of the forms that succeed.
func (g *Gen) endOp() Op {
	f := g.m.top()
	names := func() []string {
		switch f.kind {
		case "Elem":
			if g.r.P(40) {
				return []string{string(f.n.P), string(f.n.N)}
			}
			return []string{string(f.n.N)}
		case "DTD", "DTDAttList":
			return []string{string(f.n.N)}
		}
		return nil
	}
	var nm []string
	if g.r.P(35) {
		nm = names()
	}
	switch g.r.N(6) {
	case 0:
		return Op{F: "EndAny"}
	case 1:
		if f.kind == "Elem" {
			return Op{F: "EndFull", Names: nm}
		}
	case 2, 3:
		if f.kind != "Doc" {
			if f.kind != "Elem" {
				nm = nil
			}
			return Op{F: "EndX", Kind: f.kind, Names: nm}
		}
	}
	if f.kind == "Doc" && g.r.P(50) {
		return Op{F: "EndDoc"}
	}
	return Op{F: "End", Kind: f.kind, Names: nm}
}

func (g *Gen) endAll() string {
	if g.flushPct > 0 {
		return pick(g.r, "EndAll", "EndAllFlush")
	}
	return "EndAll"
}

// multiEnd ends several nodes at once.
func (g *Gen) multiEnd() Op {
	d := g.m.Depth()
	if d < 0 {
		return Op{F: g.endAll()}
	}
	switch g.r.N(6) {
	case 0:
		if !g.disc || g.r.P(20) {
			return Op{F: g.endAll()}
		}
	case 1:
		if g.m.stack[0].kind == "Doc" && (!g.disc || g.r.P(20)) {
			return Op{F: "EndDoc"}
		}
	}
	lo := -1
	if g.disc {
		lo = 0
	}
	if d <= lo {
		lo = -1
	}
	t := lo + g.r.N(d-lo)
	f := g.m.stack[t+1]
	o := Op{F: "EndTo", D: t, Kind: f.kind}
	if g.r.P(30) && (f.kind == "Elem" || f.kind == "DTD" || f.kind == "DTDAttList") {
		o.Names = []string{string(f.n.N)}
	}
	return o
}

// emit commits a call to the history.
func (g *Gen) emit(o Op) {
	r := g.m.Apply(o)
	if g.offs = append(g.offs, len(g.m.out)); len(g.offs) > 1<<16 {
		panic("simcheck: the generator does not come to an end")
	}
	if n := len(g.ops); g.noMerge {
		g.ops = append(g.ops, o)
	} else if n > 0 && g.lastAcc && (o.F == "Start" || o.F == "Write") && g.ops[n-1].F == o.F && g.r.P(30) {
		g.ops[n-1].N = append(g.ops[n-1].N, o.N...)
	} else if n > 0 && g.lastAcc && o.F == "WriteX" && o.N[0].T == "Attr" && g.ops[n-1].F == "WriteX" && g.ops[n-1].N[0].T == "Attr" && g.r.P(30) {
		g.ops[n-1].N = append(g.ops[n-1].N, o.N...)
	} else {
		g.ops = append(g.ops, o)
	}
	g.lastAcc = r == Acc
}

// goodOp is a call that is accepted in the current state.
func (g *Gen) goodOp() Op {
	f := g.m.top()
	for try := 0; try < 30; try++ {
		o := g.candidate(f)
		if o.F == "" {
			continue
		}
		if g.try(o) == Acc {
			return o
		}
	}
	if f == nil {
		return Op{F: "Flush"}
	}
	if f.kind == "Comment" { // may be stuck on a trailing '-'
		return Op{F: "WriteX", N: []Node{{T: "CommentContent", V: "."}}}
	}
	return Op{F: "EndAny"}
}

func (g *Gen) candidate(f *frame) Op {
	r := g.r
	if f == nil {
		if g.disc {
			if !g.rootDone {
				return g.asOp(g.doc(), true)
			}
			return Op{F: "Flush"}
		}
		t := pick(r, "Elem", "Elem", "Elem", "Doc", "Comment", "CData", "Text", "PI", "DTD", "DTDElem", "DTDEntity", "DTDAttList", "DTDAttr", "Notation", "Attr", "CommentContent", "CDataContent")
		n := g.node(t)
		if startable(t) {
			if r.P(10) {
				return g.block(n)
			}
			return g.asOp(n, !writable(t) || r.P(60))
		}
		return g.asOp(n, false)
	}
	if r.P(g.rawPct) {
		return g.asOp(Node{T: "Raw", V: S(g.text())}, false)
	}
	if r.P(g.emptyRaw) {
		return g.asOp(Node{T: "Raw"}, false)
	}
	deep := len(g.m.stack) < g.maxDepth
	switch f.kind {
	case "Doc":
		switch r.Pick([]int{50, 15, 15, 15, 5}) {
		case 0:
			if g.disc && g.rootDone {
				return Op{}
			}
			n := g.elem(3)
			if r.P(10) {
				return g.block(n)
			}
			return g.asOp(n, deep && r.P(70))
		case 1:
			if g.noComment {
				return Op{}
			}
			return g.startOrWrite(g.comment())
		case 2:
			if g.noPI {
				return Op{}
			}
			return g.asOp(g.pi(), false)
		case 3:
			if g.noDTD || g.disc && (g.dtdDone || g.rootDone) {
				return Op{}
			}
			if r.P(20) {
				return g.block(g.dtd())
			}
			return g.asOp(g.dtd(), true)
		}
		if g.disc && !g.rootDone {
			return Op{}
		}
		return g.endOp()
	case "DTD":
		switch r.Pick([]int{20, 20, 12, 14, 10, 24}) {
		case 0:
			return g.asOp(g.dtdLeaf("DTDElem"), false)
		case 1:
			return g.asOp(g.dtdLeaf("DTDEntity"), false)
		case 2:
			return g.asOp(g.dtdLeaf("Notation"), false)
		case 3:
			return g.startOrWrite(g.dtdLeaf("DTDAttList"))
		case 4:
			if g.noComment {
				return Op{}
			}
			return g.startOrWrite(g.comment())
		}
		return g.endOp()
	case "DTDAttList":
		if r.P(60) {
			return g.asOp(g.dtdAttr(nil), false)
		}
		return g.endOp()
	case "Comment":
		if r.P(60) {
			return g.asOp(g.node("CommentContent"), false)
		}
		return g.endOp()
	case "CData":
		if r.P(60) {
			return g.asOp(g.node("CDataContent"), false)
		}
		return g.endOp()
	}
	// Elem
	if !f.opened && r.P(35) {
		var u map[string]bool
		if g.disc {
			if f.used == nil {
				f.used = map[string]bool{}
				for _, a := range f.n.A {
					f.used[fullName(a)] = true
				}
			}
			u = map[string]bool{}
			for k := range f.used {
				u[k] = true
			}
		}
		a, ok := g.attr(u)
		if !ok {
			return Op{}
		}
		return g.asOp(a, false)
	}
	if r.P(g.nextPct) {
		return Op{F: "Next"}
	}
	if deep && r.P(g.deepPct) {
		return g.asOp(g.elem(1), true)
	}
	switch r.Pick([]int{30, 30, 10, 10, 6, 28, 4}) {
	case 0:
		n := g.elem(3)
		if r.P(15) {
			return g.block(n)
		}
		return g.asOp(n, deep && r.P(60))
	case 1:
		if g.onlyElem {
			return Op{}
		}
		return g.asOp(Node{T: "Text", V: S(g.text())}, false)
	case 2:
		if g.onlyElem || g.noComment {
			return Op{}
		}
		return g.startOrWrite(g.comment())
	case 3:
		if g.onlyElem || g.noCData {
			return Op{}
		}
		return g.startOrWrite(g.cdata())
	case 4:
		if g.noPI || g.onlyElem {
			return Op{}
		}
		return g.asOp(g.pi(), false)
	case 6:
		return g.multiEnd()
	}
	return g.endOp()
}

func (g *Gen) startOrWrite(n Node) Op {
	if g.r.P(12) {
		return g.block(n)
	}
	return g.asOp(n, g.r.P(50))
}

// block makes a Block call with children fitting the parent.
func (g *Gen) block(n Node) Op {
	o := Op{F: "Block", N: []Node{n}}
	for k := g.fan(); k > 0; k-- {
		switch n.T {
		case "Elem":
			o.N = append(o.N, g.content(2))
		case "Doc":
			if g.disc {
				return Op{}
			}
			if g.noComment || g.noPI {
				return Op{}
			}
			o.N = append(o.N, pick(g.r, g.comment(), g.pi(), g.elem(2)))
		case "DTD":
			o.N = append(o.N, g.dtdLeaf(pick(g.r, "DTDElem", "DTDEntity", "Notation", "DTDAttList")))
		case "DTDAttList":
			o.N = append(o.N, g.dtdAttr(nil))
		case "Comment":
			o.N = append(o.N, Node{T: "CommentContent", V: S(g.plain("--"))})
		case "CData":
			o.N = append(o.N, Node{T: "CDataContent", V: S(g.plain("]]>"))})
		}
	}
	return o
}

// dirtyOp is a call refused half-way (the history ends there).
func (g *Gen) dirtyOp() (Op, bool) {
	some := func(s string) S {
		if s == "" || g.r.P(10) {
			return "x"
		}
		return S(s)
	}
	for try := 0; try < 15; try++ {
		var n Node
		start := false
		bad := S(pick(g.r, "a\x00", "\x0bz", "\xff", "\uFFFE", "s\xc3", "it's \"it\""))
		switch g.r.N(12) {
		case 11:
			n = Node{T: "Doc"}
			e := S(pick(g.r, "1", "-x", "8859-1", "UTF 8", "x\"", "x'", "é", "utf-8\n", "a:b", " x", ".", "_x", "a/b", "x>", "x?>", "\xff", "x\x00", "UTF-8é", "a,b", "a[", "a`", "a{", "a@"))
			if g.r.P(50) {
				v := g.encName()
				if g.r.P(30) {
					v = pick(g.r, "0", "5", "9", ".", "_", "-") + v
				} else {
					i := g.r.N(len(v) + 1)
					v = v[:i] + string(rune(pick(g.r, '@', '[', '`', '{', '/', ':', ',', '^', ' ', '"', g.r.N(0x30)+0x80))) + v[i:]
				}
				e = S(v)
			}
			n.FE = &e
			start = true
		case 9:
			n = pick(g.r, Node{T: "DTDEntity", N: "e", Sys: bad}, Node{T: "DTDEntity", N: "e", V: bad}, Node{T: "DTDEntity", N: "e", Pub: "p", Sys: bad})
		case 10:
			n = pick(g.r, Node{T: "Notation", N: "n", Sys: bad}, Node{T: "DTD", N: "d", Sys: bad}, Node{T: "DTD", N: "d", Sys: bad, Pub: "p"})
			start = n.T == "DTD"
		case 0:
			n = Node{T: "DTDEntity", N: "e", V: some(g.quotable()), Sys: some(g.sysID()), PE: g.r.P(30)}
			if g.r.P(20) {
				n.Pub = some(g.pubID())
			}
		case 1:
			n = Node{T: "DTDEntity", N: "e", Sys: some(g.sysID()), PE: true, ND: S(g.name())}
			if g.r.P(40) {
				n.Pub = some(g.pubID())
			}
			if g.r.P(50) {
				n.PE, n.ND = false, S(g.badName())
			}
			if g.r.P(10) {
				n = Node{T: "DTDEntity", N: "e", V: S(g.quotable()), ND: S(g.name())}
			}
		case 2:
			n = Node{T: "DTDEntity", N: "e", V: "a'b\"c"}
		case 3:
			n = Node{T: "DTDAttr", N: "a", Typ: "CDATA", Def: pick(g.r, 2, 3, 9), V: some(g.text())}
		case 4:
			n = Node{T: "DTD", N: "d", Pub: some(g.pubID())}
			if g.r.P(50) {
				n.Pub, n.Sys = g.badPubID(), "s"
			}
			start = true
			if g.r.P(30) {
				n.T, n.N, start = "DTDEntity", "e", false
			}
		case 5:
			n = Node{T: "Comment", V: S(pick(g.r, "a--b", "a-", "\x00", "\xff"))}
			start = g.r.P(30)
		case 6:
			n = Node{T: "CData", V: S(pick(g.r, "a]]>b", "\x00", "\xff"))}
			start = g.r.P(30)
		case 7:
			n = Node{T: "Elem", N: "e", A: []Node{{T: "Attr", N: "ok", V: "1"}, {T: "Attr", N: S(g.badName()), V: "2"}}}
			if g.r.P(50) {
				n.A, n.C = nil, []Node{{T: "Text", V: "t"}, g.mangle(g.elem(0))}
			}
		case 8:
			n = Node{T: "Notation", N: "n", Pub: g.badPubID(), Sys: S(pick(g.r, "", "s"))}
		}
		o := g.asOp(n, start || !writable(n.T))
		if g.try(o) == Dirty {
			return o, true
		}
	}
	return Op{}, false
}

// option sets a public field of the writer between calls.
func (g *Gen) option() Op {
	if g.allOpts && g.r.P(40) {
		if g.r.P(30) {
			return Op{F: "Opt", Kind: "bufsize", D: pick(g.r, -1, 0, 1, 16, 1<<20)}
		}
		return Op{F: "Opt", Kind: "indenter", Names: []string{pick(g.r, "", ".", "w", "<")}, D: g.r.N(2)}
	}
	switch g.r.N(4) {
	case 0:
		return Op{F: "Opt", Kind: "strict", D: g.r.N(2)}
	case 1:
		return Op{F: "Opt", Kind: "newline", Names: []string{pick(g.r, "\n", "\r\n", "", "\n\n")}}
	case 2:
		return Op{F: "Opt", Kind: "version", Names: []string{pick(g.r, "1.0", "1.1", "")}}
	}
	return Op{F: "Opt", Kind: "enforce", D: g.r.N(2)}
}

// history generates about n calls and a way of finishing.
func (g *Gen) history(n int) {
	if g.dirtyPct > 0 && g.r.P(4) { // before anything else
		if o, ok := g.dirtyOp(); ok {
			g.emit(o)
			g.ops = append(g.ops, Op{F: "Flush"})
			return
		}
	}
	in := 120
	if g.oftenMany {
		in = 40
	}
	burst := g.r.N(in) == 0
	for len(g.ops) < n {
		if burst && g.r.P(15) {
			g.burst()
			n, burst = len(g.ops)+g.r.N(12), false
		}
		if g.extra != nil {
			if o, ok := g.extra(g); ok {
				g.commit(o)
				continue
			}
		}
		switch {
		case g.r.P(g.optPct):
			g.emit(g.option())
		case g.r.P(g.flushPct):
			g.emit(Op{F: "Flush"})
		case g.r.P(g.badPct):
			if o, ok := g.badOp(); ok {
				g.emit(o)
			}
		default:
			if g.disc && g.rootDone && g.m.top() == nil {
				n = 0
				continue
			}
			g.commit(g.goodOp())
		}
	}
	if g.r.P(g.dirtyPct) {
		if o, ok := g.dirtyOp(); ok {
			g.emit(o)
			g.ops = append(g.ops, Op{F: "Flush"})
			return
		}
	}
	g.finish()
}

// burst makes one call very often, or two alternately: more children, or nodes
// open at once, than small counters and tables hold.
func (g *Gen) burst() {
	r := g.r
	n := pick(r, 33, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513)
	if r.P(2) {
		n = pick(r, 1023, 1024, 1025)
	}
	f := g.m.top()
	if f == nil {
		return
	}
	name := func() S { return S(pick(r, "a", "b", "foo")) }
	var ops []Op
	switch f.kind {
	case "Elem":
		if !g.m.enforce {
			return
		}
		if !f.opened && r.P(35) { // attributes, in one call or many, or of one child
			var l []Node
			ns := r.P(40)
			for i := 0; i < n; i++ {
				a := Node{T: "Attr", N: S(fmt.Sprintf("A%d", i)), V: S(pick(r, "v", "", "<"))}
				if ns {
					a.P, a.U = S(fmt.Sprintf("P%d", i)), S(fmt.Sprintf("u%d", r.N(3)))
				}
				l = append(l, a)
			}
			switch r.N(3) {
			case 0:
				ops = append(ops, Op{F: pick(r, "Write", "WriteX"), N: l})
			case 1:
				e := Node{T: "Elem", N: name(), A: l}
				for i := r.N(n); i > 0; i-- {
					e.C = append(e.C, Node{T: "Elem", N: name()})
				}
				ops = append(ops, g.asOp(e, r.P(50)))
			default:
				for _, a := range l {
					ops = append(ops, g.asOp(a, false))
				}
			}
			break
		}
		if r.P(50) { // deep
			a, b := Node{T: "Elem", N: name()}, Node{T: "Elem", N: name()}
			for i := 0; i < n; i++ {
				ops = append(ops, g.asOp(pick(r, a, b), true))
			}
			break
		}
		kinds := []Node{{T: "Elem", N: name()}, {T: "Elem", N: name(), F: true}}
		if !g.onlyElem {
			kinds = append(kinds, Node{T: "Text", V: "t"}, Node{T: "Text"})
			if !g.noComment {
				kinds = append(kinds, Node{T: "Comment", V: "c"})
			}
			if !g.noCData {
				kinds = append(kinds, Node{T: "CData", V: "d"})
			}
			if !g.noPI {
				kinds = append(kinds, Node{T: "PI", N: "p", V: "i"})
			}
		}
		a, b := kinds[r.N(len(kinds))], kinds[r.N(len(kinds))]
		if r.P(50) {
			b = a
		}
		for i := 0; i < n; i++ {
			ops = append(ops, g.asOp(pick(r, a, b), false))
		}
	case "DTD":
		for i := 0; i < n; i++ {
			ops = append(ops, g.asOp(Node{T: "DTDElem", N: S(fmt.Sprintf("e%d", i)), V: "ANY"}, false))
		}
	case "DTDAttList":
		for i := 0; i < n; i++ {
			ops = append(ops, g.asOp(Node{T: "DTDAttr", N: S(fmt.Sprintf("a%d", i)), Typ: "CDATA", Def: 2}, false))
		}
	case "Comment", "CData":
		for i := 0; i < n; i++ {
			ops = append(ops, g.asOp(Node{T: f.kind + "Content", V: S(pick(r, "x", ""))}, false))
		}
	}
	for _, o := range ops {
		g.commit(o)
	}
}

// commit applies an accepted call and does the bookkeeping of a disciplined caller.
func (g *Gen) commit(o Op) {
	if g.disc {
		f := g.m.top()
		for _, n := range o.N {
			switch n.T {
			case "DTD":
				g.dtdDone = true
			case "Elem":
				if f == nil || f.kind == "Doc" {
					g.rootDone = true
				}
			case "Attr":
				if f != nil && f.used != nil {
					f.used[fullName(n)] = true
				}
			}
		}
	}
	g.emit(o)
}

func (g *Gen) finish() {
	if g.disc {
		if g.m.top() == nil && !g.rootDone {
			g.commit(g.asOp(Node{T: "Doc"}, true))
		}
		for k := 0; k < 50 && g.m.top() != nil && g.m.top().kind != "Doc" && !g.rootDone; k++ {
			g.unstick()
			g.commit(Op{F: "EndAny"})
		}
		if !g.rootDone {
			g.commit(g.asOp(g.elem(2), false))
		}
	}
	g.unstick()
	switch g.r.N(5) {
	case 0:
		g.emit(Op{F: "EndAllFlush"})
	case 1:
		for k := len(g.m.stack) + 50; k > 0 && g.m.top() != nil; k-- {
			g.unstick()
			g.emit(g.endOp())
		}
		g.emit(Op{F: "Flush"})
	case 2:
		if s := g.m.stack; len(s) > 0 && s[0].kind == "Doc" {
			g.emit(Op{F: "EndDoc"})
		} else {
			g.emit(Op{F: "EndAll"})
		}
		g.emit(Op{F: "Flush"})
	case 3:
		if g.disc {
			g.emit(Op{F: "EndAll"})
		}
		g.emit(Op{F: "Flush"}) // (may leave nodes open)
	default:
		g.emit(Op{F: "EndAll"})
		g.emit(Op{F: "Flush"})
	}
}

// unstick makes the current node endable.
func (g *Gen) unstick() {
	for _, f := range g.m.stack {
		if f.kind == "Comment" {
			if f != g.m.top() {
				continue
			}
			if g.try(Op{F: "EndAny"}) != Acc {
				g.emit(Op{F: "WriteX", N: []Node{{T: "CommentContent", V: "."}}})
			}
		}
	}
}

// tail is what a caller may still do after a failure.
func (g *Gen) tail() []Op {
	var ops []Op
	n := 1 + g.r.N(8)
	for i := 0; i < n; i++ {
		switch g.r.Pick([]int{20, 15, 15, 20, 15, 15}) {
		case 0:
			ops = append(ops, Op{F: "Flush"})
		case 1:
			ops = append(ops, Op{F: "EndAll"})
		case 2:
			ops = append(ops, pick(g.r, Op{F: "EndAny"}, Op{F: "EndDoc"}, Op{F: "EndAllFlush"}, Op{F: "EndFull"}, Op{F: "Next"}, Op{F: "EndTo", D: -1, Kind: "Elem"}, Op{F: "EndTo", D: 1, Kind: "Elem"}))
		case 3:
			k := startKinds[g.r.N(len(startKinds))]
			ops = append(ops, Op{F: "End", Kind: k})
		case 4:
			n := g.anyNode()
			ops = append(ops, g.asOp(n, startable(n.T) && (!writable(n.T) || g.r.P(50))))
		case 5: // end the same node again and again
			for j := g.r.N(4); j >= 0; j-- {
				ops = append(ops, pick(g.r, Op{F: "EndAny"}, Op{F: "End", Kind: "Elem"}))
			}
		}
	}
	ops = append(ops, Op{F: "Flush"})
	return ops
}
