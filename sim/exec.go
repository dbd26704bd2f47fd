package main

// Executes one writer's history against the real code on the simulated seams,
// with the reference model in lock-step, and checks the invariants as it goes.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
)

var encodings = map[string]encoding.Encoding{
	"iso-8859-1":   charmap.ISO8859_1,
	"iso-8859-15":  charmap.ISO8859_15,
	"windows-1252": charmap.Windows1252,
	"koi8-r":       charmap.KOI8R,
	"utf-16be":     unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM),
	"utf-16le":     unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM),
	"utf-16":       unicode.UTF16(unicode.BigEndian, unicode.UseBOM),
	"shift_jis":    japanese.ShiftJIS,
	"euc-jp":       japanese.EUCJP,
	"iso-2022-jp":  japanese.ISO2022JP,
	"euc-kr":       korean.EUCKR,
	"gbk":          simplifiedchinese.GBK,
	"gb18030":      simplifiedchinese.GB18030,
	"big5":         traditionalchinese.Big5,
}

func strs(n S) string { return string(n) }

func toAttr(n Node) xw.Attr {
	a := xw.Attr{Prefix: strs(n.P), URI: strs(n.U), Name: strs(n.N), Value: strs(n.V)}
	switch n.Cv {
	case "bool":
		return a.Bool(n.I != 0)
	case "int":
		return a.Int(int(n.I))
	case "int8":
		return a.Int8(int8(n.I))
	case "int16":
		return a.Int16(int16(n.I))
	case "int32":
		return a.Int32(int32(n.I))
	case "int64":
		return a.Int64(n.I)
	case "uint":
		return a.Uint(int(n.I))
	case "uint8":
		return a.Uint8(uint8(n.I))
	case "uint16":
		return a.Uint16(uint16(n.I))
	case "uint32":
		return a.Uint32(uint32(n.I))
	case "uint64":
		return a.Uint64(uint64(n.I))
	case "float32":
		return a.Float32(float32(n.I) / 8)
	case "float64":
		return a.Float64(float64(n.I) / 8)
	}
	return a
}

// The caller uses the package's constants where there is one, the reference
// model the keywords of the XML specification.
var attrTypes = map[string]xw.DTDAttrType{
	"CDATA": xw.DTDAttrString, "ID": xw.DTDAttrID, "IDREF": xw.DTDAttrIDRef, "IDREFS": xw.DTDAttrIDRefs,
	"ENTITY": xw.DTDAttrEntity, "ENTITIES": xw.DTDAttrEntities, "NMTOKEN": xw.DTDAttrNmtoken, "NMTOKENS": xw.DTDAttrNmtokens,
}
var attrDefaults = map[int]xw.DTDAttrDefaultType{
	0: xw.DTDAttrInfer, 1: xw.DTDAttrDefault, 2: xw.DTDAttrRequired, 3: xw.DTDAttrImplied, 4: xw.DTDAttrFixed,
}
var elemDecls = map[string]string{"EMPTY": xw.DTDElemEmpty, "ANY": xw.DTDElemAny, "#PCDATA": xw.DTDElemPCData}

func toDTDAttr(n Node) xw.DTDAttr {
	t, ok := attrTypes[string(n.Typ)]
	if !ok {
		t = xw.DTDAttrType(n.Typ)
	}
	d, ok := attrDefaults[n.Def]
	if !ok {
		d = xw.DTDAttrDefaultType(n.Def)
	}
	return xw.DTDAttr{Name: strs(n.N), Type: t, Default: d, Value: strs(n.V)}
}

// build turns a Node into the xmlwriter value, or a pointer to it.
func build(n Node) xw.Node {
	v := value(n)
	if !n.Ptr {
		return v
	}
	return pointer(v)
}

func pointer(v xw.Node) xw.Node {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface().(xw.Node)
}

// deref undoes what build did for Ptr.
func deref(n xw.Node) xw.Node {
	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr {
		return v.Elem().Interface().(xw.Node)
	}
	return n
}

func value(n Node) xw.Node {
	switch n.T {
	case "Raw":
		return xw.Raw(n.V)
	case "Text":
		return xw.Text(n.V)
	case "CommentContent":
		return xw.CommentContent(n.V)
	case "CDataContent":
		return xw.CDataContent(n.V)
	case "Comment":
		return xw.Comment{Content: strs(n.V)}
	case "CData":
		return xw.CData{Content: strs(n.V)}
	case "PI":
		return xw.PI{Target: strs(n.N), Content: strs(n.V)}
	case "Attr":
		return toAttr(n)
	case "Elem":
		e := xw.Elem{Prefix: strs(n.P), URI: strs(n.U), Name: strs(n.N), Full: n.F}
		for _, a := range n.A {
			e.Attrs = append(e.Attrs, toAttr(a))
		}
		for _, c := range n.C {
			e.Content = append(e.Content, build(c).(xw.Writable))
		}
		return e
	case "Doc":
		d := xw.Doc{SuppressEncoding: n.SE, SuppressVersion: n.SV}
		if n.FE != nil {
			d = d.ForceEncoding(string(*n.FE))
		}
		if n.FV != nil {
			d = d.ForceVersion(string(*n.FV))
		}
		if n.SA != nil {
			d = d.WithStandalone(*n.SA)
		}
		return d
	case "DTD":
		return xw.DTD{Name: strs(n.N), PublicID: strs(n.Pub), SystemID: strs(n.Sys)}
	case "DTDElem":
		decl, ok := elemDecls[string(n.V)]
		if !ok {
			decl = strs(n.V)
		}
		return xw.DTDElem{Name: strs(n.N), Decl: decl}
	case "DTDEntity":
		return xw.DTDEntity{Name: strs(n.N), Content: strs(n.V), IsPE: n.PE, PublicID: strs(n.Pub), SystemID: strs(n.Sys), NDataID: strs(n.ND)}
	case "DTDAttList":
		d := xw.DTDAttList{Name: strs(n.N)}
		for _, a := range n.A {
			d.Attrs = append(d.Attrs, toDTDAttr(a))
		}
		return d
	case "DTDAttr":
		return toDTDAttr(n)
	case "Notation":
		return xw.Notation{Name: strs(n.N), SystemID: strs(n.Sys), PublicID: strs(n.Pub)}
	}
	panic("build: unknown node " + n.T)
}

func startable(t string) bool {
	switch t {
	case "Doc", "DTD", "DTDAttList", "Elem", "Comment", "CData":
		return true
	}
	return false
}

// call performs one Op on the real writer. shared, if not nil, supplies
// prebuilt argument values (C13).
func call(w *xw.Writer, o Op, nodes []xw.Node) error {
	switch o.F {
	case "Start":
		var l []xw.Startable
		for _, n := range nodes {
			l = append(l, n.(xw.Startable))
		}
		return w.Start(l...)
	case "Write":
		var l []xw.Writable
		for _, n := range nodes {
			l = append(l, n.(xw.Writable))
		}
		return w.Write(l...)
	case "Block":
		var l []xw.Writable
		for _, n := range nodes[1:] {
			l = append(l, n.(xw.Writable))
		}
		return w.Block(nodes[0].(xw.Startable), l...)
	case "StartX":
		for _, n := range nodes {
			if err := startX(w, n); err != nil {
				return err
			}
		}
		return nil
	case "WriteX":
		if len(nodes) > 0 {
			if _, ok := deref(nodes[0]).(xw.Attr); ok {
				var l []xw.Attr
				for _, n := range nodes {
					l = append(l, deref(n).(xw.Attr))
				}
				return w.WriteAttr(l...)
			}
		}
		for _, n := range nodes {
			if err := writeX(w, n); err != nil {
				return err
			}
		}
		return nil
	case "End":
		return w.End(nodeKind(o.Kind), o.Names...)
	case "EndX":
		switch o.Kind {
		case "Elem":
			return w.EndElem(o.Names...)
		case "Comment":
			return w.EndComment()
		case "CData":
			return w.EndCData()
		case "DTD":
			return w.EndDTD()
		case "DTDAttList":
			return w.EndDTDAttList()
		}
		panic("EndX " + o.Kind)
	case "EndFull":
		return w.EndElemFull(o.Names...)
	case "EndAny":
		return w.EndAny()
	case "EndAll":
		return w.EndAll()
	case "EndAllFlush":
		return w.EndAllFlush()
	case "EndDoc":
		return w.EndDoc()
	case "EndTo":
		return w.EndToDepth(o.D, nodeKind(o.Kind), o.Names...)
	case "Next":
		return w.Next()
	case "Opt":
		switch o.Kind {
		case "enforce":
			w.Enforce = o.D != 0
		case "strict":
			w.StrictChars = o.D != 0
		case "newline":
			w.NewlineString = o.Names[0]
		case "version":
			w.Version = o.Names[0]
		case "bufsize": // (read when opening only)
			w.InitialBufSize = o.D
		case "indenter":
			w.Indenter = nil
			if o.D != 0 {
				w.Indenter = wrapper(o.Names[0])
			}
		case "istr":
			ind := w.Indenter
			if s, ok := ind.(*SimIndenter); ok {
				ind = s.inner
			}
			if s, ok := ind.(*xw.StandardIndenter); ok {
				s.IndentString = o.Names[0]
			}
		}
		return nil
	case "Flush":
		return w.Flush()
	}
	panic("call: unknown op " + o.F)
}

// wrapper is an indenter that writes nothing and wraps content.
type wrapper string

func (wrapper) Indent(w *xw.Writer, last, next xw.Event) error { return nil }
func (p wrapper) Wrap(s string) string                         { return string(p) + s + string(p) }

func startX(w *xw.Writer, n xw.Node) error {
	switch v := deref(n).(type) {
	case xw.Doc:
		return w.StartDoc(v)
	case xw.DTD:
		return w.StartDTD(v)
	case xw.DTDAttList:
		return w.StartDTDAttList(v)
	case xw.Elem:
		return w.StartElem(v)
	case xw.Comment:
		return w.StartComment(v)
	case xw.CData:
		return w.StartCData(v)
	}
	panic(fmt.Sprintf("startX %T", n))
}

func writeX(w *xw.Writer, n xw.Node) error {
	switch v := deref(n).(type) {
	case xw.Raw:
		return w.WriteRaw(string(v))
	case xw.Text:
		return w.WriteText(string(v))
	case xw.CommentContent:
		return w.WriteCommentContent(string(v))
	case xw.CDataContent:
		return w.WriteCDataContent(string(v))
	case xw.Comment:
		return w.WriteComment(v)
	case xw.CData:
		return w.WriteCData(v)
	case xw.Elem:
		return w.WriteElem(v)
	case xw.PI:
		return w.WritePI(v)
	case xw.Attr:
		return w.WriteAttr(v)
	case xw.DTDElem:
		return w.WriteDTDElem(v)
	case xw.DTDEntity:
		return w.WriteDTDEntity(v)
	case xw.DTDAttList:
		return w.WriteDTDAttList(v)
	case xw.DTDAttr:
		return w.WriteDTDAttr(v)
	case xw.Notation:
		return w.WriteNotation(v)
	}
	panic(fmt.Sprintf("writeX %T", n))
}

// Violation is one broken invariant.
type Violation struct {
	Class string
	Msg   string
}

func viol(class, format string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

// OpRes is what the real writer did with one call.
type OpRes struct {
	Op      int
	O       Op
	Err     error
	Model   Res
	Depth   int
	SinkLen int
	Failed  bool // the failure was injected during or before this call
	Tail    bool
	Recs    int // indenter callbacks so far, and how many the model expects
	Evs     int
	Pending bool // refused, and what is attached to the current node would be too
}

// Run is one simulated writer and everything observed about it.
type Run struct {
	C     *WCfg
	W     *World
	Sink  *Sink
	BW    *bufio.Writer
	Ind   *SimIndenter
	X     *xw.Writer
	M     *Model
	Res   []OpRes
	V     *Violation
	nodes func(i int, o Op) []xw.Node // argument factory (shared values)

	flags     runFlags
	outAtFail []byte // model stream when the first failure hit
	starts    int    // nodes the caller has started since the failure
	root      string // kind of the outermost node when the failure hit
	frozen    int    // model depth when it stopped being exact
	exactEnd  bool   // the history ran to its end without failure
	Stopped   string // why it stopped: "", fault, dirty, indent, panic
	delivered int    // sink length at the failure
}

// runFlags selects what is checked in-line (everything, unless a property
// compares differently).
type runFlags struct {
	noModelBytes bool // the sink does not hold model bytes (encoding, std indenter)
	noTail       bool
	tailAlways   bool            // run the tail also after a clean end
	refFixed     bool            // the reference stream was supplied by a twin run
	own          map[string]bool // violation classes to report; nil: all of them
	opFilter     func(o Op) bool // accepted/rejected: only for these calls
	accepted     func(o Op) bool // accepted: and of these only for those
}

func newRun(c *WCfg, log *hasher) *Run {
	r := &Run{C: c}
	r.W = &World{log: log, fired: map[string]int{}}
	r.Sink = &Sink{W: r.W}
	r.M = newModel(c)
	if c.Indent == "std" || c.Indent == "stdstr" || c.Indent == "recstd" || c.Enc != "" {
		r.flags.noModelBytes = true
	}
	r.nodes = func(i int, o Op) []xw.Node {
		l := make([]xw.Node, len(o.N))
		for j := range o.N {
			l[j] = build(o.N[j])
		}
		return l
	}
	r.X, r.Ind, r.BW = openWriter(c, r.W, r.Sink)
	if !r.flags.noModelBytes && c.Sink != "bufio" {
		r.Sink.ref = func() []byte {
			if r.Stopped == "" {
				return r.M.out
			}
			return r.outAtFail
		}
	}
	return r
}

func (r *Run) setV(v *Violation) {
	if r.V == nil && v != nil && (r.flags.own == nil || r.flags.own[v.Class] || v.Class == "panic" || v.Class == "hang") {
		r.V = v
	}
}

func (r *Run) setVOp(o Op, v *Violation) {
	if r.flags.opFilter == nil || r.flags.opFilter(o) {
		r.setV(v)
	}
}

// safeCall performs a call, turning panics into data.
func safeCall(f func() error) (err error, pan any) {
	defer func() {
		if p := recover(); p != nil {
			switch h := p.(type) {
			case hung:
				pan = h
				return
			case crashed:
				pan = h
				return
			}
			if e, ok := p.(runtime.Error); ok {
				pan = e.Error()
				return
			}
			pan = fmt.Sprint(p)
		}
	}()
	return f(), nil
}

func countStarts(ns []Node) int {
	k := 0
	for _, n := range ns {
		if startable(n.T) {
			k++
		}
		k += countStarts(n.C)
	}
	return k
}

// noop reports whether a call may return nil after the writer has failed,
// because it need not produce output.
func (r *Run) noopAfterFail(o Op, depthBefore int) bool {
	switch o.F {
	case "Next":
		return true
	case "Start", "StartX", "Write", "WriteX":
		for _, n := range o.N {
			if !(n.V == "" && (n.T == "Text" || n.T == "Raw" || n.T == "CommentContent" || n.T == "CDataContent")) {
				return false
			}
		}
		return true
	case "End", "EndAny", "EndAll", "EndDoc", "EndTo":
		// nothing, or only the document node, whose end writes nothing
		if unenforced(r.C) && (hasDoc(r.C.Ops) || hasDoc(r.C.Tail)) {
			return true // it may be anywhere on the stack
		}
		return depthBefore < 0 || depthBefore == 0 && (r.root == "" || r.root == "Doc" || hasDoc(r.C.Tail))
	}
	return false
}

// unenforced: enforcement is off at some time.
func unenforced(c *WCfg) bool {
	for _, o := range c.Ops {
		if o.F == "Opt" && o.Kind == "enforce" && o.D == 0 {
			return true
		}
	}
	return c.NoEnforce
}

func hasDoc(ops []Op) bool {
	for _, o := range ops {
		for _, n := range o.N {
			if n.T == "Doc" {
				return true
			}
		}
	}
	return false
}

func opStr(o Op) string {
	var b strings.Builder
	b.WriteString(o.F)
	if o.Kind != "" {
		b.WriteString(" " + o.Kind)
	}
	for _, n := range o.Names {
		fmt.Fprintf(&b, " %.40q", n)
	}
	if o.F == "EndTo" {
		fmt.Fprintf(&b, " depth=%d", o.D)
	}
	for _, n := range o.N {
		fmt.Fprintf(&b, " %s(%.40q,%.40q)", n.T, fullName(n), string(n.V))
	}
	return b.String()
}

// step performs call i and checks the in-line invariants. It returns false when
// the run cannot go on.
func (r *Run) step(i int, o Op, tail bool) bool {
	wasStopped := r.Stopped
	before := len(r.M.out)
	depthBefore := r.X.Depth()
	pending := 0 // nodes given as content but not written yet
	for _, f := range r.M.stack {
		if !f.opened {
			pending += countStarts(f.n.C)
		}
	}
	var mres Res
	if wasStopped == "" {
		mres = r.M.Apply(o)
	} else {
		r.starts += countStarts(o.N)
	}
	if mres == Dirty && !r.flags.refFixed {
		r.Sink.ref = nil // how far a half-way rejection gets is not specified
	}
	r.W.steps = 0
	r.W.short = false
	failedBefore := r.W.failure != nil
	indBefore := r.W.indFail != nil
	afterBefore := r.Sink.afterFail
	err, pan := safeCall(func() error { return call(r.X, o, r.nodes(i, o)) })
	r.Sink.settle(err)
	if r.W.failure != nil {
		r.W.isFailure(nil) // remember which failures belong to this call
	}
	depth := r.X.Depth()
	res := OpRes{Op: i, O: o, Err: err, Model: mres, Depth: depth, SinkLen: len(r.Sink.data), Failed: r.W.failure != nil || r.W.indFail != nil, Tail: tail}
	if r.Ind != nil {
		res.Recs = len(r.Ind.recs)
	}
	res.Evs = len(r.M.evs)
	res.Pending = mres == Clean && !r.M.dead && r.M.clone().Apply(Op{F: "Next"}) == Dirty
	r.Res = append(r.Res, res)
	r.W.log.add("op:"+o.F, errCode(err), depth)

	if _, ok := pan.(crashed); ok { // cut off inside the call: nothing can follow
		r.Stopped = "crash"
		r.outAtFail = r.M.out
		if r.Sink.bad != "" {
			r.setV(viol("prefix", "during call %d (%s): %s", i, opStr(o), r.Sink.bad))
		}
		return false
	}
	if pan != nil {
		r.Stopped = "panic"
		if h, ok := pan.(hung); ok {
			r.setV(viol("hang", "call %d (%s) did not return after %d seam crossings", i, opStr(o), h.steps))
		} else {
			r.setV(viol("panic", "call %d (%s) panicked: %v", i, opStr(o), pan))
		}
		return false
	}
	if wasStopped == "" && mres == Clean && (err == nil || r.W.failure != nil || r.W.indFail != nil || res.Pending) && !r.flags.refFixed {
		r.Sink.bad, r.Sink.ref = "", nil // accepted against the rules, or as good as: what should be delivered then is not specified
	}
	if r.Sink.bad != "" {
		r.setV(viol("prefix", "during call %d (%s): %s", i, opStr(o), r.Sink.bad))
	}
	if r.Sink.afterFail > afterBefore {
		r.setV(viol("write-after-failure", "call %d (%s) delivered %d bytes after the sink had failed", i, opStr(o), r.Sink.afterFail-afterBefore))
	}

	if wasStopped == "" {
		newSink := r.W.failure != nil && !failedBefore
		newInd := r.W.indFail != nil && !indBefore
		switch {
		case newSink || newInd:
			if err == nil {
				r.setV(viol("unreported", "%v was hit during call %d (%s), which returned nil", firstErr(r.W.failure, r.W.indFail), i, opStr(o)))
			} else if mres == Acc {
				if newSink && !newInd && !r.W.isFailure(err) {
					r.setV(viol("wrong-error", "%v was hit during call %d (%s), which returned %v", r.W.failure, i, opStr(o), err))
				}
				if newInd && !newSink && !errors.Is(err, r.W.indFail) {
					r.setV(viol("wrong-error", "%v was hit during call %d (%s), which returned %v", r.W.indFail, i, opStr(o), err))
				}
			}
			if mres == Dirty {
				r.stop("fault", r.M.out[:before])
			} else {
				r.stop("fault", r.M.out)
			}
		case r.W.short && mres == Acc && err != nil:
			r.setV(viol("wrong-error", "the sink accepted less than it was given during call %d (%s), which returned %v", i, opStr(o), err))
			r.stop("dirty", r.M.out)
		case mres == Acc && err != nil:
			r.setVOp(o, viol("rejected", "call %d (%s) must be accepted, returned %v", i, opStr(o), err))
			r.stop("dirty", r.M.out)
			if !r.flags.refFixed {
				r.Sink.ref = nil
			}
		case mres != Acc && err == nil:
			if r.flags.accepted == nil || r.flags.accepted(o) {
				r.setVOp(o, viol("accepted", "call %d (%s) must be %s, returned nil", i, opStr(o), mres))
			}
			r.stop("dirty", r.M.out)
		case mres == Dirty, res.Pending:
			r.stop("dirty", r.M.out[:before])
		}
		if mres != Dirty && r.Stopped == "" && depth != r.M.Depth() {
			r.setV(viol("depth", "after call %d (%s) the depth is %d, must be %d", i, opStr(o), depth, r.M.Depth()))
			if depth > r.M.Depth() {
				r.setV(viol("depth-bound", "after call %d (%s) the depth is %d, %d nodes are open", i, opStr(o), depth, r.M.Depth()+1))
			}
		}
		if r.Stopped == "" && (o.F == "Flush" || o.F == "EndAllFlush") && err == nil && !r.flags.noModelBytes && r.BW == nil {
			if !bytes.Equal(r.Sink.data, r.M.out) {
				r.setV(viol("stream", "after the flush in call %d the sink holds %s", i, diffAt(r.Sink.data, r.M.out)))
			}
		}
		if r.Stopped != "" {
			r.frozen = depthBefore + countStarts(o.N) + pending
			if d := r.M.Depth(); d > r.frozen {
				r.frozen = d
			}
			r.delivered = len(r.Sink.data)
		}
	} else {
		// after a failure
		if r.W.failure != nil && failedBefore {
			if err == nil && !r.noopAfterFail(o, depthBefore) {
				r.setV(viol("unreported-later", "call %d (%s) returned nil although the sink had failed before (%v)", i, opStr(o), r.W.failure))
			}
			if o.F == "Flush" && err != nil && !r.W.isFailure(err) {
				r.setV(viol("wrong-error", "flush in call %d returned %v, the first failure was %v", i, err, r.W.failure))
			}
		} else if r.W.failure != nil && err == nil {
			r.setV(viol("unreported", "%v was hit during call %d (%s), which returned nil", r.W.failure, i, opStr(o)))
		}
	}
	if depth < -1 || r.Stopped != "" && depth > r.frozen+r.starts {
		r.setV(viol("depth-bound", "after call %d (%s) the depth is %d; at most %d nodes are open", i, opStr(o), depth, r.frozen+r.starts+1))
	}
	if err == nil && (o.F == "EndAll" || o.F == "EndAllFlush") && depth != -1 {
		r.setV(viol("endall", "call %d (%s) returned nil but the depth is %d", i, opStr(o), depth))
	}
	return r.V == nil
}

func firstErr(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

func (r *Run) stop(why string, ref []byte) {
	r.Stopped = why
	if len(r.M.stack) > 0 {
		r.root = r.M.stack[0].kind
	}
	r.outAtFail = append([]byte(nil), ref...)
}

func errCode(err error) int {
	if err == nil {
		return 0
	}
	var inj *injected
	switch {
	case errors.As(err, &inj):
		return 2
	case errors.Is(err, io.ErrShortWrite):
		return 3
	}
	return 1
}

// run performs the whole history, then the tail if something failed.
func (r *Run) run() *Violation {
	i := 0
	for ; i < len(r.C.Ops); i++ {
		r.yieldOp()
		if !r.step(i, r.C.Ops[i], false) || r.V != nil {
			return r.V
		}
		if r.Stopped != "" {
			break
		}
	}
	if r.Stopped == "" {
		r.exactEnd = true
	}
	if r.Stopped != "" && !r.flags.noTail || r.flags.tailAlways {
		for j, o := range r.C.Tail {
			r.yieldOp()
			if !r.step(i+1+j, o, true) || r.V != nil {
				return r.V
			}
		}
	}
	if r.Stopped == "" && r.BW != nil && !r.flags.noModelBytes {
		// a buffered sink of the caller's own: flush it as well
		if len(r.C.Ops) > 0 && (r.C.Ops[len(r.C.Ops)-1].F == "Flush" || r.C.Ops[len(r.C.Ops)-1].F == "EndAllFlush") {
			if err := r.BW.Flush(); err == nil && !bytes.Equal(r.Sink.data, r.M.out) {
				r.setV(viol("stream", "after flushing through a buffered sink it holds %s", diffAt(r.Sink.data, r.M.out)))
			}
		}
	}
	if r.Stopped != "" && !r.flags.noModelBytes && r.BW == nil {
		// what came out before the failing call is still there, unchanged
		k := len(r.outAtFail)
		if k > len(r.Sink.data) {
			k = len(r.Sink.data)
		}
		if !bytes.Equal(r.Sink.data[:k], r.outAtFail[:k]) {
			r.setV(viol("prefix", "after a half-way rejection the sink holds %s", diffAt(r.Sink.data, r.outAtFail)))
		}
	}
	return r.V
}

func (r *Run) yieldOp() {
	if r.W.yield != nil {
		r.W.yield()
	}
}
