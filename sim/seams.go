package main

// The seams the simulator owns: the sink, the indenter, the encoder, and the
// points where control can pass to another writer.

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"syscall"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

// injected is the error value of one injected fault; every fault has its own.
type injected struct{ what string }

func (e *injected) Error() string { return "injected: " + e.what }

// hung is thrown from a seam when a single call keeps coming back to it.
type hung struct{ steps int }

const (
	maxStepsPerOp = 3000000  // the largest calls have some 300000: a write for every few bytes of long strings
	maxStream     = 64 << 20 // the longest streams have a few megabytes
)

// crashed is thrown from a seam to cut the caller off inside a call.
type crashed struct{}

// World is everything the seams of one writer share.
type World struct {
	steps   int    // seam crossings in the current call
	total   int    // seam crossings in the run
	yield   func() // hands control to the scheduler
	log     *hasher
	fired   map[string]int
	failure error   // the first failure injected at the sink or encoder
	indFail error   // the first failure injected at the indenter
	fails   []error // every failure injected there so far
	first   []error // those of the call that hit the first one
	opts    map[string]xw.Option
	short   bool // the sink accepted less than it was given in the current call
}

func (w *World) cross() {
	w.steps++
	w.total++
	if w.steps > maxStepsPerOp {
		panic(hung{w.steps})
	}
	if w.yield != nil {
		w.yield()
	}
}

// opt makes an option, or hands out the one other writers use too.
func (w *World) opt(key string, f func() xw.Option) xw.Option {
	if w.opts == nil {
		return f()
	}
	o := w.opts[key]
	if o == nil {
		o = f()
		w.opts[key] = o
	}
	return o
}

func (w *World) fail(e error) {
	if w.failure == nil {
		w.failure = e
	}
	w.fails = append(w.fails, e)
}

// isFailure reports whether err wraps one of the failures of the failing call.
func (w *World) isFailure(err error) bool {
	if w.first == nil {
		w.first = append([]error(nil), w.fails...)
	}
	for _, f := range w.first {
		if errors.Is(err, f) {
			return true
		}
	}
	return false
}

func (w *World) fire(f *Fault) error {
	w.fired[f.Kind]++
	e := &injected{fmt.Sprintf("%s#%d", f.Kind, w.fired[f.Kind])}
	if f.Err != "" {
		w.fired["error "+f.Err]++
		return errorKinds[f.Err](e)
	}
	return e
}

// errorKinds are the errors devices and libraries report. None of them changes
// what the writer has to do: a failure is a failure.
var errorKinds = map[string]func(e *injected) error{
	"temporary": func(e *injected) error { return tempErr{e} },
	"eintr":     func(e *injected) error { return syscall.EINTR },
	"eagain":    func(e *injected) error { return &os.PathError{Op: "write", Path: e.what, Err: syscall.EAGAIN} },
	"enospc":    func(e *injected) error { return &os.PathError{Op: "write", Path: e.what, Err: syscall.ENOSPC} },
	"epipe":     func(e *injected) error { return &os.SyscallError{Syscall: "write", Err: syscall.EPIPE} },
	"timeout":   func(e *injected) error { return os.ErrDeadlineExceeded },
	"closed":    func(e *injected) error { return io.ErrClosedPipe },
	"eof":       func(e *injected) error { return io.EOF },
	"ueof":      func(e *injected) error { return fmt.Errorf("%s: %w", e.what, io.ErrUnexpectedEOF) },
	"short":     func(e *injected) error { return io.ErrShortWrite },
	"noprog":    func(e *injected) error { return io.ErrNoProgress },
	"bufull":    func(e *injected) error { return bufio.ErrBufferFull },
	"cancelled": func(e *injected) error { return context.Canceled },
	"empty":     func(e *injected) error { return errors.New("") },
	"dst":       func(e *injected) error { return transform.ErrShortDst },
}

var errorNames = []string{"temporary", "temporary", "eintr", "eagain", "enospc", "epipe", "timeout", "closed", "eof", "ueof", "short", "noprog", "bufull", "cancelled", "empty", "dst"}

// disguise gives some of the faults of a plan a particular kind of error.
func disguise(r *Rand, fs []Fault) {
	for i := range fs {
		f := &fs[i]
		if f.Kind != "sink-crash" && f.Kind != "sink-short" && r.P(30) {
			f.Err = errorNames[r.N(len(errorNames))]
			if f.Kind == "enc" && f.Err == "dst" || f.Kind == "indent" && f.Err == "short" {
				f.Err = "" // (these mean something to the layer they go through)
			}
		}
	}
}

// tempErr says of itself that trying again may help.
type tempErr struct{ *injected }

func (e tempErr) Unwrap() error   { return e.injected }
func (e tempErr) Temporary() bool { return true }
func (e tempErr) Timeout() bool   { return true }

// hasher is the event log, reduced to a running hash (and kept in full on replay).
type hasher struct {
	h    uint64
	n    int
	keep bool
	text []string
}

func newHasher() *hasher { return &hasher{h: 14695981039346656037} }

func (h *hasher) add(kind string, a, b int) {
	h.n++
	x := h.h ^ hashStr(kind)
	x = mix(x ^ uint64(uint32(a)))
	h.h = mix(x ^ uint64(uint32(b))<<1)
	if h.keep {
		h.text = append(h.text, fmt.Sprintf("%s %d %d", kind, a, b))
	}
}

func (h *hasher) str(s string) { h.add("s", int(hashStr(s)), len(s)) }

// Sink is the simulated output device.
type Sink struct {
	W          *World
	data       []byte
	calls      int
	faults     []Fault
	failed     bool // it has reported a failure (or a short write)
	dead       bool // and keeps failing
	deadErr    error
	afterFail  int // bytes accepted after the first failure
	callsAfter int
	ref        func() []byte // what it may hold at this instant (a prefix of it)
	bad        string        // first invariant violation seen at a write
}

func (s *Sink) Write(p []byte) (n int, err error) { return s.write(string(p)) }

// settle decides, once the call is over, what became of a short write.
func (s *Sink) settle(err error) {
	if s.W.short && s.W.failure == nil && errors.Is(err, io.ErrShortWrite) {
		s.W.fail(io.ErrShortWrite)
		s.failed = true
	}
}

func (s *Sink) write(p string) (n int, err error) {
	s.W.cross()
	s.calls++
	defer func() {
		s.W.log.add("sink", len(p), n)
		if err != nil {
			s.W.log.add("sinkerr", s.calls, len(s.data))
		}
	}()
	accept := func(k int) {
		if s.failed {
			s.afterFail += k
		}
		s.data = append(s.data, p[:k]...)
		if len(s.data) > maxStream {
			panic(hung{s.W.steps})
		}
		if s.ref != nil && s.bad == "" {
			r := s.ref()
			if !bytes.HasPrefix(r, s.data) {
				s.bad = fmt.Sprintf("sink write %d made the sink hold %s, which is not a prefix of %s", s.calls, diffAt(s.data, r), "the reference stream")
			}
		}
	}
	if s.failed {
		s.callsAfter++
	}
	if s.dead {
		s.W.fired["sink-still-dead"]++
		s.failed = true
		s.W.fail(s.deadErr)
		return 0, s.deadErr
	}
	for i := range s.faults {
		f := &s.faults[i]
		if f.Kind == "" {
			continue
		}
		hit, k := false, 0
		switch f.Kind {
		case "sink-crash":
			if len(p) > 0 && len(s.data)+len(p) > f.At {
				if k = f.At - len(s.data); k < 0 {
					k = 0
				}
				f.Kind = ""
				s.W.fired["sink-crash"]++
				accept(k)
				panic(crashed{})
			}
		case "sink-byte", "sink-short":
			if len(p) > 0 && len(s.data)+len(p) > f.At {
				hit, k = true, f.At-len(s.data)
				if k < 0 {
					k = 0
				}
			}
		case "sink-call":
			hit, k = s.calls-1 >= f.At, 0
		case "sink-late":
			hit, k = s.calls-1 >= f.At, len(p)
		}
		if !hit {
			continue
		}
		kind := f.Kind
		f.Kind = ""
		e := s.W.fire(&Fault{Kind: kind, Err: f.Err})
		accept(k)
		if kind == "sink-short" {
			// not a failure yet: the caller may notice, or offer the rest again
			s.W.short = true
			if !f.Transient {
				s.dead, s.deadErr = true, e
			}
			return k, nil
		}
		s.failed = true
		s.W.fail(e)
		if !f.Transient {
			s.dead, s.deadErr = true, e
		}
		return k, e
	}
	accept(len(p))
	return len(p), nil
}

// stringSink is a Sink that also implements io.StringWriter.
type stringSink struct{ *Sink }

func (s stringSink) WriteString(p string) (int, error) {
	s.W.fired["~stringwriter"]++
	return s.write(p)
}

// richSink can do all that a file, a connection or a buffer can. Writing is all that a
// Writer has to ask of it; when it is closed, nothing can be written any more.
type richSink struct {
	stringSink
	closed bool
}

func (s *richSink) Write(p []byte) (int, error) {
	if s.closed {
		return 0, os.ErrClosed
	}
	return s.Sink.Write(p)
}

func (s *richSink) WriteString(p string) (int, error) {
	if s.closed {
		return 0, os.ErrClosed
	}
	return s.stringSink.WriteString(p)
}

func (s *richSink) WriteByte(c byte) error {
	_, err := s.Write([]byte{c})
	return err
}

func (s *richSink) WriteRune(r rune) (int, error) { return s.Write([]byte(string(r))) }

func (s *richSink) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 512)
	for {
		k, rerr := r.Read(b)
		if k > 0 {
			w, err := s.Write(b[:k])
			n += int64(w)
			if err != nil {
				return n, err
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

func (s *richSink) Flush() error { return nil }
func (s *richSink) Sync() error  { return nil }
func (s *richSink) Close() error { s.closed = true; return nil }
func (s *richSink) Reset()       { s.closed = true }
func (s *richSink) Truncate(int) { s.closed = true }

// SimIndenter wraps another indenting strategy: it records every callback, can
// fail at a chosen one, can flush or write through the writer, and yields.
type SimIndenter struct {
	W      *World
	kind   string
	pre    string
	inner  xw.Indenter
	failAt []Fault
	calls  int
	sink   *Sink
	recs   []GotEv
	wraps  []string
	nested bool
	inject int // bytes injected so far
}

// GotEv is one recorded callback.
type GotEv struct {
	Last, Next Ev
	Sink       int
}

var kindName = map[xw.NodeKind]string{
	xw.NoNode: "", xw.AttrNode: "Attr", xw.CDataNode: "CData", xw.CDataContentNode: "CDataContent", xw.CommentNode: "Comment",
	xw.CommentContentNode: "CommentContent", xw.DTDNode: "DTD", xw.DTDAttListNode: "DTDAttList", xw.DTDAttrNode: "DTDAttr",
	xw.DTDElemNode: "DTDElem", xw.DTDEntityNode: "DTDEntity", xw.DocNode: "Doc", xw.ElemNode: "Elem", xw.NotationNode: "Notation",
	xw.PINode: "PI", xw.RawNode: "Raw", xw.TextNode: "Text",
}

var kindOf = map[string]xw.NodeKind{}

// nodeKind is the kind a scenario names, "#n" a kind the package does not define.
func nodeKind(s string) xw.NodeKind {
	if strings.HasPrefix(s, "#") {
		n, _ := strconv.Atoi(s[1:])
		return xw.NodeKind(n)
	}
	return kindOf[s]
}

// oddKinds can be named but never are the current node.
var oddKinds = []string{"#-1", "#-9223372036854775808", "#17", "#18", "#64", "#9223372036854775807",
	"", "Attr", "CDataContent", "CommentContent", "DTDAttr", "DTDElem", "DTDEntity", "Notation", "PI", "Raw", "Text"}

func init() {
	for k, v := range kindName {
		kindOf[v] = k
	}
}

func toEv(e xw.Event) Ev { return Ev{int(e.State), kindName[e.Node], e.Children} }

func (s *SimIndenter) Indent(w *xw.Writer, last, next xw.Event) error {
	s.W.cross()
	if s.nested { // our own writes
		return nil
	}
	s.calls++
	s.W.log.add("indent", int(next.State)*100+int(next.Node), next.Children)
	for i := range s.failAt {
		if s.failAt[i].Kind == "indent" && s.calls-1 >= s.failAt[i].At {
			e := s.W.fire(&s.failAt[i])
			s.failAt[i].Kind = ""
			if s.W.indFail == nil {
				s.W.indFail = e
			}
			return e
		}
	}
	if s.kind == "recflush" {
		s.nested = true
		err := w.Flush()
		s.nested = false
		if err != nil {
			return err
		}
	}
	s.recs = append(s.recs, GotEv{toEv(last), toEv(next), len(s.sink.data)})
	if s.kind == "inject" && injectsAt(toEv(next)) {
		s.nested = true
		err := w.WriteRaw(injectMark)
		s.nested = false
		if err != nil {
			return err
		}
	}
	if s.inner != nil {
		return s.inner.Indent(w, last, next)
	}
	return nil
}

const injectMark = "\x01"

// injectsAt: the injecting indenter puts a mark before these transitions.
func injectsAt(next Ev) bool {
	return next.St == 0 && (next.K == "Elem" || next.K == "Text" || next.K == "PI") || next.St == 2 && next.K == "Elem"
}

func (s *SimIndenter) Wrap(content string) string {
	s.W.cross()
	s.wraps = append(s.wraps, content)
	if s.kind == "rec" || s.kind == "recflush" || s.kind == "inject" {
		return s.pre + content + s.pre
	}
	if s.inner != nil {
		return s.inner.Wrap(content)
	}
	return content
}

// simTransformer fails once it has consumed a given number of bytes.
type simTransformer struct {
	transform.Transformer
	W      *World
	faults []Fault
	seen   int
}

func (t *simTransformer) Transform(dst, src []byte, atEOF bool) (int, int, error) {
	t.W.cross()
	for i := range t.faults {
		f := &t.faults[i]
		if f.Kind == "enc" && t.seen+len(src) > f.At {
			e := t.W.fire(f)
			t.W.fail(e)
			return 0, 0, e // persistent: an encoder does not heal
		}
	}
	nd, ns, err := t.Transformer.Transform(dst, src, atEOF)
	t.seen += ns
	return nd, ns, err
}

func diffAt(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	a, b := i-20, i+30
	if a < 0 {
		a = 0
	}
	cut := func(x []byte) string {
		lo, hi := a, b
		if lo > len(x) {
			lo = len(x)
		}
		if hi > len(x) {
			hi = len(x)
		}
		return fmt.Sprintf("%q", x[lo:hi])
	}
	return fmt.Sprintf("[%d bytes, differs at %d: got …%s want …%s]", len(got), i, cut(got), cut(want))
}

var errClosed = errors.New("closed")

// writerOpts are the options of a simulated writer.
func writerOpts(c *WCfg, wld *World, sink *Sink) ([]xw.Option, *SimIndenter) {
	opts := []xw.Option{func(w *xw.Writer) { w.InitialBufSize = c.Buf }}
	if c.Newline != nil {
		nl := string(*c.Newline)
		opts = append(opts, func(w *xw.Writer) { w.NewlineString = nl })
	}
	if c.Version != "" {
		v := string(c.Version)
		opts = append(opts, func(w *xw.Writer) { w.Version = v })
	}
	if c.NoEnforce {
		opts = append(opts, func(w *xw.Writer) { w.Enforce = false })
	}
	if c.NoStrict {
		opts = append(opts, func(w *xw.Writer) { w.StrictChars = false })
	}
	var ind *SimIndenter
	switch c.Indent {
	case "std":
		opts = append(opts, wld.opt("std", xw.WithIndent))
	case "stdstr":
		opts = append(opts, wld.opt("std"+string(c.IndentStr), func() xw.Option { return xw.WithIndentString(string(c.IndentStr)) }))
	case "rec", "recflush", "inject", "recstd":
		ind = &SimIndenter{W: wld, kind: c.Indent, pre: string(c.WrapPre), sink: sink}
		for _, f := range c.Faults {
			if f.Kind == "indent" {
				ind.failAt = append(ind.failAt, f)
			}
		}
		if c.Indent == "recstd" {
			si := xw.NewStandardIndenter()
			if c.IndentStr != "" {
				si.IndentString = string(c.IndentStr)
			}
			ind.inner = si
		}
		opts = append(opts, func(w *xw.Writer) { w.Indenter = ind })
	}
	return opts, ind
}

// openWriter builds the real writer on the simulated seams.
func openWriter(c *WCfg, wld *World, sink *Sink) (*xw.Writer, *SimIndenter, *bufio.Writer) {
	var out io.Writer = sink
	var bw *bufio.Writer
	switch c.Sink {
	case "sw":
		out = stringSink{sink}
	case "rich":
		out = &richSink{stringSink: stringSink{sink}}
	case "bufio":
		bw = bufio.NewWriterSize(sink, 128)
		out = bw
	}
	opts, ind := writerOpts(c, wld, sink)
	var late []xw.Option // set on the opened writer instead
	if c.Late {
		opts, late = opts[:1], opts[1:]
	}
	for _, f := range c.Faults {
		if len(f.Kind) > 4 && f.Kind[:4] == "sink" {
			sink.faults = append(sink.faults, f)
		}
	}
	if c.Enc != "" {
		e := encodings[c.Enc].NewEncoder()
		st := &simTransformer{Transformer: e.Transformer, W: wld}
		for _, f := range c.Faults {
			if f.Kind == "enc" {
				st.faults = append(st.faults, f)
			}
		}
		w := xw.OpenEncoding(out, string(c.EncLabel), &encoding.Encoder{Transformer: st}, opts...)
		for _, o := range late {
			o(w)
		}
		return w, ind, bw
	}
	w := xw.Open(out, opts...)
	for _, o := range late {
		o(w)
	}
	return w, ind, bw
}
