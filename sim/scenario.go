package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"unicode/utf8"
)

// S is a string that survives JSON byte for byte (it may hold invalid UTF-8).
type S string

func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"q": strconv.QuoteToASCII(string(s))})
}

func (s *S) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(b, &m); err != nil {
			return err
		}
		v, err := strconv.Unquote(m["q"])
		*s = S(v)
		return err
	}
	var v string
	err := json.Unmarshal(b, &v)
	*s = S(v)
	return err
}

// Node is one xmlwriter node value, as data.
type Node struct {
	T   string `json:"t"`           // Elem, Attr, Text, ...
	P   S      `json:"p,omitempty"` // prefix
	U   S      `json:"u,omitempty"` // URI
	N   S      `json:"n,omitempty"` // name, target
	V   S      `json:"v,omitempty"` // value, content, decl
	A   []Node `json:"a,omitempty"` // Attrs
	C   []Node `json:"c,omitempty"` // Content
	F   bool   `json:"f,omitempty"` // Full
	Pub S      `json:"pub,omitempty"`
	Sys S      `json:"sys,omitempty"`
	ND  S      `json:"nd,omitempty"`
	PE  bool   `json:"pe,omitempty"`
	Typ S      `json:"typ,omitempty"`
	Def int    `json:"def,omitempty"`
	SE  bool   `json:"se,omitempty"` // SuppressEncoding
	SV  bool   `json:"sv,omitempty"` // SuppressVersion
	FE  *S     `json:"fe,omitempty"`
	FV  *S     `json:"fv,omitempty"`
	SA  *bool  `json:"sa,omitempty"`
	Cv  string `json:"cv,omitempty"`  // attribute value conversion
	I   int64  `json:"i,omitempty"`   // value for it
	Ptr bool   `json:"ptr,omitempty"` // handed over as a pointer where the call takes any node
}

// Op is one call on a Writer.
//
//	Start, StartX, Write, WriteX, Block     N = nodes (X: the node-specific method)
//	End (Kind, Names), EndX (Kind, Names), EndFull (Names), EndAny, EndAll,
//	EndAllFlush, EndDoc, EndTo (D, Kind, Names), Flush, Next
//	Opt (Kind = enforce, strict: D; newline, version: Names): the caller sets the writer's field
type Op struct {
	F     string   `json:"f"`
	N     []Node   `json:"n,omitempty"`
	Kind  string   `json:"k,omitempty"`
	Names []string `json:"names,omitempty"`
	D     int      `json:"d,omitempty"`
	EC    int      `json:"ec,omitempty"` // C16: >0 groups consecutive ops into one collecting call
}

// Fault is one injected failure.
//
//	sink-byte   sink accepts bytes up to offset At, then errors        (torn write)
//	sink-call   the At-th sink write accepts nothing and errors
//	sink-late   the At-th sink write accepts everything but errors
//	sink-short  the write crossing offset At accepts up to At, returns nil error
//	indent      the At-th indenter callback errors
//	enc         the encoder fails once At bytes have gone through it
//	crash       the caller is cut off: nothing after At sink bytes/ops (see exec)
//
// Transient: the sink works again after this fault.
type Fault struct {
	Kind      string `json:"kind"`
	At        int    `json:"at"`
	Transient bool   `json:"transient,omitempty"`
	Err       string `json:"err,omitempty"` // the error it comes with, see errorKinds
}

// WCfg is one simulated writer: its configuration, fault plan and history.
type WCfg struct {
	Buf       int     `json:"buf"`
	Sink      string  `json:"sink,omitempty"`   // "", "sw" (io.StringWriter), "rich" (everything a file or buffer can do), "bufio"
	Indent    string  `json:"indent,omitempty"` // "", "std", "stdstr", "rec", "recstd", "inject"
	IndentStr S       `json:"istr,omitempty"`
	WrapPre   S       `json:"wrap,omitempty"` // rec: Wrap(s) = WrapPre + s + WrapPre
	Newline   *S      `json:"nl,omitempty"`
	NoEnforce bool    `json:"noenforce,omitempty"`
	NoStrict  bool    `json:"nostrict,omitempty"`
	Late      bool    `json:"late,omitempty"` // the settings are made after opening
	Version   S       `json:"version,omitempty"`
	Enc       string  `json:"enc,omitempty"`
	EncLabel  S       `json:"label,omitempty"`
	Faults    []Fault `json:"faults,omitempty"`
	Ops       []Op    `json:"ops"`
	Tail      []Op    `json:"tail,omitempty"` // continuation after a failure
}

// Scenario is one complete simulated run: replaying it is a pure function of it
// and the code under test.
type Scenario struct {
	Prop    string `json:"prop"`
	Seed    uint64 `json:"seed"`
	Index   int    `json:"index"`
	Mode    string `json:"mode,omitempty"`
	W       []WCfg `json:"w"`
	Sched   []int  `json:"sched,omitempty"` // scheduler choices
	Trees   []Node `json:"trees,omitempty"`
	Prior   *Prior `json:"prior,omitempty"` // runs executed before this one in the same process
	Class   string `json:"class,omitempty"` // violation class (replay files)
	Message string `json:"message,omitempty"`
	LogHash string `json:"log_hash,omitempty"`
	Tries   int    `json:"tries,omitempty"` // the tree it failed on was not deterministic itself
}

// Prior are runs (by index) that go before; only a violation that depends on
// what earlier writers left behind in the process needs them.
type Prior struct {
	From   int `json:"from"`
	To     int `json:"to"`
	Stride int `json:"stride"`
}

func loadScenario(path string) (*Scenario, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	s := &Scenario{}
	if err := json.Unmarshal(b, s); err != nil {
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	return s, nil
}

func (s *Scenario) save(path string) error {
	b, err := json.MarshalIndent(s, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}

func (s *Scenario) clone() *Scenario {
	b, _ := json.Marshal(s)
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}
