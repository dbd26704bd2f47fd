// instr OUT: write, below OUT, copies of /repo's package files in which every
// statement is preceded by a call of a scheduling point, and an overlay for go
// build. Package sync, where a file imports it, becomes a stand-in whose locks
// hand control to another task instead of blocking the process. The source text
// is otherwise untouched.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const hook = `package %s

import verifsync "%s"

// VerifBlocked sets what a task does that finds a lock taken.
func VerifBlocked(f func()) { verifsync.Blocked = f }

// VerifYield, if set, is called before every statement of the package.
var VerifYield func()

func verifYield() {
	if f := VerifYield; f != nil {
		f()
	}
}
`

// locks is the stand-in for package sync.
const locks = `package verifsync

import "sync"

// Blocked lets another task run; it panics if there is none.
var Blocked = func() { panic("deadlock") }

type (
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
)

type Mutex struct{ held bool }

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Lock() {
	for !m.TryLock() {
		Blocked()
	}
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w       bool
	readers int
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Lock() {
	for !m.TryLock() {
		Blocked()
	}
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RLock() {
	for !m.TryRLock() {
		Blocked()
	}
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool gives back what was put last: the choice that shares most.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v != nil {
		p.l = append(p.l, v)
	}
}

// Cond wakes everyone who waits; a waiter always looks at its condition again.
type Cond struct {
	L   Locker
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	for c.gen == g {
		Blocked()
	}
	c.L.Lock()
}

func (c *Cond) Signal()    { c.gen++ }
func (c *Cond) Broadcast() { c.gen++ }
`

// modulePath is what /repo's go.mod calls the module.
func modulePath(repo string) string {
	b, err := os.ReadFile(repo + "/go.mod")
	check(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	check(fmt.Errorf("no module line in go.mod"))
	return ""
}

func main() {
	out, repo := os.Args[1], "/repo"
	files, _ := filepath.Glob(repo + "/*.go")
	repl := map[string]string{}
	pkg, points := "", 0
	syncPath := modulePath(repo) + "/verifsync"
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		check(err)
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		check(err)
		if tree.Name.Name == "main" { // a program beside the package, not part of it
			continue
		}
		pkg = tree.Name.Name
		var at []int
		mark := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				at = append(at, fs.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				mark(b.List)
			case *ast.CaseClause:
				mark(b.Body)
			case *ast.CommClause:
				mark(b.Body)
			}
			return true
		})
		points += len(at)
		insert := map[int]string{}
		for _, o := range at {
			insert[o] = "verifYield();"
		}
		skip := map[int]int{} // (what an insertion replaces)
		for _, im := range tree.Imports {
			if im.Path.Value == `"sync"` {
				o := fs.Position(im.Path.Pos()).Offset
				insert[o], skip[o] = strconv.Quote(syncPath), len(im.Path.Value)
				if im.Name == nil {
					insert[o] = "sync " + insert[o]
				}
				at = append(at, o)
			}
		}
		sort.Ints(at)
		var b strings.Builder
		last := 0
		for _, o := range at {
			b.Write(src[last:o])
			b.WriteString(insert[o])
			last = o + skip[o]
		}
		b.Write(src[last:])
		dst := filepath.Join(out, filepath.Base(f))
		check(os.WriteFile(dst, []byte(b.String()), 0644))
		repl[f] = dst
	}
	h := filepath.Join(out, "zz_verif_yield.go")
	check(os.WriteFile(h, []byte(fmt.Sprintf(hook, pkg, syncPath)), 0644))
	repl[repo+"/zz_verif_yield.go"] = h
	l := filepath.Join(out, "zz_verif_sync.go")
	check(os.WriteFile(l, []byte(locks), 0644))
	repl[repo+"/verifsync/sync.go"] = l
	j, err := json.Marshal(map[string]any{"Replace": repl})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644))
	fmt.Fprintln(os.Stderr, points, "scheduling points")
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
