// Package sched is the controlled scheduler under which the instrumented code
// of bab runs: every goroutine stops at gates, and the controller decides
// which one goes on. Quiescence is found with testing/synctest, so blocking
// operations are the real ones of the Go runtime.
package sched

import (
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"
)

// Kind tells why a goroutine stopped at a gate.
type Kind int

// Kinds of gates. At a KBlockedEnv gate the goroutine waits for its
// environment (a command that runs): leaving it is no preemption.
const (
	KStart Kind = iota
	KSync
	KPost
	KStmt
	KEnv
)

type gor struct {
	id     int
	label  string
	kind   Kind
	resume chan int
	choice int // number of alternatives when resumed with one (Choose)
	c      *controller
}

// Decision is one scheduling point of an execution.
type Decision struct {
	Alts   []Alt // enabled alternatives, the default first
	Chosen int
	Cost   int // preemptions spent before this decision
}

// Alt is one way to go on.
type Alt struct {
	G    int
	Val  int
	Cost int
	Kind Kind
}

type controller struct {
	mu     sync.Mutex
	atGate map[*gor]bool
	nextID int
	live   int
	fine   bool
	always bool
}

var active atomic.Pointer[controller]

// The record of a goroutine is kept in its profiler label, which goroutines
// started by code that is not instrumented inherit; see self.

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

func (c *controller) known() *gor {
	g := (*gor)(getLabel())
	if g == nil || g.c != c {
		return nil
	}
	return g
}

// Token stands for a goroutine about to be started.
type Token struct {
	c *controller
	g *gor
}

// Spawn is called by the parent just before a go statement.
func Spawn() Token {
	c := active.Load()
	if c == nil {
		return Token{}
	}
	if c.known() == nil {
		return Token{}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	g := &gor{c: c, id: c.nextID, resume: make(chan int)}
	c.nextID++
	c.live++
	return Token{c, g}
}

// Enter is the first thing a started goroutine does.
func Enter(t Token) {
	if t.c == nil || active.Load() != t.c {
		return
	}
	setLabel(unsafe.Pointer(t.g))
	t.c.gate(t.g, KStart, "start", 0)
}

// Leave is the last.
func Leave(t Token) {
	if t.c == nil || active.Load() != t.c {
		return
	}
	setLabel(nil)
	t.c.mu.Lock()
	t.c.live--
	t.c.mu.Unlock()
}

// Go starts f as a controlled goroutine.
func Go(f func()) {
	t := Spawn()
	go func() {
		Enter(t)
		defer Leave(t)
		f()
	}()
}

func (c *controller) gate(g *gor, k Kind, label string, choices int) int {
	c.mu.Lock()
	g.kind, g.label, g.choice = k, label, choices
	c.atGate[g] = true
	c.mu.Unlock()
	return <-g.resume
}

func (c *controller) self() *gor {
	g := c.known()
	c.mu.Lock()
	defer c.mu.Unlock()
	if g == nil || c.atGate[g] {
		// A goroutine started by code that is not instrumented.
		g = &gor{c: c, id: c.nextID, resume: make(chan int)}
		c.nextID++
		c.live++
		setLabel(unsafe.Pointer(g))
	}
	return g
}

func gateAt(k Kind, label string) {
	c := active.Load()
	if c == nil {
		return
	}
	if k != KEnv && !c.always {
		// With one goroutine there is nothing to choose.
		c.mu.Lock()
		alone := c.live <= 1
		c.mu.Unlock()
		if alone {
			return
		}
	}
	c.gate(c.self(), k, label, 0)
}

// Pre stops before a synchronising operation.
func Pre() { gateAt(KSync, "sync") }

// Post stops after one that may have blocked.
func Post() { gateAt(KPost, "post") }

// Stmt stops before a statement, in the fine mode only.
func Stmt() {
	c := active.Load()
	if c == nil || !c.fine {
		return
	}
	g := c.known()
	c.mu.Lock()
	alone := c.live <= 1
	c.mu.Unlock()
	if g == nil || alone {
		return
	}
	c.gate(c.self(), KStmt, "stmt", 0)
}

// Env stops while the environment works for this goroutine.
func Env(label string) { gateAt(KEnv, label) }

// Choose resolves a choice the runtime would make at random.
func Choose(n int) int {
	c := active.Load()
	if c == nil || n < 2 {
		return 0
	}
	return c.gate(c.self(), KSync, "select", n)
}

// Result is what one execution under control ended with.
type Result struct {
	Decisions []Decision
	Deadlock  bool
	Cut       bool // step limit
	Diverged  bool // the prefix could not be replayed
	Panic     any
}

// Program is run once per schedule. Main runs as the first goroutine.
type Program struct {
	Main func()
	// Quiet is called when only goroutines at KEnv gates can go on.
	Quiet func(labels []string)
	// Cancel, if set, is an event that may happen once, at any point.
	Cancel   func()
	Fine     bool
	MaxSteps int
}

// Run executes one schedule: the given prefix, then the defaults.
func Run(t *testing.T, p *Program, prefix []int) (res Result) {
	synctest.Test(t, func(t *testing.T) {
		c := &controller{atGate: map[*gor]bool{}, fine: p.Fine, always: p.Cancel != nil}
		active.Store(c)
		root := &gor{c: c, id: 0, resume: make(chan int)}
		c.nextID = 1
		c.live = 1
		finished := false
		go func() {
			setLabel(unsafe.Pointer(root))
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 4096)
					res.Panic = []any{r, string(buf[:runtime.Stack(buf, false)])}
				}
				c.mu.Lock()
				c.live--
				finished = true
				c.mu.Unlock()
			}()
			c.gate(root, KStart, "main", 0)
			p.Main()
		}()
		last := -1
		cancelled := p.Cancel == nil
		cost := 0
		idle := 0
		for step := 0; ; step++ {
			synctest.Wait()
			c.mu.Lock()
			ready := make([]*gor, 0, len(c.atGate))
			for g := range c.atGate {
				ready = append(ready, g)
			}
			live := c.live
			fin := finished
			c.mu.Unlock()
			if len(ready) == 0 {
				if fin && live <= 0 {
					break
				}
				if idle++; idle > 3 {
					res.Deadlock = !fin
					break
				}
				time.Sleep(time.Hour) // lets timers of the code fire
				continue
			}
			idle = 0
			if p.MaxSteps > 0 && step > p.MaxSteps {
				res.Cut = true
				break
			}
			sort.Slice(ready, func(i, j int) bool { return ready[i].id < ready[j].id })
			allEnv := true
			var labels []string
			for _, g := range ready {
				if g.kind != KEnv {
					allEnv = false
				}
				labels = append(labels, g.label)
			}
			if allEnv && p.Quiet != nil {
				p.Quiet(labels)
			}
			// The default is to go on with the last goroutine.
			def := -1
			for i, g := range ready {
				if g.id == last && g.kind != KEnv {
					def = i
				}
			}
			free := def < 0
			if free {
				for i, g := range ready {
					if g.kind != KEnv {
						def = i
						break
					}
				}
				if def < 0 {
					def = 0
				}
			}
			var alts []Alt
			add := func(g *gor, c int) {
				alts = append(alts, Alt{G: g.id, Cost: c, Kind: g.kind})
				for v := 1; v < g.choice; v++ {
					alts = append(alts, Alt{G: g.id, Val: v, Cost: c + 1, Kind: g.kind})
				}
			}
			add(ready[def], 0)
			for i, g := range ready {
				if i == def {
					continue
				}
				// A command that ends while others could go on costs
				// one; among commands that run, the choice is free.
				k := 1
				if free && (g.kind != KEnv || ready[def].kind == KEnv) {
					k = 0
				}
				add(g, k)
			}
			if !cancelled {
				alts = append(alts, Alt{G: -1})
			}
			ch := 0
			if step < len(prefix) {
				ch = prefix[step]
				if ch >= len(alts) {
					res.Diverged = true
					ch = 0
				}
			}
			res.Decisions = append(res.Decisions, Decision{Alts: alts, Chosen: ch, Cost: cost})
			cost += alts[ch].Cost
			if alts[ch].G < 0 {
				cancelled = true
				p.Cancel()
				continue
			}
			for _, g := range ready {
				if g.id == alts[ch].G {
					last = g.id
					c.mu.Lock()
					delete(c.atGate, g)
					c.mu.Unlock()
					g.resume <- alts[ch].Val
					break
				}
			}
		}
		active.Store(nil)
		if res.Deadlock || res.Cut {
			// Goroutines remain; the bubble cannot end normally.
			abandon()
		}
	})
	return res
}

// OnAbandon is called when an execution cannot be ended.
var OnAbandon func()

func abandon() {
	if OnAbandon != nil {
		OnAbandon()
	}
}

// Explore runs every schedule of the program with at most bound preemptions.
// check is called after each; it returns false to stop.
func Explore(t *testing.T, mk func() *Program, bound int, max int, check func(p *Program, r Result, prefix []int) bool) (schedules, points int64, complete bool) {
	var prefix []int
	for {
		p := mk()
		r := Run(t, p, prefix)
		schedules++
		points += int64(len(r.Decisions))
		if !check(p, r, prefix) {
			return schedules, points, false
		}
		if max > 0 && schedules >= int64(max) {
			return schedules, points, false
		}
		// The next prefix: the deepest decision with an untried alternative.
		next := -1
		var alt int
		for i := len(r.Decisions) - 1; i >= 0; i-- {
			d := r.Decisions[i]
			for a := d.Chosen + 1; a < len(d.Alts); a++ {
				if d.Cost+d.Alts[a].Cost <= bound {
					next, alt = i, a
					break
				}
			}
			if next >= 0 {
				break
			}
		}
		if next < 0 {
			return schedules, points, true
		}
		np := make([]int, next+1)
		for i := 0; i < next; i++ {
			np[i] = r.Decisions[i].Chosen
		}
		np[next] = alt
		prefix = np
	}
}
