// Package vlib is the reporting side of every check: counts, samples, known
// findings, violations and the evidence file.
package vlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check collects what one run of one property's check did.
type Check struct {
	Prop  string
	Tier  string
	Level string
	Seed  int

	mu            sync.Mutex
	start         time.Time
	deadline      time.Time
	evals         int64
	distinctExtra int64
	seen          map[uint64]struct{}
	states        int64
	transitions   int64
	validated     int64
	samples       []any
	extra         map[string]any
	counters      map[string]int64
	rule          string
	exhaustive    bool
	known         map[string]string
	knownSeen     map[string]string
	violations    int
	vkeys         map[string]bool
	assumptions   []string
	maxReport     int
}

// Root is the directory of /verif.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// New starts a check. The budget bounds the exploration, not the verdict.
func New(prop, level string) *Check {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Check{Prop: prop, Tier: tier, Level: level, Seed: seed, start: time.Now(),
		seen: map[uint64]struct{}{}, extra: map[string]any{}, counters: map[string]int64{},
		known: map[string]string{}, knownSeen: map[string]string{}, vkeys: map[string]bool{},
		exhaustive: true, maxReport: 5}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	c.deadline = c.start.Add(budget)
	c.loadKnown()
	// A check started in the background ignores SIGINT, and what it starts
	// would inherit that: a handler here makes it the default there.
	for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT, syscall.SIGTERM} {
		if signal.Ignored(s) {
			signal.Notify(make(chan os.Signal, 1), s)
		}
	}
	return c
}

// Thorough reports the tier.
func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Expired reports that the budget is spent; the run is then not exhaustive.
func (c *Check) Expired() bool {
	if time.Now().After(c.deadline) {
		c.mu.Lock()
		c.exhaustive = false
		c.mu.Unlock()
		return true
	}
	return false
}

// Remaining is the time left in the budget.
func (c *Check) Remaining() time.Duration { return time.Until(c.deadline) }

func (c *Check) loadKnown() {
	data, err := os.ReadFile(filepath.Join(Root(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(data), "\n") {
		f := strings.SplitN(strings.TrimSpace(line), " ", 4)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+c.Prop || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		c.known[strings.TrimPrefix(f[2], "key=")] = f[3]
	}
}

// Rule says how cases are made and what makes one non-trivial.
func (c *Check) Rule(s string) { c.rule = s }

// Assume records an assumption.
func (c *Check) Assume(s ...string) { c.assumptions = append(c.assumptions, s...) }

// Set stores an extra coverage field.
func (c *Check) Set(k string, v any) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

// Count adds to a named counter.
func (c *Check) Count(k string, n int64) {
	c.mu.Lock()
	c.counters[k] += n
	c.mu.Unlock()
}

// Eval records one evaluated case; key identifies it among the non-trivial
// ones, and is empty for a trivial case.
func (c *Check) Eval(key string) {
	var h uint64
	if key != "" {
		f := fnv.New64a()
		f.Write([]byte(key))
		h = f.Sum64()
	}
	c.mu.Lock()
	c.evals++
	if key != "" {
		c.seen[h] = struct{}{}
	}
	c.mu.Unlock()
}

// EvalN records n evaluations at once, with nontrivial distinct ones hashed by the caller.
func (c *Check) EvalN(n int64, keys []uint64) {
	c.mu.Lock()
	c.evals += n
	for _, k := range keys {
		c.seen[k] = struct{}{}
	}
	c.mu.Unlock()
}

// States adds explored states and transitions.
func (c *Check) States(s, t int64) {
	c.mu.Lock()
	c.states += s
	c.transitions += t
	c.mu.Unlock()
}

// Validated counts model traces replayed against the implementation.
func (c *Check) Validated(n int64) {
	c.mu.Lock()
	c.validated += n
	c.mu.Unlock()
}

// NotExhaustive records that a bound cut the enumeration.
func (c *Check) NotExhaustive() {
	c.mu.Lock()
	c.exhaustive = false
	c.mu.Unlock()
}

// Sample keeps a few actual cases.
func (c *Check) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Violations is the number of reported violations so far.
func (c *Check) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.violations
}

// Enough reports that further violations would not be printed.
func (c *Check) Enough() bool { return c.Violations() >= c.maxReport }

// Violation reports a case that breaks the property. The key identifies the
// failing input, call site or history. It reports whether it was printed.
func (c *Check) Violation(key string, detail any) (reported bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if what, ok := c.known[key]; ok {
		c.knownSeen[key] = what
		return false
	}
	if c.vkeys[key] || c.violations >= c.maxReport {
		return false
	}
	c.vkeys[key] = true
	c.violations++
	dir := filepath.Join(Root(), "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, c.violations))
	data, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "key": key, "case": detail}, "", "  ")
	_ = os.WriteFile(path, append(data, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
	fmt.Printf("  %s\n", key)
	return true
}

// Finish writes the evidence and ends the process.
func (c *Check) Finish() {
	os.Exit(c.Write())
}

// Write writes the evidence file and returns the exit code.
func (c *Check) Write() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{"exhaustive": c.exhaustive}
	if c.rule != "" {
		cov["rule"] = c.rule
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "no case was run")
	}
	cov["samples"] = c.samples
	switch c.Level {
	case "model_checking":
		cov["states"] = c.states
		cov["transitions"] = c.transitions
		cov["traces_validated_against_impl"] = c.validated
		if c.evals > 0 {
			cov["evaluations"] = c.evals
			cov["distinct_nontrivial"] = int64(len(c.seen)) + c.distinctExtra
		}
	default:
		cov["evaluations"] = c.evals
		cov["distinct_nontrivial"] = int64(len(c.seen)) + c.distinctExtra
		if c.states > 0 {
			cov["states"] = c.states
			cov["transitions"] = c.transitions
		}
		if c.validated > 0 {
			cov["traces_validated_against_impl"] = c.validated
		}
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	for k, v := range c.counters {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": float64(time.Since(c.start).Milliseconds()) / 1000,
		"violations": c.violations,
	}
	if len(c.assumptions) > 0 {
		ev["assumptions"] = c.assumptions
	}
	data, _ := json.MarshalIndent(ev, "", "  ")
	_ = os.MkdirAll(filepath.Join(Root(), "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(Root(), "evidence", c.Prop+".json"), append(data, '\n'), 0o644)
	keys := make([]string, 0, len(c.knownSeen))
	for k := range c.knownSeen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.Prop, c.knownSeen[k], k)
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct non-trivial, %d states, %d transitions, exhaustive=%v, violations=%d, %.1fs\n",
		c.Prop, c.Tier, c.evals, int64(len(c.seen))+c.distinctExtra, c.states, c.transitions, c.exhaustive, c.violations, time.Since(c.start).Seconds())
	if c.violations > 0 {
		return 1
	}
	return 0
}

// Hash is the key hash used by EvalN.
func Hash(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

// EvalDistinct records n evaluations that are all different and non-trivial.
func (c *Check) EvalDistinct(n int64) {
	c.mu.Lock()
	c.evals += n
	c.distinctExtra += n
	c.mu.Unlock()
}
