// Command order decides P01 (dependency order, at most once) and P02 (failure
// stops the run) by enumerating task graphs and running the real binary.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

type edge int

const (
	none edge = iota
	dep
	refFirst // task reference before the task's own command
	refLast  // task reference after it
)

// graph builds a file of n tasks; e(i,j) is the edge from task i to j > i.
type shape struct {
	n       int
	e       [5][5]edge
	rev     bool // dependencies and references in reverse order
	decl    bool // tasks declared in reverse order
	exits   [5]int
	whenOff int // task whose when is false, or -1
	empty   int // task without run items, or -1
	names   []string
	line    bool // the whole file on one line
}

var plainNames = []string{"a", "b", "c", "d", "e"}
var hardNames = []string{"z", "a:b", "a", "b:a", "a:b:c"}

func (s shape) file() *spec.File {
	f := &spec.File{}
	names := s.names
	if names == nil {
		names = plainNames
	}
	for i := range s.n {
		t := &spec.Task{Name: names[i]}
		var first, last []*spec.Item
		for k := i + 1; k < s.n; k++ {
			j := k
			if s.rev {
				j = s.n - (k - i)
			}
			switch s.e[i][j] {
			case dep:
				t.Deps = append(t.Deps, names[j])
			case refFirst:
				first = append(first, spec.Ref(names[j]))
			case refLast:
				last = append(last, spec.Ref(names[j]))
			}
		}
		if i != s.empty {
			id := fmt.Sprintf("m%d", i)
			own := spec.Mark(id)
			if s.exits[i] != 0 {
				own = spec.MarkExit(id, s.exits[i])
			}
			t.Run = append(append(first, own), last...)
		} else {
			t.Run = append(first, last...)
		}
		if i == s.whenOff {
			t.When = "false"
		}
		f.Tasks = append(f.Tasks, t)
	}
	if s.decl {
		for i, j := 0, len(f.Tasks)-1; i < j; i, j = i+1, j-1 {
			f.Tasks[i], f.Tasks[j] = f.Tasks[j], f.Tasks[i]
		}
	}
	return f
}

func (s shape) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "n%d ", s.n)
	for i := range s.n {
		for j := i + 1; j < s.n; j++ {
			b.WriteByte("-dfl"[s.e[i][j]])
		}
	}
	if s.rev {
		b.WriteString(" rev")
	}
	if s.decl {
		b.WriteString(" decl")
	}
	for i, x := range s.exits {
		if x != 0 {
			fmt.Fprintf(&b, " fail%d=%d", i, x)
		}
	}
	if s.whenOff >= 0 {
		fmt.Fprintf(&b, " off%d", s.whenOff)
	}
	if s.empty >= 0 {
		fmt.Fprintf(&b, " empty%d", s.empty)
	}
	if s.names != nil {
		b.WriteString(" hardnames")
	}
	if s.line {
		b.WriteString(" line")
	}
	return b.String()
}

type data struct {
	f    *spec.File
	task string
}

func exitOf(it *spec.Item) int {
	var code int
	if i := strings.Index(it.Text, "exit "); i >= 0 {
		fmt.Sscanf(it.Text[i:], "exit %d", &code)
	}
	return code
}

func markOf(text string) string {
	f := strings.Fields(text)
	for i := range len(f) - 1 {
		if f[i] == "echo" {
			return f[i+1]
		}
	}
	return ""
}

func mk(key string, f *spec.File, task string) *bb.Case {
	return &bb.Case{Key: key, Files: map[string]string{"Babfile": f.YAML()}, Args: []string{task}, Data: data{f, task}}
}

func judge(c *bb.Case, g bb.Got) string {
	d := c.Data.(data)
	r := spec.Eval(d.f, d.task, spec.World{Exit: exitOf})
	var want []string
	for _, e := range r.Events {
		if e.Kind == "run" {
			want = append(want, markOf(e.Text))
		}
	}
	if g.TimedOut {
		return "bab did not finish"
	}
	exit := 0
	if r.Err != nil {
		exit = 1
	}
	if strings.Join(g.Log, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("commands ran as %v, must be %v (stderr: %s)", g.Log, want, bb.Plain(g.Stderr))
	}
	if g.Exit != exit {
		return fmt.Sprintf("exit status %d, must be %d (stderr: %s)", g.Exit, exit, bb.Plain(g.Stderr))
	}
	if exit != 0 && strings.TrimSpace(g.Stderr) == "" {
		return "failed without a message"
	}
	return ""
}

// shapes enumerates the graphs over n tasks with the given kinds of edge.
func shapes(n int, kinds []edge, yield func(shape) bool) bool {
	var pairs [][2]int
	for i := range n {
		for j := i + 1; j < n; j++ {
			pairs = append(pairs, [2]int{i, j})
		}
	}
	s := shape{n: n, whenOff: -1, empty: -1}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == len(pairs) {
			return yield(s)
		}
		for _, e := range kinds {
			s.e[pairs[k][0]][pairs[k][1]] = e
			if !rec(k + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func p01(ch *vlib.Check) {
	ch.Rule("every task graph over 4 tasks with edges {none, dependency, task reference before/after the command}, in both listing orders, with one task optionally skipped by when or without commands, also with the whole file written on one line; 5-task dependency graphs; chains, fans, ladders, funnels and full graphs of every size up to 40 and of sizes around powers of two and ten; non-trivial: at least two edges")
	seq := func(yield func(*bb.Case) bool) {
		emit := func(s shape) bool {
			edges := 0
			for i := range s.n {
				for j := range s.n {
					if s.e[i][j] != none {
						edges++
					}
				}
			}
			names := s.names
			if names == nil {
				names = plainNames
			}
			c := mk(s.key(), s.file(), names[0])
			if s.line {
				c.Files["Babfile"] = s.file().Line()
			}
			c.Trivial = edges < 2
			return yield(c)
		}
		if !shapes(4, []edge{none, dep, refFirst, refLast}, func(s shape) bool {
			if !emit(s) {
				return false
			}
			s.rev, s.decl = true, true
			return emit(s)
		}) {
			return
		}
		if !shapes(4, []edge{none, dep, refFirst}, func(s shape) bool {
			for off := 1; off < 4; off++ {
				v := s
				v.whenOff = off
				if !emit(v) {
					return false
				}
			}
			if ch.Thorough() {
				for e := range 4 {
					v := s
					v.empty = e
					if !emit(v) {
						return false
					}
				}
			}
			v := s
			v.line = true
			if !emit(v) {
				return false
			}
			v = s
			v.names = hardNames
			return emit(v)
		}) {
			return
		}
		if !shapes(5, []edge{none, dep}, func(s shape) bool {
			if !emit(s) {
				return false
			}
			s.rev, s.decl = true, true
			return emit(s)
		}) {
			return
		}
		if !bigs(ch, false, yield) {
			return
		}
		if ch.Thorough() {
			shapes(5, []edge{none, dep, refLast}, emit)
		}
	}
	bb.Explore(ch, seq, judge)
}

func main() {
	ch := vlib.New(os.Args[1], "exploration")
	switch os.Args[1] {
	case "P01":
		p01(ch)
	case "P02":
		p02(ch)
	}
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}
