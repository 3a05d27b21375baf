// Package par explores the schedules of parallel blocks: the instrumented
// runner of bab under the controlled scheduler, and the real binary with
// commands that wait to be told to end.
package par

import (
	"fmt"
	"sort"
	"strings"
)

// Step is one run item of a task.
type Step struct {
	Cmd   string
	Ref   string
	Items []Step // parallel block
	Limit int
	Mode  string
}

// Task is a task of a program.
type Task struct {
	Name  string
	Deps  []string
	Steps []Step
}

// Prog is a Babfile and the commands of it that fail.
type Prog struct {
	Leaves   bool // commands leave a process in the background
	Stubborn bool // commands ignore signals
	Key      string
	Tasks    []*Task
	Main     string
	Fail     map[string]bool
	Shared   bool // some task is reached from several items
	Out      map[string]bool
}

func (p *Prog) task(n string) *Task {
	for _, t := range p.Tasks {
		if t.Name == n {
			return t
		}
	}
	return nil
}

// Script makes the command line of a command.
type Script func(name string) string

// YAML renders the Babfile.
func (p *Prog) YAML(script Script) string {
	var b strings.Builder
	b.WriteString("tasks:\n")
	for _, t := range p.Tasks {
		fmt.Fprintf(&b, "  %s:\n", t.Name)
		if len(t.Deps) > 0 {
			fmt.Fprintf(&b, "    deps: [%s]\n", strings.Join(t.Deps, ", "))
		}
		if len(t.Steps) == 0 {
			continue
		}
		b.WriteString("    run:\n")
		for _, s := range t.Steps {
			switch {
			case s.Items != nil:
				b.WriteString("      - parallel:\n")
				for _, i := range s.Items {
					if i.Ref != "" {
						fmt.Fprintf(&b, "          - task: %s\n            label: %s\n", i.Ref, i.Ref)
					} else {
						fmt.Fprintf(&b, "          - cmd: %q\n            label: %s\n", script(i.Cmd), i.Cmd)
					}
				}
				if s.Limit > 0 {
					fmt.Fprintf(&b, "        limit: %d\n", s.Limit)
				}
				if s.Mode != "" {
					fmt.Fprintf(&b, "        mode: %s\n", s.Mode)
				}
			case s.Ref != "":
				fmt.Fprintf(&b, "      - task: %s\n", s.Ref)
			default:
				fmt.Fprintf(&b, "      - cmd: %q\n", script(s.Cmd))
			}
		}
	}
	return b.String()
}

// sem is the meaning of a program: what runs and how it ends, on which every
// schedule must agree.
type sem struct {
	p         *Prog
	memo      map[string]bool
	exec      map[string]bool   // commands executed
	owner     map[string]string // command -> task
	before    map[string]map[string]bool
	sub       map[string]map[string]bool // task -> commands executed below it (static)
	ambiguous bool                       // the dependency of an item fails
	blocks    []blockSem
	ok        bool
	depth     int
}

type blockSem struct {
	limit  int
	items  []map[string]bool // commands of each item, executed ones
	shared bool
	prior  map[string]bool
	inner  bool // inside an item of another block
	deps   bool // an item has dependencies, which run before the block
}

func analyse(p *Prog) *sem {
	s := &sem{p: p, memo: map[string]bool{}, exec: map[string]bool{}, before: map[string]map[string]bool{}, sub: map[string]map[string]bool{}}
	s.ok = s.evalTask(p.Main)
	return s
}

func union(a, b map[string]bool) map[string]bool {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}

// evalTask executes the task; s.sub[n] is what has to have ended before
// whoever needs the task goes on.
func (s *sem) evalTask(n string) bool {
	if ok, seen := s.memo[n]; seen {
		return ok
	}
	t := s.p.task(n)
	done := map[string]bool{}
	res := true
	for _, d := range t.Deps {
		ok := s.evalTask(d)
		done = union(done, s.sub[d])
		if !ok {
			res = false
			break
		}
	}
	if res {
		for _, st := range t.Steps {
			ok, cmds := s.evalStep(st, done)
			done = union(done, cmds)
			if !ok {
				res = false
				break
			}
		}
	}
	s.sub[n] = done
	s.memo[n] = res
	return res
}

func (s *sem) evalStep(st Step, prior map[string]bool) (bool, map[string]bool) {
	switch {
	case st.Items != nil:
		all := map[string]bool{}
		ok := true
		b := blockSem{limit: st.Limit, prior: prior, inner: s.depth > 0}
		refs := map[string]int{}
		for _, it := range st.Items {
			if it.Ref != "" {
				for _, d := range s.p.task(it.Ref).Deps {
					b.deps = true
					if !s.evalTask(d) {
						s.ambiguous = true
					}
				}
				s.reach(it.Ref, refs, map[string]bool{})
			}
		}
		for _, n := range refs {
			if n > 1 {
				b.shared = true
			}
		}
		s.depth++
		defer func() { s.depth-- }()
		for _, it := range st.Items {
			o, cmds := s.evalStep(it, prior)
			b.items = append(b.items, cmds)
			all = union(all, cmds)
			ok = ok && o
		}
		s.blocks = append(s.blocks, b)
		return ok, all
	case st.Ref != "":
		ok := s.evalTask(st.Ref)
		return ok, s.sub[st.Ref]
	default:
		s.exec[st.Cmd] = true
		s.before[st.Cmd] = prior
		return !s.p.Fail[st.Cmd], map[string]bool{st.Cmd: true}
	}
}

// reach counts by how many items each task is reached.
func (s *sem) reach(n string, refs map[string]int, seen map[string]bool) {
	if seen[n] {
		return
	}
	seen[n] = true
	refs[n]++
	t := s.p.task(n)
	for _, d := range t.Deps {
		s.reach(d, refs, seen)
	}
	for _, st := range t.Steps {
		if st.Ref != "" {
			s.reach(st.Ref, refs, seen)
		}
		for _, it := range st.Items {
			if it.Ref != "" {
				s.reach(it.Ref, refs, seen)
			}
		}
	}
}

// Event is the start or the end of a command.
type Event struct {
	Start bool
	Cmd   string
}

func (e Event) String() string {
	if e.Start {
		return "+" + e.Cmd
	}
	return "-" + e.Cmd
}

// judgeOrder checks a whole trace; err is what the run returned.
func (s *sem) judgeOrder(ev []Event, failed bool) string {
	started, ended := map[string]int{}, map[string]int{}
	for _, e := range ev {
		if e.Start {
			started[e.Cmd]++
			if started[e.Cmd] > 1 {
				return fmt.Sprintf("command %s started twice", e.Cmd)
			}
			if !s.exec[e.Cmd] {
				return fmt.Sprintf("command %s started although what it needs failed", e.Cmd)
			}
			for b := range s.before[e.Cmd] {
				if ended[b] == 0 {
					return fmt.Sprintf("command %s started before %s had ended", e.Cmd, b)
				}
			}
		} else {
			ended[e.Cmd]++
		}
	}
	for c := range started {
		if ended[c] == 0 {
			return fmt.Sprintf("command %s never ended", c)
		}
	}
	if !s.ambiguous {
		for _, c := range keys(s.exec) {
			if started[c] == 0 {
				return fmt.Sprintf("command %s was never started", c)
			}
		}
	}
	if failed == s.ok {
		return fmt.Sprintf("the run reported failure=%v, but everything succeeding is %v", failed, s.ok)
	}
	return ""
}

func keys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// judgeLimit checks at every moment of the trace that no block has more items
// in progress than its limit. An item is in progress from the start of its
// first command to the end of its last.
func (s *sem) judgeLimit(ev []Event) string {
	started, ended := map[string]bool{}, map[string]bool{}
	for i, e := range ev {
		if e.Start {
			started[e.Cmd] = true
		} else {
			ended[e.Cmd] = true
		}
		for _, b := range s.blocks {
			if b.limit == 0 || b.shared {
				continue
			}
			n := 0
			for _, it := range b.items {
				some, all := false, true
				for c := range it {
					if started[c] {
						some = true
					}
					if !ended[c] {
						all = false
					}
				}
				if some && !all {
					n++
				}
			}
			if n > b.limit {
				return fmt.Sprintf("%d items in progress with limit %d after %v", n, b.limit, ev[:i+1])
			}
		}
	}
	return ""
}

// judgeQuiet checks a moment at which nothing can go on but running commands:
// the blocks that have begun must be as busy as they can be.
func (s *sem) judgeQuiet(ev []Event) string {
	started, ended := map[string]bool{}, map[string]bool{}
	for _, e := range ev {
		if e.Start {
			started[e.Cmd] = true
		} else {
			ended[e.Cmd] = true
		}
	}
	if s.ambiguous {
		return ""
	}
	for _, b := range s.blocks {
		if b.shared || b.deps {
			continue
		}
		begun := !b.inner
		for c := range b.prior {
			if !ended[c] {
				begun = false
			}
		}
		for _, it := range b.items {
			for c := range it {
				begun = begun || started[c]
			}
		}
		if !begun {
			continue
		}
		busy, left := 0, 0
		for _, it := range b.items {
			run, all := false, true
			for c := range it {
				if started[c] && !ended[c] {
					run = true
				}
				if !ended[c] {
					all = false
				}
			}
			if run {
				busy++
			}
			if !all {
				left++
			}
		}
		want := left
		if b.limit > 0 && b.limit < want {
			want = b.limit
		}
		if busy < want {
			return fmt.Sprintf("only %d items run while %d of %d unfinished ones could (limit %d) after %v", busy, want, left, b.limit, ev)
		}
	}
	return ""
}

// item kinds: the letters build an item and the tasks it needs.
func addItem(p *Prog, kind byte, id string, nestLimit int, mode string) Step {
	add := func(t *Task) {
		if p.task(t.Name) == nil {
			p.Tasks = append(p.Tasks, t)
		}
	}
	c := func(n string) Step { return Step{Cmd: n} }
	shared := func() { add(&Task{Name: "S", Steps: []Step{c("s")}}) }
	switch kind {
	case 'c':
		return c("c" + id)
	case 'r':
		add(&Task{Name: "r" + id, Steps: []Step{c("r" + id + "a")}})
		return Step{Ref: "r" + id}
	case 'q':
		add(&Task{Name: "q" + id, Steps: []Step{c("q" + id + "a"), c("q" + id + "b")}})
		return Step{Ref: "q" + id}
	case 's':
		shared()
		return Step{Ref: "S"}
	case 'u':
		shared()
		add(&Task{Name: "u" + id, Steps: []Step{{Ref: "S"}, c("u" + id + "a")}})
		return Step{Ref: "u" + id}
	case 'v':
		shared()
		add(&Task{Name: "v" + id, Steps: []Step{c("v" + id + "a"), {Ref: "S"}, c("v" + id + "b")}})
		return Step{Ref: "v" + id}
	case 'd':
		shared()
		add(&Task{Name: "d" + id, Deps: []string{"S"}, Steps: []Step{c("d" + id + "a")}})
		return Step{Ref: "d" + id}
	case 'e': // a dependency reached only below the item
		shared()
		add(&Task{Name: "f" + id, Deps: []string{"S"}, Steps: []Step{c("f" + id + "a")}})
		add(&Task{Name: "e" + id, Steps: []Step{{Ref: "f" + id}, c("e" + id + "a")}})
		return Step{Ref: "e" + id}
	case 'n':
		add(&Task{Name: "n" + id, Steps: []Step{{Items: []Step{c("n" + id + "a"), c("n" + id + "b")}, Limit: nestLimit, Mode: mode}}})
		return Step{Ref: "n" + id}
	case 'm':
		shared()
		add(&Task{Name: "m" + id, Steps: []Step{{Items: []Step{{Ref: "S"}, c("m" + id + "b")}, Mode: mode}, c("m" + id + "c")}})
		return Step{Ref: "m" + id}
	case 'o': // no commands of its own: only a dependency
		shared()
		add(&Task{Name: "o" + id, Deps: []string{"S"}})
		return Step{Ref: "o" + id}
	}
	panic("kind")
}

// build makes the program of a word of item kinds.
func build(word string, limit, nestLimit, shape int, mode string) *Prog {
	p := &Prog{Main: "main", Fail: map[string]bool{}}
	var items []Step
	for i := range word {
		items = append(items, addItem(p, word[i], fmt.Sprint(i), nestLimit, mode))
	}
	blk := Step{Items: items, Limit: limit, Mode: mode}
	switch shape {
	case 0:
		p.Tasks = append(p.Tasks, &Task{Name: "main", Steps: []Step{blk, {Cmd: "z"}}})
	case 1: // the block is in a dependency
		p.Tasks = append(p.Tasks, &Task{Name: "b", Steps: []Step{blk}},
			&Task{Name: "main", Deps: []string{"b"}, Steps: []Step{{Cmd: "z"}}})
	case 2: // two blocks, the second again with the first item
		p.Tasks = append(p.Tasks, &Task{Name: "main", Steps: []Step{{Cmd: "a"}, blk, {Items: []Step{items2(items[0]), {Cmd: "y"}}}, {Cmd: "z"}}})
	}
	p.Key = fmt.Sprintf("%s l%d n%d s%d%s", word, limit, nestLimit, shape, mode)
	return p
}

func items2(s Step) Step {
	if s.Ref != "" {
		return s
	}
	return Step{Cmd: s.Cmd + "x"}
}

// withFails yields the program without and with failing commands.
func withFails(p *Prog, max int) []*Prog {
	all := keys(analyse(p).exec)
	var out []*Prog
	var rec func(i int, f []string)
	rec = func(i int, f []string) {
		q := *p
		q.Fail = map[string]bool{}
		for _, c := range f {
			q.Fail[c] = true
		}
		if len(f) > 0 {
			q.Key += " fail " + strings.Join(f, ",")
		}
		out = append(out, &q)
		if len(f) == max {
			return
		}
		for j := i; j < len(all); j++ {
			if all[j] == "z" {
				continue
			}
			rec(j+1, append(append([]string{}, f...), all[j]))
		}
	}
	rec(0, nil)
	return out
}

// words yields the multisets of size n over the kinds.
func words(kinds string, n int) []string {
	var out []string
	var rec func(from int, w string)
	rec = func(from int, w string) {
		if len(w) == n {
			out = append(out, w)
			return
		}
		for i := from; i < len(kinds); i++ {
			rec(i, w+kinds[i:i+1])
		}
	}
	rec(0, "")
	return out
}
