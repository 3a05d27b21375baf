package main

import (
	"fmt"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// kind is one way in which a step can go wrong. An item kind replaces a run
// item, a task kind changes the task that holds it.
type kind struct {
	name string
	item func(id string) *spec.Item
	task func(t *spec.Task)
	file func(f *spec.File)
	// runs: the failing command itself leaves its mark.
	runs bool
	// ok: nothing is wrong, the run must succeed.
	ok bool
	// early: the task fails before its dependencies run.
	early bool
	// global: the whole invocation fails before anything runs.
	global bool
	// notInParallel: the item is not allowed in a parallel block.
	notInParallel bool
}

func mod(it *spec.Item, f func(*spec.Item)) *spec.Item { f(it); return it }

func kinds(thorough bool) []kind {
	exit := func(n int) kind {
		return kind{name: fmt.Sprintf("exit%d", n), runs: true, item: func(id string) *spec.Item { return spec.MarkExit(id, n) }}
	}
	ks := []kind{
		{name: "ok", ok: true, runs: true, item: spec.Mark},
		{name: "ok-stderr", ok: true, runs: true, item: func(id string) *spec.Item {
			return spec.Cmd("echo " + id + ` >>"$BLOG"; echo failed >&2`)
		}},
		exit(1), exit(2), exit(127), exit(255),
		{name: "silent-exit", runs: true, item: func(id string) *spec.Item {
			return mod(spec.MarkExit(id, 3), func(i *spec.Item) { i.Silent, i.Output = spec.B(true), spec.B(false) })
		}},
		{name: "killed", runs: true, item: func(id string) *spec.Item {
			return spec.Cmd("echo " + id + ` >>"$BLOG"; kill -9 $$`)
		}},
		{name: "terminated", runs: true, item: func(id string) *spec.Item {
			return spec.Cmd("echo " + id + ` >>"$BLOG"; kill -15 $$`)
		}},
		{name: "not-found", item: func(string) *spec.Item { return spec.Cmd("/nonexistent/command") }},
		{name: "syntax", item: func(string) *spec.Item { return spec.Cmd("if then fi (") }},
		{name: "set-e-multiline", runs: true, item: func(id string) *spec.Item {
			return spec.Cmd("set -e\necho " + id + ` >>"$BLOG"` + "\nfalse\ntrue\n")
		}},
		{name: "undef-cmd", item: func(id string) *spec.Item { return spec.Cmd(`echo ` + id + `-${{ nope }} >>"$BLOG"`) }},
		{name: "undef-cmd-tail", item: func(id string) *spec.Item { return spec.Cmd(`echo ` + id + `-${{ ok }} >>"$BLOG"; true ${{ nope }}`) }},
		{name: "undef-env", item: func(id string) *spec.Item {
			return mod(spec.Mark(id), func(i *spec.Item) { i.Env = spec.KV{{"X", "${{ nope }}"}} })
		}},
		{name: "undef-dir", item: func(id string) *spec.Item {
			return mod(spec.Mark(id), func(i *spec.Item) { i.Dir = "${{ nope }}" })
		}},
		{name: "undef-when", item: func(id string) *spec.Item {
			return mod(spec.Mark(id), func(i *spec.Item) { i.When = "${{ nope }} == 'x'" })
		}},
		{name: "undef-when-ref", item: func(string) *spec.Item {
			return mod(spec.Ref("fine"), func(i *spec.Item) { i.When = "${{ nope }}" })
		}},
		{name: "undef-log", item: func(string) *spec.Item { return spec.Log("${{ nope }}") }},
		{name: "no-dir", item: func(id string) *spec.Item {
			return mod(spec.Mark(id), func(i *spec.Item) { i.Dir = "missing" })
		}},
		{name: "dir-is-file", item: func(id string) *spec.Item {
			return mod(spec.Mark(id), func(i *spec.Item) { i.Dir = "plain" })
		}},
		{name: "bad-env-name-ok", ok: true, runs: true, item: func(id string) *spec.Item {
			return mod(spec.Mark(id), func(i *spec.Item) { i.Env = spec.KV{{"A_1", "x"}} })
		}},
		{name: "prompt", notInParallel: true, item: func(string) *spec.Item {
			return &spec.Item{Kind: "prompt", Text: "p", Message: "m", PType: "input"}
		}},
		{name: "prompt-password", notInParallel: true, item: func(string) *spec.Item {
			return &spec.Item{Kind: "prompt", Text: "p", Message: "m", PType: "password"}
		}},
		{name: "prompt-undef", notInParallel: true, item: func(string) *spec.Item {
			return &spec.Item{Kind: "prompt", Text: "p", Message: "${{ nope }}", PType: "input", Default: "d"}
		}},
		{name: "task-when", early: true, task: func(t *spec.Task) { t.When = "${{ nope }}" }},
		{name: "task-dir", task: func(t *spec.Task) { t.Dir = "missing" }},
		{name: "task-env", task: func(t *spec.Task) { t.Env = spec.KV{{"X", "${{ nope }}"}} }},
		{name: "task-vars", task: func(t *spec.Task) { t.Vars = spec.KV{{"x", "${{ nope }}"}} }},
		{name: "task-vars-cycle", task: func(t *spec.Task) { t.Vars = spec.KV{{"x", "${{ y }}"}, {"y", "${{ x }}"}} }},
		{name: "global-vars", global: true, file: func(f *spec.File) { f.Vars = append(f.Vars, [2]string{"x", "${{ nope }}"}) }},
	}
	if thorough {
		ks = append(ks, exit(126), exit(128), exit(130), exit(137),
			kind{name: "background-exit", runs: true, item: func(id string) *spec.Item {
				return spec.Cmd("echo " + id + ` >>"$BLOG"; (sleep 0.05; true) & exit 4`)
			}},
			kind{name: "pipeline", runs: true, item: func(id string) *spec.Item {
				return spec.Cmd("echo " + id + ` >>"$BLOG"; true | false`)
			}},
			kind{name: "exec-fails", item: func(string) *spec.Item { return spec.Cmd("exec /nonexistent/command") }},
			kind{name: "log-env-ok", ok: true, item: func(string) *spec.Item { return spec.Log("${{ env.NOT_SET }}") }},
		)
	}
	return ks
}

// statusKinds are all ways in which a command can end: every exit status, and
// every signal that ends a process.
func statusKinds() []kind {
	var ks []kind
	for n := range 256 {
		ks = append(ks, kind{name: fmt.Sprintf("status%d", n), runs: true, ok: n == 0, item: func(id string) *spec.Item { return spec.MarkExit(id, n) }})
	}
	for sig := 1; sig <= 64; sig++ {
		// Ignored by default (17 CHLD, 18 CONT, 23 URG, 28 WINCH), stopping
		// (19 to 22), reserved by the C library (32, 33).
		if sig == 17 || sig == 18 || sig >= 19 && sig <= 23 || sig == 28 || sig == 32 || sig == 33 {
			continue
		}
		ks = append(ks, kind{name: fmt.Sprintf("signal%d", sig), runs: true, item: func(id string) *spec.Item {
			return spec.Cmd(fmt.Sprintf(`echo %s >>"$BLOG"; ulimit -c 0; kill -%d $$`, id, sig))
		}})
	}
	return ks
}

// want collects what must happen: seq is the exact order of a sequential run,
// par is set when marks of a parallel block may interleave.
type want struct {
	must []string
	may  map[string]bool
	par  bool
	fail bool
}

type prog struct {
	key  string
	f    *spec.File
	bad  *spec.Item // the failing item, or nil
	badT *spec.Task // the task that fails as a whole, or nil
	k    kind
}

// marksOf evaluates the program: only the marked item or task fails.
func (p *prog) want() *want {
	w := &want{may: map[string]bool{}}
	if p.k.global {
		w.fail = true
		return w
	}
	tasks := map[string]*spec.Task{}
	for _, t := range p.f.Tasks {
		tasks[t.Name] = t
	}
	done := map[string]int{} // 1 ok, 2 failed
	var run func(name string) bool
	var item func(it *spec.Item) bool
	item = func(it *spec.Item) bool {
		if it == p.bad {
			if p.k.runs {
				w.must = append(w.must, markOf(it.Text))
			}
			return p.k.ok
		}
		switch it.Kind {
		case "cmd":
			if p.k.name == "task-dir" && p.holds(it) {
				return false
			}
			w.must = append(w.must, markOf(it.Text))
		case "task":
			return run(it.Text)
		case "parallel":
			w.par = true
			ok := true
			// A failing condition of an item fails the block before it starts.
			for _, x := range it.Items {
				if x == p.bad && strings.HasPrefix(p.k.name, "undef-when") {
					ok = false
				}
			}
			if !ok {
				for _, x := range it.Items {
					p.all(x, tasks, w.may)
				}
				return false
			}
			// Dependencies of referenced tasks may be run before the block; if
			// one of them fails the block need not start.
			pre := true
			for _, x := range it.Items {
				if x.Kind == "task" {
					for _, d := range tasks[x.Text].Deps {
						if p.badT != nil && p.badT.Name == x.Text && p.k.early {
							continue
						}
						pre = run(d) && pre
					}
				}
			}
			if !pre {
				for _, x := range it.Items {
					p.all(x, tasks, w.may)
				}
				return false
			}
			for _, x := range it.Items {
				ok = item(x) && ok
			}
			return ok
		}
		return true
	}
	run = func(name string) bool {
		if done[name] != 0 {
			return done[name] == 1
		}
		t := tasks[name]
		bad := t == p.badT
		if bad && p.k.early {
			done[name] = 2
			return false
		}
		for _, d := range t.Deps {
			if !run(d) {
				done[name] = 2
				return false
			}
		}
		if bad && p.k.name != "task-dir" {
			done[name] = 2
			return false
		}
		for _, it := range t.Run {
			if !item(it) {
				done[name] = 2
				return false
			}
		}
		done[name] = 1
		return true
	}
	w.fail = !run("t")
	return w
}

// holds reports that the item is directly in the failing task.
func (p *prog) holds(it *spec.Item) bool {
	for _, x := range p.badT.Run {
		if x == it {
			return true
		}
		for _, y := range x.Items {
			if y == it {
				return true
			}
		}
	}
	return false
}

func (p *prog) all(it *spec.Item, tasks map[string]*spec.Task, into map[string]bool) {
	switch it.Kind {
	case "cmd":
		if it != p.bad || p.k.runs {
			into[markOf(it.Text)] = true
		}
	case "task":
		for _, x := range tasks[it.Text].Run {
			p.all(x, tasks, into)
		}
	}
}

// templates are small task graphs; slot gives the place of every step, and
// hole says which of them is the failing one.
type template struct {
	name  string
	holes int // number of step slots
	tasks func(step func(id string) *spec.Item) []*spec.Task
	par   map[int]bool // slots directly inside a parallel block
}

func templates() []template {
	task := func(name string, deps []string, items ...*spec.Item) *spec.Task {
		return &spec.Task{Name: name, Deps: deps, Run: items}
	}
	return []template{
		{name: "seq", holes: 3, tasks: func(s func(string) *spec.Item) []*spec.Task {
			return []*spec.Task{task("t", nil, s("a"), s("b"), s("c"))}
		}},
		{name: "deps", holes: 5, tasks: func(s func(string) *spec.Item) []*spec.Task {
			d1 := task("d1", nil, s("a"), s("b"))
			d2 := task("d2", nil, s("c"))
			return []*spec.Task{task("t", []string{"d1", "d2"}, s("d"), s("e")), d1, d2}
		}},
		{name: "diamond", holes: 4, tasks: func(s func(string) *spec.Item) []*spec.Task {
			x := task("x", nil, s("a"))
			l := task("l", []string{"x"}, s("b"))
			r := task("r", []string{"x"}, s("c"))
			return []*spec.Task{task("t", []string{"l", "r"}, s("d")), l, r, x}
		}},
		{name: "ref", holes: 5, tasks: func(s func(string) *spec.Item) []*spec.Task {
			a := s("a")
			d := task("d", nil, s("b"))
			r := task("r", []string{"d"}, s("c"), s("d"))
			return []*spec.Task{task("t", nil, a, spec.Ref("r"), s("e")), r, d}
		}},
		{name: "deep", holes: 4, tasks: func(s func(string) *spec.Item) []*spec.Task {
			x := task("x", nil, s("a"))
			y := task("y", []string{"x"}, s("b"))
			z := task("z", nil, spec.Ref("y"), s("c"))
			return []*spec.Task{task("t", []string{"z"}, s("d")), z, y, x}
		}},
		{name: "par", holes: 5, par: map[int]bool{1: true, 2: true, 3: true}, tasks: func(s func(string) *spec.Item) []*spec.Task {
			return []*spec.Task{task("t", nil, s("a"), spec.Par(s("b"), s("c"), s("d")), s("e"))}
		}},
		{name: "par-limit", holes: 4, par: map[int]bool{0: true, 1: true, 2: true}, tasks: func(s func(string) *spec.Item) []*spec.Task {
			p := spec.Par(s("a"), s("b"), s("c"))
			p.Limit = 1
			return []*spec.Task{task("t", nil, p, s("d"))}
		}},
		{name: "par-ref", holes: 6, par: map[int]bool{0: true}, tasks: func(s func(string) *spec.Item) []*spec.Task {
			a := s("a")
			d := task("d", nil, s("b"))
			r := task("r", []string{"d"}, s("c"), s("d"))
			return []*spec.Task{task("t", nil, spec.Par(a, spec.Ref("r"), spec.Ref("q")), s("e")), r, d, task("q", nil, s("f"))}
		}},
		{name: "par-dep", holes: 4, par: map[int]bool{0: true, 1: true}, tasks: func(s func(string) *spec.Item) []*spec.Task {
			p := task("p", nil, spec.Par(s("a"), s("b")), s("c"))
			return []*spec.Task{task("t", []string{"p"}, s("d")), p}
		}},
		{name: "par-par", holes: 5, par: map[int]bool{0: true, 1: true, 2: true}, tasks: func(s func(string) *spec.Item) []*spec.Task {
			a := s("a")
			p := task("p", nil, spec.Par(s("b"), s("c")), s("d"))
			return []*spec.Task{task("t", nil, spec.Par(a, spec.Ref("p")), s("e")), p}
		}},
	}
}

// build fills the template with ordinary steps and one failing one.
func build(tp template, hole int, k kind) *prog {
	p := &prog{k: k, key: fmt.Sprintf("%s/%s@%d", tp.name, k.name, hole)}
	n := 0
	var at *spec.Item
	step := func(id string) *spec.Item {
		var it *spec.Item
		if n == hole && k.item != nil {
			it = k.item(id)
			p.bad = it
		} else {
			it = spec.Mark(id)
		}
		if n == hole {
			at = it
		}
		n++
		return it
	}
	tasks := tp.tasks(step)
	p.f = &spec.File{Tasks: tasks, Vars: spec.KV{{"ok", "fine"}}}
	p.f.Tasks = append(p.f.Tasks, &spec.Task{Name: "fine", Run: []*spec.Item{spec.Mark("FINE")}})
	if k.task != nil {
		for _, t := range tasks {
			for _, it := range t.Run {
				if it == at {
					p.badT = t
				}
				for _, x := range it.Items {
					if x == at {
						p.badT = t
					}
				}
			}
		}
		k.task(p.badT)
	}
	if k.file != nil {
		k.file(p.f)
	}
	return p
}

func judgeFail(c *bb.Case, g bb.Got) string {
	p := c.Data.(*prog)
	w := p.want()
	if g.TimedOut {
		return "bab did not finish"
	}
	exit := 0
	if w.fail {
		exit = 1
	}
	if g.Exit != exit {
		return fmt.Sprintf("exit status %d, must be %d (stderr: %s)", g.Exit, exit, bb.Plain(g.Stderr))
	}
	if w.fail && !strings.Contains(bb.Plain(g.Stderr), "rror") && strings.TrimSpace(bb.Plain(g.Stderr)) == "" {
		return "the failure is not reported on standard error"
	}
	count := map[string]int{}
	for _, m := range g.Log {
		count[m]++
	}
	for _, m := range w.must {
		if count[m] != 1 {
			return fmt.Sprintf("step %s ran %d times, must be 1 (ran: %v, expected: %v)", m, count[m], g.Log, w.must)
		}
		delete(count, m)
	}
	for m, n := range count {
		if !w.may[m] || n > 1 {
			return fmt.Sprintf("step %s must not run (ran: %v, expected: %v)", m, g.Log, w.must)
		}
	}
	if !w.par && strings.Join(g.Log, " ") != strings.Join(w.must, " ") {
		return fmt.Sprintf("steps ran as %v, must be %v", g.Log, w.must)
	}
	return ""
}

func p02(ch *vlib.Check) {
	ch.Rule("every template task graph (sequence, dependencies, diamond, references, nested, parallel) with one step at every position replaced by every kind of failing or succeeding step; every exit status 0 to 255 and every signal that ends a process at a position of four of them (thorough: at every position of all); plus every 4-task graph of P01 with each task failing, and chains, fans, ladders and funnels of many sizes with a failure at the ends and in the middle; every case is non-trivial")
	seq := func(yield func(*bb.Case) bool) {
		for _, k := range kinds(ch.Thorough()) {
			for _, tp := range templates() {
				for hole := range tp.holes {
					if k.notInParallel && tp.par[hole] {
						continue
					}
					p := build(tp, hole, k)
					c := &bb.Case{Key: p.key, Files: map[string]string{"Babfile": p.f.YAML(), "plain": "x"}, Args: []string{"t"}, Data: p}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, seq, judgeFail)
	statuses := func(yield func(*bb.Case) bool) {
		for _, k := range statusKinds() {
			for _, tp := range templates() {
				if !ch.Thorough() && tp.name != "seq" && tp.name != "deps" && tp.name != "par" && tp.name != "ref" {
					continue
				}
				for hole := range tp.holes {
					if !ch.Thorough() && hole != 1 {
						continue
					}
					p := build(tp, hole, k)
					c := &bb.Case{Key: p.key, Files: map[string]string{"Babfile": p.f.YAML(), "plain": "x"}, Args: []string{"t"}, Data: p}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, statuses, judgeFail)
	graphs := func(yield func(*bb.Case) bool) {
		es := []edge{none, dep, refLast}
		if ch.Thorough() {
			es = []edge{none, dep, refFirst, refLast}
		}
		shapes(4, es, func(s shape) bool {
			for i := range 4 {
				v := s
				v.exits[i] = 1 + i
				if !yield(mk(v.key(), v.file(), "a")) {
					return false
				}
			}
			return true
		})
	}
	bb.Explore(ch, graphs, judge)
	bb.Explore(ch, func(yield func(*bb.Case) bool) { bigs(ch, true, yield) }, judge)
	unknown := func(yield func(*bb.Case) bool) {
		for _, args := range [][]string{{"nope"}, {"T"}, {"--nope"}, {"-n", "nope"}} {
			f := &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Mark("a")}}}}
			if !yield(&bb.Case{Key: "args " + strings.Join(args, " "), Files: map[string]string{"Babfile": f.YAML()}, Args: args}) {
				return
			}
		}
	}
	bb.Explore(ch, unknown, func(c *bb.Case, g bb.Got) string {
		if len(g.Log) != 0 || g.Exit != 1 || strings.TrimSpace(g.Stderr) == "" {
			return fmt.Sprintf("must fail with status 1 and a message and run nothing: exit %d, ran %v, stderr %q", g.Exit, g.Log, g.Stderr)
		}
		return ""
	})
}
