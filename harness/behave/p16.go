package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P16"] = p16 }

func probe(id string) *spec.Item {
	return spec.Cmd(fmt.Sprintf(`echo "%s $(pwd -P) V=${{ V }} E=$E" >>"$BLOG"; echo out-%s; echo err-%s >&2`, id, id, id))
}

func wrong(name string) *spec.Task {
	return &spec.Task{Name: name, Run: []*spec.Item{spec.Cmd(`echo WRONG-` + name + ` >>"$BLOG"; echo WRONG`)}}
}

// axis is one setting of the file under test; choice 0 is its default.
type axis struct {
	n   int
	set func(f *spec.File, t *spec.Task, k int)
}

func tri(k int) *bool {
	switch k {
	case 1:
		return spec.B(true)
	case 2:
		return spec.B(false)
	}
	return nil
}

var p16axes = []axis{
	{3, func(f *spec.File, t *spec.Task, k int) {
		f.Vars = []spec.KV{{{"V", "f"}, {"sub", "sub"}}, {{"sub", "sub"}}, {{"V", "${{ U }}+"}, {"U", "u"}, {"sub", "sub"}}}[k]
	}},
	{3, func(f *spec.File, t *spec.Task, k int) {
		f.Env = []spec.KV{nil, {{"E", "f"}}, {{"E", "${{ V }}$${{ V }}"}}}[k]
	}},
	{3, func(f *spec.File, t *spec.Task, k int) { f.Dir = []string{"", "sub", "${{ sub }}"}[k] }},
	{3, func(f *spec.File, t *spec.Task, k int) { f.Silent = tri(k) }},
	{3, func(f *spec.File, t *spec.Task, k int) { f.Output = tri(k) }},
	{4, func(f *spec.File, t *spec.Task, k int) {
		t.Vars = []spec.KV{nil, {{"V", "t"}}, {{"V", "${{ W }}"}, {"W", "w"}}, {{"X", "${{ V }}x"}, {"V", "t"}}}[k]
	}},
	{3, func(f *spec.File, t *spec.Task, k int) {
		t.Env = []spec.KV{nil, {{"E", "t"}}, {{"E", "t${{ V }}"}, {"V", "no"}}}[k]
	}},
	{3, func(f *spec.File, t *spec.Task, k int) { t.Dir = []string{"", "sub2", "missing"}[k] }},
	{3, func(f *spec.File, t *spec.Task, k int) { t.Silent = tri(k) }},
	{3, func(f *spec.File, t *spec.Task, k int) { t.Output = tri(k) }},
	{3, func(f *spec.File, t *spec.Task, k int) {
		t.When = []string{"", "${{ V }} == 'f'", "${{ V }} != 'f'"}[k]
	}},
}

// p16bodies are the shapes of the main task of the file under test.
var p16bodies = []struct {
	name  string
	order bool // whether the order of the output is determined
	make  func(t *spec.Task)
}{
	{"cmd", true, func(t *spec.Task) { t.Run = []*spec.Item{probe("c1"), probe("c2")} }},
	{"par", false, func(t *spec.Task) {
		p := spec.Par(probe("p1"), spec.Ref("r"), probe("p2"))
		p.Limit = 2
		t.Run = []*spec.Item{p, probe("c")}
	}},
	{"parset", false, func(t *spec.Task) {
		p := spec.Par(probe("p1"), probe("p2"))
		p.Silent, p.Output, p.Mode = spec.B(true), spec.B(false), "grouped"
		p.Items[0].Label, p.Items[1].Platforms = "lab", []string{"windows"}
		t.Run = []*spec.Item{p, probe("c")}
	}},
	{"ref", true, func(t *spec.Task) { t.Run = []*spec.Item{spec.Ref("r"), probe("c"), spec.Ref("d")} }},
	{"refset", true, func(t *spec.Task) {
		r := spec.Ref("r")
		r.Silent, r.Output, r.When = spec.B(true), spec.B(true), "${{ V }} != 'zz'"
		x := spec.Ref("r2")
		x.Platforms = []string{"darwin"}
		t.Run = []*spec.Item{r, x, probe("c")}
	}},
	{"deps", true, func(t *spec.Task) {
		t.Deps = []string{"d", "r"}
		t.Run = []*spec.Item{probe("c")}
	}},
	{"prompt", true, func(t *spec.Task) {
		t.Run = []*spec.Item{{Kind: "prompt", Text: "V", PType: "select", Message: "m ${{ V }}", Default: "b", Options: []string{"a", "b"}}, probe("c"), spec.Ref("r")}
	}},
	{"full", true, func(t *spec.Task) {
		c := probe("c")
		c.Dir, c.Env, c.Silent, c.Output, c.When, c.Platforms = "${{ sub }}", spec.KV{{"E", "c${{ V }}"}}, spec.B(false), spec.B(false), "${{ V }}", []string{"linux"}
		l := spec.Log("msg ${{ V }}")
		l.Level, l.When = "warn", "${{ V }} == 'f'"
		t.Run = []*spec.Item{c, l, probe("c2")}
	}},
	{"fail", true, func(t *spec.Task) {
		t.Deps = []string{"d"}
		t.Run = []*spec.Item{spec.Cmd(`echo c >>"$BLOG"; exit 3`), probe("c2")}
	}},
}

var p16roots = []spec.File{
	{},
	{Vars: spec.KV{{"V", "root"}, {"R", "r"}}, Env: spec.KV{{"E", "root${{ R }}"}}},
	{Silent: spec.B(true), Output: spec.B(false)},
	{Silent: spec.B(false), Vars: spec.KV{{"U", "rootu"}, {"W", "rootw"}}},
}

func fill(over, under spec.KV) spec.KV {
	out := append(spec.KV(nil), over...)
	m := over.Map()
	for _, p := range under {
		if _, ok := m[p[0]]; !ok {
			out = append(out, p)
		}
	}
	return out
}

// aloneWith is the file as it behaves when its includer has globals of its own.
func aloneWith(f spec.File, root spec.File) *spec.File {
	f.Vars, f.Env = fill(f.Vars, root.Vars), fill(f.Env, root.Env)
	if f.Silent == nil {
		f.Silent = root.Silent
	}
	if f.Output == nil {
		f.Output = root.Output
	}
	return &f
}

var linesRE = regexp.MustCompile(`lib/(Babfile|alone\.yml):[0-9]+`)
var failedRE = regexp.MustCompile(`ERRO parallel item .* failed:.*`)
var spacesRE = regexp.MustCompile(`[ \t]+`)

func normalise(s, ns string, order bool) string {
	s = bb.Plain(s)
	s = strings.ReplaceAll(s, ns, "")
	s = spacesRE.ReplaceAllString(s, " ")
	s = linesRE.ReplaceAllString(s, "lib/Babfile:N")
	if !order {
		s = failedRE.ReplaceAllString(s, "ERRO parallel item failed")
		l := strings.Split(s, "\n")
		sort.Strings(l)
		s = strings.Join(l, "\n")
	}
	return s
}

type run16 struct {
	ns   string
	args []string
}

type data16 struct {
	order bool
	runs  []run16 // the first is the file on its own
}

func exec16(c *bb.Case) bb.Got {
	outer := bb.NewRoot()
	defer bb.RemoveRoot(outer)
	root := outer + "/p"
	var first bb.Got
	for i, r := range c.Data.(data16).runs {
		cc := *c
		cc.Args = r.args
		if i > 0 {
			cc.Files, cc.Dirs = nil, nil
		}
		g := bb.RunIn(outer, root, &cc)
		if i == 0 {
			first = g
		} else {
			first.Sub = append(first.Sub, g)
		}
	}
	return first
}

func judge16(c *bb.Case, a bb.Got) string {
	d := c.Data.(data16)
	for i, b := range a.Sub {
		r := d.runs[i+1]
		if b.TimedOut || a.TimedOut {
			return "bab did not finish"
		}
		la, lb := a.Log, b.Log
		if !d.order {
			la, lb = sorted(la), sorted(lb)
		}
		x, y := strings.Join(la, "\n"), strings.Join(lb, "\n")
		if x != y {
			return fmt.Sprintf("%v ran\n%s\non its own, but included\n%s\n(stderr %s)", r.args, x, y, bb.Plain(b.Stderr))
		}
		if a.Exit != b.Exit {
			return fmt.Sprintf("%v exits with %d on its own, with %d included (stderr %s)", r.args, a.Exit, b.Exit, bb.Plain(b.Stderr))
		}
		if x, y := normalise(a.Stdout, r.ns, d.order), normalise(b.Stdout, r.ns, d.order); x != y {
			return fmt.Sprintf("%v prints\n%s\non its own, but included\n%s", r.args, x, y)
		}
		if x, y := normalise(a.Stderr, r.ns, d.order), normalise(b.Stderr, r.ns, d.order); x != y {
			return fmt.Sprintf("%v reports\n%s\non its own, but included\n%s", r.args, x, y)
		}
	}
	return ""
}

func p16(ch *vlib.Check) {
	ch.Rule("a Babfile with all combinations of up to N settings of the file and of its task, times the shapes of the task, times the globals of the including file, run on its own and included at one and two levels next to decoys of the same names: commands, order, directories, environment, variables, output and exit status are compared; and all small pairs of libraries included side by side and through each other, against a reference that flattens them; include chains of growing length in several directory layouts, the same file many times, long names, every character in names and paths. Non-trivial: every case")
	limit := 2
	if ch.Thorough() {
		limit = 4
	}
	gen := func(yield func(*bb.Case) bool) {
		ix := make([]int, len(p16axes))
		emit := func() bool {
			for _, body := range p16bodies {
				for ri, root := range p16roots {
					set := 0
					for _, k := range ix {
						if k > 0 {
							set++
						}
					}
					if ri > 0 && set > limit-1 {
						continue
					}
					t := &spec.Task{Name: "t", Desc: "x", Alias: "ta", Aliases: []string{"tb"}}
					f := spec.File{}
					for i, a := range p16axes {
						a.set(&f, t, ix[i])
					}
					body.make(t)
					f.Tasks = []*spec.Task{
						{Name: "d", Run: []*spec.Item{probe("d")}}, t,
						{Name: "r", Vars: spec.KV{{"V", "rv"}}, Run: []*spec.Item{probe("r")}},
						{Name: "r2", Run: []*spec.Item{probe("r2")}},
					}
					decoys := func() []*spec.Task {
						x := wrong("t")
						x.Alias, x.Aliases = "ta", []string{"tb"}
						return []*spec.Task{x, wrong("d"), wrong("r")}
					}
					one := root
					one.Includes, one.Tasks = spec.KV{{"ns", "../lib/Babfile"}, {"other", "../mid/Babfile"}}, decoys()
					two := root
					two.Includes, two.Tasks = spec.KV{{"a", "../mid/Babfile"}}, decoys()
					mid := spec.File{Includes: spec.KV{{"b", "../lib/Babfile"}}, Tasks: decoys()}
					alone := aloneWith(f, root)
					c := &bb.Case{
						Key:  fmt.Sprintf("settings %v body %s root %d", ix, body.name, ri),
						Dirs: []string{"lib/sub", "lib/sub2", "one/sub", "one/sub2", "two/sub", "mid/sub", "sub", "sub2"},
						Files: map[string]string{
							"lib/Babfile": f.YAML(), "one/Babfile": one.YAML(), "two/Babfile": two.YAML(), "mid/Babfile": mid.YAML(),
							"lib/alone.yml": alone.YAML(),
						},
						Data: data16{order: body.order, runs: []run16{
							{"", []string{"-b", "lib/alone.yml", "t"}},
							{"ns:", []string{"-b", "one/Babfile", "ns:t"}},
							{"a:b:", []string{"-b", "two/Babfile", "a:b:t"}},
						}},
					}
					if set == 0 {
						d := c.Data.(data16)
						d.runs = append(d.runs, run16{"ns:", []string{"-b", "one/Babfile", "ns:ta"}}, run16{"a:b:", []string{"-b", "two/Babfile", "a:b:tb"}},
							run16{"other:b:", []string{"-b", "one/Babfile", "other:b:t"}})
						c.Data = d
					}
					if !yield(c) {
						return false
					}
				}
			}
			return true
		}
		var rec func(from, left int) bool
		rec = func(from, left int) bool {
			if !emit() {
				return false
			}
			if left == 0 {
				return true
			}
			for i := from; i < len(ix); i++ {
				for k := 1; k < p16axes[i].n; k++ {
					ix[i] = k
					if !rec(i+1, left-1) {
						return false
					}
				}
				ix[i] = 0
			}
			return true
		}
		rec(0, limit)
	}
	bb.ExploreWith(ch, gen, exec16, judge16)
	bb.Explore(ch, gen16graphs(ch), judgeSame)
	wide16(ch)
}

// gen16graphs makes files that include two libraries, one of which may include
// the other, with edges between the tasks, and flattens them for the reference.
func gen16graphs(ch *vlib.Check) func(yield func(*bb.Case) bool) {
	// an edge from a task to a name
	type edge struct {
		to  string
		how int // 0 none, 1 dependency, 2 reference, 3 in a parallel block
	}
	task := func(file, name string, es ...edge) *spec.Task {
		t := &spec.Task{Name: name}
		for _, e := range es {
			switch e.how {
			case 1:
				t.Deps = append(t.Deps, e.to)
			case 2:
				t.Run = append(t.Run, spec.Ref(e.to))
			case 3:
				t.Run = append(t.Run, spec.Par(spec.Ref(e.to), spec.Log("x")))
			}
		}
		t.Run = append(t.Run, spec.Mark(file+"."+name))
		return t
	}
	prefix := func(ts []*spec.Task, ns string) []*spec.Task {
		var out []*spec.Task
		for _, t := range ts {
			n := &spec.Task{Name: ns + ":" + t.Name}
			for _, d := range t.Deps {
				n.Deps = append(n.Deps, ns+":"+d)
			}
			var items func(l []*spec.Item) []*spec.Item
			items = func(l []*spec.Item) []*spec.Item {
				var o []*spec.Item
				for _, it := range l {
					x := *it
					if x.Kind == "task" {
						x.Text = ns + ":" + x.Text
					}
					x.Items = items(x.Items)
					o = append(o, &x)
				}
				return o
			}
			n.Run = items(t.Run)
			out = append(out, n)
		}
		return out
	}
	return func(yield func(*bb.Case) bool) {
		hows := 3
		if ch.Thorough() {
			hows = 4
		}
		// inner names of the libraries: plain, or with the namespaces' own names in them
		for _, names := range [][2]string{{"x", "y"}, {"q", "p"}, {"x:y", "y"}} {
			x, y := names[0], names[1]
			// targets of the task x of the root file
			targets := []string{"p:" + x, "q:" + x, "p:q:" + x, y}
			if !product([]int{hows, hows, 2, 3, len(targets), hows, len(targets), hows}, func(ix []int) bool {
				if ix[5] == 0 && (ix[4] != 0 || ix[6] != 0 || ix[7] != 0) || ix[7] == 0 && ix[6] != 0 || ix[6] == ix[4] && ix[7] > 0 {
					return true
				}
				lib2 := &spec.File{Tasks: []*spec.Task{task("l2", x, edge{y, ix[1]}), task("l2", y)}}
				lib1 := &spec.File{Includes: spec.KV{{"q", "l2.yml"}}}
				es := []edge{{y, ix[0]}}
				switch ix[3] {
				case 1:
					es = append(es, edge{"q:" + x, 1})
				case 2:
					es = append(es, edge{"q:" + y, 2})
				}
				lib1.Tasks = []*spec.Task{task("l1", x, es...), task("l1", y)}
				root := &spec.File{Includes: spec.KV{{"p", "l1.yml"}, {"q", "l2.yml"}}}
				if ix[2] == 1 {
					root.Includes = spec.KV{{"q", "l2.yml"}, {"p", "l1.yml"}}
				}
				root.Tasks = []*spec.Task{task("r", x, edge{targets[ix[4]], ix[5]}, edge{targets[ix[6]], ix[7]}), task("r", y)}
				flat := &spec.File{}
				flat.Tasks = append(flat.Tasks, root.Tasks...)
				flat.Tasks = append(flat.Tasks, prefix(append(append([]*spec.Task{}, lib1.Tasks...), prefix(lib2.Tasks, "q")...), "p")...)
				flat.Tasks = append(flat.Tasks, prefix(lib2.Tasks, "q")...)
				args := []string{x}
				if ix[5] == 0 {
					args = []string{"p:" + x}
				}
				c := &bb.Case{Key: fmt.Sprintf("libraries %v %v", names, ix), Args: args, Data: data{f: flat, task: args[0]},
					Files: map[string]string{"Babfile": root.YAML(), "l1.yml": lib1.YAML(), "l2.yml": lib2.YAML()}}
				if !yield(c) {
					return false
				}
				if ix[5] == 0 {
					for _, other := range []string{"q:" + x, "p:q:" + x, "p:" + y, y} {
						o := *c
						o.Args, o.Data, o.Key = []string{other}, data{f: flat, task: other}, c.Key+" "+other
						if !yield(&o) {
							return false
						}
					}
				}
				return true
			}) {
				return
			}
		}
	}
}
