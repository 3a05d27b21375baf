package main

import (
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P08"] = p08 }

// p08data is what a preview must show, in order, and what it must not.
type p08data struct {
	must    []string
	not     []string
	fail    bool
	partial bool // the run fails part way: only the part before is judged
}

// runDry also compares the files before and after.
func runDry(c *bb.Case) bb.Got {
	outer := bb.NewRoot()
	defer func() { _ = os.RemoveAll(outer) }()
	root := filepath.Join(outer, "p")
	_ = os.MkdirAll(root, 0o755)
	if err := bb.Prepare(root, c); err != nil {
		panic(err)
	}
	before := bb.Tree(root)
	g := bb.RunIn(outer, root, c)
	after := bb.Tree(root)
	if !maps.Equal(before, after) {
		for k, v := range after {
			if b, ok := before[k]; !ok || b != v {
				g.Changed = append(g.Changed, k)
			}
		}
		if g.Changed == nil {
			g.Changed = []string{"a file was removed"}
		}
	}
	return g
}

func judge08(c *bb.Case, g bb.Got) string {
	d := c.Data.(p08data)
	if g.TimedOut {
		return "bab did not finish"
	}
	if len(g.Log) > 0 {
		return fmt.Sprintf("commands were executed: %v", g.Log)
	}
	if len(g.Changed) > 0 {
		return fmt.Sprintf("files were changed: %v", g.Changed)
	}
	exit := 0
	if d.fail {
		exit = 1
	}
	out := bb.Plain(g.Stdout + g.Stderr)
	if g.Exit != exit {
		return fmt.Sprintf("exit status %d, must be %d: %s", g.Exit, exit, out)
	}
	if d.fail && strings.TrimSpace(g.Stderr) == "" {
		return "the preview failed without a message"
	}
	at := 0
	for _, m := range d.must {
		i := strings.Index(out[at:], m)
		if i < 0 {
			return fmt.Sprintf("the preview does not show %q in its place (%q): %s", m, d.must, out)
		}
		at += i + len(m)
	}
	for _, m := range d.not {
		if m != "" && strings.Contains(out, m) {
			return fmt.Sprintf("the preview shows %q, which would not run: %s", m, out)
		}
	}
	return ""
}

// tokens of an item that is shown or not.
func tokens(it *spec.Item, vars map[string]string) []string {
	switch it.Kind {
	case "cmd":
		s, _ := spec.Interp(echoed(it.Text), vars, func(string) string { return "" })
		return []string{s}
	case "log":
		s, _ := spec.Interp(it.Text, vars, func(string) string { return "" })
		return []string{s}
	case "task":
		return []string{"task=" + it.Text}
	case "parallel":
		var out []string
		for _, x := range it.Items {
			out = append(out, tokens(x, vars)...)
		}
		return out
	}
	return nil
}

// preview is the reference: t and its dependencies, references not entered.
func preview(f *spec.File, task string) p08data {
	var d p08data
	env := func(string) string { return "" }
	global, _ := spec.ResolveVars(f.Vars.Map(), nil, env)
	tasks := map[string]*spec.Task{}
	for _, t := range f.Tasks {
		tasks[t.Name] = t
	}
	done := map[string]bool{}
	var run func(name string) bool
	selected := func(it *spec.Item, vars map[string]string) (bool, bool) {
		if len(it.Platforms) > 0 && !strings.Contains(strings.Join(it.Platforms, " "), "linux") {
			return false, true
		}
		if it.When != "" {
			ok, err := spec.CondText(it.When, vars, env)
			return ok, err == nil
		}
		return true, true
	}
	run = func(name string) bool {
		if done[name] {
			return true
		}
		done[name] = true
		t := tasks[name]
		vars, _ := spec.ResolveVars(t.Vars.Map(), global, env)
		if t.When != "" {
			ok, err := spec.CondText(t.When, vars, env)
			if err != nil {
				return false
			}
			if !ok {
				for _, it := range t.Run {
					d.not = append(d.not, tokens(it, vars)...)
				}
				return true
			}
		}
		for _, x := range t.Deps {
			if !run(x) {
				return false
			}
		}
		n, skipped := 0, 0
		for _, it := range t.Run {
			ok, fine := selected(it, vars)
			if !fine {
				return false
			}
			if !ok {
				if it.When != "" && (len(it.Platforms) == 0 || strings.Contains(strings.Join(it.Platforms, " "), "linux")) {
					skipped++
				}
				d.not = append(d.not, tokens(it, vars)...)
				continue
			}
			n++
			switch it.Kind {
			case "prompt":
				if it.Default != "" {
					vars[it.Text] = it.Default
					if it.PType == "confirm" {
						vars[it.Text] = map[string]string{"true": "true", "yes": "true", "Y": "true", "1": "true"}[it.Default]
						if vars[it.Text] == "" {
							vars[it.Text] = "false"
						}
					}
				} else if len(it.Defaults) > 0 {
					vars[it.Text] = strings.Join(it.Defaults, ",")
				} else {
					vars[it.Text] = ""
				}
			case "parallel":
				for _, x := range it.Items {
					ok, fine := selected(x, vars)
					if !fine {
						return false
					}
					if ok {
						d.must = append(d.must, tokens(x, vars)...)
					} else {
						d.not = append(d.not, tokens(x, vars)...)
					}
				}
			default:
				for _, s := range []string{it.Text, it.Dir} {
					if _, err := spec.Interp(s, vars, env); err != nil {
						return false
					}
				}
				d.must = append(d.must, tokens(it, vars)...)
			}
		}
		return n > 0 || skipped > 0 || len(t.Run) == 0
	}
	d.fail = !run(task)
	return d
}

func p08(ch *vlib.Check) {
	ch.Rule("all sequences of two run items of every kind and of all prompt types, with every platform list and condition (fixed, or on the prompted value), alone, as a dependency and in a parallel block; everything made silent or without output on each level; all ways to ask for a dry run; failing previews; chains, fans, rows and blocks of growing size, commands and messages of growing length and with every character. Every case is non-trivial")
	mk := func(kind string, n int) *spec.Item {
		id := fmt.Sprint(n)
		switch kind {
		case "cmd":
			return echo("cmd" + id + "-${{ p }}-${{ g }}")
		case "cmdenv":
			it := echo("cmdenv" + id + "-${{ p }}")
			it.Env, it.Dir = spec.KV{{"A", "$(touch env-effect)"}}, "sub"
			return it
		case "log":
			it := spec.Log("log" + id + "-${{ p }}")
			it.Level = []string{"", "debug", "warn", "error"}[n%4]
			return it
		case "ref":
			return spec.Ref("r" + id)
		case "input":
			return &spec.Item{Kind: "prompt", Text: "p", PType: "input", Message: "m", Default: "new"}
		case "confirm":
			return &spec.Item{Kind: "prompt", Text: "p", PType: "confirm", Message: "m", Default: "yes"}
		case "multi":
			return &spec.Item{Kind: "prompt", Text: "p", PType: "multiselect", Message: "m", Options: []string{"a", "b"}, Defaults: []string{"a", "b"}}
		case "ask":
			return &spec.Item{Kind: "prompt", Text: "q", PType: "password", Message: "m"}
		case "par":
			return spec.Par(echo("pc"+id+"-${{ p }}"), spec.Log("pl"+id+"-${{ p }}"), spec.Ref("r"+id), place15(spec.Log("po"+id), 2, 0), place15(spec.Log("pw"+id), 0, 4))
		}
		return nil
	}
	kindNames := []string{"cmd", "log", "ref", "par", "cmdenv", "input", "confirm", "multi", "ask"}
	file := func(items ...*spec.Item) *spec.File {
		f := &spec.File{Vars: spec.KV{{"yes", "1"}, {"no", "false"}, {"p", "old"}, {"g", "glob"}}, Tasks: []*spec.Task{{Name: "t", Run: items}}}
		for i := range 2 {
			f.Tasks = append(f.Tasks, &spec.Task{Name: fmt.Sprintf("r%d", i), Run: []*spec.Item{spec.Cmd(fmt.Sprintf("touch effect%d; echo r >>$BLOG", i))}})
		}
		return f
	}
	kcase := func(key string, f *spec.File, args ...string) *bb.Case {
		if args == nil {
			args = []string{"-n", "t"}
		}
		return &bb.Case{Key: key, Files: map[string]string{"Babfile": f.YAML(), "sub/x": ""}, Args: args, Data: preview(f, "t")}
	}
	whens := []int{0, 2, 3, 4}
	plats := []int{0, 2, 1}
	gen := func(yield func(*bb.Case) bool) {
		nk := len(kindNames)
		np, nw := 2, 3
		if ch.Thorough() {
			np, nw = 3, 4
		}
		if !product([]int{nk, np, nw, nk, np, nw}, func(ix []int) bool {
			a := place15(mk(kindNames[ix[0]], 0), plats[ix[1]], whens[ix[2]])
			b := place15(mk(kindNames[ix[3]], 1), plats[ix[4]], whens[ix[5]])
			end := echo("end-${{ p }}")
			f := file(a, b, end)
			return yield(kcase(fmt.Sprintf("two %s %s %v", kindNames[ix[0]], kindNames[ix[3]], ix), f))
		}) {
			return
		}
		// dependencies and task conditions
		tw := []string{"", "${{ yes }}", "${{ no }}", "${{ p }} == 'old'"}
		if !product([]int{4, 4, 4, nk, 2}, func(ix []int) bool {
			f := file(echo("t1-${{ p }}"))
			f.Tasks[0].When, f.Tasks[0].Deps = tw[ix[0]], []string{"d", "e"}
			d := &spec.Task{Name: "d", When: tw[ix[1]], Run: []*spec.Item{mk(kindNames[ix[3]], 0), echo("d-${{ p }}")}}
			e := &spec.Task{Name: "e", When: tw[ix[2]], Run: []*spec.Item{echo("e-${{ p }}")}}
			if ix[4] == 1 {
				d.Deps = []string{"e"}
			}
			f.Tasks = append(f.Tasks, d, e)
			pd := preview(f, "t")
			// what a false condition of t hides must not show at all
			c := kcase(fmt.Sprintf("deps %v", ix), f)
			if ix[0] == 2 {
				pd.not = append(pd.not, "d-old", "e-old", "cmd0")
			}
			c.Data = pd
			return yield(c)
		}) {
			return
		}
		// what is kept quiet when it runs is still previewed
		if !product([]int{nk, 3, 3, 2}, func(ix []int) bool {
			a := mk(kindNames[ix[0]], 0)
			var sil, out *bool
			if ix[2] != 1 {
				sil = spec.B(true)
			}
			if ix[2] != 0 {
				out = spec.B(false)
			}
			f := file(a, echo("end-${{ p }}"))
			switch ix[1] {
			case 0:
				a.Silent, a.Output = sil, out
				if a.Kind != "cmd" && a.Kind != "task" && a.Kind != "parallel" {
					return true
				}
				for _, x := range a.Items {
					x.Silent, x.Output = sil, out
					if x.Kind == "log" {
						x.Silent, x.Output = nil, nil
					}
				}
				if a.Kind == "parallel" {
					a.Silent, a.Output = nil, nil
				}
			case 1:
				f.Tasks[0].Silent, f.Tasks[0].Output = sil, out
			case 2:
				f.Silent, f.Output = sil, out
			}
			if ix[3] == 1 {
				f.Tasks[0].Name = "d"
				f.Tasks = append(f.Tasks, &spec.Task{Name: "t", Deps: []string{"d"}, Run: []*spec.Item{echo("t1")}})
			}
			return yield(kcase(fmt.Sprintf("silent %s %v", kindNames[ix[0]], ix), f))
		}) {
			return
		}
		// failing previews
		for _, bad := range []*spec.Item{echo("x ${{ nope }}"), spec.Log("${{ nope }}"), {Kind: "cmd", Text: "true", When: "${{ nope }}"}, {Kind: "cmd", Text: "true", Dir: "${{ nope }}"}, {Kind: "cmd", Text: "true", Platforms: []string{"windows"}}} {
			if bad.Platforms != nil {
				if !yield(kcase("fail platform", file(bad))) {
					return
				}
				continue
			}
			if !yield(kcase("fail "+bad.Kind+bad.Text+bad.Dir+bad.When, file(mk("cmd", 0), bad, mk("cmd", 1)))) {
				return
			}
		}
		// ways to ask
		for _, args := range [][]string{{"-n", "t"}, {"t", "-n"}, {"--dry-run", "t"}, {"t", "--dry-run"}, {"--dry-run=true", "t"}, {"-nv", "t"}, {"-v", "t", "-n"}, {"-n", "-b", "Babfile", "t"}, {"-n", "alias"}} {
			f := file(mk("cmd", 0), mk("par", 0), mk("input", 0), mk("ref", 1))
			f.Tasks[0].Alias = "alias"
			if !yield(kcase("args "+strings.Join(args, " "), f, args...)) {
				return
			}
		}
		f := file(mk("cmd", 0))
		c := kcase("args unknown", f, "-n", "nope")
		c.Data = p08data{fail: true}
		yield(c)
	}
	bb.ExploreWith(ch, gen, runDry, judge08)
	// on a terminal, where bab could ask
	bb.ExploreWith(ch, func(yield func(*bb.Case) bool) {
		nw := 1
		if ch.Thorough() {
			nw = 3
		}
		product([]int{len(kindNames), len(kindNames), nw, 4}, func(ix []int) bool {
			f := file(place15(mk(kindNames[ix[0]], 0), 0, whens[ix[2]]), mk(kindNames[ix[1]], 1), echo("end-${{ p }}"))
			args := [][]string{{"-n", "t"}, {"-n", "pick:t"}, {"--dry-run", "-b", "@ROOT@/Babfile", "pick:t"}, {"-n", "-v", "pick:t"}}[ix[3]]
			if ix[3] > 1 && ix[1] > 0 {
				return true
			}
			c := kcase(fmt.Sprintf("terminal %s %s %v", kindNames[ix[0]], kindNames[ix[1]], ix), f, args...)
			if ix[3] == 2 {
				c.Cwd = "sub"
			}
			return yield(c)
		})
	}, runDryTTY, judge08)
	wide08(ch)
}
