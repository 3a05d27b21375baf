package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P20"] = p20 }

// names is what a set of files defines: full task names, aliases and what each stands for.
type names struct {
	tasks   map[string]*spec.Task
	aliases map[string]string
}

func (n names) all() []string {
	out := bb.SortedKeys(n.tasks)
	out = append(out, bb.SortedKeys(n.aliases)...)
	sort.Strings(out)
	return out
}

func (n names) resolve(x string) string {
	if _, ok := n.tasks[x]; ok {
		return x
	}
	return n.aliases[x]
}

// namesOf is the reference; ok is false when the file is not a valid one.
func namesOf(f *spec.File, incs map[string]*spec.File) (names, bool) {
	n := names{map[string]*spec.Task{}, map[string]string{}}
	add := func(t *spec.Task, ns string) bool {
		if n.tasks[ns+t.Name] != nil {
			return false
		}
		n.tasks[ns+t.Name] = t
		return true
	}
	type al struct{ alias, task string }
	var als []al
	var walk func(f *spec.File, ns string) bool
	walk = func(f *spec.File, ns string) bool {
		for _, t := range f.Tasks {
			if !add(t, ns) {
				return false
			}
			for _, a := range append([]string{t.Alias}, t.Aliases...) {
				if a != "" {
					als = append(als, al{ns + a, ns + t.Name})
				}
			}
		}
		for _, i := range f.Includes {
			if !walk(incs[i[1]], ns+i[0]+":") {
				return false
			}
		}
		return true
	}
	if !walk(f, "") {
		return n, false
	}
	for _, a := range als {
		if n.tasks[a.alias] != nil || n.aliases[a.alias] != "" {
			return n, false
		}
		n.aliases[a.alias] = a.task
	}
	return n, true
}

var treeLine = regexp.MustCompile(`^((?:│   |    )*)(├── |└── )?(\S+)(?: \(([^)]*)\))?(?: (.*?))? *$`)

// listed reads the output of --list back: the names of its nodes with aliases and description.
type listedNode struct {
	aliases, desc string
	leaf          bool
}

func listed(out string) (map[string]*listedNode, string) {
	nodes := map[string]*listedNode{}
	var path []string
	for _, l := range strings.Split(strings.TrimRight(bb.Plain(out), "\n"), "\n") {
		m := treeLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Sprintf("cannot read the line %q", l)
		}
		depth := len([]rune(m[1])) / 4
		if m[2] != "" {
			depth++
		}
		if depth > len(path) {
			return nil, fmt.Sprintf("the line %q is too deep", l)
		}
		if depth > 0 {
			nodes[strings.Join(path[:depth], ":")].leaf = false
		}
		path = append(path[:depth:depth], m[3])
		name := strings.Join(path, ":")
		if nodes[name] != nil {
			return nil, fmt.Sprintf("%q is listed twice", name)
		}
		nodes[name] = &listedNode{aliases: m[4], desc: m[5], leaf: true}
	}
	return nodes, ""
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var p20pool = []string{"a", "b", "ab", "a:b", "a:b:c", "b:a", "A", "help", "completion", "list", "-x", "a-b", "_", "1", "n:t", "ba"}

func p20(ch *vlib.Check) {
	ch.Rule("every file with up to N tasks (N=2 quick, 3 thorough) whose names come from a pool of related names (prefixes, namespaces, letter case, command words, a leading dash), with aliases from the pool, with and without an included file that has aliases and an include of its own. For each: the list, completion of every prefix of every name and of texts that are none, and a run of every name, every alias and of near misses. Through a terminal: every row of the picker, every alias typed into it. The same for many tasks, many aliases, deep namespaces and names, aliases and descriptions of growing length, for every character in them, and for pickers with many rows on small and large terminals. Non-trivial: every file")
	inner := &spec.File{Tasks: []*spec.Task{{Name: "d", Alias: "e", Run: []*spec.Item{spec.Mark("m.d")}}}}
	inc := &spec.File{Includes: spec.KV{{"m", "m.yml"}}, Tasks: []*spec.Task{
		{Name: "t", Desc: "an included task", Alias: "s", Run: []*spec.Item{spec.Mark("n.t")}},
		{Name: "a", Aliases: []string{"x", "q:r"}, Run: []*spec.Item{spec.Mark("n.a")}},
	}}
	incs := map[string]*spec.File{"inc.yml": inc, "m.yml": inner}
	type data struct {
		n    names
		mark map[string]string // full name to what it logs
	}
	var files []*spec.File
	pool := p20pool
	max := 2
	if ch.Thorough() {
		max = 3
	}
	var pick func(from int, cur []string)
	variants := func(ts []string) {
		for al := 0; al < 5; al++ {
			for in := 0; in < 2; in++ {
				if len(ts) == 3 && (al+in)%2 == 1 {
					continue
				}
				f := &spec.File{}
				for i, t := range ts {
					task := &spec.Task{Name: t, Run: []*spec.Item{spec.Mark("L." + t)}}
					if i == 0 {
						task.Desc = "the first task"
						switch al {
						case 1:
							task.Alias = "b"
						case 2:
							task.Aliases = []string{"a:x", "ab"}
						case 3:
							task.Alias, task.Aliases = "z", []string{"aa", "n:z"}
						case 4:
							task.Alias = strings.ToUpper(t)
						}
					}
					f.Tasks = append(f.Tasks, task)
				}
				if in == 1 {
					f.Includes = spec.KV{{"n", "inc.yml"}}
				}
				files = append(files, f)
			}
		}
	}
	pick = func(from int, cur []string) {
		if len(cur) > 0 {
			variants(cur)
		}
		if len(cur) == max {
			return
		}
		for i := from; i < len(pool); i++ {
			pick(i+1, append(append([]string(nil), cur...), pool[i]))
		}
	}
	pick(0, nil)

	marks := func(n names, f *spec.File) map[string]string {
		m := map[string]string{}
		for full, t := range n.tasks {
			m[full] = strings.TrimSuffix(strings.TrimPrefix(t.Run[0].Text, "echo "), ` >>"$BLOG"`)
			_ = f
		}
		return m
	}
	mk := func(f *spec.File) map[string]string {
		return map[string]string{"Babfile": f.YAML(), "inc.yml": inc.YAML(), "m.yml": inner.YAML()}
	}
	gen := func(yield func(*bb.Case) bool) {
		for _, f := range files {
			n, ok := namesOf(f, incs)
			if !ok {
				continue
			}
			if !yield(&bb.Case{Key: fmt.Sprintf("names %v", n.all()), Files: mk(f), Args: []string{"--list"}, Data: data{n, marks(n, f)}}) {
				return
			}
		}
	}
	bb.ExploreWith(ch, gen, func(c *bb.Case) bb.Got {
		outer := bb.NewRoot()
		defer bb.RemoveRoot(outer)
		root := filepath.Join(outer, "p")
		g := bb.RunIn(outer, root, c)
		d := c.Data.(data)
		runs := func(args ...string) bb.Got {
			c2 := *c
			c2.Files, c2.Args = nil, args
			s := bb.RunIn(outer, root, &c2)
			ch.Count("invocations", 1)
			return s
		}
		fail := func(s string, a ...any) bb.Got {
			g.Exit, g.Stderr = 99, fmt.Sprintf(s, a...)
			return g
		}
		if g.Exit != 0 || len(g.Log) > 0 {
			return fail("--list: exit %d, ran %q: %s", g.Exit, g.Log, bb.Plain(g.Stderr))
		}
		nodes, why := listed(g.Stdout)
		if why != "" {
			return fail("--list: %s", why)
		}
		for full, t := range d.n.tasks {
			ns := strings.TrimSuffix(full, t.Name)
			var al []string
			for _, a := range append([]string{t.Alias}, t.Aliases...) {
				if a != "" {
					al = append(al, ns+a)
				}
			}
			nd := nodes[full]
			if nd == nil {
				return fail("--list leaves out %q:\n%s", full, bb.Plain(g.Stdout))
			}
			if nd.aliases != strings.Join(al, ", ") || nd.desc != t.Desc {
				return fail("--list shows %q with aliases %q and description %q, must be %q and %q", full, nd.aliases, nd.desc, al, t.Desc)
			}
		}
		for x, nd := range nodes {
			if d.n.tasks[x] == nil && (nd.leaf || nd.aliases != "" || nd.desc != "") {
				return fail("--list offers %q, which is no task", x)
			}
		}
		all := d.n.all()
		typed := map[string]bool{"": true, "zz": true, "B": true, ":": true, "n:t:": true, "a ": true}
		for _, x := range all {
			for i := 1; i <= len(x); i++ {
				typed[x[:i]] = true
			}
			typed[x+"x"] = true
		}
		for _, p := range bb.SortedKeys(typed) {
			if strings.HasPrefix(p, "-") {
				continue // the shell asks for flags
			}
			s := runs("__complete", p)
			var want []string
			for _, x := range all {
				if strings.HasPrefix(x, p) {
					want = append(want, x)
				}
			}
			var got []string
			last := ""
			for _, l := range strings.Split(strings.TrimRight(s.Stdout, "\n"), "\n") {
				if strings.HasPrefix(l, ":") && !strings.Contains(l, "\t") {
					last = l
					continue
				}
				got = append(got, strings.SplitN(l, "\t", 2)[0])
			}
			sort.Strings(got)
			if s.Exit != 0 || len(s.Log) > 0 || last != ":4" || !sameStrings(got, want) {
				return fail("completion of %q offers %q (%s), must be %q", p, got, last, want)
			}
		}
		// run everything, and what is nothing
		tries := map[string]bool{"zz": true, " a": true, "a ": true, "n": true, "n:": true, ":a": true, "n:zz": true, "": true, "m:d": true, "t": true, "Babfile": true}
		for _, x := range all {
			tries[x] = true
			tries[x+"x"], tries[strings.ToUpper(x)], tries[strings.ToLower(x)], tries[x+":"], tries["n:"+x] = true, true, true, true, true
			for i := 1; i < len(x); i++ {
				tries[x[:i]] = true
			}
		}
		for _, x := range bb.SortedKeys(tries) {
			for _, flag := range []string{"", "-n"} {
				args := []string{"--", x}
				if flag != "" {
					args = []string{flag, "--", x}
				} else if !strings.HasPrefix(x, "-") {
					args = []string{x}
				}
				s := runs(args...)
				full := d.n.resolve(x)
				switch {
				case full == "" && (s.Exit != 1 || len(s.Log) > 0 || s.Stderr == ""):
					return fail("%q, which is no task, was run with %q: exit %d, ran %q, stderr %q", x, flag, s.Exit, s.Log, bb.Plain(s.Stderr))
				case full != "" && flag == "" && (s.Exit != 0 || !sameStrings(s.Log, []string{d.mark[full]})):
					return fail("%q must run exactly %q: exit %d, ran %q: %s", x, d.mark[full], s.Exit, s.Log, bb.Plain(s.Stderr))
				case full != "" && flag != "" && (s.Exit != 0 || len(s.Log) > 0 || !strings.Contains(s.Stderr, d.mark[full]+" ")):
					return fail("a dry run of %q must preview %q: exit %d, ran %q: %s", x, d.mark[full], s.Exit, s.Log, bb.Plain(s.Stderr))
				}
			}
		}
		g.Stderr = ""
		return g
	}, func(c *bb.Case, g bb.Got) string {
		if g.Exit == 99 {
			return g.Stderr
		}
		return ""
	})

	bb.ExploreWith(ch, func(yield func(*bb.Case) bool) { wideDocs20(ch, yield) }, func(c *bb.Case) bb.Got { return wide20(ch, c) }, func(c *bb.Case, g bb.Got) string {
		if g.Exit == 99 {
			return g.Stderr
		}
		return ""
	})
	widePicker20(ch)

	// The picker on a terminal.
	type row struct {
		f    *spec.File
		keys string
		want string // "" for none
	}
	rows := func(yield func(*bb.Case) bool) {
		for i, f := range files {
			n, ok := namesOf(f, incs)
			if !ok || i%23 != 0 && !ch.Thorough() || i%11 != 0 {
				continue
			}
			m := marks(n, f)
			tasks := bb.SortedKeys(n.tasks)
			var list []row
			for k := range tasks {
				list = append(list, row{f, strings.Repeat("\x1b[B", k) + "\r", m[tasks[k]]})
			}
			for a, t := range n.aliases {
				list = append(list, row{f, a + "\r", m[t]})
			}
			list = append(list, row{f, "\x1b", ""}, row{f, "\x03", ""}, row{f, "~~~\r", ""})
			for _, r := range list {
				if !yield(&bb.Case{Key: fmt.Sprintf("picker %v %q", n.all(), r.keys), Files: mk(f), Data: r}) {
					return
				}
			}
		}
	}
	bb.ExploreWith(ch, rows, func(c *bb.Case) bb.Got {
		r := c.Data.(row)
		g := onTerminal(c, 80, 24, []step{{"bab.sh", r.keys}})
		return g
	}, func(c *bb.Case, g bb.Got) string {
		r := c.Data.(row)
		if g.TimedOut {
			return fmt.Sprintf("bab did not end after %q: %q", r.keys, tail(pty.Plain(g.Stdout), 500))
		}
		var want []string
		if r.want != "" {
			want = []string{r.want}
		}
		if g.Exit != 0 || !sameStrings(g.Log, want) {
			return fmt.Sprintf("exit %d, ran %q, must be %q: %q", g.Exit, g.Log, want, tail(pty.Plain(g.Stdout), 500))
		}
		return ""
	})
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type step struct{ see, keys string }

// onTerminal runs a case on a terminal: for each step it waits for the text
// and then types.
func onTerminal(c *bb.Case, cols, rows int, steps []step) bb.Got {
	outer := bb.NewRoot()
	defer bb.RemoveRoot(outer)
	root := filepath.Join(outer, "p")
	if err := bb.Prepare(root, c); err != nil {
		panic(err)
	}
	env := append(bb.BaseEnv(outer, filepath.Join(outer, "blog")), "TERM=xterm-256color")
	s, err := pty.Start(bb.Bab(), c.Args, root, append(env, c.Env...), cols, rows)
	if err != nil {
		panic(err)
	}
	defer s.Close()
	var g bb.Got
	mark := 0
	for _, st := range steps {
		if !s.WaitFor(mark, func(t string) bool { return strings.Contains(t, st.see) }, 20*time.Second) {
			break
		}
		mark = s.Mark()
		s.Send(st.keys)
	}
	g.TimedOut = !s.Wait(20 * time.Second)
	g.Stdout = s.Output()
	g.Exit = s.Exit
	g.Log = bb.ReadLog(filepath.Join(outer, "blog"))
	return g
}
