package main

import (
	"fmt"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// spots are the positions in a row of n that are tried.
func spots(n int) []int {
	if n <= 9 {
		var out []int
		for i := range n {
			out = append(out, i)
		}
		return out
	}
	s := []int{0, 1, n / 2, n - 2, n - 1}
	for _, p := range []int{7, 8, 15, 16, 31, 32, 63, 64, 99, 100} {
		if p > 1 && p < n-2 && p > n-4 {
			s = append(s, p)
		}
	}
	slices.Sort(s)
	return slices.Compact(s)
}

// wide15 has rows and blocks of any length, and every list of platforms.
func wide15(ch *vlib.Check) {
	small, top := 9, 129
	if ch.Thorough() {
		small, top = 30, 513
	}
	bb.Explore(ch, func(yield func(*bb.Case) bool) {
		put := func(key string, f *spec.File) bool {
			return yield(&bb.Case{Key: "wide " + key, Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Data: data{f: f, task: "t"}})
		}
		file := func(items ...*spec.Item) *spec.File {
			return &spec.File{Vars: spec.KV{{"yes", "1"}, {"no", "false"}, {"p", "old"}}, Tasks: []*spec.Task{{Name: "t", Run: items}, {Name: "r", Run: []*spec.Item{echo("r p=${{ p }}")}}}}
		}
		prompt := func(d string) *spec.Item {
			return &spec.Item{Kind: "prompt", Text: "p", PType: "input", Message: "m", Default: d}
		}
		hide := []func(it *spec.Item){
			func(it *spec.Item) { it.Platforms = []string{"windows"} },
			func(it *spec.Item) { it.Platforms = []string{"darwin", "windows"} },
			func(it *spec.Item) { it.When = "${{ no }}" },
			func(it *spec.Item) { it.When = "${{ p }} == 'other'" },
			func(it *spec.Item) { it.Platforms, it.When = []string{"linux"}, "${{ p }} != 'old'" },
			func(it *spec.Item) { it.Platforms, it.When = []string{"windows"}, "${{ yes }}" },
		}
		for _, n := range sizes(small, top) {
			for _, k := range spots(n) {
				for h, hid := range hide {
					if n > 40 && h > 3 {
						break
					}
					row := func(only bool) []*spec.Item {
						var its []*spec.Item
						for i := range n {
							it := echo(fmt.Sprintf("i%d p=${{ p }}", i))
							if (i == k) != only {
								hid(it)
							} else if i%2 == 0 {
								it.Platforms = []string{"darwin", "linux"}
							}
							its = append(its, it)
						}
						return its
					}
					for _, only := range []bool{true, false} {
						if !put(fmt.Sprintf("row of %d, at %d hidden %d only %v", n, k, h, only), file(row(only)...)) {
							return
						}
						if n > 1 {
							b := spec.Par(row(only)...)
							b.Limit = n % 3
							if !put(fmt.Sprintf("block of %d, at %d hidden %d only %v", n, k, h, only), file(b, echo("end"))) {
								return
							}
						}
					}
				}
				// an answer changes what is behind it
				var its []*spec.Item
				for i := range n {
					if i == k {
						its = append(its, prompt("new"))
					}
					it := echo(fmt.Sprintf("i%d p=${{ p }}", i))
					it.When = []string{"${{ p }} == 'new'", "${{ p }} == 'old'", "${{ p }}"}[i%3]
					its = append(its, it)
				}
				if !put(fmt.Sprintf("answer at %d of %d", k, n), file(its...)) {
					return
				}
				// a chain with one condition false
				for how := range 3 {
					f := &spec.File{Vars: spec.KV{{"no", "false"}}}
					name := func(i int) string {
						if i == 0 {
							return "t"
						}
						return fmt.Sprintf("c%d", i)
					}
					for i := range n {
						t := &spec.Task{Name: name(i), Run: []*spec.Item{echo(name(i))}}
						if i == k {
							t.When = "${{ no }}"
						}
						if i < n-1 {
							switch how {
							case 0:
								t.Deps = []string{name(i + 1)}
							case 1:
								t.Run = append(t.Run, spec.Ref(name(i+1)))
							case 2:
								r := spec.Ref(name(i + 1))
								if i+1 == k {
									r.When, f.Tasks = "${{ no }}", f.Tasks
								}
								t.Run = append([]*spec.Item{r}, t.Run...)
							}
						}
						f.Tasks = append(f.Tasks, t)
					}
					if !put(fmt.Sprintf("chain of %d, false at %d, %d", n, k, how), f) {
						return
					}
				}
			}
			// long values in conditions
			for _, c := range []string{"x", "é", "a b"} {
				v := strings.Repeat(c, n)
				for i, w := range []string{"${{ v }} == '" + v + "'", "${{ v }} != '" + v + "'", "${{ v }} == \"" + v + "x\"", "${{ v }}${{ v }} == '" + v + v + "'", "'" + v + "' == '${{ v }}'"} {
					f := file(echo("a"), &spec.Item{Kind: "cmd", Text: `echo b >>"$BLOG"`, When: w})
					f.Vars = append(f.Vars, [2]string{"v", v})
					if !put(fmt.Sprintf("value of %d %q %d", n, c, i), f) {
						return
					}
				}
			}
		}
		// every list of platforms, with repetitions
		names := []string{"linux", "darwin", "windows"}
		for n := range 5 {
			ix := make([]int, n)
			for i := range ix {
				ix[i] = 3
			}
			if !product(ix, func(ix []int) bool {
				pl := []string{}
				for _, i := range ix {
					pl = append(pl, names[i])
				}
				for how := range 5 {
					var it *spec.Item
					switch how {
					case 0:
						it = echo("x")
					case 1:
						it = spec.Ref("r")
					case 2:
						it = spec.Par(echo("x"), echo("y"))
					case 3:
						it = prompt("new")
					case 4:
						it = spec.Log("LOG-0")
					}
					it.Platforms = pl
					if !put(fmt.Sprintf("platforms %v of %d", pl, how), file(it)) || !put(fmt.Sprintf("platforms %v of %d and more", pl, how), file(echo("a p=${{ p }}"), it, echo("b p=${{ p }}"))) {
						return false
					}
				}
				b := spec.Par(echo("x"), echo("y"))
				b.Items[1].Platforms = pl
				return put(fmt.Sprintf("platforms %v in a block", pl), file(b, echo("z")))
			}) {
				return
			}
		}
	}, judge15)
}

// wide13 sets silent and output somewhere in long rows and deep chains, and
// has output of every size.
func wide13(ch *vlib.Check) {
	small, top := 7, 65
	if ch.Thorough() {
		small, top = 20, 260
	}
	line := func(e spec.Event) string {
		fs := strings.Fields(e.Text)
		return strings.TrimSuffix(strings.TrimPrefix(fs[1], "OUT-"), ";")
	}
	bb.Explore(ch, func(yield func(*bb.Case) bool) {
		put := func(key string, f *spec.File) bool {
			return yield(&bb.Case{Key: "wide " + key, Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Data: data{f: f, task: "t", line: line}})
		}
		vals := [][2]int{{1, 0}, {2, 0}, {0, 2}, {0, 1}, {1, 2}}
		for _, n := range sizes(small, top) {
			for _, k := range spots(n) {
				for vi, v := range vals {
					inv := [2]int{(3 - v[0]) % 3, (3 - v[1]) % 3}
					var row []*spec.Item
					for i := range n {
						it := loud(fmt.Sprintf("i%dx", i))
						if i == k {
							setItem(it, v)
						}
						row = append(row, it)
					}
					f := &spec.File{Tasks: []*spec.Task{setTask(&spec.Task{Name: "t", Run: row}, inv)}}
					if !put(fmt.Sprintf("row of %d, %d sets %d", n, k, vi), f) {
						return
					}
					if n > 1 {
						b := setItem(spec.Par(row...), inv)
						f := &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{b, loud("end")}}}}
						if !put(fmt.Sprintf("block of %d, %d sets %d", n, k, vi), f) {
							return
						}
					}
					// chains of references; level k sets, by the task or by the reference
					for how := range 4 {
						f := &spec.File{}
						name := func(i int) string {
							if i == 0 {
								return "t"
							}
							return fmt.Sprintf("c%d", i)
						}
						for i := range n {
							t := &spec.Task{Name: name(i), Run: []*spec.Item{loud(fmt.Sprintf("i%dx", i))}}
							if i < n-1 {
								r := spec.Ref(name(i + 1))
								if how == 3 {
									t.Deps = []string{name(i + 1)}
								} else if how == 2 {
									t.Run = append(t.Run, spec.Par(r, loud(fmt.Sprintf("p%dx", i))))
								} else {
									t.Run = append(t.Run, r)
								}
								if how == 1 && i == k {
									setItem(r, v)
								}
							}
							if how != 1 && i == k {
								setTask(t, v)
							}
							f.Tasks = append(f.Tasks, t)
						}
						if how == 2 && n > 12 {
							continue // blocks in blocks: many shells at once
						}
						if !put(fmt.Sprintf("chain of %d, %d sets %d, %d", n, k, vi, how), f) {
							return
						}
					}
				}
			}
		}
	}, judge13)

	// The bytes of shown commands: any length, every byte, long lines, both streams.
	type outs struct{ out, err string }
	bb.Explore(ch, func(yield func(*bb.Case) bool) {
		put := func(key string, outs outs) bool {
			for how := range 3 {
				it := spec.Cmd("cat out; cat err >&2")
				f := &spec.File{Tasks: []*spec.Task{{Name: "t", Silent: spec.B(true), Run: []*spec.Item{it}}}}
				switch how {
				case 1:
					f.Tasks[0].Run = []*spec.Item{spec.Ref("r")}
					f.Tasks = append(f.Tasks, &spec.Task{Name: "r", Run: []*spec.Item{it}, Silent: spec.B(true)})
				case 2:
					it.Text, it.Output = "cat err >&2 & cat out; wait", spec.B(true)
					f.Tasks[0].Output = spec.B(false)
				}
				if !yield(&bb.Case{Key: fmt.Sprintf("bytes %s %d", key, how), Files: map[string]string{"Babfile": f.YAML(), "out": outs.out, "err": outs.err}, Args: []string{"t"}, Data: outs}) {
					return false
				}
			}
			return true
		}
		for _, n := range sizes(40, 131001) {
			a, b := strings.Repeat("x", n), strings.Repeat("y", n)
			if !put(fmt.Sprintf("one line of %d", n), outs{a, b}) || !put(fmt.Sprintf("one ended line of %d", n), outs{a + "\n", ""}) ||
				!put(fmt.Sprintf("%d breaks", n), outs{strings.Repeat("\n", n), "e"}) || !put(fmt.Sprintf("%d carriage returns", n), outs{"", strings.Repeat("e\r", n)}) ||
				!put(fmt.Sprintf("%d nul", n), outs{strings.Repeat("\x00", n), strings.Repeat("\xff", n)}) {
				return
			}
		}
		all := ""
		for c := range 256 {
			all += string([]byte{byte(c)})
			for k, s := range []string{"", "a", "\n"} {
				x := s + string([]byte{byte(c)}) + s
				if !put(fmt.Sprintf("byte %d.%d", c, k), outs{x, x + x}) {
					return
				}
			}
		}
		_ = put("all bytes", outs{all, all})
	}, func(c *bb.Case, g bb.Got) string {
		d := c.Data.(outs)
		if g.Stdout != d.out || g.Stderr != d.err || g.Exit != 0 {
			return fmt.Sprintf("exit %d, standard output and error of %d and %d bytes, must be %d and %d: %.300q %.300q", g.Exit, len(g.Stdout), len(g.Stderr), len(d.out), len(d.err), g.Stdout, g.Stderr)
		}
		return ""
	})
}

// wide16 includes through any number of files, under any name.
func wide16(ch *vlib.Check) {
	small, top := 12, 130
	if ch.Thorough() {
		small, top = 40, 300
	}
	lib := func(n int) spec.File {
		p := spec.Par(probe("p1"), spec.Ref("r"))
		p.Items[0].Label, p.Items[1].Label = "one", "two" // else the width depends on the names
		return spec.File{Vars: spec.KV{{"V", "f"}}, Env: spec.KV{{"E", "e${{ V }}"}}, Dir: "sub", Tasks: []*spec.Task{
			{Name: "t", Alias: "ta", Deps: []string{"d"}, Run: []*spec.Item{probe("c1"), spec.Ref("r"), p}},
			{Name: "d", Run: []*spec.Item{probe("d")}}, {Name: "r", Vars: spec.KV{{"V", "rv"}}, Run: []*spec.Item{probe("r")}},
		}}
	}
	decoys := func() []*spec.Task {
		x := wrong("t")
		x.Alias = "ta"
		return []*spec.Task{x, wrong("d"), wrong("r")}
	}
	bb.ExploreWith(ch, func(yield func(*bb.Case) bool) {
		put := func(key string, files map[string]string, dirs []string, ns ...string) bool {
			l := lib(0)
			files["lib/Babfile"] = l.YAML()
			d := data16{runs: []run16{{"", []string{"-b", "lib/Babfile", "t"}}}}
			for _, n := range ns {
				d.runs = append(d.runs, run16{n, []string{"--", n + "t"}}, run16{n, []string{"--", n + "ta"}})
			}
			return yield(&bb.Case{Key: "wide " + key, Files: files, Dirs: append(dirs, "lib/sub", "sub"), Data: d})
		}
		for _, n := range sizes(small, top) {
			// a chain of n files in one directory, and in directories below or above each other
			for how := range 3 {
				files := map[string]string{}
				at := func(i int) string {
					switch {
					case i == 0:
						return "Babfile"
					case how == 0:
						return fmt.Sprintf("inc%d.yml", i)
					case how == 1:
						return strings.Repeat("x/", i) + "Babfile"
					}
					return strings.Repeat("x/", n-i) + "b.yml"
				}
				ns := ""
				for i := range n {
					to := "lib/Babfile"
					if i < n-1 {
						to = at(i + 1)
					}
					rel, _ := filepath.Rel(filepath.Dir(at(i)), to)
					f := spec.File{Includes: spec.KV{{fmt.Sprintf("n%d", i%3), rel}}, Tasks: decoys()}
					files[at(i)] = f.YAML()
					ns += fmt.Sprintf("n%d:", i%3)
				}
				var dirs []string
				if how > 0 {
					dirs = []string{strings.Repeat("x/", n) + "sub"}
				}
				if !put(fmt.Sprintf("chain of %d, %d", n, how), files, dirs, ns) {
					return
				}
			}
			// the same file under n names, included directly and through others
			root := spec.File{Tasks: decoys()}
			var ns []string
			for i := range n {
				root.Includes = append(root.Includes, [2]string{fmt.Sprintf("n%d", i), []string{"lib/Babfile", "./lib/../lib/Babfile", "mid.yml"}[i%3]})
				if i < 3 || i >= n-3 || i == n/2 {
					ns = append(ns, fmt.Sprintf("n%d:", i)+[]string{"", "", "m:"}[i%3])
				}
			}
			mid := spec.File{Includes: spec.KV{{"m", "lib/Babfile"}}, Tasks: decoys()}
			if !put(fmt.Sprintf("%d times", n), map[string]string{"Babfile": root.YAML(), "mid.yml": mid.YAML()}, nil, ns...) {
				return
			}
			// long names
			l := strings.Repeat("n", n)
			one := spec.File{Includes: spec.KV{{l, "lib/Babfile"}, {l + "n", "mid.yml"}}, Tasks: decoys()}
			if !put(fmt.Sprintf("name of %d", n), map[string]string{"Babfile": one.YAML(), "mid.yml": mid.YAML()}, nil, l+":", l+"n:m:") {
				return
			}
			dir := strings.Repeat("d", n)
			one = spec.File{Includes: spec.KV{{"a", dir + "/b.yml"}}, Tasks: decoys()}
			two := spec.File{Includes: spec.KV{{"b", "../lib/Babfile"}}, Tasks: decoys()}
			if !put(fmt.Sprintf("path of %d", n), map[string]string{"Babfile": one.YAML(), dir + "/b.yml": two.YAML()}, nil, "a:b:") {
				return
			}
		}
		// every character in the name and the path
		for r := rune(0x20); r < 0x17f; r++ {
			if r == 0x7f {
				r = 0xa1
			}
			c := string(r)
			for k, x := range []string{c, "x" + c + "y"} {
				if !strings.Contains(x, ":") && strings.TrimSpace(x) == x {
					one := spec.File{Includes: spec.KV{{x, "lib/Babfile"}}, Tasks: decoys()}
					if !put(fmt.Sprintf("name %q", x), map[string]string{"Babfile": one.YAML()}, nil, x+":") {
						return
					}
				}
				if r == '/' || k == 0 && r == '.' {
					continue
				}
				one := spec.File{Includes: spec.KV{{"a", "z" + x + "/b.yml"}}, Tasks: decoys()}
				two := spec.File{Includes: spec.KV{{"b", "../lib/Babfile"}}, Tasks: decoys()}
				if !put(fmt.Sprintf("path %q", x), map[string]string{"Babfile": one.YAML(), "z" + x + "/b.yml": two.YAML()}, nil, "a:b:") {
					return
				}
			}
		}
	}, exec16, judge16)
}

// previewed says that the preview contains a text, in one of the ways a log line
// has to write it.
func previewed(out, text string) bool {
	if strings.Contains(out, text) || strings.Contains(out, strconv.Quote(text)) {
		return true
	}
	// Of several lines each is on its own.
	at := 0
	for _, l := range strings.Split(strings.TrimRight(text, "\n"), "\n") {
		i := strings.Index(out[at:], l)
		if i < 0 {
			q := strings.Trim(strconv.Quote(l), `"`)
			if i = strings.Index(out[at:], q); i < 0 {
				return false
			}
		}
		at += i
	}
	return true
}

// wide08 previews large files, long and strange commands.
func wide08(ch *vlib.Check) {
	type want struct {
		show []string // in this order
		once bool
	}
	small, top := 12, 513
	if ch.Thorough() {
		small, top = 40, 2001
	}
	bb.ExploreWith(ch, func(yield func(*bb.Case) bool) {
		put := func(key string, f *spec.File, w want) bool {
			return yield(&bb.Case{Key: "wide " + key, Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"-n", "t"}, Data: w})
		}
		mark := func(i int) *spec.Item { return spec.Cmd(fmt.Sprintf("touch effect; echo <%d> >>$BLOG", i)) }
		id := func(i int) string { return fmt.Sprintf("<%d>", i) }
		for _, n := range sizes(small, top) {
			chain, fan, row, logs, vars := &spec.File{}, &spec.File{}, &spec.File{}, &spec.File{}, &spec.File{}
			root := &spec.Task{Name: "t", Run: []*spec.Item{mark(n)}}
			fan.Tasks = append(fan.Tasks, root)
			var up, down []string
			rt, lt := &spec.Task{Name: "t"}, &spec.Task{Name: "t"}
			blk := &spec.Item{Kind: "parallel"}
			for i := range n {
				name := fmt.Sprintf("c%d", i)
				if i == 0 {
					name = "t"
				}
				t := &spec.Task{Name: name, Run: []*spec.Item{mark(i)}}
				if i < n-1 {
					t.Deps = []string{fmt.Sprintf("c%d", i+1)}
				}
				chain.Tasks = append(chain.Tasks, t)
				root.Deps = append(root.Deps, fmt.Sprintf("f%d", i))
				fan.Tasks = append(fan.Tasks, &spec.Task{Name: fmt.Sprintf("f%d", i), Run: []*spec.Item{mark(i)}})
				rt.Run = append(rt.Run, mark(i))
				lt.Run = append(lt.Run, spec.Log("<"+strconv.Itoa(i)+">"))
				blk.Items = append(blk.Items, mark(i))
				up = append(up, id(i))
				down = append(down, id(n-1-i))
			}
			row.Tasks, logs.Tasks = []*spec.Task{rt}, []*spec.Task{lt}
			vars.Vars = spec.KV{{"v0", "deep"}}
			for i := range min(n, 300) {
				vars.Vars = append(vars.Vars, [2]string{fmt.Sprintf("v%d", i+1), fmt.Sprintf("${{ v%d }}", i)})
			}
			vars.Tasks = []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Cmd(fmt.Sprintf("touch effect ${{ v%d }}", min(n, 300)))}}}
			if !put(fmt.Sprintf("chain of %d", n), chain, want{down, true}) || !put(fmt.Sprintf("fan of %d", n), fan, want{append(append([]string{}, up...), id(n)), true}) ||
				!put(fmt.Sprintf("row of %d", n), row, want{up, true}) || !put(fmt.Sprintf("%d messages", n), logs, want{up, true}) || !put(fmt.Sprintf("%d variables", n), vars, want{[]string{"effect deep"}, true}) {
				return
			}
			if n > 1 && !put(fmt.Sprintf("block of %d", n), &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{blk, mark(n)}}}}, want{append(append([]string{}, up...), id(n)), true}) {
				return
			}
		}
		// long commands and messages
		one := func(text string) []*spec.File {
			esc := strings.ReplaceAll(text, "${{", "$${{")
			return []*spec.File{
				{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Cmd(esc)}}}},
				{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Log(esc)}}}},
				{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Par(spec.Cmd(esc), spec.Log("x"))}}}},
				{Vars: spec.KV{{"v", esc}}, Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Cmd("touch ${{ v }}")}}}},
			}
		}
		for _, n := range sizes(small, 16385) {
			for k, x := range []string{"touch " + strings.Repeat("e", n), "touch " + strings.Repeat("é", n), "touch a" + strings.Repeat(" b", n), "touch e" + strings.Repeat("\ntouch f", n), "touch a" + strings.Repeat("\n", n) + "touch b", strings.Repeat("a='b';", n) + " touch \"c\""} {
				if n > 2100 && k > 1 {
					continue
				}
				for i, f := range one(x) {
					if !put(fmt.Sprintf("text %d of %d in %d", k, n, i), f, want{show: []string{x}}) {
						return
					}
				}
			}
		}
		// every character
		for r := rune(1); r < 0x3100; r++ {
			if r > 0x500 && r < 0x2000 {
				r += 16
			}
			x := "touch a" + string(r) + "b"
			for i, f := range one(x) {
				if r == '\t' && i == 1 || r == 0x7f {
					continue // a message is laid out with blanks; DEL is escaped in its own way
				}
				if i > 0 && (r > 0x250 && !ch.Thorough()) {
					break
				}
				if !put(fmt.Sprintf("character %U in %d", r, i), f, want{show: []string{x}}) {
					return
				}
			}
		}
	}, runDry, func(c *bb.Case, g bb.Got) string {
		w := c.Data.(want)
		if g.TimedOut || g.Exit != 0 || len(g.Log) > 0 || len(g.Changed) > 0 {
			return fmt.Sprintf("a preview ended with %d (hung: %v), ran %q, changed %q: %.500s", g.Exit, g.TimedOut, g.Log, g.Changed, g.Stderr)
		}
		out := g.Stdout + g.Stderr
		if !w.once {
			if !previewed(out, w.show[0]) && !previewed(bb.Plain(out), w.show[0]) {
				return fmt.Sprintf("the preview does not show %.300q: %.1000q", w.show[0], out)
			}
			return ""
		}
		at := 0
		for _, m := range w.show {
			i := strings.Index(out[at:], m)
			if i < 0 {
				return fmt.Sprintf("the preview does not show %q in its place: %.2000s", m, out)
			}
			at += i + len(m)
			if strings.Contains(out[at:], m) {
				return fmt.Sprintf("the preview shows %q twice", m)
			}
		}
		return ""
	})
}
