package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// lengths are the sizes that are tried of everything that can be long.
func lengths(small, upTo int) []int {
	var out []int
	for n := 1; n <= small; n++ {
		out = append(out, n)
	}
	for _, p := range []int{32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 4096, 8192, 10000, 16384, 32768, 65536, 100000} {
		for d := -1; d <= 1; d++ {
			if p+d <= upTo && p+d > small {
				out = append(out, p+d)
			}
		}
	}
	return out
}

func numbered(n int) []*spec.Task {
	var ts []*spec.Task
	for i := range n {
		ts = append(ts, &spec.Task{Name: fmt.Sprintf("x%d", i), Run: []*spec.Item{spec.Log("x")}})
	}
	return ts
}

// sizeDocs17 are chains, cycles and fans of any size, many aliases, and chains
// of included files.
func sizeDocs17(ch *vlib.Check, yield func(doc) bool) bool {
	kind := map[int]string{eDep: "dependencies", eRef: "references", ePar: "references in blocks", eWhen: "references that never run", 0: "all kinds"}
	put := func(key string, ts []*spec.Task) bool {
		f := &spec.File{Tasks: ts}
		return yield(doc{key: "sized " + key, files: map[string]string{"Babfile": f.YAML()}, x: graph17{flat: ts, file: f}})
	}
	small, top := 20, 260
	if ch.Thorough() {
		small, top = 40, 2001
	}
	for _, n := range lengths(small, top) {
		for k, name := range kind {
			e := func(t *spec.Task, to, i int) {
				k := k
				if k == 0 {
					k = 1 + i%4
				}
				edges(t, fmt.Sprintf("x%d", to), k)
			}
			chain := func() []*spec.Task {
				ts := numbered(n)
				for i := range n - 1 {
					e(ts[i], i+1, i)
				}
				return ts
			}
			if !put(fmt.Sprintf("chain of %d %s", n, name), chain()) {
				return false
			}
			// The last one refers to the first, the middle, itself, nothing.
			for _, to := range slices.Compact([]int{0, n / 2, n - 1}) {
				ts := chain()
				e(ts[n-1], to, n-1)
				if !put(fmt.Sprintf("chain of %d %s back to %d", n, name, to), ts) {
					return false
				}
			}
			ts := chain()
			e(ts[n-1], n+7, n-1)
			if !put(fmt.Sprintf("chain of %d %s to nothing", n, name), ts) {
				return false
			}
			// One to all, all to one, and a wrong one among them.
			for _, wrong := range []string{"", "back", "nothing"} {
				ts = numbered(n + 1)
				for i := 1; i <= n; i++ {
					e(ts[0], i, i)
				}
				switch wrong {
				case "back":
					e(ts[n], 0, n)
				case "nothing":
					e(ts[0], n+9, n)
				}
				if !put(fmt.Sprintf("fan of %d %s %s", n, name, wrong), ts) {
					return false
				}
				ts = numbered(n + 1)
				for i := 1; i <= n; i++ {
					e(ts[i], 0, i)
				}
				switch wrong {
				case "back":
					e(ts[0], n, n)
				case "nothing":
					e(ts[n], n+9, n)
				}
				if !put(fmt.Sprintf("funnel of %d %s %s", n, name, wrong), ts) {
					return false
				}
			}
		}
		// Aliases: each its own, then one twice, then one that is a task.
		for _, wrong := range []string{"", "twice", "a task", "its own task"} {
			for _, form := range []string{"alias", "aliases", "many of one"} {
				ts := numbered(n)
				set := func(i int, a string) {
					switch form {
					case "alias":
						ts[i].Alias = a
					case "aliases":
						ts[i].Aliases = append(ts[i].Aliases, a)
					default:
						ts[0].Aliases = append(ts[0].Aliases, a)
					}
				}
				for i := range n {
					a := fmt.Sprintf("a%d", i)
					if i == n-1 && i > 0 {
						switch wrong {
						case "twice":
							a = "a0"
						case "a task":
							a = "x0"
						case "its own task":
							a = fmt.Sprintf("x%d", i)
						}
					}
					set(i, a)
				}
				if n == 1 && wrong != "" || form == "many of one" && wrong != "" && wrong != "a task" {
					continue
				}
				if form == "many of one" && wrong == "a task" {
					ts[0].Aliases[n-1] = fmt.Sprintf("x%d", n-1)
				}
				if !put(fmt.Sprintf("%d tasks, %s, %s", n, form, wrong), ts) {
					return false
				}
			}
		}
	}
	// Chains of files, with their end leading back, to nothing, or to an end.
	for _, n := range lengths(20, 66) {
		for _, end := range []string{"end", "back", "itself", "nothing", "twice"} {
			files := map[string]*spec.File{}
			name := func(i int) string {
				if i == 0 {
					return "Babfile"
				}
				return fmt.Sprintf("f%d.yml", i)
			}
			for i := range n {
				f := &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Mark(fmt.Sprint(i))}}, {Name: "u", Deps: []string{"t"}}}}
				to := name(i + 1)
				if i == n-1 {
					switch end {
					case "end":
						to = ""
					case "nothing":
						to = "gone.yml"
					case "back":
						to = name(0)
					case "itself":
						to = name(i)
					case "twice":
						to = "end.yml"
						f.Includes = spec.KV{{"m", "end.yml"}}
					}
				}
				if to != "" {
					f.Includes = append(f.Includes, [2]string{"n", to})
				}
				files[name(i)] = f
			}
			files["end.yml"] = &spec.File{Tasks: []*spec.Task{{Name: "e", Run: []*spec.Item{spec.Mark("e")}}}}
			d := includeDoc(fmt.Sprintf("sized %d files in a row, then %s", n, end), files)
			if !yield(d) {
				return false
			}
		}
		// Many files next to each other, the last one wrong.
		for _, end := range []string{"", "back", "nothing"} {
			files := map[string]*spec.File{}
			root := &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Mark("t")}}}}
			for i := range n {
				sub := fmt.Sprintf("s%d.yml", i)
				root.Includes = append(root.Includes, [2]string{fmt.Sprintf("n%d", i), sub})
				root.Tasks[0].Deps = append(root.Tasks[0].Deps, fmt.Sprintf("n%d:t", i))
				f := &spec.File{Tasks: []*spec.Task{{Name: "t", Alias: "v", Run: []*spec.Item{spec.Mark("s")}}}}
				if i == n-1 && end != "" {
					f.Includes = spec.KV{{"z", map[string]string{"back": "Babfile", "nothing": "gone.yml"}[end]}}
				}
				files[sub] = f
			}
			files["Babfile"] = root
			if !yield(includeDoc(fmt.Sprintf("sized %d files side by side %s", n, end), files)) {
				return false
			}
		}
	}
	return true
}

// sizes18 has problems far down in a file, and many of them.
func sizes18(ch *vlib.Check) {
	type at struct {
		pre  string // what comes before
		name string
	}
	gen := func(yield func(*bb.Case) bool) {
		put := func(key, text string, depth int, n int) bool {
			var wants []want18
			for i, l := range strings.Split(text, "\n") {
				if _, x, ok := strings.Cut(l, "#@"); ok {
					wants = append(wants, want18{lines: map[int]bool{i + 1: true}, names: []string{`zq` + x + `"`}})
				}
			}
			files, w, incl, ns := placed(text, wants, depth)
			return yield(&bb.Case{Key: fmt.Sprintf("%s, depth %d", key, depth), Files: files, Args: []string{"--validate"}, Data: data18{wants: w, known: known18(files, ns), incl: incl, all: true}})
		}
		ends := []string{"dep", "ref", "par"}
		one := func(i int, kind string) string {
			switch kind {
			case "dep":
				return fmt.Sprintf("  t%d:\n    desc: x\n    deps: [zq%d] #@%d\n", i, i, i)
			case "ref":
				return fmt.Sprintf("  t%d:\n    run:\n      - cmd: echo\n      - task: zq%d #@%d\n", i, i, i)
			}
			return fmt.Sprintf("  t%d:\n    run:\n      - parallel:\n          - cmd: echo\n          - task: zq%d #@%d\n", i, i, i)
		}
		top := 2001
		if ch.Thorough() {
			top = 100001
		}
		for depth := range 3 {
			for _, n := range lengths(20, top) {
				for k, p := range []at{
					{strings.Repeat("# comment\n", n) + "tasks:\n", "comments"},
					{strings.Repeat("\n", n) + "tasks:\n", "empty lines"},
					{"vars:\n  v: |\n" + strings.Repeat("    text\n", n) + "tasks:\n", "lines of text"},
					{"vars:\n  v: " + strings.Repeat("x", n) + "\ntasks:\n", "bytes in a line"},
					{"tasks:\n" + strings.Repeat("  # comment\n\n", n/2), "comments between"},
					{"tasks:\n  ok:\n    run:\n" + strings.Repeat("      - cmd: echo\n", n), "items before"},
				} {
					if !put(fmt.Sprintf("%d %s", n, p.name), p.pre+one(1, ends[(n+k)%3]), depth, 1) {
						return
					}
				}
				if n > 300 {
					continue
				}
				// That many problems.
				text := "tasks:\n"
				for i := range n {
					text += one(i, ends[i%3])
				}
				if !put(fmt.Sprintf("%d problems", n), text, depth, n) {
					return
				}
				text = "tasks:\n  t:\n    run:\n"
				for i := range n {
					text += fmt.Sprintf("      - task: zq%d #@%d\n", i, i)
				}
				if !put(fmt.Sprintf("%d problems in one task", n), text, depth, n) {
					return
				}
			}
		}
	}
	bb.Explore(ch, gen, judge18)
}
