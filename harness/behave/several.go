package main

import (
	"fmt"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// several12 has tasks with the same settings and other variables, of two files
// that have the same directories, in one run; and directories that come, go and
// change their meaning while the run goes on.
func several12(ch *vlib.Check, judge func(*bb.Case, bb.Got) string) {
	ds := []string{"", ".", "..", "../sub"}
	gen := func(yield func(*bb.Case) bool) {
		levels := []string{"file", "task", "command"}
		texts := []string{"${{ d }}", "sub", "./${{ d }}/${{ e }}"}
		shapes := []string{"deps", "refs", "par", "nested"}
		if !product([]int{len(texts), len(levels), len(shapes), len(ds), len(ds), len(ds)}, func(ix []int) bool {
			text, level, shape := texts[ix[0]], levels[ix[1]], shapes[ix[2]]
			if !ch.Thorough() && ix[0] == 2 && shape != "deps" {
				return true
			}
			var want []string
			fail := false
			main := &spec.File{Vars: spec.KV{{"d", "sub"}, {"e", "."}}}
			inc := &spec.File{Vars: spec.KV{{"d", "sub"}, {"e", "."}}}
			own := func(f *spec.File, base, name, id, d string) (*spec.Task, *spec.Item) {
				it := where(id)
				t := &spec.Task{Name: name, Run: []*spec.Item{it}}
				v := map[string]string{"d": "sub", "e": "."}
				if d != "" {
					t.Vars = spec.KV{{"d", d}}
					v["d"] = d
				}
				switch level {
				case "file":
					f.Dir = text
				case "task":
					t.Dir = text
				case "command":
					it.Dir = text
				}
				f.Tasks = append(f.Tasks, t)
				if p := (place{base, v}).resolve(text); p != "" {
					want = append(want, id+" "+p)
				} else {
					fail = true
				}
				return t, it
			}
			m, _ := own(main, "/proj", "t", "1", ds[ix[3]])
			own(main, "/proj", "u", "2", ds[ix[4]])
			own(inc, "/proj/inc", "z", "3", ds[ix[5]])
			switch shape {
			case "deps":
				m.Deps = []string{"u", "n:z"}
			case "refs":
				m.Run = []*spec.Item{spec.Ref("u"), m.Run[0], spec.Ref("n:z")}
			case "par":
				m.Run = []*spec.Item{spec.Par(spec.Ref("u"), m.Run[0], spec.Ref("n:z"))}
			case "nested":
				m.Run = []*spec.Item{spec.Ref("n:z"), spec.Par(m.Run[0], spec.Ref("u"))}
			}
			if fail {
				return true // which of them run then is a matter of P02
			}
			main.Includes = spec.KV{{"n", "inc/b.yml"}}
			return yield(&bb.Case{Key: fmt.Sprintf("several %s %s %s %q", text, level, shape, []string{ds[ix[3]], ds[ix[4]], ds[ix[5]]}),
				Files: map[string]string{"proj/Babfile": main.YAML(), "proj/inc/b.yml": inc.YAML()}, Dirs: p12dirs, Cwd: "proj", Args: []string{"t"}, Data: p12data{want, fail}})
		}) {
			return
		}
		// one task whose directories change
		acts := []struct {
			cmd string
			act func(state map[string]string)
		}{
			{"mkdir cur", func(s map[string]string) { s["cur"] = "cur" }},
			{"rm -f cur 2>/dev/null || rmdir cur; :", func(s map[string]string) { delete(s, "cur") }},
			{"rm -rf ./cur; ln -s sub cur", func(s map[string]string) { s["cur"] = "sub" }},
			{"rm -rf ./cur; ln -s inc/deep cur", func(s map[string]string) { s["cur"] = "inc/deep" }},
			{"rm -rf ./cur; echo x >cur", func(s map[string]string) { s["cur"] = "file" }},
		}
		for a := range acts {
			for b := range acts {
				for c := range acts {
					for _, level := range []string{"command", "task", "prompt"} {
						st := map[string]string{}
						var want []string
						fail := false
						f := &spec.File{Vars: spec.KV{{"d", "cur"}}}
						t := &spec.Task{Name: "t"}
						f.Tasks = []*spec.Task{t}
						for n, k := range []int{a, b, c} {
							do := spec.Cmd("cd @ROOT@/proj && { " + acts[k].cmd + "; }")
							go1 := where(fmt.Sprint(n))
							switch level {
							case "command":
								go1.Dir = "cur"
								t.Run = append(t.Run, do, go1)
							case "task": // each in a task of its own
								x := &spec.Task{Name: fmt.Sprintf("x%d", n), Dir: "./cur", Run: []*spec.Item{go1}}
								f.Tasks = append(f.Tasks, x)
								t.Run = append(t.Run, do, spec.Ref(x.Name))
							case "prompt": // the variable changes, not what is there
								def := []string{"sub", "inc/deep", ".", "inc", "sub/deep"}[k]
								go1.Dir = "${{ d }}"
								t.Run = append(t.Run, &spec.Item{Kind: "prompt", Text: "d", PType: "input", Message: "m", Default: def}, go1)
								want = append(want, fmt.Sprintf("%d @ROOT@%s", n, strings.TrimSuffix("/proj/"+def, "/.")))
								continue
							}
							if fail {
								continue
							}
							if a := acts[k]; a.cmd == "mkdir cur" && st["cur"] != "" {
								fail = true
								continue
							}
							acts[k].act(st)
							switch to := st["cur"]; to {
							case "", "file":
								fail = true
							default:
								want = append(want, fmt.Sprintf("%d @ROOT@/proj/%s", n, to))
							}
						}
						if !yield(&bb.Case{Key: fmt.Sprintf("changing %s %d%d%d", level, a, b, c), Files: map[string]string{"proj/Babfile": f.YAML()}, Dirs: p12dirs, Cwd: "proj", Args: []string{"t"}, Data: p12data{want, fail}}) {
							return
						}
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, judge)
}
