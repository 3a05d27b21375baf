package main

import (
	"fmt"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P11"] = p11 }

// shows prints the variables a command sees.
func shows(id string) *spec.Item {
	return spec.Cmd(`printf '%s %s|%s|%s|%s\n' ` + id + ` "${A-unset}" "${B-unset}" "${v-unset}" "${a-unset}" >>"$BLOG"`)
}

func shown(base func(string) (string, bool)) func(e spec.Event) string {
	return func(e spec.Event) string {
		f := strings.Fields(e.Text)
		if len(f) < 4 || f[0] != "printf" {
			return ""
		}
		val := func(k string) string {
			if x, ok := e.Env[k]; ok {
				return x
			}
			if x, ok := base(k); ok {
				return x
			}
			return "unset"
		}
		// printf '%s %s|...\n' ID ...
		return f[3] + " " + val("A") + "|" + val("B") + "|" + val("v") + "|" + val("a")
	}
}

func with(it *spec.Item, env spec.KV) *spec.Item { it.Env = env; return it }

func p11(ch *vlib.Check) {
	ch.Rule("all assignments of {unset, literal, reference to a variable, reference to the inherited environment, a value that looks like a reference after substitution} to one name on the levels inherited, global, task, command; all assignments of two names, which may differ in case only, to the levels; over templates: sequence, dependency, reference, parallel, several tasks with variables of their own, variables that are answers; every character in a value, every letter in a name, values of any length and any number of variables on each level. Non-trivial: some level sets a name")
	vars := spec.KV{{"v", "var"}, {"tricky", "$${{ v }}"}, {"multi", "a b$v\"'"}}
	// level values for A; the first means unset
	vals := []string{"", "lit-%", "${{ v }}-%", "${{ env.OUTER }}-%", "${{ tricky }}-%", "${{ multi }}-%", "$A$B-%", "="}
	set := func(level, i int, name string) spec.KV {
		if i == 0 {
			return nil
		}
		if vals[i] == "=" {
			return spec.KV{{name, ""}}
		}
		return spec.KV{{name, strings.ReplaceAll(vals[i], "%", fmt.Sprint(level))}}
	}
	type tmpl struct {
		name string
		mk   func(g, t, c spec.KV) *spec.File
	}
	tmpls := []tmpl{
		{"seq", func(g, t, c spec.KV) *spec.File {
			return &spec.File{Vars: vars, Env: g, Tasks: []*spec.Task{{Name: "t", Env: t, Run: []*spec.Item{shows("1"), with(shows("2"), c), shows("3")}}}}
		}},
		{"seqvars", func(g, t, c spec.KV) *spec.File {
			return &spec.File{Vars: vars, Env: g, Tasks: []*spec.Task{{Name: "t", Vars: spec.KV{{"v", "own"}}, Env: t, Run: []*spec.Item{with(shows("1"), c), shows("2")}}}}
		}},
		{"dep", func(g, t, c spec.KV) *spec.File {
			return &spec.File{Vars: vars, Env: g, Tasks: []*spec.Task{
				{Name: "t", Deps: []string{"d"}, Run: []*spec.Item{shows("3")}},
				{Name: "d", Env: t, Run: []*spec.Item{with(shows("1"), c), shows("2")}}}}
		}},
		{"ref", func(g, t, c spec.KV) *spec.File {
			return &spec.File{Vars: vars, Env: g, Tasks: []*spec.Task{
				{Name: "t", Env: t, Run: []*spec.Item{shows("1"), with(shows("2"), c), spec.Ref("r"), shows("4")}},
				{Name: "r", Run: []*spec.Item{shows("3")}}}}
		}},
		{"par", func(g, t, c spec.KV) *spec.File {
			return &spec.File{Vars: vars, Env: g, Tasks: []*spec.Task{
				{Name: "t", Env: t, Run: []*spec.Item{spec.Par(with(shows("1"), c), shows("2"), spec.Ref("r")), shows("4")}},
				{Name: "r", Run: []*spec.Item{shows("3")}}}}
		}},
		{"parref", func(g, t, c spec.KV) *spec.File {
			return &spec.File{Vars: vars, Env: g, Tasks: []*spec.Task{
				{Name: "t", Run: []*spec.Item{spec.Par(spec.Ref("r"), shows("2")), shows("4")}},
				{Name: "r", Env: t, Run: []*spec.Item{with(shows("1"), c), shows("3")}}}}
		}},
	}
	ask := func() *spec.Item {
		return &spec.Item{Kind: "prompt", Text: "v", PType: "input", Message: "m", Default: "ans${{ multi }}"}
	}
	tmpls = append(tmpls,
		// every task resolves the same references by its own variables
		tmpl{"own", func(g, t, c spec.KV) *spec.File {
			return &spec.File{Vars: vars, Env: g, Tasks: []*spec.Task{
				{Name: "t", Vars: spec.KV{{"v", "one"}}, Env: t, Deps: []string{"d"}, Run: []*spec.Item{with(shows("1"), c), spec.Ref("r"), shows("2"), spec.Par(spec.Ref("q"), with(shows("3"), c))}},
				{Name: "d", Vars: spec.KV{{"v", "two"}}, Env: t, Run: []*spec.Item{with(shows("4"), c)}},
				{Name: "r", Run: []*spec.Item{with(shows("5"), c)}},
				{Name: "q", Vars: spec.KV{{"v", "four"}, {"multi", "m"}}, Env: t, Run: []*spec.Item{with(shows("6"), c), shows("7")}}}}
		}},
		// an answer changes a variable, not the environment
		tmpl{"asked", func(g, t, c spec.KV) *spec.File {
			return &spec.File{Vars: vars, Env: g, Tasks: []*spec.Task{
				{Name: "t", Env: t, Deps: []string{"d"}, Run: []*spec.Item{with(shows("1"), c), ask(), with(shows("2"), c), spec.Par(with(shows("3"), c), spec.Ref("r")), shows("4")}},
				{Name: "d", Env: t, Run: []*spec.Item{ask(), with(shows("5"), c)}},
				{Name: "r", Env: t, Run: []*spec.Item{with(shows("6"), c)}}}}
		}})
	mkcase := func(key string, f *spec.File, os []string) *bb.Case {
		base := func(k string) (string, bool) {
			for _, kv := range os {
				if n, v, _ := strings.Cut(kv, "="); n == k {
					return v, true
				}
			}
			return "", false
		}
		return &bb.Case{Key: key, Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Env: os,
			Data: data{f: f, task: "t", line: shown(base)}}
	}
	seq := func(yield func(*bb.Case) bool) {
		for ti, t := range tmpls {
			sizes := []int{2, len(vals), len(vals), len(vals)}
			if ti > 1 && !ch.Thorough() {
				sizes = []int{2, 4, 5, 5}
			}
			if !product(sizes, func(ix []int) bool {
				os := []string{"OUTER=outer${{ v }}"}
				if ix[0] == 1 {
					os = append(os, "A=inherited")
				}
				c := mkcase(fmt.Sprintf("%s %v", t.name, ix), t.mk(set(1, ix[1], "A"), set(2, ix[2], "A"), set(3, ix[3], "A")), os)
				c.Trivial = ix[1]+ix[2]+ix[3] == 0
				return yield(c)
			}) {
				return
			}
			// two names, on every subset of the levels each; the second pair
			// differs in case only
			if !product([]int{16, 16, 2}, func(ix []int) bool {
				kv := func(level int) spec.KV {
					var r spec.KV
					for n, name := range []string{"A", []string{"B", "a"}[ix[2]]} {
						if ix[n]&(1<<level) != 0 {
							r = append(r, [2]string{name, fmt.Sprintf("%s%d", name, level)})
						}
					}
					return r
				}
				var os []string
				for _, p := range kv(0) {
					os = append(os, p[0]+"="+p[1])
				}
				c := mkcase(fmt.Sprintf("two %s %v", t.name, ix), t.mk(kv(1), kv(2), kv(3)), os)
				return yield(c)
			}) {
				return
			}
		}
	}
	bb.Explore(ch, seq, judgeSame)
	sizes11(ch)
}
