package main

import (
	"fmt"
	"maps"
	"path"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P12"] = p12 }

func where(id string) *spec.Item { return spec.Cmd(`echo "` + id + ` $(pwd -P)" >>"$BLOG"`) }

// The directory tree of every case, relative to its root. The Babfile is in
// proj, its include in proj/inc, another one in shared.
var p12dirs = []string{"proj/sub", "proj/sub/deep", "proj/inc/sub", "proj/inc/deep", "shared/sub", "other/sub", "sub", "proj/sp ace", "store/sub", "store/other"}

// choices for a dir setting: text and whether it needs a variable.
var dirTexts = []string{"", "sub", "./sub/deep/..", "../other", "@ROOT@/other", "missing", "plain", "${{ d }}", ".", "sp ace", "${{ a }}/sub", "${{ d }}${{ p }}other"}

type place struct {
	base string // directory of the Babfile that defines the task
	vars map[string]string
}

// resolve is the reference: the absolute directory, or "" if it is not one.
func (p place) resolve(dir string) string {
	exists := map[string]bool{"/": true}
	for _, d := range append([]string{"proj", "shared", "other", "store"}, p12dirs...) {
		for d != "." {
			exists["/"+d] = true
			d = path.Dir(d)
		}
	}
	if dir == "" {
		return "@ROOT@" + p.base
	}
	d, _ := spec.Interp(dir, p.vars, func(string) string { return "" })
	if strings.HasPrefix(d, "@ROOT@") {
		d = strings.TrimPrefix(d, "@ROOT@")
	} else {
		d = path.Join(p.base, d)
	}
	d = path.Clean(d)
	if !exists[d] {
		return ""
	}
	if d == "/" {
		d = ""
	}
	return "@ROOT@" + d
}

type p12data struct {
	want []string
	fail bool
}

func p12(ch *vlib.Check) {
	ch.Rule("all combinations of {unset, relative, dotted, parent, absolute, missing, regular file, reference, reference to an absolute path, references that make up a path, dot, with a space} on the levels file, task, command; by place of the task (root file, included one or two levels deep, dependency, reference, parallel item), by start directory and by way to name the Babfile, also where Babfiles or their directory are symbolic links; directories of any name, length and depth, and links to directories, on each level; several tasks of two files with the same settings and other variables in one run; directories and variables that change during the run. Non-trivial: some level sets dir")
	texts := dirTexts
	first := func(l ...string) string {
		for _, x := range l {
			if x != "" {
				return x
			}
		}
		return ""
	}
	// one case: settings (g,t,c) in the file under test, kind of place
	type pl struct {
		name string
		base string
		mk   func(f *spec.File) map[string]string
		arg  string
	}
	// In the included cases the including file has no dir of its own.
	incl := func(files map[string]string, root *spec.File) map[string]string {
		files["proj/Babfile"] = root.YAML()
		return files
	}
	places := []pl{
		{"root", "/proj", func(f *spec.File) map[string]string { return map[string]string{"proj/Babfile": f.YAML()} }, "t"},
		{"inc", "/proj/inc", func(f *spec.File) map[string]string {
			return incl(map[string]string{"proj/inc/b.yml": f.YAML()}, &spec.File{Includes: spec.KV{{"n", "inc/b.yml"}}})
		}, "n:t"},
		{"incup", "/shared", func(f *spec.File) map[string]string {
			return incl(map[string]string{"shared/b.yml": f.YAML()}, &spec.File{Includes: spec.KV{{"n", "../shared/b.yml"}}})
		}, "n:t"},
		{"inc2", "/shared", func(f *spec.File) map[string]string {
			mid := &spec.File{Includes: spec.KV{{"m", "../../shared/b.yml"}}, Tasks: []*spec.Task{{Name: "x", Run: []*spec.Item{spec.Mark("x")}}}}
			return incl(map[string]string{"shared/b.yml": f.YAML(), "proj/inc/b.yml": mid.YAML()}, &spec.File{Includes: spec.KV{{"n", "./inc/b.yml"}}})
		}, "n:m:t"},
		{"incdep", "/proj/inc", func(f *spec.File) map[string]string {
			return incl(map[string]string{"proj/inc/b.yml": f.YAML()}, &spec.File{Includes: spec.KV{{"n", "inc/b.yml"}},
				Tasks: []*spec.Task{{Name: "u", Dir: "sub", Deps: []string{"n:t"}, Run: []*spec.Item{where("after")}}}})
		}, "u"},
		{"incabs", "/shared", func(f *spec.File) map[string]string {
			return incl(map[string]string{"shared/b.yml": f.YAML()}, &spec.File{Includes: spec.KV{{"n", "@ROOT@/shared/b.yml"}}})
		}, "n:t"},
	}
	shapes := []string{"cmd", "par", "ref"}
	starts := []struct {
		cwd  string
		args []string
		link string
	}{
		{cwd: "proj"}, {cwd: "proj/sub/deep"}, {cwd: "other", args: []string{"-b", "../proj/Babfile"}}, {cwd: "proj/sub", args: []string{"-b", "@ROOT@/proj/Babfile"}}, {cwd: "proj", args: []string{"--babfile=./Babfile"}},
		// the Babfiles are links to files elsewhere: what counts is where they
		// are found
		{cwd: "proj", link: "files"}, {cwd: "other", args: []string{"-b", "../proj/Babfile"}, link: "files"},
		// the project is reached through a link to its directory
		{cwd: "link/sub", link: "dir"}, {cwd: "other", args: []string{"-b", "../link/Babfile"}, link: "dir"},
	}
	gen := func(yield func(*bb.Case) bool) {
		for pi, p := range places {
			for si, shape := range shapes {
				for wi, st := range starts {
					ng, nt, nc := len(texts), len(texts), len(texts)
					if !ch.Thorough() {
						// the full product at the first start only, else pairs of levels
						if wi > 0 || si > 0 || (pi > 1 && pi != 3) {
							ng, nt, nc = 4, 4, 4
						}
					}
					if wi > 0 && si > 0 {
						continue
					}
					if !product([]int{ng, nt, nc}, func(ix []int) bool {
						g, t, c := texts[ix[0]], texts[ix[1]], texts[ix[2]]
						own := func(id string) *spec.Item { i := where(id); i.Dir = c; return i }
						f := &spec.File{Dir: g, Vars: spec.KV{{"d", "sub"}, {"a", "@ROOT@/other"}, {"p", "/../../"}}, Tasks: []*spec.Task{{Name: "t", Dir: t}}}
						pc := place{p.base, map[string]string{"d": "sub", "a": "@ROOT@/other", "p": "/../../"}}
						var want []string
						fail := false
						step := func(id string, dirs ...string) {
							if fail {
								return
							}
							if d := pc.resolve(first(dirs...)); d != "" {
								want = append(want, id+" "+d)
							} else {
								fail = true
							}
						}
						switch shape {
						case "cmd":
							f.Tasks[0].Run = []*spec.Item{own("1"), where("2")}
							step("1", c, t, g)
							step("2", t, g)
						case "par":
							f.Tasks[0].Run = []*spec.Item{spec.Par(own("1"), where("2")), where("3")}
							step("1", c, t, g)
							f1 := fail
							fail = false
							step("2", t, g)
							fail = fail || f1
							step("3", t, g)
						case "ref":
							f.Tasks[0].Run = []*spec.Item{spec.Ref("r"), own("2")}
							f.Tasks = append(f.Tasks, &spec.Task{Name: "r", Run: []*spec.Item{where("1")}})
							step("1", g)
							step("2", c, t, g)
						}
						if p.name == "incdep" && !fail {
							want = append(want, "after @ROOT@/proj/sub")
						}
						files := p.mk(f)
						files["proj/plain"] = "x"
						files["proj/inc/plain"] = "x"
						files["shared/plain"] = "x"
						links := map[string]string{}
						switch st.link {
						case "files":
							for name, text := range maps.Clone(files) {
								if path.Base(name) != "plain" {
									to := "store/" + strings.ReplaceAll(name, "/", "_")
									delete(files, name)
									files[to] = text
									links[name] = strings.Repeat("../", strings.Count(name, "/")) + to
								}
							}
						case "dir":
							links["link"] = "proj"
						}
						return yield(&bb.Case{Links: links, Key: fmt.Sprintf("%s/%s/start%d %q %q %q", p.name, shape, wi, g, t, c), Trivial: g+t+c == "",
							Files: files, Dirs: p12dirs, Cwd: st.cwd, Args: append(append([]string{}, st.args...), p.arg), Data: p12data{want, fail}})
					}) {
						return
					}
				}
			}
		}
	}
	judge := func(c *bb.Case, g bb.Got) string {
		d := c.Data.(p12data)
		want, got := sorted(d.want), sorted(g.Log)
		for i := range want {
			want[i] = strings.ReplaceAll(want[i], "@ROOT@", g.Root)
		}
		exit := 0
		if d.fail {
			exit = 1
		}
		if strings.Join(want, "\n") != strings.Join(got, "\n") || g.Exit != exit {
			return fmt.Sprintf("ran in %q (exit %d), must be %q (exit %d); stderr: %s", got, g.Exit, want, exit, bb.Plain(g.Stderr))
		}
		return ""
	}
	several12(ch, judge)
	bb.Explore(ch, gen, judge)
	sizes12(ch)
}
