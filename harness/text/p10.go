package main

import (
	"errors"
	"fmt"
	"maps"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P10"] = p10 }

func p10(ch *vlib.Check) {
	ch.Rule("chains, fans and scopes of growing size, names and values of every length and character; every graph of references between three variables with up to two references each, over every parent scope, resolved three times in process; every graph of four variables with up to one; every history of four tasks (dependency, reference, sibling, main) that define, prompt for or only read the same names, in sequence and in parallel, through the binary. Non-trivial: at least one reference")
	values := func(names []string, two bool) []string {
		out := []string{"lit"}
		for _, n := range names {
			out = append(out, "<${{ "+n+" }}>")
		}
		if two {
			for _, a := range names {
				for _, b := range names {
					out = append(out, "${{ "+a+" }}/${{"+b+"}}")
				}
			}
		}
		return out
	}
	names := []string{"a", "b", "c", "p", "u", "env.EA"}
	v2 := values(names, true)
	v2 = append(v2, "$${{ b }}", "$${{ a }}${{ c }}", "")
	parents := []map[string]string{nil, {"p": "P", "a": "PA"}, {"p": "${{ a }}", "u": "", "c": "PC"}}
	if ch.Thorough() {
		parents = append(parents, map[string]string{}, map[string]string{"b": "$${{ a }}"})
	}
	resolveAll(ch, []string{"a", "b", "c"}, v2, parents)
	v1 := append(values([]string{"a", "b", "c", "d", "u", "p"}, false), "$${{ a }}", "${{ a }}${{ d }}")
	resolveAll(ch, []string{"a", "b", "c", "d"}, v1, parents)
	// a long chain in every rotation of declaration is covered by map order
	sizes10(ch)
	histories10(ch)
}

// resolveAll resolves every assignment of the values to the names.
func resolveAll(ch *vlib.Check, names, values []string, parents []map[string]string) {
	total := 1
	for range names {
		total *= len(values)
	}
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var keys []uint64
			n := int64(0)
			for i := w; i < total; i += workers {
				if i%1024 == w && (ch.Expired() || ch.Enough()) {
					ch.NotExhaustive()
					break
				}
				own := map[string]string{}
				x := i
				for _, name := range names {
					own[name] = values[x%len(values)]
					x /= len(values)
				}
				for pi, parent := range parents {
					n++
					keys = append(keys, vlib.Hash(fmt.Sprint(own, pi)))
					resolveOne10(ch, own, parent)
				}
				if len(keys) > 4096 {
					ch.EvalN(n, keys)
					n, keys = 0, nil
				}
			}
			ch.EvalN(n, keys)
		}()
	}
	wg.Wait()
}

func resolveOne10(ch *vlib.Check, own, parent map[string]string) {
	want, werr := spec.ResolveVars(own, parent, os.Getenv)
	for try := range 3 {
		before := maps.Clone(parent)
		got, err := interpolate.ResolveVarsWithLocation(own, parent, "Babfile", 3)
		key := fmt.Sprintf("own=%v parent=%v", own, parent)
		bad := func(what string) {
			ch.Violation(key, map[string]any{"what": what, "own": own, "parent": parent, "got": got, "error": fmt.Sprint(err), "must_be": want, "must_fail": fmt.Sprint(werr)})
		}
		if !maps.Equal(before, parent) {
			bad("the parent scope was changed")
			return
		}
		if (err != nil) != (werr != nil) {
			bad("resolved although it must fail, or the other way round")
			return
		}
		if werr == nil {
			if !maps.Equal(got, want) {
				bad("wrong values")
				return
			}
			if got != nil && try == 0 {
				got["zz"] = "changed"
				if !maps.Equal(before, parent) {
					bad("the result shares its map with the parent scope")
					return
				}
				delete(got, "zz")
			}
			continue
		}
		cyc, undef := defects(own, parent)
		var vc *errs.VarCycleError
		var nf *errs.VarNotFoundError
		switch {
		case errors.As(err, &vc):
			if !cyc {
				bad("reports a cycle where there is none")
				return
			}
		case errors.As(err, &nf):
			if !undef[nf.Name] {
				bad("reports a variable that is defined")
				return
			}
		}
	}
}

// defects says whether the references have a cycle and which are undefined.
func defects(own, parent map[string]string) (bool, map[string]bool) {
	undef := map[string]bool{}
	adj := map[string][]string{}
	for k, v := range own {
		for _, r := range spec.Refs(v) {
			if _, ok := own[r]; ok {
				adj[k] = append(adj[k], r)
			} else if _, ok := parent[r]; !ok {
				undef[r] = true
			}
		}
	}
	colour := map[string]int{}
	cyc := false
	var visit func(k string)
	visit = func(k string) {
		colour[k] = 1
		for _, n := range adj[k] {
			if colour[n] == 1 {
				cyc = true
			} else if colour[n] == 0 {
				visit(n)
			}
		}
		colour[k] = 2
	}
	for k := range own {
		if colour[k] == 0 {
			visit(k)
		}
	}
	return cyc, undef
}

// sees logs the variables of a task at one point.
func sees(id string) *spec.Item {
	return spec.Cmd(`printf '%s\n' "` + id + ` x=${{ x }} y=${{ y }}" >>"$BLOG"`)
}

func histories10(ch *vlib.Check) {
	type opt struct {
		own    string // own value of x, "" for none
		prompt int    // 0 none, 1 prompt x between the two looks, 2 before
		y      string // own value of y
	}
	opts := []opt{{}, {own: "O"}, {prompt: 1}, {own: "O", prompt: 1}, {prompt: 2}, {own: "O-${{ y }}"}, {own: "O", y: "<${{ x }}>"}}
	arrangements := []string{"dep", "ref", "refafter", "par", "depchain", "pardep"}
	mkTask := func(name string, o opt) *spec.Task {
		t := &spec.Task{Name: name}
		if o.own != "" {
			t.Vars = append(t.Vars, [2]string{"x", o.own + name})
		}
		if o.y != "" {
			t.Vars = append(t.Vars, [2]string{"y", o.y + name})
		}
		p := &spec.Item{Kind: "prompt", Text: "x", PType: "input", Message: "m", Default: "P" + name}
		t.Run = []*spec.Item{sees(name + "1"), sees(name + "2")}
		switch o.prompt {
		case 1:
			t.Run = []*spec.Item{sees(name + "1"), p, sees(name + "2")}
		case 2:
			t.Run = []*spec.Item{p, sees(name + "1")}
		}
		return t
	}
	type d10 struct {
		f   *spec.File
		par bool
	}
	globals := []spec.KV{{{"x", "G"}, {"y", "Y${{ x }}"}}, {{"y", "Y"}}}
	gen := func(yield func(*bb.Case) bool) {
		for _, ar := range arrangements {
			for gi, g := range globals {
				no := len(opts)
				if !ch.Thorough() && gi > 0 {
					no = 5
				}
				if !product([]int{no, no, no}, func(ix []int) bool {
					f := &spec.File{Vars: g}
					t, d, r := mkTask("t", opts[ix[0]]), mkTask("d", opts[ix[1]]), mkTask("r", opts[ix[2]])
					par := false
					switch ar {
					case "dep":
						t.Deps = []string{"d", "r"}
					case "depchain":
						t.Deps, d.Deps = []string{"d"}, []string{"r"}
					case "ref":
						t.Deps = []string{"d"}
						t.Run = append(append([]*spec.Item{t.Run[0], spec.Ref("r")}, t.Run[1:]...), sees("t3"))
					case "refafter":
						t.Run = append(t.Run, spec.Ref("d"), sees("t3"), spec.Ref("r"), sees("t4"))
					case "par":
						par = true
						t.Run = append(t.Run, spec.Par(spec.Ref("d"), spec.Ref("r"), sees("t3")), sees("t4"))
					case "pardep":
						par = true
						r.Deps = []string{"d"}
						t.Run = append(t.Run, spec.Par(spec.Ref("r"), sees("t3")), sees("t4"))
					}
					f.Tasks = []*spec.Task{t, d, r}
					return yield(&bb.Case{Key: fmt.Sprintf("%s global%d %v", ar, gi, ix), Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Data: d10{f, par}})
				}) {
					return
				}
			}
		}
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		d := c.Data.(d10)
		r := spec.Eval(d.f, "t", spec.World{})
		var want []string
		for _, e := range r.Events {
			if e.Kind == "run" {
				s := strings.TrimPrefix(e.Text, `printf '%s\n' "`)
				want = append(want, strings.TrimSuffix(s, `" >>"$BLOG"`))
			}
		}
		got := append([]string{}, g.Log...)
		exit := 0
		if r.Err != nil {
			exit = 1
		}
		if d.par {
			if r.Err != nil {
				// siblings of a failing item may or may not have got their turn
				// before; only what they saw is judged
				all := map[string]bool{}
				for _, w := range want {
					all[w] = true
				}
				for _, l := range got {
					if !all[l] {
						return fmt.Sprintf("a command saw %q, must be among %q", l, want)
					}
				}
				if g.Exit != 1 {
					return fmt.Sprintf("exit %d, must be 1", g.Exit)
				}
				return ""
			}
			sort.Strings(want)
			sort.Strings(got)
		}
		if strings.Join(want, "\n") != strings.Join(got, "\n") || g.Exit != exit {
			return fmt.Sprintf("commands saw %q (exit %d), must be %q (exit %d): %s", got, g.Exit, want, exit, bb.Plain(g.Stderr))
		}
		return ""
	})
}
