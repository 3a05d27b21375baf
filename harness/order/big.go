package main

import (
	"fmt"
	"slices"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// sizes are the lengths of the regular graphs: all small ones, then those
// around the powers of two and ten, where limits and buffers end.
func sizes(thorough, few bool) []int {
	var out []int
	if few {
		return []int{6, 9, 10, 11, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 129}
	}
	for n := 1; n <= 40; n++ {
		out = append(out, n)
	}
	out = append(out, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 258)
	if thorough {
		out = append(out, 300, 400, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1026)
	}
	return out
}

// regular is a regular graph of any size.
type regular struct {
	name string
	file func(n int) *spec.File
}

func name(i int) string { return fmt.Sprintf("x%d", i) }

func link(t *spec.Task, e edge, to ...string) {
	own := spec.Mark(t.Name)
	if len(t.Run) > 0 {
		own = t.Run[len(t.Run)-1]
	}
	var refs []*spec.Item
	for _, n := range to {
		refs = append(refs, spec.Ref(n))
	}
	switch e {
	case none:
		t.Run = []*spec.Item{own}
	case dep:
		t.Deps = append(t.Deps, to...)
		t.Run = []*spec.Item{own}
	case refFirst:
		t.Run = append(refs, own)
	case refLast:
		t.Run = append([]*spec.Item{own}, refs...)
	}
}

func regulars() []regular {
	var out []regular
	kinds := []edge{dep, refFirst, refLast}
	for k, e := range kinds {
		kn := []string{"deps", "refs before", "refs after"}[k]
		out = append(out,
			regular{"chain of " + kn, func(n int) *spec.File {
				f := &spec.File{}
				for i := range n {
					t := &spec.Task{Name: name(i)}
					if i+1 < n {
						link(t, e, name(i+1))
					} else {
						link(t, none)
					}
					f.Tasks = append(f.Tasks, t)
				}
				return f
			}},
			regular{"fan of " + kn, func(n int) *spec.File {
				f := &spec.File{Tasks: []*spec.Task{{Name: name(0)}}}
				var to []string
				for i := 1; i <= n; i++ {
					t := &spec.Task{Name: name(i)}
					link(t, none)
					f.Tasks = append(f.Tasks, t)
					to = append(to, name(i))
				}
				link(f.Tasks[0], e, to...)
				return f
			}},
			// Everyone in a layer leads to everyone in the next.
			regular{"ladder of " + kn, func(n int) *spec.File {
				f := &spec.File{}
				for i := range n {
					for s := range 2 {
						t := &spec.Task{Name: name(2*i + s)}
						if i+1 < n {
							link(t, e, name(2*i+2), name(2*i+3))
						} else {
							link(t, none)
						}
						f.Tasks = append(f.Tasks, t)
					}
				}
				return f
			}},
			// Many ways to one task.
			regular{"funnel of " + kn, func(n int) *spec.File {
				f := &spec.File{Tasks: []*spec.Task{{Name: name(0)}}}
				var to []string
				for i := 1; i <= n; i++ {
					t := &spec.Task{Name: name(i)}
					link(t, e, "end")
					f.Tasks = append(f.Tasks, t)
					to = append(to, name(i))
				}
				link(f.Tasks[0], e, to...)
				end := &spec.Task{Name: "end"}
				link(end, none)
				f.Tasks = append(f.Tasks, end)
				return f
			}},
			regular{"one task many times among " + kn, func(n int) *spec.File {
				t, end := &spec.Task{Name: name(0)}, &spec.Task{Name: "end"}
				link(end, none)
				to := slices.Repeat([]string{"end"}, n)
				if e == dep {
					to = to[:1]
				}
				link(t, e, to...)
				return &spec.File{Tasks: []*spec.Task{t, end}}
			}},
			// Each task leads to all later ones.
			regular{"full graph of " + kn, func(n int) *spec.File {
				f := &spec.File{}
				n = min(n, 65)
				for i := range n {
					t := &spec.Task{Name: name(i)}
					var to []string
					for j := i + 1; j < n; j++ {
						to = append(to, name(j))
					}
					if len(to) == 0 {
						link(t, none)
					} else {
						link(t, e, to...)
					}
					f.Tasks = append(f.Tasks, t)
				}
				return f
			}},
		)
	}
	out = append(out,
		regular{"commands", func(n int) *spec.File {
			t := &spec.Task{Name: name(0)}
			for i := range n {
				t.Run = append(t.Run, spec.Mark(fmt.Sprintf("c%d", i)))
			}
			return &spec.File{Tasks: []*spec.Task{t}}
		}},
		regular{"other tasks", func(n int) *spec.File {
			f := &spec.File{}
			for i := range n {
				t := &spec.Task{Name: name(i)}
				link(t, none)
				f.Tasks = append(f.Tasks, t)
			}
			return f
		}},
		// References through alternating kinds of edge.
		regular{"mixed chain", func(n int) *spec.File {
			f := &spec.File{}
			for i := range n {
				t := &spec.Task{Name: name(i)}
				if i+1 < n {
					link(t, kinds[i%3], name(i+1))
				} else {
					link(t, none)
				}
				f.Tasks = append(f.Tasks, t)
			}
			return f
		}},
	)
	return out
}

// bigs yields the regular graphs; with fail, one of their commands fails.
func bigs(ch *vlib.Check, fail bool, yield func(*bb.Case) bool) bool {
	for _, r := range regulars() {
		last := -1
		for _, n := range sizes(ch.Thorough(), fail && !ch.Thorough()) {
			f := r.file(n)
			if len(f.Tasks)+len(f.Tasks[0].Run) == last {
				continue // the graph has reached its end
			}
			last = len(f.Tasks) + len(f.Tasks[0].Run)
			if !fail {
				if !yield(mk(fmt.Sprintf("%s: %d", r.name, n), f, name(0))) {
					return false
				}
				continue
			}
			// The failure at the end, at the beginning, in the middle.
			var own []*spec.Item
			for _, t := range f.Tasks {
				for _, it := range t.Run {
					if it.Kind == "cmd" {
						own = append(own, it)
					}
				}
			}
			for _, at := range slices.Compact([]int{len(own) - 1, len(own) - 2, len(own) / 2, 1, 0}) {
				if at < 0 || at >= len(own) {
					continue
				}
				was := own[at].Text
				own[at].Text += "; exit 3"
				ok := yield(mk(fmt.Sprintf("%s: %d, failure at %d", r.name, n, at), clone(f), name(0)))
				own[at].Text = was
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

// clone copies the commands of a file.
func clone(f *spec.File) *spec.File {
	g := &spec.File{}
	for _, t := range f.Tasks {
		u := *t
		u.Run = nil
		for _, it := range t.Run {
			v := *it
			u.Run = append(u.Run, &v)
		}
		g.Tasks = append(g.Tasks, &u)
	}
	return g
}
