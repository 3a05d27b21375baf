package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P17"] = p17 }

// kinds of edges between tasks
const (
	eNone = iota
	eDep
	eRef
	ePar
	eWhen // a reference that never runs: false condition, other platform
)

func edges(t *spec.Task, to string, kind int) {
	switch kind {
	case eDep:
		t.Deps = append(t.Deps, to)
	case eRef:
		t.Run = append(t.Run, spec.Ref(to))
	case ePar:
		t.Run = append(t.Run, spec.Par(spec.Log("x"), spec.Ref(to)))
	case eWhen:
		r := spec.Ref(to)
		r.When, r.Platforms = "false", []string{"windows"}
		t.Run = append(t.Run, r)
	}
}

// targets are the names a task refers to.
func targets(t *spec.Task) []string {
	out := append([]string(nil), t.Deps...)
	var items func(l []*spec.Item)
	items = func(l []*spec.Item) {
		for _, it := range l {
			if it.Kind == "task" {
				out = append(out, it.Text)
			}
			items(it.Items)
		}
	}
	items(t.Run)
	return out
}

// verdict is the reference: why a flat set of tasks is rejected, or "".
func verdict(tasks []*spec.Task) (dangling []string, cyclic bool, ambiguous bool) {
	byName := map[string]*spec.Task{}
	for _, t := range tasks {
		if byName[t.Name] != nil {
			ambiguous = true
		}
		byName[t.Name] = t
	}
	owner := map[string]string{}
	for _, t := range tasks {
		for _, a := range append([]string{t.Alias}, t.Aliases...) {
			if a == "" {
				continue
			}
			if byName[a] != nil {
				ambiguous = true
			}
			if o, ok := owner[a]; ok && o != t.Name {
				ambiguous = true
			}
			owner[a] = t.Name
		}
		for _, to := range targets(t) {
			if byName[to] == nil {
				dangling = append(dangling, t.Name+"->"+to)
			}
		}
	}
	for _, t := range tasks {
		seen := map[string]bool{}
		var walk func(n string) bool
		walk = func(n string) bool {
			x := byName[n]
			if x == nil {
				return false
			}
			for _, to := range targets(x) {
				if to == t.Name {
					return true
				}
				if !seen[to] {
					seen[to] = true
					if walk(to) {
						return true
					}
				}
			}
			return false
		}
		if walk(t.Name) {
			cyclic = true
		}
	}
	sort.Strings(dangling)
	return
}

// reported collects the errors of a rejection by kind.
func reported(err error) (missing []*errs.TaskNotFoundError, cycles []*errs.CircularDepError, rest []error) {
	var walk func(e error)
	walk = func(e error) {
		if e == nil {
			return
		}
		switch v := e.(type) {
		case *errs.TaskNotFoundError:
			missing = append(missing, v)
			return
		case *errs.CircularDepError:
			cycles = append(cycles, v)
			return
		case interface{ Unwrap() []error }:
			for _, x := range v.Unwrap() {
				walk(x)
			}
			return
		}
		if x := errors.Unwrap(e); x != nil {
			walk(x)
			return
		}
		rest = append(rest, e)
	}
	walk(err)
	return
}

type graph17 struct {
	flat    []*spec.Task // the tasks under their full names
	incBad  bool         // an include cycle or a missing file
	file    *spec.File
	reverse bool
}

func judge17(d doc, dir string) string {
	g := d.x.(graph17)
	dangling, cyclic, ambiguous := verdict(g.flat)
	reject := g.incBad || len(dangling) > 0 || cyclic || ambiguous
	for round := range 2 {
		files := d.files
		if round == 1 {
			files = map[string]string{}
			for k, v := range d.files {
				files[k] = v
			}
			files["Babfile"] = reversed(g.file).YAML()
		}
		p := parseIn(dir, files)
		if p.panic != nil {
			return fmt.Sprintf("the parser panics: %v", p.panic)
		}
		if (p.err != nil) != reject {
			return fmt.Sprintf("round %d: rejected=%v (%v), must be rejected=%v: dangling %v cyclic %v ambiguous %v includes %v", round, p.err != nil, p.err, reject, dangling, cyclic, ambiguous, g.incBad)
		}
		if p.err == nil {
			if len(p.res.Tasks) != len(g.flat) {
				return fmt.Sprintf("round %d: %d tasks, must be %d", round, len(p.res.Tasks), len(g.flat))
			}
			for _, t := range g.flat {
				if p.res.Tasks[t.Name] == nil {
					return fmt.Sprintf("round %d: task %q is missing", round, t.Name)
				}
			}
		}
	}
	return ""
}

func graphDocs(ch *vlib.Check, yield func(doc) bool) bool {
	emit := func(names []string, n int, ix []int, dang int, dkind int) bool {
		f := &spec.File{}
		for i := range n {
			t := &spec.Task{Name: names[i]}
			for j := range n {
				edges(t, names[j], ix[i*n+j])
			}
			if dkind != eNone && dang == i {
				edges(t, "zz", dkind)
			}
			t.Run = append(t.Run, spec.Mark(fmt.Sprint(i)))
			f.Tasks = append(f.Tasks, t)
		}
		key := fmt.Sprintf("graph %v %v dangling %d/%d", names[:n], ix, dang, dkind)
		return yield(doc{key: key, files: map[string]string{"Babfile": f.YAML()}, x: graph17{flat: f.Tasks, file: f}})
	}
	plain := []string{"a", "b", "c", "d"}
	hard := []string{"a", "a:b", "b", "a:b:c"}
	for _, names := range [][]string{plain, hard} {
		// two tasks, every kind, also dangling
		if !product(same(5, 4), func(ix []int) bool {
			for dk := range 5 {
				for dang := range 2 {
					if dk == 0 && dang > 0 {
						continue
					}
					if !emit(names, 2, ix, dang, dk) {
						return false
					}
				}
			}
			return true
		}) {
			return false
		}
	}
	k := 3
	if ch.Thorough() {
		k = 5
	}
	if !product(same(k, 9), func(ix []int) bool {
		sum := 0
		for _, x := range ix {
			sum += x
		}
		if !emit(plain, 3, ix, 0, eNone) {
			return false
		}
		if k == 3 && sum <= 4 {
			for dang := range 3 {
				for dk := 1; dk < 5; dk++ {
					if !emit(plain, 3, ix, dang, dk) {
						return false
					}
				}
			}
		}
		return true
	}) {
		return false
	}
	// four tasks, one kind of edge
	for _, kind := range []int{eDep, eRef} {
		if kind == eRef && !ch.Thorough() {
			break
		}
		if !product(same(2, 16), func(ix []int) bool {
			jx := make([]int, 16)
			for i := range ix {
				jx[i] = ix[i] * kind
			}
			return emit(hard, 4, jx, 0, eNone)
		}) {
			return false
		}
	}
	return true
}

func aliasDocs(ch *vlib.Check, yield func(doc) bool) bool {
	single := []string{"", "a", "b", "c", "x", "y", "a:x"}
	var lists [][]string
	pool := []string{"a", "b", "c", "x", "y"}
	lists = append(lists, nil)
	for i := range pool {
		lists = append(lists, []string{pool[i]})
		for j := i + 1; j < len(pool); j++ {
			lists = append(lists, []string{pool[i], pool[j]})
		}
	}
	has := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	n3 := 1
	if ch.Thorough() {
		n3 = len(single)
	}
	return product([]int{len(single), len(lists), len(single), len(lists), n3, 2}, func(ix []int) bool {
		if has(lists[ix[1]], single[ix[0]]) || has(lists[ix[3]], single[ix[2]]) {
			return true
		}
		f := &spec.File{Tasks: []*spec.Task{
			{Name: "a", Alias: single[ix[0]], Aliases: lists[ix[1]], Run: []*spec.Item{spec.Mark("a")}},
			{Name: "b", Alias: single[ix[2]], Aliases: lists[ix[3]], Run: []*spec.Item{spec.Mark("b")}},
			{Name: "c", Alias: single[(ix[4]*3+4)%len(single)], Run: []*spec.Item{spec.Mark("c")}},
		}}
		if ix[5] == 1 {
			// a dependency on an alias is a dependency on something that is no task
			f.Tasks[2].Deps = []string{"x"}
		}
		return yield(doc{key: fmt.Sprintf("aliases %v", ix), files: map[string]string{"Babfile": f.YAML()}, x: graph17{flat: f.Tasks, file: f}})
	})
}

// flatten puts the tasks of a set of files under their full names; bad means an
// include cycle or a missing file.
func flatten(files map[string]*spec.File, name string, open []string) (out []*spec.Task, bad bool) {
	f := files[name]
	if f == nil {
		return nil, true
	}
	for _, o := range open {
		if o == name {
			return nil, true
		}
	}
	open = append(append([]string(nil), open...), name)
	out = append(out, f.Tasks...)
	for _, inc := range f.Includes {
		ns := inc[0] + ":"
		sub, b := flatten(files, filepath.Clean(inc[1]), open)
		bad = bad || b
		for _, t := range sub {
			n := &spec.Task{Name: ns + t.Name}
			if t.Alias != "" {
				n.Alias = ns + t.Alias
			}
			for _, a := range t.Aliases {
				n.Aliases = append(n.Aliases, ns+a)
			}
			for _, to := range targets(t) {
				n.Deps = append(n.Deps, ns+to)
			}
			out = append(out, n)
		}
	}
	return out, bad
}

func includeFiles(n int, incl []int, missing int) map[string]*spec.File {
	files := map[string]*spec.File{}
	name := func(i int) string {
		if i == 0 {
			return "Babfile"
		}
		return fmt.Sprintf("f%d.yml", i)
	}
	for i := range n {
		f := &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Mark(fmt.Sprint(i))}}}}
		for j := range n {
			if incl[i*n+j] == 1 {
				f.Includes = append(f.Includes, [2]string{fmt.Sprintf("n%d", j), name(j)})
			}
		}
		if missing == i {
			f.Includes = append(f.Includes, [2]string{"nx", "gone.yml"})
		}
		files[name(i)] = f
	}
	return files
}

func includeDoc(key string, files map[string]*spec.File) doc {
	flat, bad := flatten(files, "Babfile", nil)
	text := map[string]string{}
	for n, f := range files {
		text[n] = f.YAML()
	}
	return doc{key: key, files: text, x: graph17{flat: flat, incBad: bad, file: files["Babfile"]}}
}

func includeDocs(ch *vlib.Check, yield func(doc) bool) bool {
	// every include graph of three files, with a missing file anywhere
	if !product(same(2, 9), func(ix []int) bool {
		for miss := -1; miss < 3; miss++ {
			if !yield(includeDoc(fmt.Sprintf("includes %v missing %d", ix, miss), includeFiles(3, ix, miss))) {
				return false
			}
		}
		return true
	}) {
		return false
	}
	// four files
	if !product(same(2, 16), func(ix []int) bool {
		if !ch.Thorough() && (ix[0]+ix[5]+ix[10]+ix[15] > 0 || ix[4]+ix[8]+ix[12] > 1) {
			return true
		}
		return yield(includeDoc(fmt.Sprintf("includes4 %v", ix), includeFiles(4, ix, -1)))
	}) {
		return false
	}
	// references across, inside included files, collisions and aliases
	refs := []string{"", "t", "u", "n1:t", "n2:t", "n1:n2:t", "n1:u", "n1:zz", "n1"}
	inner := []string{"", "u", "n2:t", "zz", "n2:u"}
	extra := []string{"", "n1:t", "n1:u", "n1", "n1:n2:t", "n1:n2"}
	aliases := []string{"", "n1:u", "n1:x", "x", "n1:n2:x"}
	shapes := [][]int{{0, 1, 0, 0, 0, 0, 0, 0, 0}, {0, 1, 1, 0, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 1, 0, 0, 0}, {0, 1, 1, 0, 0, 1, 0, 0, 0}}
	return product([]int{len(shapes), len(refs), 4, len(inner), 4, len(extra), len(aliases), 3}, func(ix []int) bool {
		if ix[1] == 0 && ix[2] > 0 || ix[3] == 0 && ix[4] > 0 {
			return true
		}
		files := includeFiles(3, shapes[ix[0]], -1)
		root, f1, f2 := files["Babfile"], files["f1.yml"], files["f2.yml"]
		root.Tasks[0].Name = "r"
		if refs[ix[1]] != "" {
			edges(root.Tasks[0], refs[ix[1]], 1+ix[2])
		}
		if inner[ix[3]] != "" {
			edges(f1.Tasks[0], inner[ix[3]], 1+ix[4])
		}
		f1.Tasks = append(f1.Tasks, &spec.Task{Name: "u", Run: []*spec.Item{spec.Log("u")}})
		if extra[ix[5]] != "" {
			root.Tasks = append(root.Tasks, &spec.Task{Name: extra[ix[5]], Run: []*spec.Item{spec.Log("e")}})
		}
		root.Tasks[0].Alias = aliases[ix[6]]
		switch ix[7] {
		case 1:
			f1.Tasks[0].Alias = "x"
			f2.Tasks[0].Aliases = []string{"x", "u"}
		case 2:
			f1.Tasks[0].Aliases = []string{"n2:x", "n2:t"}
		}
		// A name an included file lacks but its includer happens to define is left open.
		sub, bad := flatten(files, "f1.yml", nil)
		if d, _, _ := verdict(sub); !bad && len(d) > 0 && extra[ix[5]] != "" {
			return true
		}
		return yield(includeDoc(fmt.Sprintf("across %v", ix), files))
	})
}

func p17(ch *vlib.Check) {
	ch.Rule("all graphs of 2 and 3 tasks over {dependency, reference, reference in a parallel block, reference that never runs} with a dangling edge anywhere and of 4 tasks with one kind of edge; all alias assignments over three tasks; all include graphs of 3 files (4 within bounds) with a missing file, references across, collisions and aliases; chains, cycles, fans, aliases and rows of files of any size; in both declaration orders, through the parser in process; a subset through every command of the binary. Non-trivial: every case")
	each(ch, func(yield func(doc) bool) {
		_ = graphDocs(ch, yield) && aliasDocs(ch, yield) && includeDocs(ch, yield) && sizeDocs17(ch, yield)
	}, judge17)

	// The same through the binary.
	gen := func(yield func(*bb.Case) bool) {
		n := 0
		stride := map[string]int{"graph": 97, "aliases": 301, "includes": 67, "includes4": 997, "across": 331}
		if ch.Thorough() {
			stride = map[string]int{"graph": 29, "aliases": 97, "includes": 11, "includes4": 199, "across": 31}
		}
		take := func(d doc) bool {
			n++
			kind, _, _ := strings.Cut(d.key, " ")
			two := strings.HasPrefix(d.key, "graph [a b] ")
			if !two && n%stride[kind] != 0 || two && !ch.Thorough() && n%5 != 0 {
				return true
			}
			g := d.x.(graph17)
			dangling, cyclic, ambiguous := verdict(g.flat)
			reject := g.incBad || len(dangling) > 0 || cyclic || ambiguous
			args := [][]string{{"--validate"}, {"--list"}}
			if reject {
				for _, t := range g.file.Tasks {
					args = append(args, []string{t.Name}, []string{"-n", t.Name})
				}
				args = append(args, []string{"nosuch"}, nil)
			} else {
				for _, t := range g.flat {
					args = append(args, []string{t.Name})
					if t.Alias != "" {
						args = append(args, []string{"-n", t.Alias})
					}
				}
			}
			for _, a := range args {
				if !yield(&bb.Case{Key: d.key + " " + strings.Join(a, " "), Files: d.files, Args: a, Data: reject}) {
					return false
				}
			}
			return true
		}
		// Of the large ones, their size is what matters: one name is enough.
		large := func(d doc) bool {
			n++
			if n%13 != 0 && !ch.Thorough() || n%5 != 0 {
				return true
			}
			g := d.x.(graph17)
			dangling, cyclic, ambiguous := verdict(g.flat)
			reject := g.incBad || len(dangling) > 0 || cyclic || ambiguous
			for _, a := range [][]string{{"--validate"}, {"-n", g.file.Tasks[0].Name}, {g.file.Tasks[len(g.file.Tasks)-1].Name}} {
				if !yield(&bb.Case{Key: d.key + " " + strings.Join(a, " "), Files: d.files, Args: a, Data: reject}) {
					return false
				}
			}
			return true
		}
		_ = graphDocs(ch, take) && aliasDocs(ch, take) && includeDocs(ch, take) && sizeDocs17(ch, large)
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		if g.TimedOut {
			return "bab did not finish"
		}
		reject := c.Data.(bool)
		if reject {
			if g.Exit != 1 || len(g.Log) > 0 || strings.Contains(bb.Plain(g.Stderr), "Running") {
				return fmt.Sprintf("an invalid file: exit %d, ran %q, stderr %s", g.Exit, g.Log, bb.Plain(g.Stderr))
			}
			if !strings.Contains(g.Stderr, "ERRO") && bb.Plain(g.Stderr) == "" {
				return "an invalid file is rejected without a message"
			}
			return ""
		}
		if g.Exit != 0 {
			return fmt.Sprintf("a valid file: exit %d, stderr %s", g.Exit, bb.Plain(g.Stderr))
		}
		return ""
	})
}
