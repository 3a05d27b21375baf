package main

import (
	"fmt"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P13"] = p13 }

func loud(id string) *spec.Item {
	return spec.Cmd("echo OUT-" + id + "; echo ERR-" + id + ` >&2; echo ` + id + ` >>"$BLOG"`)
}

// setting is one level: unset, true or false.
func setting(i int) *bool {
	switch i {
	case 1:
		return spec.B(true)
	case 2:
		return spec.B(false)
	}
	return nil
}

type levels struct {
	file, task, block, ref, item, other [2]int // silent, output
}

type p13shape struct {
	name string
	use  []string // the levels that matter
	mk   func(l levels) *spec.File
}

func setTask(t *spec.Task, v [2]int) *spec.Task {
	t.Silent, t.Output = setting(v[0]), setting(v[1])
	return t
}

func setItem(it *spec.Item, v [2]int) *spec.Item {
	it.Silent, it.Output = setting(v[0]), setting(v[1])
	return it
}

func p13shapes() []p13shape {
	file := func(l levels, ts ...*spec.Task) *spec.File {
		return &spec.File{Silent: setting(l.file[0]), Output: setting(l.file[1]), Tasks: ts}
	}
	return []p13shape{
		{"cmd", []string{"file", "task", "item"}, func(l levels) *spec.File {
			return file(l, setTask(&spec.Task{Name: "t", Run: []*spec.Item{setItem(loud("1"), l.item), loud("2")}}, l.task))
		}},
		{"dep", []string{"file", "task", "item", "other"}, func(l levels) *spec.File {
			return file(l, setTask(&spec.Task{Name: "t", Deps: []string{"d"}, Run: []*spec.Item{loud("2")}}, l.other),
				setTask(&spec.Task{Name: "d", Run: []*spec.Item{setItem(loud("1"), l.item)}}, l.task))
		}},
		{"par", []string{"file", "task", "block", "item"}, func(l levels) *spec.File {
			return file(l, setTask(&spec.Task{Name: "t", Run: []*spec.Item{setItem(spec.Par(setItem(loud("1"), l.item), loud("2")), l.block), loud("3")}}, l.task))
		}},
		{"ref", []string{"file", "task", "ref", "item"}, func(l levels) *spec.File {
			return file(l, &spec.Task{Name: "t", Run: []*spec.Item{setItem(spec.Ref("r"), l.ref), loud("3")}},
				setTask(&spec.Task{Name: "r", Run: []*spec.Item{setItem(loud("1"), l.item), loud("2")}}, l.task))
		}},
		{"parref", []string{"file", "task", "block", "ref", "item"}, func(l levels) *spec.File {
			return file(l, &spec.Task{Name: "t", Run: []*spec.Item{setItem(spec.Par(setItem(spec.Ref("r"), l.ref), loud("2")), l.block)}},
				setTask(&spec.Task{Name: "r", Run: []*spec.Item{setItem(loud("1"), l.item)}}, l.task))
		}},
		{"refpar", []string{"file", "task", "block", "ref", "item"}, func(l levels) *spec.File {
			return file(l, &spec.Task{Name: "t", Run: []*spec.Item{setItem(spec.Ref("r"), l.ref), loud("3")}},
				setTask(&spec.Task{Name: "r", Run: []*spec.Item{setItem(spec.Par(setItem(loud("1"), l.item), loud("2")), l.block)}}, l.task))
		}},
		{"refref", []string{"file", "task", "block", "ref", "item"}, func(l levels) *spec.File {
			return file(l, &spec.Task{Name: "t", Run: []*spec.Item{setItem(spec.Ref("m"), l.block)}},
				&spec.Task{Name: "m", Run: []*spec.Item{setItem(spec.Ref("r"), l.ref)}},
				setTask(&spec.Task{Name: "r", Run: []*spec.Item{setItem(loud("1"), l.item)}}, l.task))
		}},
		{"refother", []string{"task", "ref", "other"}, func(l levels) *spec.File {
			return file(l, setTask(&spec.Task{Name: "t", Run: []*spec.Item{setItem(spec.Ref("r"), l.ref), loud("3")}}, l.other),
				setTask(&spec.Task{Name: "r", Run: []*spec.Item{loud("1")}}, l.task))
		}},
	}
}

func (l *levels) at(name string) *[2]int {
	switch name {
	case "file":
		return &l.file
	case "task":
		return &l.task
	case "block":
		return &l.block
	case "ref":
		return &l.ref
	case "item":
		return &l.item
	}
	return &l.other
}

func lines(s string) []string { return strings.Split(bb.Plain(s), "\n") }

// countLine counts the lines that are text, with or without a label.
func countLine(s, text string) int {
	n := 0
	for _, l := range lines(s) {
		l = strings.TrimSpace(l)
		if l == text || strings.HasPrefix(l, "[") && strings.HasSuffix(l, "] "+text) {
			n++
		}
	}
	return n
}

func judge13(c *bb.Case, g bb.Got) string {
	r, why := same(c, g)
	if why != "" {
		return why
	}
	heads := map[string]int{}
	for _, e := range r.Events {
		if e.Kind == "head" {
			heads[e.Text]++
		}
	}
	for _, e := range r.Events {
		if e.Kind != "run" {
			continue
		}
		id := strings.TrimPrefix(strings.Fields(e.Text)[1], "OUT-")
		id = strings.TrimSuffix(id, ";")
		if n := countLine(g.Stderr, "$ "+e.Text); n != heads[e.Text] {
			return fmt.Sprintf("command %s announced %d times, must be %d", id, n, heads[e.Text])
		}
		if n := countLine(g.Stdout, "$ "+e.Text); n != 0 {
			return "announcement on standard output"
		}
		want := 0
		if e.Show {
			want = 1
		}
		for _, x := range []struct {
			s, text string
			n       int
		}{{g.Stdout, "OUT-" + id, want}, {g.Stderr, "ERR-" + id, want}, {g.Stdout, "ERR-" + id, 0}, {g.Stderr, "OUT-" + id, 0}} {
			if n := countLine(x.s, x.text); n != x.n {
				return fmt.Sprintf("line %s seen %d times, must be %d (stdout %q, stderr %q)", x.text, n, x.n, g.Stdout, bb.Plain(g.Stderr))
			}
		}
	}
	return ""
}

func p13(ch *vlib.Check) {
	ch.Rule("all assignments of {unset, true, false} to silent, and to output, on every level of every shape (command, dependency, parallel block, reference, reference in a block, block behind a reference, nested references), the other setting unset or opposed; raw output of a shown command byte for byte; one setting anywhere in rows, blocks and chains of growing length; output of every length and with every byte. Non-trivial: some level sets it")
	gen := func(yield func(*bb.Case) bool) {
		for _, sh := range p13shapes() {
			n := len(sh.use)
			sizes := make([]int, n)
			for i := range sizes {
				sizes[i] = 3
			}
			for which := range 2 {
				for _, bg := range []int{0, 1, 2} {
					if bg != 0 && n > 4 && !ch.Thorough() {
						continue
					}
					if !product(sizes, func(ix []int) bool {
						var l levels
						sum := 0
						for i, lev := range sh.use {
							(*l.at(lev))[which] = ix[i]
							// the other setting: unset everywhere, the same, or turned round
							(*l.at(lev))[1-which] = []int{0, ix[i], (3 - ix[i]) % 3}[bg]
							sum += ix[i]
						}
						f := sh.mk(l)
						return yield(&bb.Case{Key: fmt.Sprintf("%s %s %v bg%d", sh.name, []string{"silent", "output"}[which], ix, bg), Trivial: sum == 0,
							Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Data: data{f: f, task: "t", line: func(e spec.Event) string {
								fs := strings.Fields(e.Text)
								return strings.TrimSuffix(strings.TrimPrefix(fs[1], "OUT-"), ";")
							}}})
					}) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, judge13)
	wide13(ch)

	// The bytes of a shown command outside parallel blocks.
	raws := []string{"a", "a\\n", "\\n", "\\000\\001\\377", "\\033[31mred\\033[0m", "a\\rb\\n", "a\\r\\n", "\\303\\251\\342\\202\\254", "\\t x  \\n\\n", "\\033]0;title\\007"}
	raw := func(yield func(*bb.Case) bool) {
		for _, r := range raws {
			for _, r2 := range raws {
				for _, silent := range []int{0, 1} {
					it := setItem(spec.Cmd("printf '"+r+"'; printf '"+r2+"' >&2"), [2]int{silent, 0})
					f := &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{it}}}}
					if !yield(&bb.Case{Key: fmt.Sprintf("raw %q %q %d", r, r2, silent), Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Data: [2]string{unprintf(r), unprintf(r2)}}) {
						return
					}
				}
			}
		}
		big := spec.Cmd("i=0; while [ $i -lt 3000 ]; do echo line $i of the output; i=$((i+1)); done")
		f := &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{big}}}}
		var b strings.Builder
		for i := range 3000 {
			fmt.Fprintf(&b, "line %d of the output\n", i)
		}
		yield(&bb.Case{Key: "raw big", Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Data: [2]string{b.String(), ""}})
	}
	bb.Explore(ch, raw, func(c *bb.Case, g bb.Got) string {
		d := c.Data.([2]string)
		if g.Stdout != d[0] {
			return fmt.Sprintf("standard output %q, must be %q", g.Stdout, d[0])
		}
		if !strings.HasSuffix(g.Stderr, d[1]) {
			return fmt.Sprintf("standard error %q must end in %q", g.Stderr, d[1])
		}
		return ""
	})
}

// unprintf reads the escapes of printf(1) used above.
func unprintf(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		switch s[i+1] {
		case 'n':
			b.WriteByte('\n')
			i++
		case 'r':
			b.WriteByte('\r')
			i++
		case 't':
			b.WriteByte('\t')
			i++
		default:
			var v int
			fmt.Sscanf(s[i+1:i+4], "%o", &v)
			b.WriteByte(byte(v))
			i += 3
		}
	}
	return b.String()
}
