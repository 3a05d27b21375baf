package main

import (
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// everywhere has a text in every place a free text may stand.
func everywhere(x string) *spec.File {
	pl := spec.Par(spec.Cmd(x), spec.Log(x))
	pl.Items[0].Label, pl.Items[0].Dir, pl.Items[0].Env = x, x, spec.KV{{"E", x}}
	pl.When = x
	return &spec.File{Vars: spec.KV{{"V", x}}, Env: spec.KV{{"E", x}}, Dir: x,
		Tasks: []*spec.Task{{Name: "t", Desc: x, When: x, Dir: x, Vars: spec.KV{{"V", x}}, Env: spec.KV{{"E", x}}, Run: []*spec.Item{
			{Kind: "cmd", Text: x, Dir: x, When: x, Env: spec.KV{{"E", x}}}, {Kind: "log", Text: x, When: x},
			{Kind: "prompt", Text: "s", PType: "select", Message: x, Options: []string{x, x + "o"}, Default: x},
			{Kind: "prompt", Text: "i", PType: "input", Message: x, Default: x, Placeholder: x},
			{Kind: "prompt", Text: "m", PType: "multiselect", Message: x, Options: []string{x, x + "o"}, Defaults: []string{x}},
			pl,
		}}}}
}

// sizes19 are texts of any length and character, and many of everything.
func sizes19(ch *vlib.Check, yield func(doc) bool) bool {
	forms := []form{{flowAt: 99, step: 2}, {flowAt: 99, step: 2, quote: 2, crlf: true}, {flowAt: 3, step: 4, quote: 1, spread: true}, {flowAt: 99, step: 2, quote: 3}, {flowAt: 0, quote: 2}, {flowAt: 99, step: 2, anchors: 1, comments: true}}
	if ch.Thorough() {
		forms = append(forms, form{flowAt: 99, step: 2, quote: 4}, form{flowAt: 99, step: 1, anchors: 3, compact: true}, form{flowAt: 2, step: 2, order: 1, spread: true, comments: true}, form{flowAt: 99, quote: 3, step: 4, crlf: true, marker: true})
	}
	put := func(key string, f *spec.File) bool {
		n, want := fileNode(f), canonWant(f)
		for i, fm := range forms {
			if !yield(doc{key: fmt.Sprintf("sized %s form %d", key, i), files: map[string]string{"Babfile": fm.text(n)}, x: want}) {
				return false
			}
		}
		return true
	}
	top := 10001
	small := 40
	if ch.Thorough() {
		top, small = 70000, 140
	}
	words := func(n int) string { return strings.TrimSpace(strings.Repeat("word wörd ", n/10+1)[:n/2*2]) }
	for _, n := range lengths(small, top) {
		lines := strings.Repeat("l", n%7+1) + strings.Repeat("\nline of text", n) + "\n"
		for i, x := range []string{strings.Repeat("a", n), strings.Repeat("é", n), "x " + strings.ToValidUTF8(words(n), ""), lines, strings.Repeat(" ", n) + "x", "x" + strings.Repeat("\n", n), strings.Repeat("中", n) + "'\"", "x" + strings.Repeat("\n", n) + "y"} {
			if n > 2100 && i > 1 {
				continue
			}
			if !put(fmt.Sprintf("text %d of %d", i, n), everywhere(x)) {
				return false
			}
		}
		if n > 2100 {
			continue
		}
		// many of each kind
		f := &spec.File{}
		var names, opts []string
		var kv spec.KV
		for i := range n {
			names = append(names, fmt.Sprintf("n%d", i))
			opts = append(opts, fmt.Sprintf("option %d", n-i))
			kv = append(kv, [2]string{fmt.Sprintf("K%d", i), fmt.Sprint(n - i)})
			f.Tasks = append(f.Tasks, &spec.Task{Name: names[i], Desc: fmt.Sprint(i), Run: []*spec.Item{spec.Cmd(fmt.Sprintf("echo %d", i))}})
		}
		if !put(fmt.Sprintf("%d tasks", n), f) {
			return false
		}
		p := &spec.Item{Kind: "parallel"}
		t := &spec.Task{Name: "t", Aliases: names, Vars: kv, Env: kv}
		for i := range n {
			it := spec.Cmd(fmt.Sprintf("echo %d", i))
			switch i % 4 {
			case 1:
				it = spec.Log(fmt.Sprint(i))
				it.Level = []string{"debug", "info", "warn", "error"}[i/4%4]
			case 2:
				it.Env, it.Dir = spec.KV{{"A", fmt.Sprint(i)}}, fmt.Sprint(i)
			case 3:
				it.Silent = spec.B(i%8 == 3)
			}
			t.Run = append(t.Run, it)
			l := *it
			l.Label = fmt.Sprintf("l%d", i)
			p.Items = append(p.Items, &l)
		}
		if !put(fmt.Sprintf("%d items", n), &spec.File{Vars: kv, Env: kv, Tasks: []*spec.Task{t}}) {
			return false
		}
		if n > 1 {
			ms := &spec.Item{Kind: "prompt", Text: "m", PType: "multiselect", Message: "m", Options: opts, Defaults: opts[:n/2]}
			p.Limit = n
			b := &spec.Task{Name: "t", Run: []*spec.Item{p, ms}, Deps: names}
			f2 := &spec.File{Tasks: append([]*spec.Task{b}, f.Tasks...)}
			if !put(fmt.Sprintf("%d parallel items, options and dependencies", n), f2) {
				return false
			}
		}
	}
	// Numbers.
	for _, n := range []int{0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1} {
		num := &spec.Item{Kind: "prompt", Text: "n", PType: "number", Message: "m", Min: spec.I(-n), Max: spec.I(n)}
		items := []*spec.Item{num}
		if n > 0 && n < 1<<31 {
			p := spec.Par(spec.Cmd("echo a"), spec.Cmd("echo b"))
			p.Limit = n
			items = append(items, p)
		}
		if !put(fmt.Sprintf("number %d", n), &spec.File{Tasks: []*spec.Task{{Name: "t", Run: items}}}) {
			return false
		}
	}
	// Every character, alone and inside.
	forms = forms[:5]
	step := rune(1)
	for r := rune(1); r <= utf8.MaxRune; r += step {
		switch {
		case r >= 0xd800 && r < 0xe000:
			continue
		case r > 0x3100 && !ch.Thorough():
			step = 97
		case r > 0x10000:
			step = 997
		}
		c := string(r)
		x := "a" + c + "b"
		if r < 0x250 || r > 0x2000 && r < 0x2100 || r > 0xfe00 && r < 0x10000 || ch.Thorough() {
			if !put(fmt.Sprintf("character %U", r), everywhere(x)) {
				return false
			}
			continue
		}
		if !put(fmt.Sprintf("character %U", r), &spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{spec.Cmd(x), spec.Log(c)}}}}) {
			return false
		}
	}
	return true
}

// encodings19 writes a file in other spellings YAML has for the same data.
func encodings19(ch *vlib.Check, yield func(doc) bool) bool {
	u16 := func(s string, big, bom bool) string {
		var b strings.Builder
		us := utf16.Encode([]rune(s))
		if bom {
			us = append([]uint16{0xfeff}, us...)
		}
		for _, u := range us {
			if big {
				b.WriteByte(byte(u >> 8))
			}
			b.WriteByte(byte(u))
			if !big {
				b.WriteByte(byte(u >> 8))
			}
		}
		return b.String()
	}
	codes := []struct {
		name string
		f    func(string) string
	}{
		{"BOM", func(s string) string { return "\ufeff" + s }},
		{"UTF-16LE", func(s string) string { return u16(s, false, true) }},
		{"UTF-16BE", func(s string) string { return u16(s, true, true) }},
		{"CR", func(s string) string { return strings.ReplaceAll(s, "\n", "\r") }},
		{"no final newline", func(s string) string { return strings.TrimRight(s, "\n") }},
		{"leading blank lines", func(s string) string { return "\n\n   \n" + s }},
		{"leading comment", func(s string) string { return "#!/usr/bin/env bab\n# é\n" + s }},
		{"trailing blanks", func(s string) string { return s + "\n  \n\n# end\n   # end" }},
		{"directive", func(s string) string { return "%YAML 1.1\n---\n" + s }},
		{"tag directive", func(s string) string { return "%TAG ! tag:x,2000:\n---\n" + s }},
		{"end marker", func(s string) string { return "---\n" + s + "...\n" }},
		{"long comment", func(s string) string { return "# " + strings.Repeat("c", 1<<17) + "\n" + s }},
		{"many comments", func(s string) string { return strings.Repeat("# c\n\n", 5000) + s }},
	}
	for fi, f := range files19() {
		n, want := fileNode(f), canonWant(f)
		for i, fm := range []form{{flowAt: 99, step: 2}, {flowAt: 99, step: 2, quote: 2}, {flowAt: 0, quote: 2}, {flowAt: 3, step: 4, quote: 1, comments: true, spread: true}} {
			text := fm.text(n)
			for _, c := range codes {
				if c.name == "CR" && (strings.ContainsAny(text, "|>") || fm.quote == 0) {
					continue
				}
				if !yield(doc{key: fmt.Sprintf("file %d form %d as %s", fi, i, c.name), files: map[string]string{"Babfile": c.f(text), "inc.yml": c.f("tasks:\n  i:\n    run:\n      - cmd: echo\n")}, x: want}) {
					return false
				}
			}
		}
	}
	// Explicit tags and keys, other spellings of numbers and booleans.
	lim := func(n int) string {
		p := spec.Par(spec.Cmd("a"), spec.Cmd("b"))
		p.Limit, p.Color = n, spec.B(true)
		return canonWant(&spec.File{Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{p}}}})
	}
	for _, v := range []struct {
		text string
		n    int
	}{{"3", 3}, {"!!int 3", 3}, {"!!int \"3\"", 3}, {"0x1F", 31}, {"0o17", 15}, {"+4", 4}, {"&n 5", 5}, {"3 # three", 3}, {"\n          3", 3}} {
		for _, b := range []string{"true", "True", "TRUE", "!!bool true", "!!bool \"true\"", "&b true", "true # yes", "\n          true"} {
			for k := range 3 {
				s := fmt.Sprintf("tasks:\n  t:\n    run:\n      - parallel: [{cmd: a}, {cmd: b}]\n        limit: %s\n        color: %s\n", v.text, b)
				switch k {
				case 1:
					s = fmt.Sprintf("!!map\n? !!str tasks\n: ? \"t\"\n  : ? run\n    : !!seq\n      - ? parallel\n        : - !!map {!!str cmd: !!str a}\n          - ? cmd\n            : b\n        ? limit\n        : %s\n        ? color\n        : %s\n", v.text, b)
				case 2:
					s = fmt.Sprintf("x: [&k limit, &l color, &m {cmd: a}]\ntasks: &t\n  &o t: &p\n    &q run: &r\n      - &s parallel: &u [*m, {cmd: b}]\n        *k : %s\n        *l : %s\n", v.text, b)
				}
				if !yield(doc{key: fmt.Sprintf("spelling %d %q %q", k, v.text, b), files: map[string]string{"Babfile": s}, x: lim(v.n)}) {
					return false
				}
			}
		}
	}
	return true
}
