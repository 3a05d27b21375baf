package main

import (
	"fmt"
	"iter"
	"strings"
	"unicode"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// storeEnv shows the answer through the environment, where no shell reads it.
func storeEnv(name, indent string) string {
	return indent + "- cmd: 'printf \"%s\\n\" \"" + name + "=[$A]\" >> $BLOG'\n" + indent + "  env: {A: '${{ " + name + " }}'}\n" + indent + "  silent: true\n"
}

// typed is a text typed faster than bab can show it, pasted one that the
// terminal marks as pasted.
func typed(s string) key { return key{fmt.Sprintf("%d× %.30q", len([]rune(s)), s), s} }
func pasted(s string) key {
	return key{fmt.Sprintf("pasted %d× %.30q", len([]rune(s)), s), "\x1b[200~" + s + "\x1b[201~"}
}

func (k key) text() string {
	return strings.TrimSuffix(strings.TrimPrefix(k.send, "\x1b[200~"), "\x1b[201~")
}

func repeat(k key, n int) (out []key) {
	for range n {
		out = append(out, k)
	}
	return
}

func characters(top rune) (out []string) {
	for c := rune(0x21); c < top; c++ {
		if unicode.IsPrint(c) && c != 0xad {
			out = append(out, string(c))
		}
	}
	return append(out, "日", "語", "é", "ß", "ı", "İ", "😀")
}

// sizes are answers of every length and with every character, lists with many
// options, and limits of every size, on a terminal.
func sizes(ch *vlib.Check, add func(prompt, [][]key, [2]int)) {
	std, small, wide := [2]int{80, 24}, [2]int{60, 9}, [2]int{200, 24}
	lens := []int{1, 2, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 100, 127, 128, 129, 200, 255, 256, 257, 399, 400, 401, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 3000}
	if !ch.Thorough() {
		lens = []int{1, 16, 31, 33, 64, 70, 71, 72, 74, 76, 80, 81, 128, 255, 257, 399, 400, 401, 513, 1025, 3000}
	}
	text := func(n int) string {
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "%d,", i)
		}
		return b.String()[:n]
	}
	for _, n := range lens {
		t := text(n)
		for _, typ := range []string{"input", "password"} {
			add(prompt{typ: typ}, [][]key{{typed(t), enter}, {pasted(t), enter}, {typed(t), bs, enter}, {typed(t), left, char("x"), enter}, {typed(t), ctrlC}}, std)
		}
		if n <= 1025 { // the layout of the library loses the title of longer ones
			add(prompt{typ: "input", def: t}, [][]key{{enter}, {char("x"), enter}, {bs, enter}, {typed(t), enter}}, std)
		}
		add(prompt{typ: "input", validate: fmt.Sprintf("^[0-9,]{%d}$", min(n, 1000))}, [][]key{{typed(t), enter, char("x"), enter, bs, enter}}, std)
		add(prompt{typ: "password", confirm: "true"}, [][]key{{typed(t), enter, typed(t), enter}, {typed(t), enter, typed(t + "x"), enter, bs, enter}}, std)
		if n < 70 {
			add(prompt{typ: "input", placeholder: t}, [][]key{{enter}, {char("x"), bs, enter}}, std)
			add(prompt{typ: "select", opts: []string{t, "x" + t, t + "x"}, def: t}, [][]key{{enter}, {down, enter}, {up, enter}}, wide)
			add(prompt{typ: "multiselect", opts: []string{t, "x" + t, t + "x"}, defs: []string{t + "x"}}, [][]key{{enter}, {up, space, enter}}, wide)
		}
	}
	top := rune(0x7f)
	if ch.Thorough() {
		top = 0x250
	}
	for _, c := range characters(top) {
		add(prompt{typ: "input"}, [][]key{{char("a"), typed(c), enter}, {typed(c + c), left, char("x"), enter}, {pasted(c), enter}}, std)
		add(prompt{typ: "input", def: "a" + c}, [][]key{{enter}, {bs, enter}}, std)
		add(prompt{typ: "password"}, [][]key{{typed("a" + c), enter}}, std)
		add(prompt{typ: "select", opts: []string{"one", c, "b" + c + "b"}, def: c}, [][]key{{enter}, {down, enter}}, std)
		if c != "," {
			add(prompt{typ: "multiselect", opts: []string{"one", c, "b" + c + "b"}, defs: []string{c}}, [][]key{{enter}, {down, space, enter}}, std)
		}
	}
	// Numbers and limits of every size.
	vals := []int{-9999999999, -2147483649, -2147483648, -65536, -1000, -999, -100, -10, -2, -1, 0, 1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 99999, 100000, 2147483647, 2147483648, 4294967296, 9999999999, 9223372036854775807, -9223372036854775808}
	if !ch.Thorough() {
		vals = []int{-2147483649, -1000, -100, -10, -1, 0, 1, 9, 10, 99, 100, 1000, 65536, 2147483647, 2147483648, 9223372036854775807, -9223372036854775808}
	}
	for _, v := range vals {
		t := fmt.Sprint(v)
		add(prompt{typ: "number"}, [][]key{{typed(t), enter}, {typed(t + "0"), enter, bs, enter}}, std)
		add(prompt{typ: "number", def: t}, [][]key{{enter}}, std)
		if v > -9223372036854775808 {
			add(prompt{typ: "number", min: num(v)}, [][]key{{typed(fmt.Sprint(v - 1)), enter}, {typed(t), enter}}, std)
		}
		if v < 9223372036854775807 {
			add(prompt{typ: "number", max: num(v)}, [][]key{{typed(fmt.Sprint(v + 1)), enter}, {typed(t), enter}}, std)
		}
	}
	// Lists with many options.
	ns := []int{2, 3, 5, 8, 9, 10, 11, 12, 16, 17, 20, 21, 25, 33, 64, 65, 100, 101, 130}
	if !ch.Thorough() {
		ns = []int{2, 9, 10, 11, 17, 33, 65, 101}
	}
	for _, n := range ns {
		var opts []string
		for i := range n {
			opts = append(opts, fmt.Sprintf("option-%03d", i))
		}
		for _, size := range [][2]int{std, small} {
			for _, d := range []int{0, n / 2, n - 1} {
				add(prompt{typ: "select", opts: opts, def: opts[d]}, [][]key{{enter}, {up, enter}, {down, enter}, {down, down, enter}, {last, enter}, {last, down, enter}}, size)
				add(prompt{typ: "multiselect", opts: opts, defs: opts[d : d+1]}, [][]key{{enter}, {last, space, up, space, enter}, {down, space, enter}}, size)
			}
			add(prompt{typ: "multiselect", opts: opts, defs: opts}, [][]key{{enter}, {down, space, last, space, enter}}, size)
			for _, lim := range []int{1, n / 2, n - 1, n} {
				add(prompt{typ: "multiselect", opts: opts, defs: opts[:lim], min: num(lim), max: num(lim)}, [][]key{{enter}, {space, enter, space, enter}, {last, space, enter, space, enter}}, size)
			}
		}
		if n <= 33 {
			var walk, mark []key
			for range n - 1 {
				walk = append(walk, down)
				mark = append(mark, space, down)
			}
			add(prompt{typ: "select", opts: opts}, [][]key{append(walk, enter), append(append(walk, down), enter)}, std)
			add(prompt{typ: "multiselect", opts: opts}, [][]key{append(mark, enter), append(append(mark, space), enter)}, std)
		}
	}
	add(prompt{typ: "confirm"}, [][]key{append(repeat(left, 15), enter), append(repeat(right, 30), enter)}, std)
	add(prompt{typ: "input"}, [][]key{append(append(repeat(char("a"), 20), repeat(bs, 22)...), enter), append(append([]key{typed(text(100))}, repeat(left, 30)...), char("x"), enter)}, std)
}

// sizesUnasked are defaults of every length, character and number without a
// terminal.
func sizesUnasked(ch *vlib.Check) {
	var ps []prompt
	add := func(p prompt) {
		p.name, p.message = "v", "Q"
		ps = append(ps, p)
	}
	for _, n := range []int{1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 399, 400, 401, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 60000} {
		t := strings.Repeat("ab", n)[:n]
		add(prompt{typ: "input", def: t})
		add(prompt{typ: "select", opts: []string{"x", t}, def: t})
		add(prompt{typ: "multiselect", opts: []string{t, "x"}, defs: []string{"x", t}})
		add(prompt{typ: "input"})
	}
	for _, n := range []int{1, 2, 3, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 255, 256, 257, 300} {
		var opts []string
		for i := range n {
			opts = append(opts, fmt.Sprintf("o%d", i))
		}
		add(prompt{typ: "select", opts: opts, def: opts[n-1]})
		add(prompt{typ: "multiselect", opts: opts, defs: opts})
		add(prompt{typ: "multiselect", opts: opts, defs: opts[n/2:]})
		add(prompt{typ: "multiselect", opts: opts, defs: opts, min: num(n), max: num(n)})
	}
	for _, c := range characters(0x250) {
		for _, t := range []string{c, "a" + c, c + "b", "a" + c + c + "b"} {
			add(prompt{typ: "input", def: t})
			add(prompt{typ: "select", opts: []string{"x", t}, def: t})
			if c != "," {
				add(prompt{typ: "multiselect", opts: []string{t, "x"}, defs: []string{t}})
			}
		}
	}
	for _, v := range []int{-9999999999, -65536, -1, 0, 1, 9, 10, 99, 100, 2147483647, 2147483648, 9223372036854775807} {
		add(prompt{typ: "number", def: fmt.Sprint(v)})
		add(prompt{typ: "number", def: fmt.Sprint(v), min: num(v), max: num(v)})
	}
	cases := func() iter.Seq[*bb.Case] {
		return func(yield func(*bb.Case) bool) {
			for i, p := range ps {
				answer, ok := p.unasked()
				key := p.key()
				if len(key) > 200 {
					key = fmt.Sprintf("%d: %s… (%d)", i, key[:150], len(key))
				}
				w := plainWant{ok: ok, prompt: "v"}
				if ok {
					w.log = []string{"v=[" + answer + "]"}
				}
				if !yield(&bb.Case{Key: "sized: " + key, Files: map[string]string{"Babfile": "tasks:\n  t:\n    run:\n" + p.yaml("      ") + storeEnv("v", "      ")}, Args: []string{"t"}, Data: w}) {
					return
				}
			}
		}
	}
	bb.Explore(ch, cases(), judgePlain)
}
