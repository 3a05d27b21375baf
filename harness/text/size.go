package main

import (
	"fmt"
	"os"
	"slices"
	"strings"
	"unicode"

	"github.com/bab-sh/bab/internal/condition"
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// sizes are the lengths that are tried of everything that can be long: all
// small ones, and those next to powers of two and ten.
func sizes(upTo int) []int {
	var out []int
	for n := 0; n <= min(upTo, 70); n++ {
		out = append(out, n)
	}
	for _, p := range []int{100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 1 << 20} {
		for d := -1; d <= 1; d++ {
			if p+d <= upTo {
				out = append(out, p+d)
			}
		}
	}
	return out
}

// runes are all characters one may meet in a text, without the halves of
// surrogate pairs.
func runes(thorough bool) []rune {
	var out []rune
	top := rune(0x2fff)
	if thorough {
		top = unicode.MaxRune
	}
	for r := rune(1); r <= top; r++ {
		if r < 0xd800 || r > 0xdfff {
			out = append(out, r)
		}
	}
	if !thorough {
		out = append(out, 0x3000, 0xa000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff)
	}
	return out
}

// sizes09 varies the length of each part of a string, and each character.
func sizes09(ch *vlib.Check) {
	env := os.Getenv
	for _, n := range sizes(1 << 17) {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return
		}
		pad := strings.Repeat("x", n)
		check09(ch, pad+"${{ a }}"+pad, env)
		check09(ch, pad+"$${{ a }}"+pad, env)
		check09(ch, "${{"+strings.Repeat(" ", n)+"a"+strings.Repeat("\t", n)+"}}", env)
		check09(ch, strings.Repeat("$", n)+"{{ a }}", env)
		check09(ch, strings.Repeat("${{ a }}", min(n, 5000)), env)
		check09(ch, strings.Repeat("${{ bb }}-", min(n, 5000)), env)
		check09(ch, strings.Repeat("$${{ a }}", min(n, 5000)), env)
		check09(ch, strings.Repeat("${{ a }}", min(n, 5000))+"${{ u }}", env)
		// A long name and a long value.
		name := "a" + strings.Repeat("b", n)
		vars := map[string]string{name: "A", "a": pad + "${{ a }}" + pad}
		for _, s := range []string{"${{ " + name + " }}", "<${{ a }}|${{a}}>"} {
			want, _ := spec.Interp(s, vars, env)
			got, err := interpolate.Interpolate(s, interpolate.NewContextWithLocation(vars, "Babfile", 7))
			ch.Eval(fmt.Sprint("long ", n, s[:5]))
			if err != nil || got != want {
				ch.Violation(fmt.Sprintf("a name or value of %d bytes", n), map[string]any{"got": got, "error": fmt.Sprint(err), "must_be": want})
			}
		}
	}
	// Each character next to, and in the name of, a reference.
	for _, r := range runes(ch.Thorough()) {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return
		}
		c := string(r)
		for _, s := range []string{c + "${{ a }}" + c, "${{" + c + "a }}", "${{ a" + c + "}}", c + "$${{ a }}", "$" + c + "{{ a }}", "${{ a }" + c + "}", "${" + c + "{ a }}"} {
			check09(ch, s, env)
		}
	}
}

// sizes10 resolves chains and cycles of any length, in both directions.
func sizes10(ch *vlib.Check) {
	name := func(i int) string { return fmt.Sprintf("v%04d", i) }
	for _, n := range sizes(2049) {
		if n == 0 {
			continue
		}
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return
		}
		for _, down := range []bool{false, true} {
			at := func(i int) string {
				if down {
					return name(n - 1 - i)
				}
				return name(i)
			}
			own := map[string]string{}
			for i := range n {
				own[at(i)] = fmt.Sprintf("%d.${{ %s }}", i%10, at(i+1))
				if i == n-1 {
					own[at(i)] = "end"
				}
			}
			if n < 1100 {
				resolveOne10(ch, own, nil)
			}
			ch.Eval(fmt.Sprint("chain ", n, down))
			// The same with the end in the parent scope, missing, or at the start.
			own[at(n-1)] = "${{ p }}"
			resolveOne10(ch, own, map[string]string{"p": "P${{ q }}"})
			resolveOne10(ch, own, nil)
			own[at(n-1)] = "${{ " + at(0) + " }}"
			resolveOne10(ch, own, nil)
		}
		// Many values of which each refers to one.
		own := map[string]string{"base": "B"}
		for i := range n {
			own[name(i)] = "${{ base }}" + name(i)
		}
		all := ""
		for i := range min(n, 300) {
			all += "${{ " + name(i) + " }}"
		}
		own["all"] = all
		resolveOne10(ch, own, nil)
		ch.Eval(fmt.Sprint("star ", n))
	}
	// Through the binary, on the level of the file and of the task.
	gen := func(yield func(*bb.Case) bool) {
		for _, n := range []int{1, 2, 3, 5, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 256, 257} {
			for _, down := range []bool{false, true} {
				for _, level := range []string{"file", "task", "both"} {
					var kv spec.KV
					for i := range n {
						v := fmt.Sprintf("%d.${{ %s }}", i%10, name(i+1))
						if i == n-1 {
							v = "end"
						}
						kv = append(kv, [2]string{name(i), v})
					}
					if down {
						slices.Reverse(kv)
					}
					f, t := &spec.File{}, &spec.Task{Name: "t"}
					switch level {
					case "file":
						f.Vars = kv
					case "task":
						t.Vars = kv
					case "both":
						f.Vars, t.Vars = kv[:n/2], kv[n/2:]
						if !down {
							f.Vars, t.Vars = t.Vars, f.Vars
						}
					}
					want := ""
					for i := range n - 1 {
						want += fmt.Sprintf("%d.", i%10)
					}
					t.Run = []*spec.Item{spec.Cmd(`printf '%s\n' "${{ ` + name(0) + ` }}" >>"$BLOG"`)}
					f.Tasks = []*spec.Task{t}
					if !yield(&bb.Case{Key: fmt.Sprintf("chain of %d in the %s, down %v", n, level, down), Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Data: want + "end"}) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		if want := c.Data.(string); g.Exit != 0 || strings.Join(g.Log, "\n") != want {
			return fmt.Sprintf("exit %d, the command saw %q, must be %q: %s", g.Exit, g.Log, want, bb.Plain(g.Stderr))
		}
		return ""
	})
}

// sizes14 has values of any length, every character, and every spelling.
func sizes14(ch *vlib.Check) {
	one := func(text, value string, want bool) {
		got, err := condition.Evaluate(text, interpolate.NewContext(map[string]string{"v": value, "w": value}))
		key := fmt.Sprintf("%q v=%.40q(%d)", text, value, len(value))
		ch.Eval(key)
		if err != nil || got.ShouldRun != want {
			ch.Violation(key, map[string]any{"condition": text, "value": value, "got": got, "error": fmt.Sprint(err), "must_be": want})
		}
	}
	all := func(v string, truthy bool) {
		one("${{ v }}", v, truthy)
		for _, q := range []string{"'", `"`} {
			one("${{ v }} == "+q+"${{ w }}"+q, v, true)
			one("${{ v }} != "+q+"${{ w }}"+q, v, false)
			one("${{ v }} == "+q+"${{ w }}."+q, v, false)
			one("${{ v }}. != "+q+"${{ w }}"+q, v, true)
			one("${{ v }} == "+q+q, v, v == "")
			if !strings.ContainsAny(v, "'\"$") {
				one("${{ v }} == "+q+v+q, v, true)
				one("${{ v }} != "+q+v+q, v, false)
				one("${{ v }} == "+q+v+v+q, v, v == "")
			}
		}
	}
	for _, r := range runes(ch.Thorough()) {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return
		}
		if unicode.IsSpace(r) && r > 0x7f {
			continue // whether these are blank is not said
		}
		all(string(r), !unicode.IsSpace(r))
		all("x"+string(r)+"x", true)
		one("${{ v }} == 'X'", "x"+string(r), false)
		one("${{ v }} == 'x'", "x"+string(r), false)
		one("${{ v }} == 'x'", string(r)+"x", false)
	}
	for m := range 32 {
		w := []byte("false")
		for i := range w {
			if m>>i&1 == 1 {
				w[i] -= 32
			}
		}
		v := string(w)
		all(v, false)
		one(v, "", false)
		one("${{ v }}", " "+v+"\n", false)
		one("${{ v }} == 'false'", v, m == 0)
		one("${{ v }}${{ v }}", v, true)
		one("not "+v, v, true)
		one(v+" ${{ v }}", v, true)
	}
	for _, n := range sizes(1 << 17) {
		if n == 0 {
			continue
		}
		all(strings.Repeat("x", n), true)
		all(strings.Repeat("x", n-1)+"'", true)
		all(strings.Repeat("ab\n", n/3)+"c", true)
		all(strings.Repeat(" ", n), false)
		one("${{ v }} == '"+strings.Repeat("x", n)+"'", strings.Repeat("x", n-1)+"y", false)
		one("${{ v }} == '"+strings.Repeat("x", n)+"'", strings.Repeat("x", n+1), false)
		one("${{ v }} != '"+strings.Repeat("x", n)+"'", "y"+strings.Repeat("x", n-1), true)
		one(strings.Repeat(" ", n)+"${{ v }} == 'x'", "x", true)
		one("${{ v }}"+strings.Repeat(" ", n)+"=="+strings.Repeat(" ", n)+"'x'", "x", true)
		one(strings.Repeat("${{ v }}", min(n, 3000))+" == '"+strings.Repeat("x", min(n, 3000))+"'", "x", true)
	}
}
