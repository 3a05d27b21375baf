package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// sizes are the lengths that are tried of everything that can be long: all
// small ones, and those next to powers of two and ten.
func sizes(small, upTo int) []int {
	var out []int
	for n := 0; n <= small; n++ {
		out = append(out, n)
	}
	for _, p := range []int{64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 1 << 20} {
		for d := -1; d <= 1; d++ {
			if p+d <= upTo && p+d > small {
				out = append(out, p+d)
			}
		}
	}
	return out
}

// all calls f for each of the n first numbers on all processors.
func all(ch *vlib.Check, n int, f func(i int) bool) {
	var wg sync.WaitGroup
	var next atomic.Int64
	for range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if ch.Enough() || ch.Expired() || !f(i) {
					ch.NotExhaustive()
					return
				}
			}
		}()
	}
	wg.Wait()
}

func short(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q… (%d bytes) …%q", s[:100], len(s), s[len(s)-100:])
	}
	return fmt.Sprintf("%q", s)
}

// sizes05 writes long lines and many lines in blocks of several sizes.
func sizes05(ch *vlib.Check, fail func(key, why string) bool) {
	pre := prefixOf("it", 4)
	ns := sizes(40, 1<<17)
	all(ch, len(ns), func(i int) bool {
		n := ns[i]
		texts := map[string]string{
			"a line":             strings.Repeat("x", n) + "\n",
			"an open line":       "a\n" + strings.Repeat("x", n),
			"a line of wide":     strings.Repeat("日", n/3) + "\r\n",
			"a line of colours":  strings.Repeat("\x1b[31ma\x1b[0m", n/10) + "\nb",
			"lines":              strings.Repeat("x\n", n),
			"empty lines":        strings.Repeat("\n", n) + "x",
			"lines with CR":      strings.Repeat("x\r\n", n),
			"progress":           strings.Repeat("x\r", n) + "done\n",
			"wide progress":      strings.Repeat("50%\r100%\r", n/9) + "\nnext",
			"CR":                 strings.Repeat("\r", n) + "\nx",
			"a line then a line": strings.Repeat("y", n) + "\nshort\n" + strings.Repeat("z", n) + "\n",
		}
		for name, text := range texts {
			want := labelled(pre, linesOf(text, true))
			for _, block := range []int{1, 7, 512, 4096, 32768, len(text)} {
				if block == 0 || len(text)/block > 5000 {
					continue
				}
				var s sink
				var mu sync.Mutex
				pw := newWriter("it", 4, red, &s, &mu, true)
				buf := make([]byte, 0, block)
				for at := 0; at < len(text); at += block {
					// As os/exec does, from one buffer.
					buf = append(buf[:0], text[at:min(at+block, len(text))]...)
					if m, err := pw.Write(buf); m != len(buf) || err != nil {
						return fail(fmt.Sprintf("%s of %d in blocks of %d", name, n, block), fmt.Sprintf("writing returns %d, %v", m, err))
					}
				}
				if err := pw.Flush(); err != nil {
					return fail(fmt.Sprintf("%s of %d in blocks of %d", name, n, block), err.Error())
				}
				ch.Eval(fmt.Sprintf("%s of %d in blocks of %d", name, n, block))
				if got := s.text(); got != want {
					if !fail(fmt.Sprintf("%s of %d in blocks of %d", name, n, block), fmt.Sprintf("becomes %s, must be %s", short(got), short(want))) {
						return false
					}
				}
				for _, c := range s.calls {
					if strings.Count(c, "\n") != 1 || !strings.HasSuffix(c, "\n") {
						return fail(fmt.Sprintf("%s of %d in blocks of %d", name, n, block), fmt.Sprintf("the destination gets %s, not one whole line at a time", short(c)))
					}
				}
			}
		}
		return true
	})

	// Through bab: long and many lines of items that run at the same time, and many items.
	type item struct{ label, out, err string }
	bb.Explore(ch, func(yield func(*bb.Case) bool) {
		put := func(key string, items []item, limit int) bool {
			files := map[string]string{}
			par := &spec.Item{Kind: "parallel", Limit: limit}
			for i, it := range items {
				a, b := fmt.Sprintf("out%d", i), fmt.Sprintf("err%d", i)
				files[a], files[b] = it.out, it.err
				c := spec.Cmd("cat " + a + "; cat " + b + " >&2")
				if i%2 == 1 {
					c = spec.Cmd("cat " + b + " >&2 & cat " + a + "; wait")
				}
				c.Label = it.label
				par.Items = append(par.Items, c)
			}
			f := &spec.File{Silent: spec.B(true), Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{par}}}}
			files["Babfile"] = f.YAML()
			return yield(&bb.Case{Key: key, Files: files, Args: []string{"t"}, Data: items})
		}
		count := func(c string, n int) string {
			var b strings.Builder
			for i := range n {
				fmt.Fprintf(&b, "%s%d\n", c, i)
			}
			return b.String()
		}
		top := 1 << 17
		if ch.Thorough() {
			top = 1 << 20
		}
		for _, n := range sizes(12, top) {
			for _, limit := range []int{0, 1} {
				x := func(c string) string { return strings.Repeat(c, n) }
				if !put(fmt.Sprintf("bab lines of %d, limit %d", n, limit), []item{
					{"one", x("a") + "\nend\n", x("b") + "\n"},
					{"two", "start\n" + x("c"), "start\n" + x("d") + "\nend"},
					{"three", x("e\r") + "f\n", x("é") + "\n"},
				}, limit) {
					return
				}
				m := min(n, 10001)
				if !put(fmt.Sprintf("bab %d lines, limit %d", m, limit), []item{
					{"one", count("a", m), count("b", m)}, {"two", count("c", m) + "open", "x"}, {"three", "y", count("d", m)},
				}, limit) {
					return
				}
			}
		}
		for n := 1; n <= 70; n++ {
			var items []item
			for i := range n {
				items = append(items, item{fmt.Sprintf("i%d", i), count(fmt.Sprintf("o%d-", i), 3), count(fmt.Sprintf("e%d-", i), 2)})
			}
			if !put(fmt.Sprintf("bab %d items", n), items, 0) {
				return
			}
		}
		for _, n := range sizes(40, 300) {
			if n > 0 && !put(fmt.Sprintf("bab labels of %d", n), []item{
				{strings.Repeat("l", n), "a\nb\n", "c\n"}, {"m" + strings.Repeat("é", n-1), "d\n", "e\n"}, {"short", "f\n", "g\n"},
			}, 0) {
				return
			}
		}
	}, func(c *bb.Case, g bb.Got) string {
		items := c.Data.([]item)
		if g.TimedOut {
			return "bab does not end"
		}
		if g.Exit != 0 {
			return fmt.Sprintf("exit %d: %s", g.Exit, short(g.Stderr))
		}
		for si, s := range []string{g.Stdout, g.Stderr} {
			got := map[string][]string{}
			for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
				if l == "" && s == "" {
					continue
				}
				l = bb.Plain(l)
				head, body, ok := strings.Cut(l, "] ")
				if !ok || !strings.HasPrefix(head, "[") {
					return "a line without a label: " + short(l)
				}
				label := strings.TrimSpace(head[1:])
				got[label] = append(got[label], body)
			}
			for _, it := range items {
				text := it.out
				if si == 1 {
					text = it.err
				}
				want := linesOf(text, true)
				if !sameLines(got[it.label], want) {
					have := got[it.label]
					for i := range want {
						if i >= len(have) || have[i] != want[i] {
							h := "nothing"
							if i < len(have) {
								h = short(have[i])
							}
							return fmt.Sprintf("%s: line %d is %s, must be %s (%d lines of %d)", it.label, i, h, short(want[i]), len(have), len(want))
						}
					}
					return fmt.Sprintf("%s: %d lines, must be %d", it.label, len(have), len(want))
				}
				delete(got, it.label)
			}
			for l := range got {
				return "lines with the label " + short(l)
			}
		}
		return ""
	})
}

// sizes06 are long sequences, and every character in every place.
func sizes06(ch *vlib.Check, report func(text string) bool) {
	ns := sizes(70, 1<<16+1)
	var n atomic.Int64
	one := func(t string) bool {
		if t == "" {
			return true
		}
		n.Add(1)
		return report(t)
	}
	all(ch, len(ns), func(i int) bool {
		k := ns[i]
		x := strings.Repeat("x", k)
		for _, t := range []string{
			x, strings.Repeat("é", k), strings.Repeat("日", k), strings.Repeat("\t", k), strings.Repeat("\x01", k) + "a", strings.Repeat("\x1b", k), strings.Repeat("\x1b", k) + "[2J",
			"\x1b[" + strings.Repeat("1;", k) + "1mt", "\x1b[" + strings.Repeat("9", k) + "mt", "\x1b[" + strings.Repeat("9", k) + "Jt", "\x1b[" + strings.Repeat("1;", k) + "Ht", "\x1b[" + strings.Repeat(":", k) + "mt", "\x1b[" + strings.Repeat(";", k) + "Jt",
			"\x1b[?" + strings.Repeat("1;", k) + "ht", "\x1b[" + strings.Repeat(" ", k) + "qt", "\x1b[" + strings.Repeat("1;", k),
			"\x1b]0;" + x + "\x07t", "\x1b]0;" + x + "\x1b\\t", "\x1b]52;c;" + x + "\x1b\\t", "\x1bP" + x + "\x1b\\t", "\x1b_" + x + "\x1b\\t", "\x1b]8;;" + x + "\x07link\x1b]8;;\x07",
			"\x1b]0;" + x, "\x1bP" + x, "\x1b_" + x, "\x1b^" + x + "\x1b\\t", "\x1bX" + x + "\x1b\\t", "\x9d" + x + "\x9ct", "\x90" + x + "\x9ct", "\u009d" + x + "\u009ct", "\x9b" + strings.Repeat("1;", k) + "Jt", "\u009b" + strings.Repeat("1;", k) + "mt",
			strings.Repeat("\x1b[31m", k) + "x", strings.Repeat("a\x1b[2K", k) + "b", strings.Repeat("\x1b[1mb\x1b[0m", k), x + "\x1b[2J" + x, x + "\x1b[1m" + x + "\x1b[0m" + x, x + "\x1b]0;t\x07" + x, x + "\u009b2J" + x,
			strings.Repeat("e\u0301", k), "e" + strings.Repeat("\u0301", k), strings.Repeat("👩\u200d", k) + "👩", strings.Repeat("🇨🇿", k), "e" + strings.Repeat("\u0301", k) + "\u009b2J", "👩" + strings.Repeat("\u200d", k) + "\x1b[2J",
		} {
			if !one(t) {
				return false
			}
		}
		return true
	})
	top := rune(0x2fff)
	if ch.Thorough() {
		top = 0x10ffff
	}
	extra := []rune{0x3000, 0xa000, 0xd7ff, 0xe000, 0xfe0f, 0xfeff, 0xfff9, 0xfffd, 0xffff, 0x10000, 0x1f1e6, 0x1f468, 0x1f3fb, 0x1f600, 0xe0001, 0xe0020, 0xe007f, 0x10ffff}
	all(ch, int(top)+len(extra), func(i int) bool {
		r := rune(i)
		if i >= int(top) {
			r = extra[i-int(top)]
		}
		if r == 0 || r == '\n' || r == '\r' || r >= 0xd800 && r <= 0xdfff {
			return true
		}
		c := string(r)
		for _, t := range []string{
			c, "a" + c + "b", c + c, c + "\u0301" + c, "👩" + c + "b", c + "\u200d" + c, c + "\ufe0fb", "\x1b[31m" + c + "\x1b[0m" + c,
			"\x1b" + c, "\x1b" + c + "m", "\x1b[" + c + "mt", "\x1b[1" + c + "mt", "\x1b[1;" + c + "1mt", "\x1b]0;" + c + "\x07t", "\x1b]0;" + c + "\x1b\\t", "\x1bP" + c + "\x1b\\t", "\x1b]" + c + "2J\x1b[2J",
			c + "\u009b2J", c + "\x9b2J", c + "\x1b[2Jt", "a\u009b" + c + "m", c + "\x01" + c, "🇨" + c + "🇿",
		} {
			if !one(t) {
				return false
			}
		}
		return true
	})
	ch.EvalN(n.Load(), nil)
	ch.Count("long_and_rune_texts", n.Load())
}
