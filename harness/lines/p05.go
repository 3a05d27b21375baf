package main

import (
	"bytes"
	"fmt"
	"image/color"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"charm.land/lipgloss/v2"
	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P05"] = p05 }

// linesOf is the reference: the lines a text stands for.
func linesOf(text string, colour bool) []string {
	if text == "" {
		return nil
	}
	raw := strings.Split(text, "\n")
	if raw[len(raw)-1] == "" {
		raw = raw[:len(raw)-1]
	}
	for i, l := range raw {
		l = strings.TrimRight(l, "\r")
		l = l[strings.LastIndex(l, "\r")+1:]
		if out, ok := expected(l, colour); ok {
			raw[i] = out
		} else {
			raw[i] = l
		}
	}
	return raw
}

func labelled(prefix string, lines []string) string {
	var b strings.Builder
	for _, l := range lines {
		b.WriteString(prefix + l + "\n")
	}
	return b.String()
}

// sink records what is written to it call by call.
type sink struct{ calls []string }

func (s *sink) Write(p []byte) (int, error) {
	s.calls = append(s.calls, string(p))
	return len(p), nil
}

func (s *sink) text() string { return strings.Join(s.calls, "") }

var red = lipgloss.Color("1")

func newWriter(label string, pad int, c color.Color, dest io.Writer, mu *sync.Mutex, colour bool) *runner.PrefixWriter {
	return runner.NewPrefixWriter(label, pad, c, dest, mu, !colour)
}

func prefixOf(label string, pad int) string {
	var s sink
	w := newWriter(label, pad, red, &s, &sync.Mutex{}, true)
	_, _ = w.Write([]byte("x\n"))
	return strings.TrimSuffix(s.text(), "x\n")
}

// chunkings calls f with every way to cut text into pieces.
func chunkings(text string, f func([]string) bool) bool {
	n := len(text)
	if n == 0 {
		return f(nil)
	}
	for mask := 0; mask < 1<<(n-1); mask++ {
		var out []string
		from := 0
		for i := 1; i < n; i++ {
			if mask>>(i-1)&1 == 1 {
				out = append(out, text[from:i])
				from = i
			}
		}
		if !f(append(out, text[from:])) {
			return false
		}
	}
	return true
}

func p05(ch *vlib.Check) {
	ch.Rule("every text up to length N over letters, line feed, carriage return, the bytes of a wide character and of a colour sequence, in every cutting into writes; every pair (and triples) of such items in every order of their writes, at one level and below another item; every order of entry to the shared destination; through bab, items that write pieces in every global order; long lines and many lines in blocks of several sizes, many items and long labels. Judged against the lines of the text. Non-trivial: every text and order")
	fail := func(key, why string) bool {
		if ch.Violation(key, map[string]any{"what": why}) {
			fmt.Println("  " + why)
		}
		return !ch.Enough()
	}
	// One item, every text, every cutting.
	alpha := []string{"a", "b", "\n", "\r", "\xc3", "\xa9", "\x1b[31m", "\x1b[2K"}
	depth := 5
	if ch.Thorough() {
		depth = 7
	}
	pre := prefixOf("it", 4)
	if !strings.Contains(pre, "it") {
		fail("prefix", fmt.Sprintf("the label is missing in %q", pre))
	}
	var cuts, texts atomic.Int64
	words(ch, len(alpha), 0, depth, func(w []int) bool {
		var b strings.Builder
		for _, x := range w {
			b.WriteString(alpha[x])
		}
		text := b.String()
		colour := len(w)%2 == 0
		want := labelled(pre, linesOf(text, colour))
		if strings.Contains(strings.ReplaceAll(text, "\xc3\xa9", ""), "\xc3") || strings.Contains(strings.ReplaceAll(text, "\xc3\xa9", ""), "\xa9") {
			want = labelled(pre, linesOf(text, true)) // invalid text is left as it is
			colour = true
		}
		texts.Add(1)
		one := func(chunks []string) bool {
			cuts.Add(1)
			var s sink
			var mu sync.Mutex
			pw := newWriter("it", 4, red, &s, &mu, colour)
			for _, c := range chunks {
				if n, err := pw.Write([]byte(c)); n != len(c) || err != nil {
					return fail(fmt.Sprintf("write %q", chunks), fmt.Sprintf("writing %q of %q returns %d, %v", c, chunks, n, err))
				}
			}
			if err := pw.Flush(); err != nil {
				return fail(fmt.Sprintf("flush %q", chunks), err.Error())
			}
			if s.text() != want && !invalid(text) || invalid(text) && strings.Count(s.text(), "\n") != strings.Count(want, "\n") {
				return fail(fmt.Sprintf("chunks %q", chunks), fmt.Sprintf("%q becomes %q, must be %q", chunks, s.text(), want))
			}
			return true
		}
		if len(text) > 9 {
			// cut between the letters only, and each letter once inside
			var letters []string
			for _, x := range w {
				letters = append(letters, alpha[x])
			}
			for mask := 0; mask < 1<<(len(letters)-1); mask++ {
				out := []string{letters[0]}
				for i := 1; i < len(letters); i++ {
					if mask>>(i-1)&1 == 1 {
						out = append(out, letters[i])
					} else {
						out[len(out)-1] += letters[i]
					}
				}
				if !one(out) {
					return false
				}
			}
			for i := 1; i < len(text); i++ {
				if !one([]string{text[:i], text[i:]}) {
					return false
				}
			}
			return true
		}
		return chunkings(text, one)
	})
	ch.EvalDistinct(cuts.Load())
	ch.Count("texts", texts.Load())

	p05merges(ch, fail)
	p05entry(ch, fail)
	sizes05(ch, fail)
	p05bab(ch)
}

func invalid(text string) bool {
	t := strings.ReplaceAll(text, "\xc3\xa9", "")
	return strings.ContainsAny(t, "\xc3\xa9") || strings.Contains(t, "\xc3") || strings.Contains(t, "\xa9")
}

// p05merges: items whose writes come in every order.
func p05merges(ch *vlib.Check, fail func(key, why string) bool) {
	scripts := [][]string{
		{"x\n"}, {"x", "\n"}, {"x", "y\nz"}, {"x\ny", "\n"}, {"x\r", "y\n"}, {"x", "y"}, {"\n", "x"}, {"x\r", "\n"}, {"a\nb\nc\n"}, {"\x1b[", "31mx\n"}, {}, {"a", "b", "c\n"},
	}
	labels := []string{"one", "two", "three"}
	n := 3
	run := func(sel []int, nested int) bool {
		counts := make([]int, n)
		for i := range sel {
			counts[i] = len(scripts[sel[i]]) + 1 // and the flush
		}
		var order []int
		ok := true
		var rec func()
		exec := func() {
			var s sink
			var mu, mu2 sync.Mutex
			var dest io.Writer = &s
			outer := prefixOf("outer", 5)
			if nested == 0 {
				outer = ""
			}
			var top *runner.PrefixWriter
			inner := &mu
			if nested > 0 {
				top = newWriter("outer", 5, red, &s, &mu, true)
				dest, inner = top, &mu2
			}
			ws := make([]*runner.PrefixWriter, len(sel))
			at := make([]int, len(sel))
			for i := range sel {
				ws[i] = newWriter(labels[i], 5, red, dest, inner, true)
			}
			for _, i := range order {
				sc := scripts[sel[i]]
				if at[i] < len(sc) {
					_, _ = ws[i].Write([]byte(sc[at[i]]))
				} else {
					_ = ws[i].Flush()
				}
				at[i]++
			}
			if top != nil {
				_ = top.Flush()
			}
			got := map[string][]string{}
			for _, c := range s.calls {
				if !strings.HasSuffix(c, "\n") || strings.Count(c, "\n") != 1 {
					ok = fail(fmt.Sprintf("merge %v %v", sel, order), fmt.Sprintf("the destination gets %q, not one whole line at a time", c))
					return
				}
				hit := false
				for i, l := range labels {
					p := outer + prefixOf(l, 5)
					if strings.HasPrefix(c, p) {
						got[labels[i]] = append(got[labels[i]], strings.TrimSuffix(c[len(p):], "\n"))
						hit = true
						break
					}
				}
				if !hit {
					ok = fail(fmt.Sprintf("merge %v %v", sel, order), fmt.Sprintf("the line %q has no label", c))
					return
				}
			}
			for i := range sel {
				want := linesOf(strings.Join(scripts[sel[i]], ""), true)
				if !sameLines(got[labels[i]], want) {
					ok = fail(fmt.Sprintf("merge %v %v nested %d", sel, order, nested), fmt.Sprintf("item %s wrote %q, the output has %q; order %v", labels[i], scripts[sel[i]], got[labels[i]], order))
					return
				}
			}
		}
		rec = func() {
			if !ok {
				return
			}
			done := true
			for i := range sel {
				if counts[i] > 0 {
					done = false
					counts[i]--
					order = append(order, i)
					rec()
					order = order[:len(order)-1]
					counts[i]++
				}
			}
			if done {
				exec()
				ch.Eval(fmt.Sprintf("merge %v %v %d", sel, order, nested))
			}
		}
		rec()
		return ok
	}
	for a := range scripts {
		for b := range scripts {
			for nested := range 2 {
				n = 2
				if !run([]int{a, b}, nested) {
					return
				}
			}
			if ch.Thorough() || a < 3 && b < 4 {
				for c := range 4 {
					n = 3
					if !run([]int{a, b, c}, 0) {
						return
					}
				}
			}
		}
	}
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// gate is a destination that holds each call until it is let go, so that
// another item gets the chance to come in between.
type gate struct {
	mu   sync.Mutex
	out  bytes.Buffer
	plan []bool // hold the k-th call?
	n    int
	wake chan struct{} // a call came in while another was held
	held bool
}

func (g *gate) Write(p []byte) (int, error) {
	g.mu.Lock()
	k := g.n
	g.n++
	g.out.Write(p)
	hold := k < len(g.plan) && g.plan[k] && !g.held
	if g.held {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
	if hold {
		g.held = true
	}
	g.mu.Unlock()
	if hold {
		select {
		case <-g.wake:
		case <-time.After(2 * time.Millisecond):
		}
		g.mu.Lock()
		g.held = false
		g.mu.Unlock()
	}
	return len(p), nil
}

// p05entry: two items that write at the same time; in turn each call to the
// destination is held back until the other item has come, or cannot.
func p05entry(ch *vlib.Check, fail func(key, why string) bool) {
	for _, nested := range []bool{false, true} {
		for mask := 0; mask < 64; mask++ {
			g := &gate{wake: make(chan struct{}, 1)}
			for k := range 6 {
				g.plan = append(g.plan, mask>>k&1 == 1)
			}
			var mu, mu2 sync.Mutex
			var dest io.Writer = g
			m := &mu
			outer := ""
			if nested {
				dest, m = newWriter("outer", 5, red, g, &mu, true), &mu2
				outer = prefixOf("outer", 5)
			}
			texts := []string{"aa\nbb", "cc\ndd\n"}
			var wg sync.WaitGroup
			for i, l := range []string{"one", "two"} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					w := newWriter(l, 3, red, dest, m, true)
					for _, c := range []string{texts[i][:1], texts[i][1:]} {
						_, _ = w.Write([]byte(c))
					}
					_ = w.Flush()
				}()
			}
			wg.Wait()
			got := map[string][]string{}
			for _, l := range strings.SplitAfter(g.out.String(), "\n") {
				for _, x := range []string{"one", "two"} {
					if p := outer + prefixOf(x, 3); strings.HasPrefix(l, p) {
						got[x] = append(got[x], strings.TrimPrefix(l, p))
						l = ""
					}
				}
				if l != "" {
					if !fail(fmt.Sprintf("entry %v %d", nested, mask), fmt.Sprintf("the output has %q, which is no labelled line: %q", l, g.out.String())) {
						return
					}
					break
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(map[string][]string{"one": {"aa\n", "bb\n"}, "two": {"cc\n", "dd\n"}}) {
				if !fail(fmt.Sprintf("entry lines %v %d", nested, mask), fmt.Sprintf("the lines are %q", got)) {
					return
				}
			}
			ch.Eval(fmt.Sprintf("entry %v %d", nested, mask))
		}
	}
}

// item is the command that the items run: it writes each piece when its number comes up.
// Arguments: directory, then number:stream:text for each piece.
func item(args []string) {
	dir := args[0]
	for _, a := range args[1:] {
		f := strings.SplitN(a, ":", 3)
		for {
			if _, err := os.Stat(filepath.Join(dir, f[0])); err == nil {
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		w := os.Stdout
		if f[1] == "2" {
			w = os.Stderr
		}
		text := strings.NewReplacer(`\n`, "\n", `\r`, "\r").Replace(f[2])
		_, _ = w.WriteString(text)
		var n int
		_, _ = fmt.Sscanf(f[0], "%d", &n)
		_ = os.WriteFile(filepath.Join(dir, fmt.Sprint(n+1)), nil, 0o644)
	}
}

type piece struct{ stream, text string }

// p05bab: the same through bab, with real processes that write in a given order.
func p05bab(ch *vlib.Check) {
	self, _ := os.Executable()
	scripts := [][]piece{
		{{"1", `x`}, {"1", `y\nz`}}, {{"1", `a\n`}, {"2", `e\n`}}, {{"2", `e`}, {"1", `a`}}, {{"1", `p\rq`}, {"1", `\n`}}, {{"1", `\n`}, {"1", `m\nn\n`}},
	}
	bb.Explore(ch, func(yield func(*bb.Case) bool) {
		for a := range scripts {
			for b := range scripts {
				for _, form := range []string{"cmd", "ref", "nested"} {
					for _, order := range []string{"0011", "0101", "0110", "1001", "1010", "1100"} {
						args := make([]string, 2)
						at := [2]int{}
						for k, o := range order {
							i := int(o - '0')
							sc := scripts[[]int{a, b}[i]]
							args[i] += fmt.Sprintf(" '%d:%s:%s'", k, sc[at[i]].stream, sc[at[i]].text)
							at[i]++
						}
						one, two := spec.Cmd(self+` item "$GATE"`+args[0]), spec.Cmd(self+` item "$GATE"`+args[1])
						f := &spec.File{Silent: spec.B(true), Tasks: []*spec.Task{{Name: "t"}}}
						switch form {
						case "cmd":
							one.Label, two.Label = "one", "two"
							f.Tasks[0].Run = []*spec.Item{spec.Par(one, two)}
						case "ref":
							f.Tasks = append(f.Tasks, &spec.Task{Name: "one", Run: []*spec.Item{one}}, &spec.Task{Name: "two", Run: []*spec.Item{two}})
							f.Tasks[0].Run = []*spec.Item{spec.Par(spec.Ref("one"), spec.Ref("two"))}
						case "nested":
							one.Label, two.Label = "one", "two"
							f.Tasks = append(f.Tasks, &spec.Task{Name: "in", Run: []*spec.Item{spec.Par(one, two)}})
							f.Tasks[0].Run = []*spec.Item{spec.Par(spec.Ref("in"), spec.Cmd("echo other"))}
							f.Tasks[0].Run[0].Items[1].Label = "oth"
						}
						if !yield(&bb.Case{Key: fmt.Sprintf("bab %d %d %s %s", a, b, form, order), Files: map[string]string{"Babfile": f.YAML(), "gate/0": ""}, Args: []string{"t"},
							Env: []string{"GATE=gate"}, Data: [2]int{a, b}}) {
							return
						}
					}
				}
			}
		}
	}, func(c *bb.Case, g bb.Got) string {
		if g.Exit != 0 || g.TimedOut {
			return fmt.Sprintf("exit %d: %s", g.Exit, g.Stderr)
		}
		d := c.Data.([2]int)
		for si, out := range []string{g.Stdout, g.Stderr} {
			got := map[string][]string{}
			for _, l := range strings.Split(strings.TrimSuffix(bb.Plain(out), "\n"), "\n") {
				if l == "" {
					continue
				}
				rest, label := l, ""
				for strings.HasPrefix(rest, "[") {
					i := strings.Index(rest, "] ")
					if i < 0 {
						break
					}
					label = strings.TrimSpace(rest[1:i])
					rest = rest[i+2:]
				}
				if label == "in" || label == "" {
					return fmt.Sprintf("the line %q has no label of its own", l)
				}
				got[label] = append(got[label], rest)
			}
			for i, label := range []string{"one", "two"} {
				text := ""
				for _, p := range scripts[d[i]] {
					if p.stream == fmt.Sprint(si+1) {
						text += strings.NewReplacer(`\n`, "\n", `\r`, "\r").Replace(p.text)
					}
				}
				if want := linesOf(text, true); !sameLines(got[label], want) {
					return fmt.Sprintf("item %s wrote %q to stream %d, the output has %q: %q", label, text, si+1, got[label], out)
				}
			}
		}
		return ""
	})
}
