package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	tea "charm.land/bubbletea/v2"
	"charm.land/lipgloss/v2"
	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/tui"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P06"] = p06 }

// isSGR is the length of the colour and style sequence at the start of s, or 0.
func isSGR(s string) int {
	if !strings.HasPrefix(s, "\x1b[") {
		return 0
	}
	i := 2
	for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == ';' || s[i] == ':') {
		i++
	}
	if i < len(s) && s[i] == 'm' {
		return i + 1
	}
	return 0
}

// unsafeAt says what in a text could drive a terminal, or "".
func unsafeAt(s string, colour bool) string {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == 0x1b:
			n := isSGR(s[i:])
			if n == 0 || !colour {
				return fmt.Sprintf("an escape sequence at %d", i)
			}
			i += n
			continue
		case c < 0x20 && c != '\t':
			return fmt.Sprintf("the control character %#x at %d", c, i)
		case c < 0x80:
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			if c < 0xa0 {
				return fmt.Sprintf("the 8-bit control character %#x at %d", c, i)
			}
		} else if r >= 0x80 && r < 0xa0 {
			return fmt.Sprintf("the control character %U at %d", r, i)
		}
		i += n
	}
	return ""
}

// expected is what must come of a line that consists of printable text, tabs,
// C0 controls and complete sequences; ok is false for any other line.
func expected(s string, colour bool) (out string, ok bool) {
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		if c == 0x1b {
			if n := isSGR(s[i:]); n > 0 {
				if colour {
					b.WriteString(s[i : i+n])
				}
				i += n
				continue
			}
			n := complete(s[i:])
			if n == 0 {
				return "", false
			}
			i += n
			continue
		}
		if c < 0x20 {
			if c == '\t' {
				b.WriteByte(c)
			}
			i++
			continue
		}
		if c == 0x7f {
			return "", false
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 || r >= 0x80 && r < 0xa0 {
			return "", false
		}
		b.WriteString(s[i : i+n])
		i += n
	}
	return b.String(), true
}

// complete is the length of the complete sequence s starts with, or 0.
func complete(s string) int {
	if len(s) < 2 {
		return 0
	}
	switch c := s[1]; {
	case c == '[':
		i := 2
		if i < len(s) && s[i] >= 0x3c && s[i] <= 0x3f {
			i++
		}
		for i < len(s) && s[i] >= 0x30 && s[i] <= 0x3b {
			i++
		}
		for i < len(s) && s[i] >= 0x20 && s[i] <= 0x2f {
			i++
		}
		if i < len(s) && s[i] >= 0x40 && s[i] <= 0x7e {
			return i + 1
		}
		return 0
	case c == ']' || c == 'P' || c == '_':
		for i := 2; i < len(s); i++ {
			switch {
			case s[i] == 0x07 && c == ']':
				return i + 1
			case s[i] == 0x1b && i+1 < len(s) && s[i+1] == '\\':
				return i + 2
			case s[i] < 0x20 || s[i] > 0x7e:
				return 0
			}
		}
		return 0
	case c >= 0x20 && c <= 0x2f:
		// such a sequence that ends like an introducer exists on no terminal
		if len(s) > 2 && s[2] >= 0x30 && s[2] <= 0x7e && !strings.ContainsRune("[]P_X^", rune(s[2])) {
			return 3
		}
		return 0
	case c == '7' || c == '8' || c == 'c' || c == 'D' || c == 'M' || c == '=':
		return 2
	}
	return 0
}

func letters(l ...string) []string { return l }

var alpha06 = letters("\x1b", "[", "]", "m", "J", "2", ";", "?", ">", " ", "\x07", "\\", "P", "\x9b", "\u009b", "a", "\x01", "\x08", "\t", "\r", "ě", "\xff", "\x9d", "\x7f", "(")

// through is what the writer makes of a text: the lines without the label.
func through(text string, colour bool) string {
	var buf bytes.Buffer
	var mu sync.Mutex
	w := runner.NewPrefixWriter("L", 1, lipgloss.Color("1"), &buf, &mu, !colour)
	_, _ = w.Write([]byte(text))
	_ = w.Flush()
	return buf.String()
}

var prefix06 = strings.TrimSuffix(through("x\n", true), "x\n")

func judge06(text string, colour bool) string {
	out := through(text, colour)
	if !strings.HasSuffix(out, "\n") || !strings.HasPrefix(out, prefix06) {
		return fmt.Sprintf("%q becomes %q, which is not a labelled line", text, out)
	}
	out = strings.TrimSuffix(strings.TrimPrefix(out, prefix06), "\n")
	for i, l := range strings.Split(out, "\n") {
		if i > 0 {
			l = strings.TrimPrefix(l, prefix06)
		}
		if why := unsafeAt(l, colour); why != "" {
			return fmt.Sprintf("%q becomes %q (colour %v), with %s", text, l, colour, why)
		}
	}
	if strings.ContainsAny(text, "\r\n") {
		return ""
	}
	if want, ok := expected(text, colour); ok && want != out {
		return fmt.Sprintf("%q becomes %q (colour %v), must be %q", text, out, colour, want)
	}
	return ""
}

func p06(ch *vlib.Check) {
	ch.Rule("every word up to length N (4 quick, 5 thorough, behind contexts that open a sequence too) over an alphabet of escape, introducers, finals, parameters, terminators, 7-bit and 8-bit controls, wide characters and invalid bytes; every byte, every pair of bytes and every ESC [ with two bytes, sequences of any length and every character in every place, through the line writer with colour on and off, through the writer of the grouped and tabs views, and a part through bab itself. Judged by an independent scanner. Non-trivial: every word")
	depth := 4
	if ch.Thorough() {
		depth = 5
	}
	report := func(text string) bool {
		for _, colour := range []bool{true, false} {
			if why := judge06(text, colour); why != "" {
				if ch.Violation(fmt.Sprintf("text %q", text), map[string]any{"what": why}) {
					fmt.Println("  " + why)
				}
				return !ch.Enough()
			}
		}
		return true
	}
	var n, more atomic.Int64
	ctx := []string{"", "\x1b[", "\x1b[3", "\x1b]0;", "a\x1b", "\u009b1", "\x1bP", "\x1b[31mx\x1b[0m"}
	for i, c := range ctx {
		d := depth
		if i > 0 && !ch.Thorough() {
			d--
		}
		words(ch, len(alpha06), 1, d, func(w []int) bool {
			var b strings.Builder
			b.WriteString(c)
			for _, x := range w {
				b.WriteString(alpha06[x])
			}
			if i == 0 {
				n.Add(1)
			} else {
				more.Add(1)
			}
			return report(b.String())
		})
	}
	var bytesets []string
	for a := range 256 {
		bytesets = append(bytesets, string([]byte{byte(a)}))
		for b := range 256 {
			for _, pre := range []string{"", "x", "\x1b", "\x1b[", "\x1b[1;", "\u009b", "\xc4", "\x1b]"} {
				bytesets = append(bytesets, pre+string([]byte{byte(a), byte(b)}))
				if pre == "\x1b[" {
					bytesets = append(bytesets, pre+string([]byte{byte(a), byte(b)})+"m", pre+string([]byte{byte(a), byte(b)})+"mtext")
				}
			}
		}
	}
	for r := rune(0x80); r < 0x800; r++ {
		bytesets = append(bytesets, "a"+string(r)+"b", "\x1b["+string(r)+"m")
	}
	for _, t := range bytesets {
		more.Add(1)
		if !report(t) || ch.Expired() {
			break
		}
	}
	sizes06(ch, report)
	ch.EvalDistinct(n.Load())
	ch.EvalN(more.Load(), nil)

	// the writer of the grouped and tabs views
	col := &collector{}
	p := tea.NewProgram(col, tea.WithInput(nil), tea.WithOutput(discard{}), tea.WithoutRenderer(), tea.WithoutSignals())
	done := make(chan struct{})
	go func() { _, _ = p.Run(); close(done) }()
	var keyed []string
	for a := range alpha06 {
		for b := range alpha06 {
			for _, pre := range []string{"", "\x1b", "\x1b["} {
				for _, post := range []string{"", "m", "2J", "\x1b[2J"} {
					keyed = append(keyed, pre+alpha06[a]+alpha06[b]+post)
				}
			}
		}
	}
	for i, t := range keyed {
		for c, colour := range []bool{true, false} {
			kw := runner.NewKeyLineWriter(fmt.Sprintf("%d", 2*i+c), p, !colour)
			_, _ = kw.Write([]byte(t))
			kw.Flush()
		}
	}
	p.Send(tui.AllDoneMsg{})
	<-done
	for i, t := range keyed {
		for c, colour := range []bool{true, false} {
			for _, l := range col.lines[fmt.Sprintf("%d", 2*i+c)] {
				why := unsafeAt(l, colour)
				if want, ok := expected(t, colour); why == "" && ok && !strings.ContainsAny(t, "\r\n") && want != l {
					why = fmt.Sprintf("must be %q", want)
				}
				if why != "" && ch.Violation(fmt.Sprintf("view %q", t), map[string]any{"what": why, "line": l}) {
					fmt.Printf("  %q becomes %q: %s\n", t, l, why)
				}
			}
		}
		ch.Eval("view " + t)
	}

	// through bab: the texts of one block in one run
	bb.Explore(ch, func(yield func(*bb.Case) bool) {
		var all []string
		for _, a := range alpha06 {
			for _, b := range alpha06 {
				for _, t := range []string{a + b, "\x1b" + a + b, "\x1b[" + a + b + "m", "\x1b]" + a + b} {
					if !strings.ContainsAny(t, "\n\r") {
						all = append(all, t)
					}
				}
			}
		}
		for i := 0; i < len(all); i += 50 {
			part := all[i:min(i+50, len(all))]
			for _, colour := range []bool{true, false} {
				files := map[string]string{}
				par := spec.Par(spec.Cmd("cat x1; cat x1 >&2"), spec.Cmd("cat x2"))
				par.Items[0].Label, par.Items[1].Label = "one", "two"
				if !colour {
					par.Color = spec.B(false)
				}
				files["x1"], files["x2"] = strings.Join(part, "\n")+"\n", strings.Join(part, "\n")
				f := &spec.File{Silent: spec.B(true), Tasks: []*spec.Task{{Name: "t", Run: []*spec.Item{par}}}}
				files["Babfile"] = f.YAML()
				if !yield(&bb.Case{Key: fmt.Sprintf("bab colour %v texts %d", colour, i), Files: files, Args: []string{"t"}, Data: colour}) {
					return
				}
			}
		}
	}, func(c *bb.Case, g bb.Got) string {
		if g.Exit != 0 || g.TimedOut {
			return fmt.Sprintf("exit %d: %s", g.Exit, g.Stderr)
		}
		texts := strings.Split(strings.TrimSuffix(c.Files["x1"], "\n"), "\n")
		for si, s := range []string{g.Stdout, g.Stderr} {
			at := map[string]int{}
			for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
				i := strings.Index(l, "] ")
				j := strings.Index(l, "]\x1b[m ")
				skip := 2
				if j >= 0 && (i < 0 || j < i) {
					i, skip = j, 5
				}
				if i < 0 {
					return fmt.Sprintf("a line without a label: %q", l)
				}
				label := "two"
				if strings.Contains(l[:i], "one") {
					label = "one"
				}
				n := at[label]
				at[label]++
				if n >= len(texts) {
					return fmt.Sprintf("more lines of %s than it wrote: %q", label, l)
				}
				body := l[i+skip:]
				if why := unsafeAt(body, c.Data.(bool)); why != "" {
					return fmt.Sprintf("%q becomes %q, with %s", texts[n], body, why)
				}
				if want, ok := expected(texts[n], c.Data.(bool)); ok && want != body {
					return fmt.Sprintf("%q becomes %q, must be %q", texts[n], body, want)
				}
			}
			if at["one"] != len(texts) || si == 0 && at["two"] != len(texts) {
				return fmt.Sprintf("%v lines, must be %d of each", at, len(texts))
			}
		}
		return ""
	})
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

type collector struct{ lines map[string][]string }

func (c *collector) Init() tea.Cmd { return nil }
func (c *collector) Update(m tea.Msg) (tea.Model, tea.Cmd) {
	switch m := m.(type) {
	case tui.ItemOutputMsg:
		if c.lines == nil {
			c.lines = map[string][]string{}
		}
		c.lines[m.Key] = append(c.lines[m.Key], m.Line)
	case tui.AllDoneMsg:
		return c, tea.Quit
	}
	return c, nil
}
func (c *collector) View() tea.View { return tea.NewView("") }
