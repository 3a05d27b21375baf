package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	tea "charm.land/bubbletea/v2"
	"charm.land/lipgloss/v2"
	"github.com/bab-sh/bab/internal/tui"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
	"github.com/charmbracelet/x/ansi"
)

// item is the reference state of one item.
type item struct {
	key      string
	label    string
	started  bool
	done     bool
	err      error
	lines    []string // since its last nested block began
	children []string
	n        int // lines so far
}

type viewModel struct {
	roots     []string
	items     map[string]*item
	active    int
	w, h      int
	cancelled bool
	cancels   int
	over      bool
	scrolled  bool // a scroll key since the last tab key
	long      bool // a line longer than the window was written
}

// event is one message or key.
type event struct {
	name string
	kind string
	key  string
	k    key

	text   string
	labels []string
}

var errBoom = errors.New("exit status 1")

func (v *viewModel) start(labels []string) {
	v.items = map[string]*item{}
	v.w, v.h = 80, 0
	for i, l := range labels {
		k := itoa(i)
		v.roots = append(v.roots, k)
		v.items[k] = &item{key: k, label: l}
	}
}

// apply changes the reference, or reports that bab never sends this here.
func (v *viewModel) apply(e event) (msgs []tea.Msg, legal bool) {
	it := v.items[e.key]
	child := func(i int) string { return e.key + "." + itoa(i) }
	line := func(s string) {
		it.n++
		if s == "" {
			s = fmt.Sprintf("line %d of %s", it.n, e.key)
		}
		it.lines = append(it.lines, s)
		msgs = append(msgs, tui.ItemOutputMsg{Key: e.key, Line: s})
	}
	if v.over && e.kind != "key" && e.kind != "size" {
		return nil, false
	}
	switch e.kind {
	case "start":
		if it == nil || it.started || it.done {
			return nil, false
		}
		it.started = true
		return []tea.Msg{tui.ItemStartMsg{Key: e.key}}, true
	case "out", "burst", "blank", "wide":
		if it == nil || !it.started || it.done || len(it.children) > 0 {
			return nil, false
		}
		switch e.kind {
		case "out":
			line("")
		case "burst":
			for range 4 {
				line("")
			}
		case "blank":
			line("")
			line(" ")
		case "wide":
			line(strings.Repeat("日本語 text ", 20))
			v.long = true
		}
		return msgs, true
	case "say":
		if it == nil || !it.started || it.done || len(it.children) > 0 {
			return nil, false
		}
		it.n++
		it.lines = append(it.lines, e.text)
		if ansi.StringWidth(e.text) > v.w-2 {
			v.long = true
		}
		return []tea.Msg{tui.ItemOutputMsg{Key: e.key, Line: e.text}}, true
	case "ok", "fail", "stopped":
		if it == nil || it.done || len(it.children) > 0 || !it.started && e.kind != "stopped" {
			return nil, false
		}
		it.done = true
		switch e.kind {
		case "fail":
			it.err = errBoom
		case "stopped":
			it.err = fmt.Errorf("waiting: %w", context.Canceled)
		}
		return []tea.Msg{tui.ItemDoneMsg{Key: e.key, Err: it.err}}, true
	case "nest", "nest as":
		if it == nil || !it.started || it.done || len(it.children) > 0 {
			return nil, false
		}
		it.lines = nil
		labels := e.labels
		if e.kind == "nest" {
			labels = []string{"child-" + child(0), "child-" + child(1)}
		}
		for i, label := range labels {
			ck := child(i)
			it.children = append(it.children, ck)
			v.items[ck] = &item{key: ck, label: label}
			msgs = append(msgs, tui.ItemRegisterMsg{Key: ck, Parent: e.key, Label: label, Color: lipgloss.Color("33")})
		}
		return msgs, true
	case "unnest":
		if it == nil || len(it.children) == 0 {
			return nil, false
		}
		for _, c := range it.children {
			if !v.items[c].done {
				return nil, false
			}
		}
		for _, c := range it.children {
			delete(v.items, c)
		}
		it.children = nil
		msgs = append(msgs, tui.ItemClearChildrenMsg{Key: e.key})
		line("Parallel [summary of " + e.key + "]")
		return msgs, true
	case "all":
		for _, r := range v.roots {
			if !v.items[r].done {
				return nil, false
			}
		}
		v.over = true
		return []tea.Msg{tui.AllDoneMsg{}}, true
	case "size":
		ws := e.k.msg.(tea.WindowSizeMsg)
		v.w, v.h = ws.Width, ws.Height
	case "key":
		switch e.name {
		case "tab":
			v.active = (v.active + 1) % len(v.roots)
			v.scrolled = false
		case "shift+tab":
			v.active = (v.active + len(v.roots) - 1) % len(v.roots)
			v.scrolled = false
		case "ctrl+c":
			v.cancelled = true
		default:
			v.scrolled = true
		}
	}
	return []tea.Msg{e.k.msg}, true
}

func (v *viewModel) status(it *item) string {
	switch {
	case it.done && it.err != nil && errors.Is(it.err, context.Canceled):
		return "⊘"
	case it.done && it.err != nil:
		return "✗"
	case it.done:
		return "✓"
	case v.cancelled:
		return "⊘"
	case !it.started:
		return "∙"
	}
	return "◦"
}

func (v *viewModel) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %dx%d %v %v %v|", v.active, v.w, v.h, v.cancelled, v.over, v.scrolled)
	var rec func(k string)
	rec = func(k string) {
		it := v.items[k]
		fmt.Fprintf(&b, "%s%s%v%v%d%q(", k, v.status(it), it.started, it.done, it.n, it.lines)
		for _, c := range it.children {
			rec(c)
		}
		b.WriteString(")")
	}
	for _, r := range v.roots {
		rec(r)
	}
	return b.String()
}

func lastSolid(lines []string) string {
	for i := len(lines) - 1; i >= 0; i-- {
		if strings.TrimSpace(lines[i]) != "" {
			return lines[i]
		}
	}
	return ""
}

func trimTail(l []string) []string {
	for len(l) > 0 && strings.TrimSpace(l[len(l)-1]) == "" {
		l = l[:len(l)-1]
	}
	return l
}

// grouped compares the grouped view with the reference.
func (v *viewModel) grouped(raw string) string {
	lines := strings.Split(raw, "\n")
	if v.w > 0 {
		for _, l := range lines {
			if ansi.StringWidth(l) > v.w {
				return fmt.Sprintf("a line is wider than the window: %q", plain(l))
			}
		}
	}
	if v.w < 60 {
		return ""
	}
	i := 0
	next := func() string {
		if i >= len(lines) {
			return ""
		}
		i++
		return strings.TrimRight(plain(lines[i-1]), " ")
	}
	for _, r := range v.roots {
		it := v.items[r]
		if got, want := next(), "┌─ "+it.label+" "+v.status(it); got != want {
			return fmt.Sprintf("the title is %q, not %q", got, want)
		}
		var body []string
		for i < len(lines) {
			l := next()
			if l == "└" {
				break
			}
			if !strings.HasPrefix(l, "│") {
				return fmt.Sprintf("the line %q under %s", l, it.label)
			}
			body = append(body, strings.TrimPrefix(strings.TrimPrefix(l, "│"), "  "))
		}
		body = trimTail(body)
		if len(it.children) == 0 {
			want := it.lines
			if len(want) > 5 {
				want = want[len(want)-5:]
			}
			want = trimTail(append([]string{}, want...))
			if len(body) != len(want) {
				return fmt.Sprintf("%s shows %q, not %q", it.label, body, want)
			}
			for j := range want {
				w := strings.TrimRight(want[j], " ")
				if ansi.StringWidth(w) > v.w-3 {
					if body[j] == "" || !strings.HasPrefix(w, strings.TrimRight(body[j], " ")) {
						return fmt.Sprintf("%s shows %q of %q", it.label, body[j], w)
					}
				} else if body[j] != w {
					return fmt.Sprintf("%s shows %q, not %q", it.label, body, want)
				}
			}
			continue
		}
		j := 0
		why := ""
		var rec func(k, indent string)
		rec = func(k, indent string) {
			c := v.items[k]
			if why != "" {
				return
			}
			if j >= len(body) {
				why = c.label + " is not shown"
				return
			}
			head := indent + v.status(c) + " " + c.label
			rest, ok := strings.CutPrefix(body[j], head)
			if !ok {
				why = fmt.Sprintf("the row %q, not %q", body[j], head)
				return
			}
			j++
			last := strings.TrimSpace(lastSolid(c.lines))
			rest = strings.TrimSpace(rest)
			switch {
			case c.done && c.err == nil && rest == "":
			case rest == last:
			case strings.HasSuffix(rest, "…") && strings.HasPrefix(last, strings.TrimSpace(strings.TrimSuffix(rest, "…"))):
			default:
				why = fmt.Sprintf("%s shows %q, not %q", c.label, rest, last)
			}
			for _, g := range c.children {
				rec(g, indent+"  ")
			}
		}
		for _, c := range it.children {
			rec(c, "")
		}
		if why == "" && j < len(body) {
			why = fmt.Sprintf("the row %q under %s", body[j], it.label)
		}
		if why != "" {
			return why
		}
	}
	if i < len(lines) {
		return fmt.Sprintf("more lines: %q", lines[i:])
	}
	return ""
}

// content is what the selected tab has to say, one entry per line.
func (v *viewModel) content() []string {
	it := v.items[v.roots[v.active]]
	if len(it.children) > 0 {
		var out []string
		for _, c := range it.children {
			out = append(out, v.status(v.items[c])+" "+v.items[c].label)
		}
		return out
	}
	return it.lines
}

// tabs compares the tabs view with the reference; it returns the lines shown.
func (v *viewModel) tabs(raw string) (shown []string, why string) {
	lines := strings.Split(plain(raw), "\n")
	if v.w < 60 || v.h < 6 {
		return nil, ""
	}
	if len(lines) < 5 {
		return nil, fmt.Sprintf("%d lines", len(lines))
	}
	// The tabs themselves.
	rest := lines[1]
	for _, r := range v.roots {
		it := v.items[r]
		tab := v.status(it) + " " + it.label
		i := strings.Index(rest, tab)
		if i < 0 || strings.Trim(rest[:i], " │") != "" {
			return nil, fmt.Sprintf("the tabs are %q; %q is missing", lines[1], tab)
		}
		rest = rest[i+len(tab):]
	}
	if strings.Trim(rest, " │") != "" {
		return nil, fmt.Sprintf("the tabs are %q", lines[1])
	}
	// The open one has no line below it.
	cells := strings.Split(strings.Trim(lines[1], " "), "│")
	at := 0
	tabNo := 0
	bottom := []rune(lines[2])
	for _, c := range cells {
		w := ansi.StringWidth(c)
		if strings.TrimSpace(c) != "" {
			open := true
			for x := at; x < at+w && x < len(bottom); x++ {
				if bottom[x] != ' ' {
					open = false
				}
			}
			if open != (tabNo == v.active) {
				return nil, fmt.Sprintf("tab %d open: %v", tabNo, open)
			}
			tabNo++
		}
		at += w + 1
	}
	for _, l := range lines[3 : len(lines)-1] {
		l = strings.TrimSuffix(strings.TrimPrefix(l, "│"), "│")
		shown = append(shown, strings.TrimRight(l, " "))
	}
	if len(lines) > v.h {
		return shown, fmt.Sprintf("%d lines on a window of %d", len(lines), v.h)
	}
	it := v.items[v.roots[v.active]]
	content := v.content()
	if len(content) == 0 {
		want := "Waiting"
		if it.started {
			want = "Running"
		}
		if len(shown) == 0 || !strings.HasPrefix(shown[0], want) {
			return shown, fmt.Sprintf("the empty tab shows %q", shown)
		}
		return nil, ""
	}
	if v.long {
		return shown, ""
	}
	match := func(got, want string) bool {
		want = strings.TrimRight(want, " ")
		if len(it.children) > 0 {
			return strings.HasPrefix(got, want)
		}
		return got == want
	}
	// A window of the content.
	height := v.h - 4
	fits := func(first int) bool {
		for i, s := range shown {
			if first+i >= len(content) {
				if s != "" {
					return false
				}
			} else if !match(s, content[first+i]) {
				return false
			}
		}
		return true
	}
	if len(content) <= height {
		if !fits(0) {
			return shown, fmt.Sprintf("the tab shows %q, not %q", shown, content)
		}
		return shown, ""
	}
	if len(shown) != height {
		return shown, fmt.Sprintf("%d lines are shown in a window of %d", len(shown), height)
	}
	if !v.scrolled {
		if !fits(len(content) - height) {
			return shown, fmt.Sprintf("the tab shows %q, not the end of %q", shown, content)
		}
		return shown, ""
	}
	for f := 0; f+height <= len(content); f++ {
		if fits(f) {
			return shown, ""
		}
	}
	return shown, fmt.Sprintf("the tab shows %q, no part of %q", shown, content)
}

func newView(mode string, labels []string, cancel func()) tea.Model {
	var its []tui.ParallelItem
	for _, l := range labels {
		its = append(its, tui.ParallelItem{Label: l, Color: lipgloss.Color("99")})
	}
	if mode == "tabs" {
		return tui.NewTabsModel(its, cancel)
	}
	return tui.NewGroupedModel(its, cancel)
}

func p25run(ch *vlib.Check) {
	ch.Rule("one case is one sequence of item events, keys and window sizes; the real view models are explored breadth first over the sequences bab can send, and through listed long sequences (many items, lines, nested items and levels, labels and lines of every length and character), and in every state the view is compared with the reference; sequences that end in a state not seen before are expanded; all other sequences are explored for panics; the real bab is driven step by step on a pseudo terminal behind an emulator")
	keysOf := func(ks ...key) (out []event) {
		for _, k := range ks {
			kind := "key"
			if _, ok := k.msg.(tea.WindowSizeMsg); ok {
				kind = "size"
			}
			out = append(out, event{name: k.name, kind: kind, k: k})
		}
		return
	}
	on := func(item string, kinds ...string) (out []event) {
		for _, kd := range kinds {
			out = append(out, event{name: kd + " " + item, kind: kd, key: item})
		}
		return
	}
	all := []event{{name: "all done", kind: "all"}}
	cat := func(l ...[]event) (out []event) {
		for _, x := range l {
			out = append(out, x...)
		}
		return
	}
	flat := cat(on("0", "start", "out", "burst", "ok", "fail", "stopped"), on("1", "start", "out", "blank", "wide", "ok", "fail"), all,
		keysOf(kTab, ctrl('c'), size(80, 24), size(70, 7), size(100, 6)))
	nested := cat(on("0", "start", "out", "nest", "unnest", "ok"), on("0.0", "start", "out", "nest", "unnest", "ok", "fail"), on("0.1", "start", "blank", "ok", "stopped"), on("0.0.0", "start", "out", "ok"), on("0.0.1", "stopped"), on("1", "start", "out", "ok"),
		keysOf(ctrl('c'), size(80, 24), size(30, 9)))
	scroll := cat(on("0", "start", "out", "burst", "nest", "unnest"), on("0.0", "start", "ok"), on("0.1", "stopped"), on("1", "start", "burst"), keysOf(kTab, kSTab, kUp, kDown, kPgUp, kPgDn, size(80, 9), size(80, 6), size(80, 0), size(2, 1), size(0, 0)))
	type setup struct {
		mode   string
		labels []string
		events []event
		name   string
		prefix []event
		depth  int
	}
	pick := func(evs []event, ns ...string) (out []event) {
		for _, n := range ns {
			for _, e := range evs {
				if e.name == n {
					out = append(out, e)
				}
			}
		}
		if len(out) != len(ns) {
			panic(fmt.Sprint("no such event: ", ns))
		}
		return
	}
	extra := 0
	if ch.Thorough() {
		extra = 3
	}
	runs := []setup{
		{"grouped", []string{"one", "two"}, flat, "flat", nil, 6 + extra},
		{"grouped", []string{"one", "two"}, nested, "nested", nil, 7 + extra},
		{"grouped", []string{"one", "two"}, nested, "in a nested block", pick(nested, "start 0", "nest 0", "start 0.0", "nest 0.0"), 6 + extra},
		{"tabs", []string{"one", "two"}, cat(flat, keysOf(kSTab)), "flat", pick(flat, "size 80x24"), 6 + extra},
		{"tabs", []string{"one", "two"}, nested, "nested", pick(nested, "size 80x24"), 7 + extra},
		{"tabs", []string{"one", "two"}, scroll, "scrolling", pick(scroll, "size 80x9"), 6 + extra},
		{"tabs", []string{"one", "two"}, scroll, "scrolling a long tab", pick(scroll, "size 80x9", "start 0", "burst 0", "burst 0"), 5 + extra},
		{"tabs", []string{"only"}, flat, "one tab", pick(flat, "size 80x24"), 5 + extra},
		{"tabs", []string{"a", "b", "c"}, cat(scroll, on("2", "start", "out", "ok")), "three tabs", pick(scroll, "size 80x9"), 4 + extra},
	}
	limit := 12000
	if ch.Thorough() {
		limit = 120000
	}
	for _, r := range runs {
		done := bfs(ch, r.events, r.depth, limit, func(h []event) (string, bool) {
			return viewRun(ch, r.mode, r.labels, append(append([]event{}, r.prefix...), h...), true)
		})
		ch.Set(r.mode+" "+r.name+" complete", done)
		if ch.Enough() {
			return
		}
	}
	// Every sequence of messages, whether bab sends it or not, must not panic.
	any := cat(on("0", "start", "out", "ok", "nest", "unnest"), on("0.0", "start", "out", "fail", "nest", "unnest"), on("9", "start", "out", "ok", "nest", "unnest"), all, keysOf(kTab, kSTab, ctrl('c'), kUp, size(80, 24), size(0, 0), size(1, 3)))
	depth := 3
	if ch.Thorough() {
		depth = 4
	}
	for _, mode := range []string{"grouped", "tabs"} {
		for _, labels := range [][]string{{"one", "two"}, {}} {
			bfs(ch, any, depth, 1<<30, func(h []event) (string, bool) {
				return viewRun(ch, mode, labels, h, false)
			})
		}
	}
	if !ch.Enough() && !ch.Expired() {
		sizes25(ch)
	}
	if !ch.Enough() && !ch.Expired() {
		viewPty(ch)
	}
}

func eventNames(h []event) string {
	var s []string
	for _, e := range h {
		s = append(s, e.name)
	}
	if t := strings.Join(s, ", "); len(t) <= 1500 {
		return t
	}
	// Long ones are written with counts.
	var out []string
	for i := 0; i < len(s); {
		n := 1
		for i+n < len(s) && s[i+n] == s[i] {
			n++
		}
		if n > 1 {
			out = append(out, fmt.Sprintf("%s x%d", s[i], n))
		} else {
			out = append(out, s[i])
		}
		i += n
	}
	return strings.Join(out, ", ")
}

// trimmed are the lines as they are shown.
func trimmed(lines []string) (out []string) {
	for _, l := range lines {
		out = append(out, strings.TrimRight(l, " "))
	}
	return out
}

// rawMsgs are the messages of an event for a program that never checks.
func rawMsgs(e event) []tea.Msg {
	switch e.kind {
	case "start":
		return []tea.Msg{tui.ItemStartMsg{Key: e.key}}
	case "out":
		return []tea.Msg{tui.ItemOutputMsg{Key: e.key, Line: "x"}}
	case "ok":
		return []tea.Msg{tui.ItemDoneMsg{Key: e.key}}
	case "fail":
		return []tea.Msg{tui.ItemDoneMsg{Key: e.key, Err: errBoom}}
	case "nest":
		return []tea.Msg{tui.ItemRegisterMsg{Key: e.key + ".0", Parent: e.key, Label: "c", Color: lipgloss.Color("3")}}
	case "unnest":
		return []tea.Msg{tui.ItemClearChildrenMsg{Key: e.key}}
	case "all":
		return []tea.Msg{tui.AllDoneMsg{}}
	}
	return []tea.Msg{e.k.msg}
}

func viewRun(ch *vlib.Check, mode string, labels []string, h []event, judge bool) (stateKey string, on bool) {
	id := func() string { return fmt.Sprintf("%s %v: %s", mode, labels, eventNames(h)) }
	defer func() {
		if r := recover(); r != nil {
			ch.Violation(id(), map[string]any{"panic": fmt.Sprint(r)})
			stateKey, on = "panic", false
		}
	}()
	cancels := 0
	m := newView(mode, labels, func() { cancels++ })
	_ = m.Init()
	if !judge {
		for _, e := range h {
			for _, msg := range rawMsgs(e) {
				m, _ = m.Update(msg)
				_ = m.View()
			}
		}
		ch.Eval(id())
		return id(), true
	}
	var v viewModel
	v.start(labels)
	var plan []tea.Msg
	for _, e := range h {
		msgs, ok := v.apply(e)
		if !ok {
			return "never sent", false
		}
		plan = append(plan, msgs...)
	}
	bad := func(raw, f string, a ...any) {
		ch.Violation(id(), map[string]any{"why": fmt.Sprintf(f, a...), "view": strings.Split(plain(raw), "\n")})
	}
	held, lastMsgs := "", 0
	var before viewModel
	if mode == "tabs" && len(h) > 0 {
		before.start(labels)
		for _, e := range h[:len(h)-1] {
			msgs, _ := before.apply(e)
			lastMsgs += len(msgs)
		}
	}
	for i, msg := range plan {
		var cmd tea.Cmd
		if mode == "tabs" && i == lastMsgs {
			held = m.View().Content
		}
		m, cmd = m.Update(msg)
		if i == len(plan)-1 {
			_, end := msg.(tui.AllDoneMsg)
			if quits(cmd, 2e9) != end {
				bad("", "the program quits: %v", !end)
			}
		}
	}
	want := 0
	if v.cancelled {
		want = 1
	}
	if cancels != want {
		bad("", "the work was cancelled %d times, not %d", cancels, want)
	}
	raw := m.View().Content
	ch.Eval(id())
	if v.over {
		if strings.TrimSpace(plain(raw)) != "" {
			bad(raw, "the view is not cleared at the end")
		}
		return "over", false
	}
	if mode == "grouped" {
		if why := v.grouped(raw); why != "" {
			bad(raw, "%s", why)
		}
		return v.key() + plain(raw), true
	}
	now, why := v.tabs(raw)
	if why != "" {
		bad(raw, "%s", why)
	}
	// Who scrolled back is not moved by what the items do.
	if held != "" && why == "" && before.scrolled && !before.long && !v.long {
		switch h[len(h)-1].kind {
		case "start", "out", "burst", "ok", "fail", "stopped":
			old := before.content()
			height := before.h - 4
			if shown, w := before.tabs(held); w == "" && height > 0 && len(shown) == height && len(old) > height &&
				len(before.items[before.roots[before.active]].children) == 0 && strings.Join(shown, "\n") != strings.Join(trimmed(old[len(old)-height:]), "\n") &&
				strings.Join(shown, "\n") != strings.Join(now, "\n") {
				bad(raw, "scrolled back to %q, the view moved to %q", shown, now)
			}
		}
	}
	stateKey = v.key() + plain(raw)
	// Every line of the open tab can be reached.
	content := v.content()
	if why == "" && !v.long && v.w >= 60 && v.h >= 6 && len(content) > v.h-4 && (len(content) < 300 || v.h == 24) {
		prev := ""
		for n := 0; n < 500+len(content); n++ {
			m, _ = m.Update(kUp.msg)
			if c := m.View().Content; c == prev {
				break
			} else {
				prev = c
			}
		}
		v.scrolled = true
		var first []string
		for n := 0; n < len(content); n++ {
			shown, w := v.tabs(m.View().Content)
			if w != "" {
				bad(m.View().Content, "scrolling: %s", w)
				break
			}
			if n == 0 {
				first = append(first, shown...)
			} else if len(first) < len(content) {
				first = append(first, shown[len(shown)-1])
			}
			m, _ = m.Update(kDown.msg)
		}
		for i := range content {
			if i >= len(first) || !strings.HasPrefix(first[i], strings.TrimRight(content[i], " ")) {
				bad(raw, "scrolling shows %q of %q", first, content)
				break
			}
		}
	}
	return stateKey, true
}
