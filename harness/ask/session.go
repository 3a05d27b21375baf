package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
	"github.com/charmbracelet/x/ansi"
)

type key struct{ name, send string }

var (
	enter  = key{"enter", "\r"}
	ctrlC  = key{"ctrl+c", "\x03"}
	bs     = key{"backspace", "\x7f"}
	up     = key{"up", "\x1b[A"}
	down   = key{"down", "\x1b[B"}
	right  = key{"right", "\x1b[C"}
	left   = key{"left", "\x1b[D"}
	space  = key{"space", " "}
	first  = key{"g", "g"}
	last   = key{"G", "G"}
	sigint = key{"SIGINT", ""}
	term   = key{"SIGTERM", ""}
)

func char(c string) key { return key{c, c} }

// each types a text character by character.
func each(s string) (out []key) {
	for _, c := range s {
		out = append(out, char(string(c)))
	}
	return out
}

func names(ks []key) string {
	var s []string
	for _, k := range ks {
		s = append(s, k.name)
	}
	return strings.Join(s, " ")
}

// state is what a prompt should look like.
type state struct {
	p       prompt
	title   string
	text    []rune
	pos     int
	cursor  int
	on      []bool
	yes     bool
	err     bool
	entered string // the password to confirm
	second  bool

	done, cancelled bool
	signal          bool // bab was told to stop
	answer          string
}

func newState(p prompt) *state {
	s := &state{p: p, title: p.message}
	switch p.typ {
	case "input", "number":
		s.text = []rune(p.def)
		s.pos = len(s.text)
	case "confirm":
		s.yes = truth(p.def)
	case "select":
		if i := slices.Index(p.opts, p.def); i >= 0 {
			s.cursor = i
		}
	case "multiselect":
		s.on = make([]bool, len(p.opts))
		for i, o := range p.opts {
			s.on[i] = slices.Contains(p.defs, o)
		}
		if i := slices.Index(s.on, true); i >= 0 {
			s.cursor = i
		}
	}
	return s
}

func (s *state) chosen() (string, int) {
	switch s.p.typ {
	case "confirm":
		return fmt.Sprint(s.yes), 1
	case "select":
		return s.p.opts[s.cursor], 1
	case "multiselect":
		var v []string
		for i, o := range s.p.opts {
			if s.on[i] {
				v = append(v, o)
			}
		}
		return strings.Join(v, ","), len(v)
	case "number":
		if len(s.text) == 0 {
			return s.p.def, 1
		}
	}
	return string(s.text), 1
}

func (s *state) accept() {
	answer, n := s.chosen()
	if s.p.typ == "password" {
		if s.second {
			if answer != s.entered {
				s.err = true
				return
			}
		} else if s.p.confirm == "true" {
			s.second, s.entered, s.title = true, answer, ""
			s.text, s.pos = nil, 0
			return
		}
	}
	if !s.p.accepts(answer, n) {
		s.err = true
		return
	}
	s.done, s.answer = true, answer
}

// step applies one key.
func (s *state) step(k key) {
	switch k {
	case ctrlC, sigint, term:
		s.done, s.cancelled, s.signal = true, true, k != ctrlC
		return
	case enter:
		s.err = false
		s.accept()
		return
	}
	s.err = false
	switch s.p.typ {
	case "input", "number", "password":
		switch k {
		case bs:
			if s.pos > 0 {
				s.text = slices.Delete(s.text, s.pos-1, s.pos)
				s.pos--
			}
		case left:
			s.pos = max(0, s.pos-1)
		case right:
			s.pos = min(len(s.text), s.pos+1)
		case up, down:
		default:
			s.text = slices.Insert(s.text, s.pos, []rune(k.text())...)
			s.pos += len([]rune(k.text()))
		}
	case "confirm":
		switch k.name {
		case "left", "right", "h", "l":
			s.yes = !s.yes
		case "y", "Y":
			s.yes = true
			s.accept()
		case "n", "N":
			s.yes = false
			s.accept()
		}
	case "select":
		n := len(s.p.opts)
		switch k {
		case up:
			s.cursor = (s.cursor + n - 1) % n
		case down:
			s.cursor = (s.cursor + 1) % n
		case first:
			s.cursor = 0
		case last:
			s.cursor = n - 1
		}
	case "multiselect":
		switch k {
		case up:
			s.cursor = max(0, s.cursor-1)
		case down:
			s.cursor = min(len(s.p.opts)-1, s.cursor+1)
		case first:
			s.cursor = 0
		case last:
			s.cursor = len(s.p.opts) - 1
		case space:
			s.on[s.cursor] = !s.on[s.cursor]
		}
	}
}

// shown compares the screen with the state.
func (s *state) shown(lines []string) string {
	var rows []string
	for _, l := range lines {
		if l, ok := strings.CutPrefix(l, "┃ "); ok {
			rows = append(rows, strings.TrimRight(l, " "))
		}
	}
	if len(rows) == 0 {
		return "no prompt"
	}
	foot := ""
	for _, l := range lines {
		if t := strings.TrimSpace(l); t != "" && !strings.HasPrefix(l, "┃") {
			foot = t
		}
	}
	// What was refused is said to be.
	if refused := strings.HasPrefix(foot, "* "); s.err && !refused {
		return "nothing says that the answer was refused"
	} else if !s.err && refused && s.p.typ != "multiselect" {
		return "a message stays: " + foot
	}
	title := strings.HasPrefix(rows[0], s.title)
	if s.second {
		title = strings.HasPrefix(rows[0], "Confirm")
	}
	if title {
		rows = rows[1:]
	} else if len(lines) >= max(24, len(s.p.opts)+5) {
		return fmt.Sprintf("title %q", rows[0])
	}
	switch s.p.typ {
	case "input", "number", "password":
		want := "> " + string(s.text)
		if s.p.typ == "password" {
			want = "> " + strings.Repeat("*", ansi.StringWidth(string(s.text)))
		} else if len(s.text) == 0 {
			want = "> " + s.p.placeholder
		}
		if width := 70; len([]rune(want)) > width {
			// A part of a long line is shown.
			part, ok := strings.CutPrefix(strings.Join(rows, "|"), "> ")
			if !ok || len(part) < width/2 || len(rows) != 1 || !strings.Contains(want, part) {
				return fmt.Sprintf("%q, not a part of %q", rows, want)
			}
			return ""
		}
		if len(rows) != 1 || rows[0] != strings.TrimRight(want, " ") {
			return fmt.Sprintf("%q, not %q", rows, want)
		}
	case "select", "multiselect":
		at := -1
		var seen []int
		for _, r := range rows {
			t := strings.TrimPrefix(strings.TrimPrefix(r, "> "), "  ")
			on := strings.HasPrefix(t, "✓ ")
			t = strings.TrimPrefix(strings.TrimPrefix(t, "✓ "), "• ")
			i := slices.Index(s.p.opts, t)
			if i < 0 {
				return fmt.Sprintf("an unknown option %q", r)
			}
			if s.p.typ == "multiselect" && on != s.on[i] {
				return fmt.Sprintf("option %q", r)
			}
			if strings.HasPrefix(r, "> ") {
				at = i
			}
			if len(seen) > 0 && i != seen[len(seen)-1]+1 {
				return "options out of order"
			}
			seen = append(seen, i)
		}
		if len(seen) == 0 {
			return "no options"
		}
		if at < 0 && s.p.typ == "multiselect" && len(lines) < max(24, len(s.p.opts)+5) {
			return "" // the list may start above the cursor
		}
		if at < 0 && s.p.typ == "multiselect" && seen[0] == 0 && s.cursor == len(s.p.opts)-1 && len(seen) == s.cursor {
			return "" // the library shows one option less than there are
		}
		if at != s.cursor {
			return fmt.Sprintf("the cursor is at %d, not %d", at, s.cursor)
		}
		if s.p.typ == "select" && len(s.p.opts) <= 3 && len(seen) != len(s.p.opts) {
			return fmt.Sprintf("%d options", len(seen))
		}
	}
	return ""
}

type job struct {
	p    prompt
	keys []key
	size [2]int
	env  bool // the answer is shown through the environment
}

// sequences lists all sequences over the keys up to a length, each with each end.
func sequences(keys []key, depth int, ends []key) [][]key {
	var out [][]key
	var gen func(h []key)
	gen = func(h []key) {
		for _, e := range ends {
			out = append(out, append(slices.Clone(h), e))
		}
		if len(h) == depth {
			return
		}
		for _, k := range keys {
			gen(append(slices.Clone(h), k))
		}
	}
	gen(nil)
	return out
}

func jobs(ch *vlib.Check) []job {
	var out []job
	more := 0
	if ch.Thorough() {
		more = 1
	}
	seen := map[string]bool{}
	env := false
	add := func(p prompt, seqs [][]key, size [2]int) {
		p.name, p.message = "v", "Q"
		for _, ks := range seqs {
			// A sequence ends where the prompt does.
			s := newState(p)
			n := 0
			for n < len(ks) && !s.done {
				s.step(ks[n])
				n++
			}
			ks := ks[:n]
			if !s.done {
				ks = append(slices.Clone(ks), ctrlC)
			}
			id := p.key() + fmt.Sprint(size) + names(ks)
			if !seen[id] {
				seen[id] = true
				out = append(out, job{p, ks, size, env})
			}
		}
	}
	std := [2]int{80, 24}
	small := [2]int{60, 9}
	both := []key{enter, ctrlC}
	for _, d := range []string{"", "true", "no", "maybe"} {
		add(prompt{typ: "confirm", def: d}, sequences([]key{left, right, char("y"), char("n"), char("x")}, 2+more, both), std)
	}
	for _, d := range []string{"", "ab"} {
		for _, v := range []string{"", "^[a-b]+$", "9"} {
			add(prompt{typ: "input", def: d, validate: v}, sequences([]key{char("a"), char("9"), bs, enter}, 2+more, both[:1]), std)
		}
	}
	// Blanks belong to the answer.
	for _, v := range []string{"", "^[a-b]+$", "^ ?a$", " $", "^$"} {
		add(prompt{typ: "input", validate: v}, sequences([]key{char("a"), space, enter}, 3+more, both[:1]), std)
	}
	add(prompt{typ: "input", placeholder: "hint", def: "b"}, sequences([]key{char("a"), bs, left, right}, 3+more, both), std)
	add(prompt{typ: "input", placeholder: "hint"}, sequences([]key{char("a"), bs}, 2+more, both), std)
	for _, d := range []string{"", "5"} {
		for _, l := range [][2]*int{{nil, nil}, {num(3), nil}, {nil, num(12)}, {num(2), num(5)}, {num(-1), num(1)}, {num(6), num(9)}, {num(0), nil}, {nil, num(0)}, {num(0), num(0)}, {num(-12), num(-1)}} {
			add(prompt{typ: "number", def: d, min: l[0], max: l[1]}, sequences([]key{char("1"), char("-"), bs, enter}, 2+more, both[:1]), std)
		}
	}
	for _, n := range []string{"2", "3", "5", "6", "x", "1.5", " ", "12", "+3", "0x3", " 4", "4 ", "-", "-4", "--4", "04", "4e0", "٤", "9999999999999999999"} {
		var ks []key
		for _, c := range n {
			ks = append(ks, char(string(c)))
		}
		add(prompt{typ: "number", min: num(3), max: num(5)}, [][]key{append(ks, enter)}, std)
		add(prompt{typ: "number"}, [][]key{append(ks, enter)}, std)
	}
	opts := []string{"aa", "bb", "c d"}
	for _, d := range append([]string{""}, opts...) {
		add(prompt{typ: "select", def: d, opts: opts}, sequences([]key{up, down}, 3+more, both), std)
	}
	var many []string
	for i := range 12 {
		many = append(many, fmt.Sprintf("option-%02d", i))
	}
	for _, d := range []string{"", "option-05", "option-11"} {
		add(prompt{typ: "select", def: d, opts: many}, sequences([]key{up, down, first, last}, 2+more, both[:1]), small)
	}
	for _, d := range [][]string{nil, {"bb"}, {"c d", "aa"}} {
		for _, l := range [][2]*int{{nil, nil}, {num(1), nil}, {nil, num(1)}, {num(1), num(2)}, {num(2), num(2)}, {num(0), num(3)}} {
			add(prompt{typ: "multiselect", defs: d, opts: opts, min: l[0], max: l[1]}, sequences([]key{space, down, enter}, 3+more, both[:1]), std)
		}
	}
	add(prompt{typ: "multiselect", defs: []string{"option-07"}, opts: many}, sequences([]key{up, down, space, last}, 2+more, both), small)
	for _, c := range []string{"", "false", "true"} {
		keys := []key{char("p"), char("q"), bs}
		if c == "true" {
			for _, f := range sequences(keys, 2, both[:1]) {
				add(prompt{typ: "password", confirm: c}, prefixed(f, sequences(append(keys, enter), 2+more, both[:1])), std)
			}
		}
		add(prompt{typ: "password", confirm: c}, sequences(keys, 2+more, both), std)
	}
	// confirmations that are almost the password
	for _, t := range []string{"pw", " pw", "pw ", "p w", "Pw", "", " "} {
		for _, u := range []string{"pw", " pw", "pw ", "p w", "pW", "p", "pwpw", "", " "} {
			add(prompt{typ: "password", confirm: "true"}, [][]key{slices.Concat(each(t), []key{enter}, each(u), []key{enter, bs, enter, ctrlC})}, std)
		}
	}
	// Signals at every stage.
	for _, p := range []prompt{{typ: "confirm"}, {typ: "input"}, {typ: "number"}, {typ: "select", opts: opts}, {typ: "multiselect", opts: opts}, {typ: "password", confirm: "true"}} {
		for _, sig := range []key{sigint, term} {
			add(p, [][]key{{sig}, {down, sig}}, std)
			if p.typ == "password" {
				add(p, [][]key{{char("p"), enter, sig}, {char("p"), enter, char("q"), enter, sig}, {char("p"), enter, ctrlC}}, std)
			}
		}
	}
	env = true
	sizes(ch, add)
	return out
}

func prefixed(f []key, seqs [][]key) [][]key {
	var out [][]key
	for _, s := range seqs {
		out = append(out, append(slices.Clone(f), s...))
	}
	return out
}

// talk drives one prompt of a running session; it returns what is wrong.
func talk(s *pty.Session, st *state, keys []key, size [2]int) string {
	look := func() string {
		sc := pty.NewScreen(size[0], size[1])
		sc.Write(s.Output())
		return st.shown(sc.Lines())
	}
	settle := func() string {
		deadline := time.Now().Add(15 * time.Second)
		for {
			w := look()
			if w == "" {
				return ""
			}
			if !s.Running() {
				return "bab ended: " + w
			}
			if time.Now().After(deadline) {
				return w
			}
			time.Sleep(4 * time.Millisecond)
		}
	}
	if w := settle(); w != "" {
		return "at the start: " + w
	}
	for i, k := range keys {
		switch k {
		case sigint:
			_ = syscall.Kill(s.Pid(), syscall.SIGINT)
		case term:
			_ = syscall.Kill(s.Pid(), syscall.SIGTERM)
		default:
			s.Send(k.send)
		}
		st.step(k)
		if st.done {
			return ""
		}
		if w := settle(); w != "" {
			return fmt.Sprintf("after %s: %s", names(keys[:i+1]), w)
		}
	}
	return ""
}

func sessions(ch *vlib.Check) {
	todo := jobs(ch)
	var mu sync.Mutex
	steps := int64(0)
	done := int64(0)
	parallel(todo, func(j job) {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return
		}
		// A deviation must show again before it is reported.
		why, detail := one(j)
		if why != "" {
			ch.Count("deviations", 1)
			if why, detail = one(j); why != "" {
				detail["why"] = why
				if ch.Violation(id(j), detail) {
					fmt.Println("  " + why)
				}
			}
		}
		ch.Eval(id(j))
		mu.Lock()
		steps += int64(len(j.keys))
		done++
		mu.Unlock()
	})
	ch.Count("pty_sessions", done)
	ch.Count("pty_keys", steps)
}

func id(j job) string {
	s := "on a terminal"
	if j.size[1] != 24 {
		s += fmt.Sprintf(" of %d lines", j.size[1])
	}
	return s + ": " + j.p.key() + ": " + names(j.keys)
}

func one(j job) (string, map[string]any) {
	show := store
	if j.env {
		show = storeEnv
	}
	babfile := "tasks:\n  t:\n    run:\n" + j.p.yaml("      ") + show("v", "      ") + "      - cmd: echo end >> $BLOG\n        silent: true\n"
	dir := newDir(babfile)
	defer os.RemoveAll(dir)
	s, before := start(dir, j.size, "t")
	defer s.Close()
	st := newState(j.p)
	why := talk(s, st, j.keys, j.size)
	want := "v=[" + st.answer + "]\nend\n"
	if st.cancelled {
		want = ""
	}
	if why == "" {
		why = finish(s, dir, st, before, want)
	}
	if why == "" && j.p.typ == "password" && len(st.text)+len(st.entered) > 0 {
		out := pty.Plain(s.Output())
		if strings.Contains(strings.ReplaceAll(out, "prompt", ""), "p") && strings.Contains(out, "pq") {
			why = "the password is on the screen"
		}
	}
	sc := pty.NewScreen(j.size[0], j.size[1])
	sc.Write(s.Output())
	return why, map[string]any{"babfile": babfile, "keys": names(j.keys), "screen": sc.Lines(), "exit": s.Exit, "running": s.Running()}
}

func start(dir string, size [2]int, args ...string) (*pty.Session, [60]byte) {
	s, err := pty.Start(bb.Bab(), args, dir, termEnv(dir), size[0], size[1])
	if err != nil {
		fmt.Println("pty:", err)
		os.Exit(3)
	}
	return s, s.Before
}

// finish waits for the end and judges it.
func finish(s *pty.Session, dir string, st *state, before [60]byte, want string) string {
	if !s.Wait(20 * time.Second) {
		return "bab does not end"
	}
	log, _ := os.ReadFile(filepath.Join(dir, "log"))
	if st.cancelled {
		if s.Exit == 0 && !st.signal {
			return "exit 0 after a cancelled prompt"
		}
	} else if s.Exit != 0 {
		return fmt.Sprintf("exit %d", s.Exit)
	}
	if string(log) != want {
		return fmt.Sprintf("ran %q, not %q", log, want)
	}
	if s.Termios() != before {
		return "the terminal is not left as it was found"
	}
	return ""
}
