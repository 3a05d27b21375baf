package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/tui/picker"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
	"github.com/sahilm/fuzzy"
)

// pick is a task of a set.
type pick struct {
	name    string
	aliases []string
	desc    string
}

type world struct {
	name  string
	tasks []pick
	typed []key
}

func (w world) taskMap() babfile.TaskMap {
	m := babfile.TaskMap{}
	for i, t := range w.tasks {
		task := &babfile.Task{Name: t.name, Desc: t.desc}
		if len(t.aliases) == 1 && i%2 == 0 {
			task.Alias = t.aliases[0]
		} else {
			task.Aliases = t.aliases
		}
		m[t.name] = task
	}
	return m
}

// editor is the reference of the input line.
type editor struct {
	text []rune
	pos  int
}

func (e editor) String() string { return fmt.Sprintf("%s@%d", string(e.text), e.pos) }

func (e *editor) insert(s []rune) {
	room := 100 - len(e.text)
	if len(s) > room {
		s = s[:room]
	}
	t := append(append(append([]rune{}, e.text[:e.pos]...), s...), e.text[e.pos:]...)
	e.text, e.pos = t, e.pos+len(s)
}

func (e *editor) cut(from, to int) {
	e.text = append(append([]rune{}, e.text[:from]...), e.text[to:]...)
	e.pos = from
}

func (e *editor) apply(k key) {
	if p, ok := k.msg.(tea.PasteMsg); ok {
		e.insert([]rune(p.Content))
		return
	}
	switch k.name {
	case "left", "ctrl+b":
		e.pos = max(0, e.pos-1)
	case "right", "ctrl+f":
		e.pos = min(len(e.text), e.pos+1)
	case "home", "ctrl+a":
		e.pos = 0
	case "end", "ctrl+e":
		e.pos = len(e.text)
	case "backspace", "ctrl+h":
		if e.pos > 0 {
			e.cut(e.pos-1, e.pos)
		}
	case "delete", "ctrl+d":
		if e.pos < len(e.text) {
			e.cut(e.pos, e.pos+1)
		}
	case "ctrl+k":
		e.cut(e.pos, len(e.text))
	case "ctrl+u":
		*e = editor{}
	case "ctrl+w":
		i := e.pos
		for i > 0 && unicode.IsSpace(e.text[i-1]) {
			i--
		}
		for i > 0 && !unicode.IsSpace(e.text[i-1]) {
			i--
		}
		e.cut(i, e.pos)
	default:
		if km, ok := k.msg.(tea.KeyPressMsg); ok && km.Text != "" {
			e.insert([]rune(km.Text))
		}
	}
}

// fold reports that two characters are the same but for case.
func fold(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

func subsequence(q, s string) bool {
	qs := []rune(q)
	i := 0
	for _, r := range s {
		if i < len(qs) && fold(qs[i], r) {
			i++
		}
	}
	return i == len(qs)
}

func (t pick) matches(q string) bool {
	if subsequence(q, t.name) {
		return true
	}
	for _, a := range t.aliases {
		if subsequence(q, a) {
			return true
		}
	}
	return false
}

func (t pick) exact(q string) bool {
	if t.name == q {
		return true
	}
	for _, a := range t.aliases {
		if a == q {
			return true
		}
	}
	return false
}

func (t pick) byAlias(q string) bool {
	for _, a := range t.aliases {
		if subsequence(q, a) {
			return true
		}
	}
	return false
}

// screen is what a view shows.
type screen struct {
	input  string
	count  string
	rows   []string // names
	marked int      // index among the rows, -1 if none
	none   bool
	raw    string
}

func look(m tea.Model) (s screen, err error) {
	s.raw = plain(m.View().Content)
	s.marked = -1
	lines := strings.Split(strings.TrimSuffix(s.raw, "\n"), "\n")
	if len(lines) < 3 {
		return s, fmt.Errorf("%d lines", len(lines))
	}
	s.input = lines[1]
	for _, f := range strings.Fields(lines[2]) {
		if strings.Contains(f, "/") {
			s.count = f
		}
	}
	for _, l := range lines[3:] {
		if strings.Contains(l, "No matching tasks") {
			s.none = true
			continue
		}
		r := []rune(l)
		if len(r) < 3 {
			return s, fmt.Errorf("row %q", l)
		}
		if string(r[:2]) != "  " {
			if s.marked >= 0 {
				return s, fmt.Errorf("two rows are marked")
			}
			s.marked = len(s.rows)
		}
		s.rows = append(s.rows, strings.Fields(string(r[2:]))[0])
	}
	return s, nil
}

// orders caches the list a fresh picker shows for a text on a tall window.
type orders struct {
	mu sync.Mutex
	m  map[string][]string
}

func (o *orders) get(ch *vlib.Check, w world, text string) []string {
	o.mu.Lock()
	defer o.mu.Unlock()
	if l, ok := o.m[text]; ok {
		return l
	}
	var m tea.Model = picker.New(w.taskMap())
	m, _ = m.Update(tea.WindowSizeMsg{Width: 300, Height: 500})
	if text != "" {
		m, _ = m.Update(tea.PasteMsg{Content: text})
	}
	s, err := look(m)
	l := s.rows
	bad := func(f string, a ...any) {
		ch.Violation(fmt.Sprintf("picker %s, text %q", w.name, text), map[string]any{"why": fmt.Sprintf(f, a...), "screen": s.raw})
	}
	if err != nil {
		bad("%v", err)
	}
	// The set.
	want := map[string]pick{}
	for _, t := range w.tasks {
		if t.matches(text) {
			want[t.name] = t
		}
	}
	got := map[string]bool{}
	for _, n := range l {
		if _, ok := want[n]; !ok || got[n] {
			bad("%s is shown", n)
		}
		got[n] = true
	}
	for n := range want {
		if !got[n] {
			bad("%s is not shown", n)
		}
	}
	if s.none != (len(want) == 0) {
		bad("no match: %v", s.none)
	}
	// The order.
	pos := map[string]int{}
	for i, n := range l {
		pos[n] = i
	}
	score := map[string]int{}
	if text != "" {
		var ns []string
		for _, t := range w.tasks {
			ns = append(ns, t.name)
		}
		for _, x := range fuzzy.Find(text, ns) {
			score[x.Str] = x.Score
		}
	}
	for _, a := range want {
		for _, b := range want {
			if a.name == b.name {
				continue
			}
			before := false
			switch {
			case text == "":
				before = a.name < b.name
			case a.exact(text) != b.exact(text):
				before = a.exact(text)
			case !a.byAlias(text) && !b.byAlias(text):
				before = score[a.name] > score[b.name] || score[a.name] == score[b.name] && a.name < b.name
			}
			if before && pos[a.name] > pos[b.name] {
				bad("%s comes before %s", b.name, a.name)
			}
		}
	}
	o.m[text] = l
	return l
}

type pickState struct {
	ed     editor
	cursor int
	w, h   int
}

func p24(ch *vlib.Check) {
	ch.Rule("one case is one sequence of keys and window sizes for one set of tasks; the state space is explored breadth first on the real model, and in every state the screen is compared with the reference and Enter, Escape and Ctrl+C are tried; sequences that change text, cursor or size are non-trivial; the same along paths through pickers with up to hundreds of rows at every kind of height and width, with names of every length and with every character; enumerated sequences are also typed at the real bab on a pseudo terminal")
	ch.Assume("the score of the fuzzy library is the measure of quality among names; the order of other inexact matches is only required to be a function of the text")
	edit := []key{kBack, kDel, kLeft, kRight, kHome, kEnd, ctrl('w'), ctrl('k'), ctrl('u')}
	move := []key{kUp, kDown, ctrl('p'), ctrl('n')}
	var many []pick
	for i := 0; i < 13; i++ {
		many = append(many, pick{name: fmt.Sprintf("t%c%d", 'a'+i%3, i), desc: "number " + itoa(i)})
	}
	worlds := []world{
		{"basic", []pick{{"build", []string{"b"}, "Build it"}, {"test", nil, "Run the tests"}, {"lint", []string{"latest"}, ""}, {"t", nil, ""}, {"test:unit", []string{"tu", "ut"}, "Unit (all)"}}, []key{runes("t"), runes("e"), runes("b"), runes(":"), runes("T"), paste("test"), paste("latest")}},
		{"long", []pick{{"release-notes", nil, ""}, {"p1", []string{"release"}, "Release"}, {"prerelease", nil, "x"}, {"release-all", []string{"ra"}, ""}, {"r", nil, ""}}, []key{runes("r"), runes("e"), runes("a"), paste("release"), paste("-notes"), paste("pre")}},
		{"letters", []pick{{"über", []string{"ü"}, "öäü"}, {"Ab", nil, ""}, {"aB", nil, ""}, {"日本", []string{"nihon"}, "日本"}, {"a_b-c.d", nil, ""}}, []key{runes("a"), runes("B"), runes("ü"), runes("日"), runes("Ü"), runes("_"), runes(" ")}},
		{"one", []pick{{"only", nil, ""}}, []key{runes("o"), runes("x"), runes("y")}},
		{"many", many, []key{runes("t"), runes("a"), runes("1"), runes("b")}},
		{"dup letters", []pick{{"aab", nil, ""}, {"aba", []string{"bb"}, ""}, {"baa", []string{"ab"}, ""}, {"bab", []string{"aaa"}, ""}, {"abab", nil, ""}}, []key{runes("a"), runes("b")}},
	}
	sizes := []key{size(80, 20), size(40, 7), size(10, 5), size(0, 0), size(1, 1), size(200, 9)}
	depth := 5
	if ch.Thorough() {
		depth = 9
	}
	depths := map[string]any{}
	for _, w := range worlds {
		alphabet := append(append(append([]key{}, w.typed...), move...), sizes...)
		for _, k := range edit {
			// The input widget has its own idea of a word among spaces.
			if k.name != "ctrl+w" || w.name != "letters" {
				alphabet = append(alphabet, k)
			}
		}
		o := &orders{m: map[string][]string{}}
		limit := 3500
		if ch.Thorough() {
			limit = 60000
		}
		done := bfs(ch, alphabet, depth, limit, func(h []key) (string, bool) { return pickRun(ch, w, o, h) })
		depths[w.name] = map[string]any{"complete": done, "texts": len(o.m)}
	}
	ch.Set("worlds", depths)
	// All strings over two letters, typed letter by letter.
	w := worlds[5]
	o := &orders{m: map[string][]string{}}
	var all [][]key
	n := 6
	for l := 0; l <= n; l++ {
		for x := 0; x < 1<<l; x++ {
			var h []key
			for i := 0; i < l; i++ {
				h = append(h, w.typed[x>>i&1])
			}
			all = append(all, h)
		}
	}
	parallel(all, func(h []key) { pickRun(ch, w, o, h); ch.States(0, 1) })
	// A text up to the limit of the input.
	long := []key{paste(strings.Repeat("a", 60)), paste(strings.Repeat("b", 60)), runes("a"), kBack, runes("b"), runes("b"), ctrl('u'), paste("ab")}
	for i := range long {
		pickRun(ch, w, o, long[:i+1])
	}
	sizes24(ch)
	pickPty(ch, worlds)
	ch.Sample(map[string]any{"world": worlds[0].name, "text": "t", "order": (&orders{m: map[string][]string{}}).get(ch, worlds[0], "t")})
}

// pickRun replays a history and judges every step of it that is last.
func pickRun(ch *vlib.Check, w world, o *orders, h []key) (stateKey string, on bool) {
	var m tea.Model = picker.New(w.taskMap())
	st := pickState{w: 80, h: 20}
	var hist = func() string { return "picker " + w.name + ": " + names(h) }
	defer func() {
		if r := recover(); r != nil {
			ch.Violation(hist(), map[string]any{"panic": fmt.Sprint(r)})
			stateKey, on = "panic", false
		}
	}()
	bad := func(s screen, f string, a ...any) {
		ch.Violation(hist(), map[string]any{"why": fmt.Sprintf(f, a...), "screen": s.raw, "model": fmt.Sprintf("%v cursor %d size %dx%d", st.ed, st.cursor, st.w, st.h)})
	}
	replay := func() tea.Model {
		var m tea.Model = picker.New(w.taskMap())
		for _, k := range h {
			m, _ = m.Update(k.msg)
		}
		return m
	}
	for i, k := range h {
		var cmd tea.Cmd
		m, cmd = m.Update(k.msg)
		before := string(st.ed.text)
		list := o.get(ch, w, before)
		switch k.name {
		case "up", "ctrl+p":
			st.cursor = max(0, min(st.cursor-1, len(list)-1))
		case "down", "ctrl+n":
			st.cursor = max(0, min(st.cursor+1, len(list)-1))
		default:
			if ws, ok := k.msg.(tea.WindowSizeMsg); ok {
				st.w, st.h = ws.Width, ws.Height
			} else {
				st.ed.apply(k)
			}
		}
		if string(st.ed.text) != before {
			st.cursor = 0
		}
		if k.name == "ctrl+u" && before == "" {
			// Clearing an empty text may or may not go back to the top.
			if s, err := look(m); err == nil && s.marked == 0 && len(s.rows) > 0 && s.rows[0] == list[0] {
				st.cursor = 0
			}
		}
		if i == len(h)-1 && quits(cmd, time.Millisecond) {
			bad(screen{}, "%s quits", k.name)
		}
	}
	s, err := look(m)
	if err != nil {
		bad(s, "%v", err)
	}
	text := string(st.ed.text)
	list := o.get(ch, w, text)
	fit := min(len(list), max(1, st.h-4))
	if len(s.rows) != fit {
		bad(s, "%d rows are shown, not %d", len(s.rows), fit)
	}
	if s.count != fmt.Sprintf("%d/%d", len(list), len(w.tasks)) {
		bad(s, "the count is %s", s.count)
	}
	// On a narrow window the input line scrolls, and stays so until a key.
	wide := true
	for _, k := range h {
		if ws, ok := k.msg.(tea.WindowSizeMsg); ok && ws.Width < 60 {
			wide = false
		}
	}
	if wide && len(st.ed.text) < 40 && strings.TrimRight(s.input, " ") != strings.TrimRight("> "+text, " ") {
		bad(s, "the input shows %q", s.input)
	}
	var marked string
	if len(list) > 0 {
		if s.marked < 0 || s.marked >= len(s.rows) {
			bad(s, "no row is marked")
		} else {
			marked = s.rows[s.marked]
			if st.cursor < len(list) && marked != list[st.cursor] {
				bad(s, "%s is marked, not %s", marked, list[st.cursor])
			}
			// The rows are a window of the list.
			first := st.cursor - s.marked
			for i, r := range s.rows {
				if first+i < 0 || first+i >= len(list) || list[first+i] != r {
					bad(s, "the rows are no part of the list %v", list)
					break
				}
			}
		}
	} else if !s.none {
		bad(s, "no match, but nothing says so")
	}
	for _, end := range []key{kEnter, kEsc, ctrl('c')} {
		e, cmd := replay().Update(end.msg)
		pm, ok := e.(picker.Model)
		if !ok {
			bad(s, "the model became a %T", e)
			continue
		}
		got := ""
		if sel := pm.Selected(); sel != nil {
			got = sel.Name
		}
		want := ""
		if end.name == "enter" {
			want = marked
		}
		if got != want {
			bad(s, "%s selects %q, not %q", end.name, got, want)
		}
		if !quits(cmd, 5*time.Second) {
			bad(s, "%s does not quit", end.name)
		}
		_ = e.View()
	}
	ch.Eval(w.name + "|" + names(h))
	return fmt.Sprintf("%v|%d|%d|%d|%s", st.ed, st.cursor, st.w, st.h, s.raw), true
}

// pickPty types sequences at the real bab.
func pickPty(ch *vlib.Check, worlds []world) {
	type job struct {
		w    world
		keys []key
		end  key
		args []string
	}
	var jobs []job
	for _, w := range []world{worlds[0], worlds[2], worlds[5]} {
		ks := append([]key{}, w.typed...)
		var alpha []key
		for _, k := range ks {
			if k.pty != "" {
				alpha = append(alpha, k)
			}
		}
		alpha = append(alpha, kDown, kUp, kBack, ctrl('u'), kLeft)
		n := 2
		if ch.Thorough() {
			n = 3
		}
		var gen func(h []key)
		gen = func(h []key) {
			jobs = append(jobs, job{w, append([]key{}, h...), kEnter, nil})
			if len(h) <= 1 {
				jobs = append(jobs, job{w, append([]key{}, h...), kEsc, nil}, job{w, append([]key{}, h...), ctrl('c'), nil},
					job{w, append([]key{}, h...), key{name: "SIGINT"}, nil}, job{w, append([]key{}, h...), key{name: "SIGTERM"}, nil},
					job{w, append([]key{}, h...), kEnter, []string{"-n"}}, job{w, append([]key{}, h...), kEnter, []string{"-v"}},
					job{w, append([]key{}, h...), kEnter, []string{"-b", "Other"}}, job{w, append([]key{}, h...), kEnter, []string{"--babfile=Other", "--dry-run"}},
					job{w, append([]key{}, h...), kEnter, []string{"--babfile", "./Other", "-v"}})
			}
			if len(h) == n {
				return
			}
			for _, k := range alpha {
				gen(append(h, k))
			}
		}
		gen(nil)
	}
	if !ch.Thorough() {
		// Every third of the longest ones; all shorter ones.
		var keep []job
		for i, j := range jobs {
			if len(j.keys) < 2 || i%2 == 0 {
				keep = append(keep, j)
			}
		}
		jobs = keep
	}
	var n int
	var mu sync.Mutex
	parallel(jobs, func(j job) {
		if ch.Enough() || ch.Expired() {
			return
		}
		mu.Lock()
		n++
		dir := filepath.Join(bb.Scratch(), "pick"+itoa(n))
		mu.Unlock()
		_ = os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		var b strings.Builder
		b.WriteString("tasks:\n")
		for i, t := range j.w.tasks {
			fmt.Fprintf(&b, "  %q:\n    run:\n      - cmd: 'echo %d >> \"$BLOG\"'\n", t.name, i)
			if t.desc != "" {
				fmt.Fprintf(&b, "    desc: %q\n", t.desc)
			}
			if len(t.aliases) > 0 {
				fmt.Fprintf(&b, "    aliases: [%s]\n", `"`+strings.Join(t.aliases, `", "`)+`"`)
			}
		}
		args := strings.Join(j.args, " ")
		if strings.Contains(args, "Other") {
			_ = os.WriteFile(filepath.Join(dir, "Other"), []byte(b.String()), 0o644)
			_ = os.WriteFile(filepath.Join(dir, "Babfile"), []byte(strings.ReplaceAll(b.String(), "'echo ", "'echo 9")), 0o644)
		} else {
			_ = os.WriteFile(filepath.Join(dir, "Babfile"), []byte(b.String()), 0o644)
		}
		env := bb.BaseEnv(dir, filepath.Join(dir, "log"))
		for i, e := range env {
			if strings.HasPrefix(e, "TERM=") {
				env[i] = "TERM=xterm-256color"
			}
		}
		// What the model in process says.
		var m tea.Model = picker.New(j.w.taskMap())
		for _, k := range append(append([]key{}, j.keys...), j.end) {
			if k.msg != nil {
				m, _ = m.Update(k.msg)
			}
		}
		want := ""
		if sel := m.(picker.Model).Selected(); sel != nil {
			for i, t := range j.w.tasks {
				if t.name == sel.Name {
					want = itoa(i) + "\n"
					if strings.Contains(args, "-n") || strings.Contains(args, "--dry-run") {
						want = ""
					}
				}
			}
		}
		s, err := pty.Start(bb.Bab(), j.args, dir, env, 80, 20)
		if err != nil {
			fmt.Println("pty:", err)
			os.Exit(3)
		}
		defer s.Close()
		total := fmt.Sprintf("%d/%d", len(j.w.tasks), len(j.w.tasks))
		ready := s.WaitFor(0, func(o string) bool { return strings.Contains(o, total) }, 20*time.Second)
		var typed string
		for _, k := range j.keys {
			typed += k.pty
		}
		if typed != "" {
			s.Send(typed)
			time.Sleep(30 * time.Millisecond)
		}
		switch j.end.name {
		case "SIGINT":
			_ = syscall.Kill(s.Pid(), syscall.SIGINT)
		case "SIGTERM":
			_ = syscall.Kill(s.Pid(), syscall.SIGTERM)
		default:
			s.Send(j.end.pty)
		}
		ended := s.Wait(30 * time.Second)
		log, _ := os.ReadFile(filepath.Join(dir, "log"))
		k := "pty " + args + " " + j.w.name + ": " + names(append(append([]key{}, j.keys...), j.end))
		ch.Eval(k)
		ch.Validated(1)
		if !ready || !ended || s.Exit != 0 || string(log) != want {
			ch.Violation(k, map[string]any{"ready": ready, "ended": ended, "exit": s.Exit, "ran": string(log), "want": want, "screen": pty.Plain(s.Output())})
		}
	})
	ch.Count("pty_sessions", int64(len(jobs)))
}
