package main

import (
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"

	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// said is one program whose whole report is known.
type said struct {
	key     string
	f       *spec.File
	verbose bool
	view    bool // on a terminal
	trivial bool
}

// speak is a command that says its name.
func speak(id string) *spec.Item { return spec.Cmd("echo said-" + id) }

func speakExit(id string, code int) *spec.Item {
	return spec.Cmd(fmt.Sprintf("echo said-%s; exit %d", id, code))
}

var levelTag = map[string]string{"": "INFO", "debug": "DEBU", "info": "INFO", "warn": "WARN", "error": "ERRO"}
var levelWord = map[string]string{"": "INFO", "debug": "DEBUG", "info": "INFO", "warn": "WARN", "error": "ERROR"}

// part is a piece of the report: lines in this order, or in any.
type part struct {
	any   bool
	lines []string
}

// report is what bab has to write, in order.
func report(s said) (parts []part, r *spec.Run) {
	r = spec.Eval(s.f, "main", spec.World{OS: "linux", Exit: func(it *spec.Item) int {
		var n int
		if i := strings.Index(it.Text, "; exit "); i >= 0 {
			_, _ = fmt.Sscanf(it.Text[i:], "; exit %d", &n)
		}
		return n
	}})
	add := func(any bool, line string) {
		if len(parts) == 0 || parts[len(parts)-1].any != any {
			parts = append(parts, part{any: any})
		}
		p := &parts[len(parts)-1]
		p.lines = append(p.lines, line)
	}
	for _, e := range r.Events {
		switch e.Kind {
		case "task":
			add(e.Par, "● Running "+e.Text)
		case "dep":
			add(e.Par, "▶ "+e.Text)
		case "head":
			for i, l := range strings.Split(e.Text, "\n") {
				if i == 0 {
					l = "$ " + l
				}
				add(e.Par, l)
			}
		case "run":
			if e.Show {
				for _, l := range strings.Split(e.Text, "\n") {
					add(e.Par, strings.TrimPrefix(strings.Split(l, ";")[0], "echo "))
				}
			}
		case "log":
			switch {
			case e.Par: // every level, written out
				for _, l := range written(levelWord[e.Item.Level] + " " + e.Text) {
					add(true, l)
				}
			case e.Item.Level != "debug" || s.verbose:
				for _, l := range written(levelTag[e.Item.Level] + " " + e.Text) {
					add(false, l)
				}
			}
		}
	}
	return parts, r
}

// written are the lines of a text, without what the comparison leaves out.
func written(text string) (lines []string) {
	for _, l := range strings.Split(text, "\n") {
		if l = strings.TrimRight(l, " "); l != "" {
			lines = append(lines, l)
		}
	}
	return lines
}

// unlabel takes the label of a parallel item off a line.
func unlabel(l string) string {
	t := strings.TrimLeft(l, " ")
	for strings.HasPrefix(t, "[") {
		i := strings.Index(t, "] ")
		if i < 0 {
			break
		}
		t = strings.TrimLeft(t[i+2:], " ")
	}
	return t
}

// misreport says what is wrong with what was written.
func misreport(s said, g result) string {
	parts, r := report(s)
	if g.timedOut {
		return "bab did not finish"
	}
	exit := 0
	if r.Err != nil {
		exit = 1
	}
	if g.exit != exit {
		return fmt.Sprintf("exit status %d, must be %d: %q", g.exit, exit, g.text)
	}
	var have []string
	for _, l := range strings.Split(pty.Plain(g.text), "\n") {
		l = strings.TrimRight(l, "\r ")
		if l == "" || s.verbose && strings.HasPrefix(l, "DEBU ") && !strings.HasPrefix(l, "DEBU say") {
			continue
		}
		have = append(have, l)
	}
	if exit != 0 {
		// the message of the failure comes last, and says in which task
		k := slices.IndexFunc(have, func(l string) bool { return strings.HasPrefix(l, "ERRO ") && !strings.HasPrefix(l, "ERRO say") })
		if k < 0 {
			return fmt.Sprintf("failed without a message: %q", have)
		}
		msg := strings.Join(have[k:], "\n")
		if r.Failed != "" && !strings.Contains(msg, r.Failed) {
			return fmt.Sprintf("the message does not name the task %s that failed: %s", r.Failed, msg)
		}
		have = have[:k]
	}
	at := 0
	for _, p := range parts {
		n := min(len(p.lines), len(have)-at)
		got, want := slices.Clone(have[at:at+n]), slices.Clone(p.lines)
		if p.any {
			for i := range got {
				got[i] = unlabel(got[i])
			}
			slices.Sort(got)
			slices.Sort(want)
		}
		if !slices.Equal(got, want) {
			return fmt.Sprintf("wrote %q, must write %q", have, parts)
		}
		at += n
	}
	if at != len(have) {
		return fmt.Sprintf("wrote also %q (all: %q)", have[at:], have)
	}
	return ""
}

var three = []*bool{nil, spec.B(true), spec.B(false)}

func tri(b *bool) string {
	switch {
	case b == nil:
		return "-"
	case *b:
		return "1"
	}
	return "0"
}

// says enumerates the programs.
func says(ch *vlib.Check, yield func(said) bool) {
	names := []string{"main", "x", "y"}
	pairs := [][2]int{{0, 1}, {0, 2}, {1, 2}}
	ok := true
	emit := func(s said) {
		if ok {
			ok = yield(s)
		}
	}
	// task graphs of three tasks
	for code := range 64 {
		edge := [3]int{code % 4, code / 4 % 4, code / 16}
		build := func(off int, exits [3]int, file, tk, ref *bool) *spec.File {
			f := &spec.File{Silent: file}
			for i := range 3 {
				t := &spec.Task{Name: names[i]}
				var first, last []*spec.Item
				for k, p := range pairs {
					if p[0] != i {
						continue
					}
					it := spec.Ref(names[p[1]])
					it.Silent = ref
					switch edge[k] {
					case 1:
						t.Deps = append(t.Deps, names[p[1]])
					case 2:
						first = append(first, it)
					case 3:
						last = append(last, it)
					}
				}
				own := speak(names[i])
				if exits[i] != 0 {
					own = speakExit(names[i], exits[i])
				}
				t.Run = append(append(first, own), last...)
				if i == off {
					t.When = "false"
				}
				if i == 1 {
					t.Silent = tk
				}
				f.Tasks = append(f.Tasks, t)
			}
			return f
		}
		for off := range 3 {
			for _, file := range three {
				for _, tk := range three {
					for _, ref := range three {
						if !ch.Thorough() && off > 0 && (file != nil || tk != nil && ref != nil) {
							continue
						}
						o := off
						if o == 0 {
							o = -1
						}
						emit(said{key: fmt.Sprintf("graph %v off %d silent %s%s%s", edge, o, tri(file), tri(tk), tri(ref)), f: build(o, [3]int{}, file, tk, ref), trivial: code == 0})
					}
				}
			}
		}
		for fail := range 3 {
			var exits [3]int
			exits[fail] = 3
			for _, file := range []*bool{nil, spec.B(true)} {
				emit(said{key: fmt.Sprintf("graph %v fail %d silent %s", edge, fail, tri(file)), f: build(-1, exits, file, nil, nil)})
			}
		}
	}
	// task graphs of four tasks
	four := []string{"main", "x", "y", "z"}
	var pairs4 [][2]int
	for i := range four {
		for j := i + 1; j < len(four); j++ {
			pairs4 = append(pairs4, [2]int{i, j})
		}
	}
	for code := range 4096 {
		for change := range 9 {
			off, fail := -1, -1
			switch {
			case change >= 5:
				fail = change - 5
			case change >= 1:
				off = change - 1
			}
			if !ch.Thorough() && change > 0 && (code+change)%8 > 0 {
				continue
			}
			f := &spec.File{}
			for i, n := range four {
				t := &spec.Task{Name: n}
				var first, last []*spec.Item
				for k, p := range pairs4 {
					if p[0] != i {
						continue
					}
					switch code >> (2 * k) & 3 {
					case 1:
						t.Deps = append(t.Deps, four[p[1]])
					case 2:
						first = append(first, spec.Ref(four[p[1]]))
					case 3:
						last = append(last, spec.Ref(four[p[1]]))
					}
				}
				own := speak(n)
				if i == fail {
					own = speakExit(n, 5)
				}
				t.Run = append(append(first, own), last...)
				if i == off {
					t.When = "false"
				}
				f.Tasks = append(f.Tasks, t)
			}
			emit(said{key: fmt.Sprintf("four %d off %d fail %d", code, off, fail), f: f, trivial: code == 0})
		}
	}
	// messages
	for lv := range levelTag {
		for _, verbose := range []bool{false, true} {
			for _, silent := range three {
				say := func(id string) *spec.Item {
					it := spec.Log("say " + id)
					it.Level = lv
					return it
				}
				off := say("off")
				off.When = "false"
				f := &spec.File{Silent: silent, Tasks: []*spec.Task{
					{Name: "main", Deps: []string{"d"}, Run: []*spec.Item{say("a"), speak("1"), say("b"), off, spec.Ref("r"), say("c ${{ v }} $x %s {}")}, Vars: spec.KV{{"v", "%d"}}},
					{Name: "d", Run: []*spec.Item{say("dep")}}, {Name: "r", Run: []*spec.Item{say("ref"), speak("2")}}}}
				emit(said{key: fmt.Sprintf("message %q verbose %v silent %s", lv, verbose, tri(silent)), f: f, verbose: verbose})
				if !verbose {
					g := &spec.File{Silent: silent, Tasks: []*spec.Task{{Name: "main", Run: []*spec.Item{say("a"), spec.Par(say("p"), speak("1"), say("q ${{ v }} %s"), spec.Ref("r")), say("b")}, Vars: spec.KV{{"v", "%d"}}},
						{Name: "r", Run: []*spec.Item{say("ref"), speak("2")}}}}
					emit(said{key: fmt.Sprintf("message %q parallel silent %s", lv, tri(silent)), f: g})
				}
			}
		}
	}
	// messages as they are written
	for _, m := range []string{" lead", "tail  .", "a=b", "'q' \"q\"", "say é 漢", strings.Repeat("long ", 200) + ".", "100%", "%d %s %!", "\\n \\", "# c", "[x] y", "two\nlines", "three\nmore\nlines", "ERROR: none", "<a&b>", "{{ v }}", "$HOME `x`"} {
		for lv := range levelTag {
			if !ch.Thorough() && lv != "" && lv != "warn" {
				continue
			}
			if lv == "debug" { // told apart from bab's own
				m = "say " + m
			}
			say := spec.Log(m)
			say.Level = lv
			emit(said{key: fmt.Sprintf("message text %.20q level %q", m, lv), verbose: lv == "debug", f: &spec.File{Tasks: []*spec.Task{{Name: "main", Run: []*spec.Item{say, speak("1")}}}}})
			labelled := spec.Log(m)
			labelled.Level, labelled.Label = lv, "m"
			emit(said{key: fmt.Sprintf("message text %.20q level %q parallel", m, lv), f: &spec.File{Tasks: []*spec.Task{{Name: "main", Run: []*spec.Item{spec.Par(labelled, speak("1"))}}}}})
		}
	}
	// blocks without a terminal, whatever their mode
	for _, mode := range []string{"", "interleaved", "grouped", "tabs"} {
		for _, blockS := range three {
			for _, itemS := range three {
				for _, fileS := range three {
					for fail := range 3 {
						item := func(n int, it *spec.Item) *spec.Item {
							if n == 1 {
								it.Silent = itemS
							}
							return it
						}
						cmd := func(n int) *spec.Item {
							if fail == n {
								return speakExit(fmt.Sprint(n), 4)
							}
							return speak(fmt.Sprint(n))
						}
						b := spec.Par(item(1, cmd(1)), item(2, cmd(2)), item(1, spec.Ref("x")))
						b.Mode, b.Silent = mode, blockS
						f := &spec.File{Silent: fileS, Tasks: []*spec.Task{{Name: "main", Run: []*spec.Item{speak("a"), b, speak("b")}}, {Name: "x", Run: []*spec.Item{speak("x")}}, {Name: "y", Run: []*spec.Item{speak("y")}}}}
						if blockS == nil {
							f.Tasks[1].Deps = []string{"y"}
						}
						emit(said{key: fmt.Sprintf("block %s silent %s%s%s fail %d", mode, tri(fileS), tri(blockS), tri(itemS), fail), f: f})
					}
				}
			}
		}
	}
	// commands of several lines, and odd texts
	for i, text := range []string{"echo said-1\necho said-2", "echo said-é", "echo said-%s%d", "echo said-\\{}", "echo said-$x", "echo said-" + strings.Repeat("y", 500), "echo said-[a]"} {
		f := &spec.File{Tasks: []*spec.Task{{Name: "main", Run: []*spec.Item{spec.Cmd("true"), spec.Cmd(text), speak("z")}}}}
		f.Tasks[0].Run[0].Output = spec.B(false)
		if i == 4 || i == 3 {
			f.Tasks[0].Run[1].Output = spec.B(false)
		}
		emit(said{key: "text " + text[:min(len(text), 30)], f: f})
	}
	// names
	for _, n := range []string{"a:b", "A-1_x", "0", "-", strings.Repeat("n", 100)} {
		emit(said{key: "name " + n[:min(len(n), 10)], f: &spec.File{Tasks: []*spec.Task{{Name: "main", Deps: []string{n}, Run: []*spec.Item{speak("a")}}, {Name: n, Run: []*spec.Item{speak("b")}}}}})
	}
	// long runs
	for _, n := range []int{1, 10, 50, 100, 200} {
		m := &spec.Task{Name: "main"}
		f := &spec.File{Tasks: []*spec.Task{m}}
		for i := range n {
			t := fmt.Sprintf("t%d", i)
			m.Deps = append(m.Deps, t)
			f.Tasks = append(f.Tasks, &spec.Task{Name: t, Run: []*spec.Item{speak(t), spec.Log("say " + t)}})
		}
		m.Run = []*spec.Item{speak("main")}
		emit(said{key: fmt.Sprintf("long %d", n), f: f})
	}
}

// summary says what is wrong with the line that a view leaves behind.
func summary(labels []string, fails []bool, silent bool, g result) string {
	if g.timedOut {
		return "bab did not finish"
	}
	any := slices.Contains(fails, true)
	if (g.exit != 0) != any {
		return fmt.Sprintf("exit status %d", g.exit)
	}
	text := pty.Plain(g.text)
	var found []string
	for _, l := range strings.Split(strings.ReplaceAll(text, "\r", "\n"), "\n") {
		if i := strings.Index(l, "● Parallel ["); i >= 0 {
			found = append(found, strings.TrimSpace(l[i:]))
		}
	}
	if silent {
		if len(found) > 0 {
			return fmt.Sprintf("a silent block is summed up: %q", found)
		}
		return ""
	}
	var marks []string
	for i, l := range labels {
		m := "✓"
		if fails[i] {
			m = "✗"
		}
		marks = append(marks, l+" "+m)
	}
	want := "● Parallel [" + strings.Join(marks, "  ") + "]"
	if len(found) != 1 || found[0] != want {
		return fmt.Sprintf("summed up as %q, must be %q (all: %q)", found, want, text)
	}
	return ""
}

func p30(ch *vlib.Check) {
	ch.Rule("every graph of three tasks and every (quick: with a skipped or failing task every eighth) of four over {none, dependency, reference before or after the command}, with one task skipped, one failing, and all settings of silent on the file, a task and the references; messages of every level in every place, with and without --verbose; blocks of every mode with silent on every level and one item failing; odd texts and names; long runs: the whole of what bab and its commands write, in one file, line by line against the reference execution (lines of one block in any order). Blocks on a terminal: the summary for all outcomes of one to three items and silent on every level. Non-trivial: at least one edge")
	type job struct {
		key  string
		run  func() (result, string)
		show any
	}
	work := make(chan job, 64)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range work {
				ch.Eval(j.key)
				g, why := j.run()
				if j.key != "" {
					ch.Sample(map[string]any{"case": j.key, "text": pty.Plain(g.text), "exit": g.exit})
				}
				if why == "" {
					continue
				}
				again := 0
				for tries := 0; tries < 8 && again < 2; tries++ {
					if g2, w := j.run(); w != "" {
						again++
						g, why = g2, w
					}
				}
				if again < 2 {
					ch.Count("unreproduced", 1)
					continue
				}
				if ch.Violation(j.key, map[string]any{"what": why, "file": j.show, "text": g.text, "exit": g.exit}) {
					fmt.Printf("  %s: %s\n", j.key, why)
				}
			}
		}()
	}
	send := func(j job) bool {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return false
		}
		work <- j
		return true
	}
	plain := view{out: "pipe", err: "same", in: "null"}
	says(ch, func(s said) bool {
		v := plain
		if s.verbose {
			v.flags = []string{"-v"}
		}
		key := s.key
		if s.trivial {
			key = ""
		}
		return send(job{key: key, show: s.f.YAML(), run: func() (result, string) {
			g := run(program{f: s.f, task: "main"}, v, nil)
			return g, misreport(s, g)
		}})
	})
	for _, mode := range []string{"grouped", "tabs"} {
		for n := 1; n <= 3; n++ {
			for code := range 1 << n {
				for _, fileS := range three {
					for _, taskS := range three {
						for _, blockS := range three {
							if !ch.Thorough() && n == 3 && (fileS != nil && taskS != nil && blockS != nil) {
								continue
							}
							var labels []string
							var fails []bool
							b := spec.Par()
							for i := range n {
								l := []string{"one", "two words", "é"}[i]
								it := speak(fmt.Sprint(i))
								if code>>i&1 == 1 {
									it = speakExit(fmt.Sprint(i), 2)
								}
								it.Label = l
								labels, fails = append(labels, l), append(fails, code>>i&1 == 1)
								b.Items = append(b.Items, it)
							}
							b.Mode, b.Silent = mode, blockS
							f := &spec.File{Silent: fileS, Tasks: []*spec.Task{{Name: "main", Silent: taskS, Run: []*spec.Item{b}}}}
							silent := false
							for _, x := range []*bool{fileS, taskS, blockS} {
								if x != nil {
									silent = *x
								}
							}
							if !send(job{key: fmt.Sprintf("summary %s %v silent %s%s%s", mode, fails, tri(fileS), tri(taskS), tri(blockS)), show: f.YAML(), run: func() (result, string) {
								g := run(program{f: f, task: "main"}, view{out: "tty", err: "tty", in: "tty", w: 100, h: 30}, []string{"TERM=xterm-256color"})
								return g, summary(labels, fails, silent, g)
							}}) {
								break
							}
						}
					}
				}
			}
		}
	}
	close(work)
	wg.Wait()

}
