package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// ptyEvent is a step of a session: something an item's command does, or a key.
type ptyEvent struct {
	name string
	do   string // out, ok, fail or key
	item string
	k    key
}

// viewPty drives the real bab: the items' commands read what to do from
// pipes, one step at a time, and after every step the screen is compared
// with the reference.
func viewPty(ch *vlib.Check) {
	type shape struct {
		name string
		mode string
		yaml string
		leaf []string // items with a command
		pre  []event  // reference events before the first step
		act  []string // the items whose commands take part in the steps, if not all
		turn bool     // one item at a time
	}
	cmd := func(i string) string {
		return fmt.Sprintf("echo $$ > $FIFO/pid.%s; while read -r a b; do case $a in out) echo \"$b\";; ok) exit 0;; fail) exit 1;; esac; done < $FIFO/%s", i, i)
	}
	head := func(mode string) string {
		return "tasks:\n  t:\n    silent: true\n    run:\n      - mode: " + mode + "\n        parallel:\n"
	}
	var shapes []shape
	st := func(k string) event { return event{kind: "start", key: k} }
	for _, mode := range []string{"grouped", "tabs"} {
		flat := head(mode)
		for _, i := range []string{"0", "1"} {
			flat += fmt.Sprintf("          - cmd: '%s'\n            label: item%s\n", cmd(i), i)
		}
		shapes = append(shapes, shape{"flat", mode, flat, []string{"0", "1"}, []event{st("0"), st("1")}, nil, false})
		shapes = append(shapes, shape{"in turn", mode, flat + "        limit: 1\n", []string{"0", "1"}, nil, nil, true})
		nested := head(mode) + "          - task: inner\n            label: item0\n" + fmt.Sprintf("          - cmd: '%s'\n            label: item1\n", cmd("1")) +
			"  inner:\n    run:\n      - mode: " + mode + "\n        parallel:\n"
		for _, i := range []string{"0.0", "0.1"} {
			nested += fmt.Sprintf("          - cmd: '%s'\n            label: child-%s\n            silent: true\n", cmd(i), i)
		}
		shapes = append(shapes, shape{"nested", mode, nested, []string{"0.0", "0.1", "1"}, []event{st("0"), st("1"), {kind: "nest", key: "0"}, st("0.0"), st("0.1")}, nil, false})
		// Blocks in blocks in blocks: all of their items are in progress.
		deep := head(mode)
		pre := []event{}
		var leaf []string
		p := ""
		for d := range 4 {
			label := func(i string) string {
				if d == 0 {
					return "item" + i
				}
				return "child-" + p + i
			}
			if d > 0 {
				deep += fmt.Sprintf("  b%d:\n    run:\n      - mode: %s\n        parallel:\n", d, mode)
				pre = append(pre, event{kind: "nest", key: strings.TrimSuffix(p, ".")})
			}
			for i := range 2 {
				k := p + itoa(i)
				pre = append(pre, st(k))
				if i == 0 && d < 3 {
					deep += fmt.Sprintf("          - task: b%d\n            label: %s\n", d+1, label("0"))
					continue
				}
				leaf = append(leaf, k)
				deep += fmt.Sprintf("          - cmd: '%s'\n            label: %s\n            silent: true\n", cmd(k), label(itoa(i)))
			}
			p += "0."
		}
		shapes = append(shapes, shape{"deep", mode, deep, leaf, pre, []string{"0.0.0.0", "0.0.0.1", "0.0.1"}, false})
	}
	type job struct {
		sh    shape
		steps []ptyEvent
	}
	var jobs []job
	for _, sh := range shapes {
		var evs []ptyEvent
		act := sh.act
		if act == nil {
			act = sh.leaf
		}
		for _, l := range act {
			evs = append(evs, ptyEvent{"out " + l, "out", l, key{}}, ptyEvent{"ok " + l, "ok", l, key{}}, ptyEvent{"fail " + l, "fail", l, key{}})
		}
		if sh.mode == "tabs" {
			evs = append(evs, ptyEvent{"tab", "key", "", kTab})
		}
		stops := []ptyEvent{{name: "ctrl+c", do: "stop"}, {name: "SIGINT", do: "stop"}, {name: "SIGTERM", do: "stop"}}
		depth := 3
		if ch.Thorough() {
			depth = 5
		}
		var gen func(h []ptyEvent, ended map[string]bool)
		gen = func(h []ptyEvent, ended map[string]bool) {
			if len(h) < depth {
				for _, e := range stops {
					jobs = append(jobs, job{sh, append(append([]ptyEvent{}, h...), e)})
				}
			}
			if len(h) == depth || len(ended) == len(act) {
				jobs = append(jobs, job{sh, append([]ptyEvent{}, h...)})
				return
			}
			for _, e := range evs {
				if e.do != "key" && ended[e.item] || e.do == "key" && len(h) > 0 && h[len(h)-1].do == "key" {
					continue
				}
				if e.do == "fail" && e.item != act[0] || sh.turn && e.item == "1" && !ended["0"] {
					continue
				}
				n := map[string]bool{}
				for k := range ended {
					n[k] = true
				}
				if e.do == "ok" || e.do == "fail" {
					n[e.item] = true
				}
				gen(append(h, e), n)
			}
		}
		gen(nil, map[string]bool{})
	}
	ch.Count("pty_sessions", int64(len(jobs)))
	var mu sync.Mutex
	n, failures := 0, 0
	parallel(jobs, func(j job) {
		mu.Lock()
		stop := failures >= 10
		mu.Unlock()
		if stop || ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return
		}
		mu.Lock()
		n++
		dir := filepath.Join(bb.Scratch(), "view"+itoa(n))
		mu.Unlock()
		_ = os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		_ = os.WriteFile(filepath.Join(dir, "Babfile"), []byte(j.sh.yaml), 0o644)
		pipes := map[string]*os.File{}
		for _, l := range j.sh.leaf {
			f := filepath.Join(dir, l)
			_ = syscall.Mkfifo(f, 0o600)
			p, err := os.OpenFile(f, os.O_RDWR, 0)
			if err != nil {
				panic(err)
			}
			pipes[l] = p
			defer p.Close()
		}
		env := append(bb.BaseEnv(dir, filepath.Join(dir, "log")), "FIFO="+dir)
		for i, e := range env {
			if strings.HasPrefix(e, "TERM=") {
				env[i] = "TERM=xterm-256color"
			}
		}
		s, err := pty.Start(bb.Bab(), []string{"t"}, dir, env, 80, 24)
		if err != nil {
			fmt.Println("pty:", err)
			os.Exit(3)
		}
		defer s.Close()
		var v viewModel
		v.start([]string{"item0", "item1"})
		v.apply(event{kind: "size", k: size(80, 24)})
		for _, e := range j.sh.pre {
			v.apply(e)
		}
		// Which of the items has the first turn is not determined: in the steps
		// it is 0.
		as := func(item string) string { return item }
		if j.sh.turn {
			first := ""
			for until := time.Now().Add(15 * time.Second); first == "" && time.Now().Before(until); time.Sleep(2 * time.Millisecond) {
				for _, l := range j.sh.leaf {
					if b, _ := os.ReadFile(filepath.Join(dir, "pid."+l)); len(b) > 0 {
						first = l
					}
				}
			}
			if first == "1" {
				as = func(item string) string { return map[string]string{"0": "1", "1": "0"}[item] }
			}
			v.apply(st(as("0")))
		}
		var done []string
		why := ""
		look := func() string {
			sc := pty.NewScreen(80, 24)
			sc.Write(s.Output())
			lines := sc.Lines()
			if j.sh.mode == "tabs" {
				if !sc.Alt {
					return "no full screen view"
				}
				for len(lines) > 0 && strings.TrimSpace(lines[len(lines)-1]) == "" {
					lines = lines[:len(lines)-1]
				}
				_, w := v.tabs(strings.Join(lines, "\n"))
				return w
			}
			from, to := -1, -1
			for i, l := range lines {
				if from < 0 && strings.HasPrefix(l, "┌─") {
					from = i
				}
				if strings.HasPrefix(l, "└") {
					to = i
				}
			}
			if from < 0 || to < from {
				return "no view"
			}
			return v.grouped(strings.Join(lines[from:to+1], "\n"))
		}
		settle := func() bool {
			deadline := time.Now().Add(15 * time.Second)
			for {
				w := look()
				if w == "" {
					return true
				}
				if time.Now().After(deadline) || !s.Running() {
					why = w
					return false
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
		id := func() string { return j.sh.mode + " " + j.sh.name + " on a terminal: " + strings.Join(done, ", ") }
		fail := func() {
			sc := pty.NewScreen(80, 24)
			sc.Write(s.Output())
			fmt.Println("  ", why)
			mu.Lock()
			failures++
			mu.Unlock()
			ch.Violation(id(), map[string]any{"why": why, "screen": sc.Lines(), "unknown": sc.Unknown, "running": s.Running(), "babfile": j.sh.yaml})
		}
		if !settle() {
			fail()
			return
		}
		ended := map[string]bool{}
		failed := false
		for _, e := range j.steps {
			done = append(done, e.name)
			if e.item != "" {
				e.item = as(e.item)
			}
			switch e.do {
			case "out":
				it := v.items[e.item]
				text := fmt.Sprintf("line %d of %s", it.n+1, e.item)
				v.apply(event{kind: "out", key: e.item})
				fmt.Fprintf(pipes[e.item], "out %s\n", text)
			case "ok", "fail":
				fmt.Fprintf(pipes[e.item], "%s\n", e.do)
				ended[e.item] = true
				v.apply(event{kind: e.do, key: e.item})
				failed = failed || e.do == "fail"
				if j.sh.turn && len(ended) == 1 {
					v.apply(st(as("1")))
				}
				for at := e.item; strings.Contains(at, "."); {
					at = at[:strings.LastIndex(at, ".")]
					kids, all, bad := "", true, false
					for i, c := range v.items[at].children {
						it := v.items[c]
						all = all && it.done
						bad = bad || it.err != nil
						if i > 0 {
							kids += "  "
						}
						kids += it.label + " " + v.status(it)
					}
					if !all {
						break
					}
					// The nested block ends: its summary and the outcome of its item.
					v.apply(event{kind: "unnest", key: at})
					v.items[at].lines = []string{"● Parallel [" + kids + "]"}
					if bad {
						v.apply(event{kind: "fail", key: at})
					} else {
						v.apply(event{kind: "ok", key: at})
					}
				}
			case "stop":
				// Everything ends: bab, the commands, and the terminal is as before.
				switch e.name {
				case "ctrl+c":
					s.Send("\x03")
				case "SIGINT":
					_ = syscall.Kill(s.Pid(), syscall.SIGINT)
				case "SIGTERM":
					_ = syscall.Kill(s.Pid(), syscall.SIGTERM)
				}
				ch.Validated(1)
				if !s.Wait(30 * time.Second) {
					why = "bab does not end"
					fail()
					return
				}
				if s.Termios() != s.Before {
					why = "the terminal is not left as it was found"
					fail()
					return
				}
				for _, l := range j.sh.leaf {
					b, _ := os.ReadFile(filepath.Join(dir, "pid."+l))
					pid := 0
					_, _ = fmt.Sscan(string(b), &pid)
					if pid > 1 && !ended[l] && alive(pid) {
						why = "the command of " + l + " is still running"
						fail()
						return
					}
				}
				ch.Eval(id())
				return
			case "key":
				v.apply(event{kind: "key", name: e.k.name, k: e.k})
				s.Send(e.k.pty)
			}
			if len(ended) == len(j.sh.leaf) {
				break
			}
			ch.Validated(1)
			if !settle() {
				fail()
				return
			}
		}
		for _, l := range j.sh.leaf {
			if !ended[l] {
				fmt.Fprintln(pipes[l], "ok")
			}
		}
		if !s.Wait(20 * time.Second) {
			why = "bab does not end"
			fail()
			return
		}
		if (s.Exit != 0) != failed {
			why = fmt.Sprintf("exit %d", s.Exit)
			fail()
		}
		ch.Eval(id())
	})
}

// alive tells whether a process goes on for longer than it takes to end.
func alive(pid int) bool {
	for range 200 {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		if err != nil {
			return false
		}
		if i := strings.LastIndexByte(string(b), ')'); i > 0 && strings.HasPrefix(string(b)[i+1:], " Z") {
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
	return true
}
