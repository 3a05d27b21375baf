// Command watch decides P28 and P30: what bab reports is what it does, and how bab's output is watched changes nothing
// about what runs. Every program is run once plainly and then in every way of
// watching it, and all of them must have done the same.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// program is one Babfile and how it is asked to run.
type program struct {
	name   string
	f      *spec.File
	raw    string // the file as it is, instead of f
	task   string
	args   []string // instead of the task
	exit   int
	any    bool // order is free (parallel items)
	prints bool // commands write to standard output and error
	slow   bool // long enough to be watched by slow readers only
}

// mark records its name, its place and its whole environment.
func mark(id string) *spec.Item { return spec.Cmd(record(id)) }

func record(id string) string {
	return `echo ` + id + ` ${PWD##*/} $(env | grep -v -e ^HOME= -e ^XDG_ -e ^BLOG= -e ^PWD= -e ^OLDPWD= -e ^_= | sort | cksum) >>"$BLOG"`
}

func markExit(id string, code int) *spec.Item {
	return spec.Cmd(fmt.Sprintf(`%s; exit %d`, record(id), code))
}

func loud(id string) *spec.Item {
	return spec.Cmd(fmt.Sprintf(`echo out-%s; echo err-%s >&2; %s`, id, id, record(id)))
}

func with(it *spec.Item, f func(*spec.Item)) *spec.Item { f(it); return it }

func task(name string, run ...*spec.Item) *spec.Task { return &spec.Task{Name: name, Run: run} }

func par(mode string, limit int, color *bool, items ...*spec.Item) *spec.Item {
	p := spec.Par(items...)
	p.Mode, p.Limit, p.Color = mode, limit, color
	return p
}

func programs(thorough bool) []program {
	file := func(t ...*spec.Task) *spec.File { return &spec.File{Tasks: t} }
	var l []program
	add := func(name string, exit int, f *spec.File) *program {
		l = append(l, program{name: name, f: f, task: "main", exit: exit})
		return &l[len(l)-1]
	}
	add("one", 0, file(task("main", mark("a"))))
	add("steps", 0, file(task("main", mark("a"), spec.Log("hello"), spec.Ref("t"), mark("b")), task("t", mark("t"))))
	for _, lv := range []string{"debug", "info", "warn", "error"} {
		add("log "+lv, 0, file(task("main", mark("a"), with(spec.Log("say"), func(i *spec.Item) { i.Level = lv }), mark("b"))))
	}
	add("logs only", 0, file(task("main", spec.Log("one"), with(spec.Log("two"), func(i *spec.Item) { i.Level = "error" }))))
	add("fails", 1, file(task("main", mark("a"), markExit("b", 3), mark("c"))))
	add("killed", 1, file(task("main", spec.Cmd(record("a")+`; kill -9 $$`), mark("b"))))
	add("dep fails", 1, file(&spec.Task{Name: "main", Deps: []string{"t"}, Run: []*spec.Item{mark("a")}}, task("t", markExit("t", 1))))
	add("deps", 0, file(&spec.Task{Name: "main", Deps: []string{"s", "t"}, Run: []*spec.Item{mark("a")}}, task("t", mark("t")), &spec.Task{Name: "s", Deps: []string{"t"}, Run: []*spec.Item{mark("s")}}))
	add("when", 0, file(task("main", with(mark("a"), func(i *spec.Item) { i.When = "false" }), with(mark("b"), func(i *spec.Item) { i.When = "${{ v }} == 1" }), with(spec.Ref("t"), func(i *spec.Item) { i.When = "${{ v }} != 1" })), task("t", mark("t"))))
	l[len(l)-1].f.Vars = spec.KV{{"v", "1"}}
	add("dirs", 0, &spec.File{Dir: "sub", Env: spec.KV{{"A", "1"}}, Tasks: []*spec.Task{
		{Name: "main", Env: spec.KV{{"B", "2"}}, Run: []*spec.Item{mark("a"), with(mark("b"), func(i *spec.Item) { i.Dir = "/" }), with(mark("c"), func(i *spec.Item) { i.Env = spec.KV{{"A", "3"}, {"TERM", "mine"}, {"NO_COLOR", "x"}} })}}}})
	for _, s := range []*bool{spec.B(true), spec.B(false)} {
		for _, o := range []*bool{spec.B(true), spec.B(false)} {
			f := file(task("main", loud("a"), spec.Ref("t"), par("", 0, nil, loud("p"), loud("q"))), task("t", loud("t")))
			f.Silent, f.Output = s, o
			p := add(fmt.Sprintf("silent %v output %v", *s, *o), 0, f)
			p.prints, p.any = *o, true
		}
	}
	for _, mode := range []string{"interleaved", "grouped", "tabs"} {
		for _, color := range []*bool{nil, spec.B(false)} {
			n := mode
			if color != nil {
				n += " no color"
			}
			add(n, 0, file(task("main", mark("a"), par(mode, 0, color, mark("p"), mark("q"), mark("r")), mark("b")))).any = true
			add(n+" loud", 0, file(task("main", loud("a"), par(mode, 0, color, loud("p"), loud("q")), loud("b"))))
			l[len(l)-1].any, l[len(l)-1].prints = true, true
			add(n+" limit", 0, file(task("main", par(mode, 1, color, mark("p"), mark("q"), mark("r"))))).any = true
			add(n+" fails", 1, file(task("main", par(mode, 0, color, mark("p"), markExit("q", 2)), mark("b")))).any = true
			add(n+" tasks", 0, file(task("main", par(mode, 0, color, spec.Ref("s"), spec.Ref("t"), spec.Log("x")), mark("b")),
				&spec.Task{Name: "s", Deps: []string{"u"}, Run: []*spec.Item{mark("s")}}, task("t", mark("t"), mark("t2")), task("u", mark("u")))).any = true
			add(n+" nested", 0, file(task("main", par(mode, 0, color, spec.Ref("s"), mark("p"))),
				task("s", par("grouped", 0, nil, mark("x"), mark("y")), mark("z")))).any = true
		}
		add(mode+" twice", 0, file(task("main", par(mode, 0, nil, mark("p"), mark("q")), mark("a"), par(mode, 0, nil, mark("r"), mark("s")), mark("b")))).any = true
		add(mode+" nothing left", 0, file(task("main", par(mode, 0, nil, with(mark("p"), func(i *spec.Item) { i.When = "false" }), with(mark("q"), func(i *spec.Item) { i.When = "false" })), mark("b")))).any = true
	}
	big := func(mode string, n int) {
		it := func(id string) *spec.Item {
			return spec.Cmd(fmt.Sprintf(`i=0; while [ $i -lt %d ]; do echo %s-$i-xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx; i=$((i+1)); done; %s`, n, id, record(id)))
		}
		p := add(fmt.Sprintf("big %s %d", mode, n), 0, file(task("main", it("a"), par(mode, 0, nil, it("p"), it("q")), it("b"))))
		p.any, p.prints, p.slow = true, true, true
	}
	for _, mode := range []string{"interleaved", "grouped", "tabs"} {
		big(mode, 800)
	}
	// asked wrongly
	l = append(l,
		program{name: "unknown task", raw: "tasks:\n  main:\n    run:\n      - cmd: echo a >>\"$BLOG\"\n", task: "mian", exit: 1},
		program{name: "bad file", raw: "tasks:\n  main:\n    run:\n      - cmd: echo a >>\"$BLOG\"\n      - cmd: ''\n  t: {deps: [u]}\n", task: "main", exit: 1},
		program{name: "bad yaml", raw: "tasks: [\n", task: "main", exit: 1},
		program{name: "bad dir", raw: "tasks:\n  main:\n    dir: nowhere\n    run:\n      - cmd: echo a >>\"$BLOG\"\n", task: "main", exit: 1},
		program{name: "list", raw: "tasks:\n  main:\n    desc: say a\n    run:\n      - cmd: echo a >>\"$BLOG\"\n", args: []string{"-l"}, prints: true},
		program{name: "validate", raw: "tasks:\n  main:\n    run:\n      - cmd: echo a >>\"$BLOG\"\n", args: []string{"--validate"}, prints: true},
		program{name: "validate bad", raw: "tasks:\n  main:\n    deps: [x]\n", args: []string{"--validate"}, exit: 1},
		program{name: "dry", raw: "tasks:\n  main:\n    run:\n      - cmd: echo a >>\"$BLOG\"\n      - parallel:\n          - cmd: echo b >>\"$BLOG\"\n          - cmd: echo c >>\"$BLOG\"\n", args: []string{"-n", "main"}, prints: true},
		program{name: "completion", raw: "tasks:\n  main:\n    run:\n      - cmd: echo a >>\"$BLOG\"\n", args: []string{"-c", "bash"}, prints: true},
		program{name: "version", raw: "tasks:\n  main:\n    run:\n      - cmd: echo a >>\"$BLOG\"\n", args: []string{"--version"}, prints: true},
		program{name: "help", raw: "tasks:\n  main:\n    run:\n      - cmd: echo a >>\"$BLOG\"\n", args: []string{"--help"}, prints: true},
		program{name: "bad flag", raw: "tasks:\n  main:\n    run:\n      - cmd: echo a >>\"$BLOG\"\n", args: []string{"--nope"}, exit: 1},
	)
	return l
}

// view is one way of watching a run.
type view struct {
	name     string
	out, err string // pipe, slow, file, null, full, tty, same (as out), closed
	in       string // null, pipe, file, closed, tty
	w, h     int
	flags    []string
	late     bool // flags after the task
}

func (v view) key() string {
	s := v.out + "/" + v.err + "/" + v.in
	if v.w+v.h > 0 {
		s += fmt.Sprintf(" %dx%d", v.w, v.h)
	}
	if len(v.flags) > 0 {
		s += " " + strings.Join(v.flags, " ")
	}
	if v.late {
		s += " late"
	}
	return s
}

func (v view) tty() bool { return v.out == "tty" || v.err == "tty" || v.in == "tty" }

// envs are settings of the surroundings that only concern how things look.
var envs = [][]string{
	nil, {"TERM="}, {"TERM=xterm-256color", "COLORTERM=truecolor"}, {"TERM=linux"}, {"TERM=bogus"}, {"-TERM"},
	{"NO_COLOR=1"}, {"NO_COLOR="}, {"CLICOLOR_FORCE=1"}, {"CLICOLOR=0"}, {"FORCE_COLOR=1"}, {"FORCE_COLOR=0"},
	{"COLUMNS=1", "LINES=1"}, {"COLUMNS=x", "LINES=-1"}, {"COLUMNS=100000"}, {"LANG=C", "LC_ALL=C"}, {"LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8"}, {"-LANG"},
	{"TZ=Nowhere/Land"}, {"ACCESSIBLE=1"}, {"CI=true"}, {"DEBUG=1"}, {"TERM=xterm-256color", "NO_COLOR=1", "CLICOLOR_FORCE=1"}, {"TERM=screen", "TMUX=/x,1,0"}, {"RUNEWIDTH_EASTASIAN=1"}, {"GITHUB_ACTIONS=true"}, {"PAGER=false", "EDITOR=false"},
}

func environ(home, log string, add []string) []string {
	env := bb.BaseEnv(home, log)
	for _, a := range add {
		name, _, set := strings.Cut(strings.TrimPrefix(a, "-"), "=")
		env = slices.DeleteFunc(env, func(e string) bool { return strings.HasPrefix(e, name+"=") })
		if set {
			env = append(env, a)
		}
	}
	return env
}

type result struct {
	exit     int
	log      []string
	text     string // what a person could have read
	hasText  bool
	timedOut bool
}

// drain reads everything, slowly if asked to.
func drain(r *os.File, slow bool, into *bytes.Buffer, mu *sync.Mutex, done *sync.WaitGroup) {
	defer done.Done()
	buf := make([]byte, 32768)
	if slow {
		buf = buf[:4096]
	}
	for {
		if slow {
			time.Sleep(300 * time.Microsecond)
		}
		n, err := r.Read(buf)
		mu.Lock()
		into.Write(buf[:n])
		mu.Unlock()
		if err != nil {
			return
		}
	}
}

func run(p program, v view, env []string) result {
	outer := bb.NewRoot()
	defer bb.RemoveRoot(outer)
	root := filepath.Join(outer, "p")
	home := filepath.Join(outer, "home")
	log := filepath.Join(outer, "blog")
	_ = os.MkdirAll(filepath.Join(root, "sub"), 0o755)
	_ = os.MkdirAll(home, 0o755)
	text := p.raw
	if p.f != nil {
		text = p.f.YAML()
	}
	if err := os.WriteFile(filepath.Join(root, "Babfile"), []byte(text), 0o644); err != nil {
		panic(err)
	}
	args := append([]string{}, p.args...)
	if p.args == nil {
		args = []string{p.task}
	}
	if v.late {
		args = append(args, v.flags...)
	} else {
		args = append(append([]string{}, v.flags...), args...)
	}
	cmd := exec.Command(bb.Bab(), args...)
	cmd.Dir, cmd.Env = root, environ(home, log, env)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}

	var res result
	var seen bytes.Buffer
	var mu sync.Mutex
	var done sync.WaitGroup
	var ours, theirs, readers []*os.File
	var session *pty.Held
	if v.tty() {
		s, err := pty.Hold(v.w, v.h)
		if err != nil {
			fmt.Println("no terminal:", err)
			os.Exit(3)
		}
		session = s
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	}
	open := func(kind, name string) *os.File {
		var f *os.File
		var err error
		switch kind {
		case "closed":
			return nil
		case "null":
			f, err = os.OpenFile("/dev/null", os.O_RDWR, 0)
		case "full":
			f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		case "file":
			f, err = os.OpenFile(filepath.Join(outer, name), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
		case "tty":
			return session.Slave
		case "pipe", "slow":
			var r, w *os.File
			if r, w, err = os.Pipe(); err == nil {
				if name == "stdin" {
					ours, f = append(ours, w), r
				} else {
					res.hasText = true
					done.Add(1)
					go drain(r, kind == "slow", &seen, &mu, &done)
					readers = append(readers, r)
					f = w
				}
			}
		}
		if err != nil {
			fmt.Println("cannot open", kind, err)
			os.Exit(3)
		}
		theirs = append(theirs, f)
		return f
	}
	in, out := open(v.in, "stdin"), open(v.out, "stdout")
	errf := out
	if v.err != "same" {
		errf = open(v.err, "stderr")
	}
	fin, fout, ferr := in, out, errf
	if fin == nil || fout == nil || ferr == nil {
		// descriptors that are closed: a shell closes them before it turns into bab
		sh := "exec"
		for i, f := range []*os.File{fin, fout, ferr} {
			if f == nil {
				sh += []string{" <&-", " >&-", " 2>&-"}[i]
			}
		}
		sh += ` "$0" "$@"`
		c := exec.Command("/bin/sh", append([]string{"-c", sh, bb.Bab()}, args...)...)
		c.Dir, c.Env, c.SysProcAttr = cmd.Dir, cmd.Env, cmd.SysProcAttr
		cmd = c
	}
	if fin != nil {
		cmd.Stdin = fin
	}
	if fout != nil {
		cmd.Stdout = fout
	}
	if ferr != nil {
		cmd.Stderr = ferr
	}
	if session != nil {
		for fd, k := range []string{v.in, v.out, v.err} {
			if k == "tty" {
				cmd.SysProcAttr.Setctty, cmd.SysProcAttr.Ctty = true, fd
				break
			}
		}
	}
	var err error
	for attempt := 0; ; attempt++ {
		if err = cmd.Start(); err == nil {
			break
		}
		if attempt == 5 || !(errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.ETXTBSY)) {
			fmt.Println("cannot start bab:", err)
			os.Exit(3)
		}
		time.Sleep(200 * time.Millisecond)
		n := exec.Command(cmd.Path)
		n.Args, n.Dir, n.Env, n.SysProcAttr, n.Stdin, n.Stdout, n.Stderr = cmd.Args, cmd.Dir, cmd.Env, cmd.SysProcAttr, cmd.Stdin, cmd.Stdout, cmd.Stderr
		cmd = n
	}
	for _, f := range theirs {
		_ = f.Close()
	}
	if session != nil {
		session.Release()
	}
	timer := time.AfterFunc(bb.Timeout, func() {
		res.timedOut = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err = cmd.Wait()
	timer.Stop()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		res.exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.exit = 128 + int(ws.Signal())
		}
	} else if err != nil {
		res.exit = -1
	}
	done.Wait()
	for _, f := range append(ours, readers...) {
		_ = f.Close()
	}
	mu.Lock()
	res.text = seen.String()
	mu.Unlock()
	if session != nil {
		if v.err == "tty" || v.out == "tty" {
			res.text += session.Output()
			res.hasText = true
		}
		session.Close()
	}
	if v.out == "file" || v.err == "file" {
		for _, n := range []string{"stdout", "stderr"} {
			data, _ := os.ReadFile(filepath.Join(outer, n))
			res.text += string(data)
		}
		res.hasText = true
	}
	res.log = bb.ReadLog(log)
	return res
}

// ids are the first words of the lines.
func ids(l []string) []string {
	var r []string
	for _, s := range l {
		w, _, _ := strings.Cut(s, " ")
		r = append(r, w)
	}
	return r
}

func sorted(l []string) []string {
	l = slices.Clone(l)
	slices.Sort(l)
	return l
}

// differ says how a watched run is unlike the plain one.
func differ(p program, v view, base, g result) string {
	if g.timedOut {
		return "bab did not finish"
	}
	a, b := base.log, g.log
	if p.any {
		a, b = sorted(a), sorted(b)
	}
	if !slices.Equal(ids(a), ids(b)) {
		return fmt.Sprintf("ran %v, and plainly watched %v", ids(b), ids(a))
	}
	if !slices.Equal(a, b) {
		return fmt.Sprintf("commands had another place or environment: %v, and plainly watched %v", b, a)
	}
	if base.exit != g.exit {
		return fmt.Sprintf("exit status %d, and plainly watched %d", g.exit, base.exit)
	}
	if v.err != "full" && v.err != "null" && v.err != "closed" && g.exit != 0 && g.hasText && strings.TrimSpace(pty.Plain(g.text)) == "" {
		return "failed without a message"
	}
	return ""
}

// wrong says what is wrong with a plain run.
func wrong(p program, g result) string {
	if g.timedOut {
		return "bab did not finish"
	}
	if g.exit != p.exit {
		return fmt.Sprintf("exit status %d, must be %d: %s", g.exit, p.exit, g.text)
	}
	var want []string
	if p.f != nil {
		r := spec.Eval(p.f, p.task, spec.World{OS: "linux", Env: func(string) string { return "" }, Exit: func(it *spec.Item) int {
			var n int
			if i := strings.Index(it.Text, "; exit "); i >= 0 {
				_, _ = fmt.Sscanf(it.Text[i:], "; exit %d", &n)
			}
			if strings.Contains(it.Text, "kill -9") {
				n = 137
			}
			return n
		}})
		for _, e := range r.Events {
			if e.Kind == "run" {
				i := strings.LastIndex(e.Text[:strings.Index(e.Text, "${PWD")], "echo ")
				want = append(want, strings.Fields(e.Text[i:])[1])
			}
		}
	}
	have := ids(g.log)
	if p.any {
		want, have = sorted(want), sorted(have)
	}
	if !slices.Equal(want, have) {
		return fmt.Sprintf("ran %v, must be %v", have, want)
	}
	return ""
}

type job struct {
	p    int
	v    view
	env  []string
	base string
}

func check(ch *vlib.Check) {
	ch.Rule("every program (each kind of step, success and failure, every mode of parallel, silent and output settings, wrong requests and the other commands) watched in every way: standard output and error each a pipe, a slowly read pipe, a file, /dev/null, /dev/full or closed, the same or not, standard input /dev/null, a pipe, a file or closed; a terminal of every listed size on any of the three; with and without --verbose before and after the task; under every listed setting of the surroundings that concerns looks; against the plain run of the same program under the same setting; non-trivial: a way other than the plain one")
	progs := programs(ch.Thorough())
	plain := view{out: "pipe", err: "pipe", in: "null"}

	var views []view
	sinks := []string{"pipe", "file", "null", "full", "closed"}
	for _, o := range sinks {
		for _, e := range append([]string{"same"}, sinks...) {
			views = append(views, view{out: o, err: e, in: "null"})
		}
	}
	for _, in := range []string{"pipe", "file", "closed"} {
		views = append(views, view{out: "pipe", err: "pipe", in: in}, view{out: "pipe", err: "same", in: in, flags: []string{"-v"}})
	}
	for _, f := range []string{"-v", "--verbose"} {
		for _, late := range []bool{false, true} {
			views = append(views, view{out: "pipe", err: "pipe", in: "null", flags: []string{f}, late: late})
		}
	}
	views = append(views, view{out: "full", err: "full", in: "null", flags: []string{"-v"}}, view{out: "slow", err: "slow", in: "null"}, view{out: "slow", err: "same", in: "null", flags: []string{"-v"}})
	sizes := [][2]int{{80, 24}, {1, 1}, {2, 2}, {3, 1}, {1, 50}, {10, 3}, {200, 1}, {400, 100}}
	if ch.Thorough() {
		sizes = append(sizes, [2]int{0, 0}, [2]int{0, 24}, [2]int{80, 0}, [2]int{40, 10}, [2]int{65535, 65535}, [2]int{120, 2}, [2]int{5, 5})
	}
	for i, s := range sizes {
		for _, m := range [][3]string{{"tty", "tty", "tty"}, {"tty", "pipe", "null"}, {"pipe", "tty", "null"}, {"null", "tty", "tty"}, {"tty", "full", "tty"}, {"full", "tty", "null"}, {"pipe", "pipe", "tty"}, {"file", "file", "tty"}} {
			if i > 0 && m[0] != "tty" && m[1] != "tty" {
				continue
			}
			views = append(views, view{out: m[0], err: m[1], in: m[2], w: s[0], h: s[1]})
			if i < 2 {
				views = append(views, view{out: m[0], err: m[1], in: m[2], w: s[0], h: s[1], flags: []string{"-v"}})
			}
		}
	}

	var jobs []job
	for pi, p := range progs {
		for _, v := range views {
			if p.prints && (v.out == "full" || v.err == "full" || v.out == "closed" || v.err == "closed") {
				continue // the commands themselves could not write
			}
			if p.slow {
				if v.out != "slow" && v.out != "tty" && v.err != "tty" || v.w > 80 {
					continue // on a large screen the views take milliseconds a line
				}
			}
			jobs = append(jobs, job{p: pi, v: v})
			if v.tty() && v.w == 80 {
				jobs = append(jobs, job{p: pi, v: v, env: envs[2]})
			}
		}
		if p.slow {
			continue
		}
		for _, e := range envs[1:] {
			// the plain run under this setting is itself compared in what ran
			jobs = append(jobs, job{p: pi, v: view{out: "pipe", err: "same", in: "null", flags: []string{"-v"}}, env: e},
				job{p: pi, v: view{out: "tty", err: "tty", in: "tty", w: 80, h: 24}, env: e})
			if ch.Thorough() {
				for _, v := range views {
					if v.tty() && !(p.prints && (v.out == "full" || v.err == "full")) {
						jobs = append(jobs, job{p: pi, v: v, env: e})
					}
				}
			}
		}
	}

	type bkey struct {
		p int
		e string
	}
	var mu sync.Mutex
	bases := map[bkey]*struct {
		once sync.Once
		r    result
		bad  string
	}{}
	base := func(j job) (result, string) {
		k := bkey{j.p, strings.Join(j.env, " ")}
		mu.Lock()
		b := bases[k]
		if b == nil {
			b = &struct {
				once sync.Once
				r    result
				bad  string
			}{}
			bases[k] = b
		}
		mu.Unlock()
		b.once.Do(func() {
			for range 3 {
				b.r = run(progs[j.p], plain, j.env)
				if b.bad = wrong(progs[j.p], b.r); b.bad == "" {
					break
				}
			}
		})
		return b.r, b.bad
	}

	work := make(chan job, 64)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range work {
				p := progs[j.p]
				b, bad := base(j)
				key := fmt.Sprintf("%s | %s | %s", p.name, j.v.key(), strings.Join(j.env, " "))
				ch.Eval(key)
				if bad != "" {
					ch.Violation(fmt.Sprintf("%s | plain | %s", p.name, strings.Join(j.env, " ")), map[string]any{"what": bad, "log": b.log, "text": b.text, "program": p.name})
					continue
				}
				g := run(p, j.v, j.env)
				ch.Sample(map[string]any{"case": key, "log": g.log, "exit": g.exit})
				why := differ(p, j.v, b, g)
				if why == "" {
					continue
				}
				again := 0
				for tries := 0; tries < 10 && again < 2; tries++ {
					g2 := run(p, j.v, j.env)
					if w := differ(p, j.v, b, g2); w != "" {
						again++
						why, g = w, g2
					}
				}
				if again == 0 {
					ch.Count("unreproduced", 1)
					continue
				}
				file := p.raw
				if p.f != nil {
					file = p.f.YAML()
				}
				if ch.Violation(key, map[string]any{"what": why, "program": p.name, "file": file, "view": j.v.key(), "env": j.env, "log": g.log, "exit": g.exit, "text": g.text}) {
					fmt.Printf("  %s: %s\n", key, why)
				}
			}
		}()
	}
	for _, j := range jobs {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			break
		}
		work <- j
	}
	close(work)
	wg.Wait()
	ch.Set("programs", len(progs))
	ch.Set("jobs", len(jobs))
	ch.Set("ways_of_watching", len(views))
}

func main() {
	bb.Timeout = 2 * time.Minute
	ch := vlib.New(os.Args[1], "exploration")
	if os.Args[1] == "P30" {
		p30(ch)
	} else {
		check(ch)
	}
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}
