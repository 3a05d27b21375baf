// Command asis decides P29: the commands of a task do what the same texts do
// when a shell runs them one after another.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// commands are the alphabet of the sequences.
var commands = []string{
	`true`,
	`read x; echo "got $x"`,
	`head -c 3 | od -c`,
	`cat`,
	`read x || echo end; exit 0`,
	`printf 'no end'`,
	`printf '\000\377\033[31m\r\n\t'`,
	`echo out; echo err >&2; echo out2`,
	`printf 'partial' >&2`,
	`echo dropped >/dev/null; : >file`,
	`umask; ulimit -n; ulimit -c; ulimit -f`,
	`env | sort`,
	`pwd; ls -1A`,
	`cd /; V=1; export V; exec 2>/dev/null; set -u`,
	`echo "v ${V-unset} $# $0"`,
	`ls /proc/self/fd | grep -v '^[12]*[0-9][0-9]$' | tr '\n' ' '`,
	`echo three >&3`,
	`cat <&4 | head -c 5`,
	`trap`,
	`kill -HUP $$; echo alive`,
	`(exit 4) || echo $?`,
	"echo a \\\n  b # c\necho 'd\ne'\n\n",
	`head -c 300000 /dev/zero | tr '\0' 'x'; head -c 200000 /dev/zero | tr '\0' 'y' >&2`,
	`sleep 0.05 & echo bg`,
	`printf 'a' ; printf 'b' >&2 ; printf 'c'`,
	`test -t 0 || echo no0; test -t 1 || echo no1`,
	`echo more >>file; cat file`,
	`exit 0; echo never`,
	`nice; echo $((1 << 40))`,
	`while read l; do echo "<$l>"; done`,
	`set -o | sort | head -5; echo "$-"`,
	`cat /proc/self/status | grep -e SigBlk -e SigIgn -e Seccomp -e NoNewPrivs`,
	`exit 3`,
	`kill -9 $$`,
	`nosuchcommand`,
	`if`,
}

// start is what surrounds the run.
type start struct {
	name string
	pre  string // shell text run before
	in   string // data, file, null, closed, empty
}

var data = "one\ntwo\nthree\nfour\nfive\nsix\n\x00\xff\nlast"

var starts = []start{
	{"file", ``, "file"},
	{"pipe", ``, "pipe"},
	{"null", ``, "null"},
	{"umask", `umask 077`, "file"},
	{"umask 0", `umask 0`, "null"},
	{"limits", `ulimit -n 200; ulimit -S -n 100; ulimit -c 0; ulimit -f 100000`, "pipe"},
	{"nohup", `trap '' HUP`, "file"},
	{"fds", `exec 3>>three 4<four`, "file"},
	{"closed", `exec <&-`, "null"},
	{"nice", `nice >/dev/null`, "pipe"},
}

// ways of arranging the commands of a sequence in tasks.
var ways = []string{"run", "refs", "deps", "env", "mixed", "included", "dir"}

type seq struct {
	cmds []string
	way  string
	st   start
}

func (s seq) key() string { return fmt.Sprintf("%s | %s | %q", s.way, s.st.name, s.cmds) }

// files is the Babfile of a sequence.
func (s seq) files() map[string]string {
	f := &spec.File{Silent: spec.B(true)}
	main := &spec.Task{Name: "main"}
	f.Tasks = []*spec.Task{main}
	out := map[string]string{}
	switch s.way {
	case "run":
		for _, c := range s.cmds {
			main.Run = append(main.Run, spec.Cmd(c))
		}
	case "refs":
		for i, c := range s.cmds {
			n := fmt.Sprintf("t%d", i)
			main.Run = append(main.Run, spec.Ref(n))
			f.Tasks = append(f.Tasks, &spec.Task{Name: n, Run: []*spec.Item{spec.Cmd(c)}})
		}
	case "deps":
		for i, c := range s.cmds {
			n := fmt.Sprintf("t%d", i)
			if i == len(s.cmds)-1 {
				main.Run = append(main.Run, spec.Cmd(c))
				break
			}
			main.Deps = append(main.Deps, n)
			f.Tasks = append(f.Tasks, &spec.Task{Name: n, Run: []*spec.Item{spec.Cmd(c)}})
		}
	case "env":
		f.Env = spec.KV{{"A", "1"}}
		main.Env = spec.KV{{"B", "x y"}}
		for _, c := range s.cmds {
			it := spec.Cmd(c)
			it.Env = spec.KV{{"C", "$A"}}
			main.Run = append(main.Run, it)
		}
	case "mixed":
		// steps that read and write nothing in between
		for i, c := range s.cmds {
			main.Run = append(main.Run, spec.Par(spec.Cmd(`:`), spec.Cmd(`cat`)), spec.Cmd(c))
			if i == 0 {
				no := spec.Cmd(`cat; echo no`)
				no.When = "false"
				no2 := spec.Ref("t")
				no2.Platforms = []string{"windows"}
				main.Run = append(main.Run, no, no2)
			}
		}
		f.Tasks = append(f.Tasks, &spec.Task{Name: "t", Run: []*spec.Item{spec.Cmd(`cat; echo no`)}})
	case "included":
		g := &spec.File{Silent: spec.B(true)}
		t := &spec.Task{Name: "t"}
		for _, c := range s.cmds {
			t.Run = append(t.Run, spec.Cmd(c))
		}
		g.Tasks = []*spec.Task{t}
		f.Includes = spec.KV{{"i", "sub.babfile.yml"}}
		main.Run = []*spec.Item{spec.Ref("i:t")}
		out["sub.babfile.yml"] = g.YAML()
	case "dir":
		main.Dir = "sub"
		for _, c := range s.cmds {
			main.Run = append(main.Run, spec.Cmd(c))
		}
	}
	out["Babfile"] = f.YAML()
	return out
}

type outcome struct {
	exit     int
	out, err string
	left     string // of standard input
	tree     map[string]string
	timedOut bool
}

// the reference: each text given to sh -c, until one fails
const reference = `exec perl -e 'for (@ARGV) { system("sh", "-c", $_) == 0 or exit 1 }' -- "$@"`

func run(s seq, bab bool) outcome {
	outer := bb.NewRoot()
	defer bb.RemoveRoot(outer)
	root, home := filepath.Join(outer, "p"), filepath.Join(outer, "home")
	work := filepath.Join(outer, "w")
	for _, d := range []string{root, home, filepath.Join(work, "sub")} {
		_ = os.MkdirAll(d, 0o755)
	}
	write := func(p, text string) {
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	// The commands run in w; the Babfile lies elsewhere and names it.
	f := s.files()
	for n, text := range f {
		write(filepath.Join(root, n), text)
	}
	write(filepath.Join(work, "four"), "444444444")
	dir := work
	if s.way == "dir" {
		dir = filepath.Join(work, "sub")
		write(filepath.Join(dir, "four"), "444444444")
	}
	// w is where the Babfile's directory is a link to, so that both run there
	for n := range f {
		_ = os.Rename(filepath.Join(root, n), filepath.Join(work, n))
	}
	for n, text := range f {
		if s.way == "dir" {
			write(filepath.Join(dir, n), text)
		}
	}
	script := s.st.pre + "\n"
	env := bb.BaseEnv(home, filepath.Join(outer, "blog"))
	var args []string
	if bab {
		script += `exec "$@"`
		args = []string{bb.Bab(), "-b", filepath.Join(work, "Babfile"), "main"}
	} else {
		script += reference
		args = s.cmds
		if s.way == "env" {
			env = append(env, "A=1", "B=x y", "C=$A")
		}
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", script, "sh"}, args...)...)
	cmd.Dir, cmd.Env = dir, env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	var o outcome
	var inFile, inPipe *os.File
	switch s.st.in {
	case "file":
		p := filepath.Join(outer, "input")
		write(p, data)
		inFile, _ = os.Open(p)
		cmd.Stdin = inFile
	case "pipe":
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		_, _ = w.WriteString(data)
		_ = w.Close()
		inPipe = r
		cmd.Stdin = r
	}
	outs := [2]*os.File{}
	for i, n := range []string{"out", "err"} {
		p := filepath.Join(outer, n)
		outs[i], _ = os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
	}
	cmd.Stdout, cmd.Stderr = outs[0], outs[1]
	for attempt := 0; ; attempt++ {
		err := cmd.Start()
		if err == nil {
			break
		}
		if attempt == 5 {
			fmt.Println("cannot start:", err)
			os.Exit(3)
		}
		time.Sleep(200 * time.Millisecond)
		n := exec.Command(cmd.Path)
		n.Args, n.Dir, n.Env, n.SysProcAttr, n.Stdin, n.Stdout, n.Stderr = cmd.Args, cmd.Dir, cmd.Env, cmd.SysProcAttr, cmd.Stdin, cmd.Stdout, cmd.Stderr
		cmd = n
	}
	var late atomic.Bool
	timer := time.AfterFunc(2*time.Minute, func() {
		late.Store(true)
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err := cmd.Wait()
	timer.Stop()
	o.timedOut = late.Load()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		o.exit = ee.ExitCode()
	} else if err != nil {
		o.exit = -1
	}
	for _, f := range []*os.File{inFile, inPipe} {
		if f != nil {
			rest, _ := io.ReadAll(f)
			o.left = string(rest)
			_ = f.Close()
		}
	}
	for i, p := range []*string{&o.out, &o.err} {
		data, _ := os.ReadFile(outs[i].Name())
		// what names the scratch directory is the same for both
		*p = string(bytes.ReplaceAll(data, []byte(outer), []byte("@")))
		_ = outs[i].Close()
	}
	o.tree = bb.Tree(work)
	for n := range f {
		delete(o.tree, n)
	}
	if info, err := os.Stat(filepath.Join(dir, "file")); err == nil {
		o.tree["file mode"] = info.Mode().String()
	}
	return o
}

func short(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// compare says how bab's run is unlike the shell's.
func compare(want, got outcome) string {
	if got.timedOut {
		return "bab did not finish"
	}
	if want.exit != got.exit {
		return fmt.Sprintf("exit status %d, must be %d; standard error %s", got.exit, want.exit, short(got.err))
	}
	if want.out != got.out {
		return fmt.Sprintf("standard output %s, must be %s", short(got.out), short(want.out))
	}
	if want.err != got.err && (want.exit == 0 || !strings.HasPrefix(got.err, want.err)) {
		return fmt.Sprintf("standard error %s, must be %s", short(got.err), short(want.err))
	}
	if want.left != got.left {
		return fmt.Sprintf("left of standard input %s, must be %s", short(got.left), short(want.left))
	}
	for n, text := range want.tree {
		if got.tree[n] != text {
			return fmt.Sprintf("%s holds %s, must hold %s", n, short(got.tree[n]), short(text))
		}
	}
	for n := range got.tree {
		if _, ok := want.tree[n]; !ok {
			return "made " + n
		}
	}
	return ""
}

func sequences(ch *vlib.Check, yield func(seq) bool) {
	emit := func(way string, st start, c ...string) bool { return yield(seq{c, way, st}) }
	for wi, w := range ways {
		for si, st := range starts {
			for ai, a := range commands {
				if !emit(w, st, a) {
					return
				}
				for bi, b := range commands {
					if !ch.Thorough() && !(wi == 0 && si < 2) && (wi*7+si*3+ai*5+bi)%12 != 0 {
						continue
					}
					if !emit(w, st, a, b) {
						return
					}
				}
			}
		}
	}
	if ch.Thorough() {
		for _, a := range commands {
			for _, b := range commands[:32] {
				for _, c := range commands {
					if !emit("run", starts[0], a, b, c) {
						return
					}
				}
			}
		}
		return
	}
	readers := []int{0, 1, 2, 3, 5, 7, 13, 14, 26, 29, 32}
	for _, a := range readers {
		for _, b := range readers {
			for _, c := range readers {
				if !emit("run", starts[1], commands[a], commands[b], commands[c]) {
					return
				}
			}
		}
	}
}

func check(ch *vlib.Check) {
	ch.Rule("sequences of commands (readers of standard input, writers of all kinds of bytes, users of descriptors, limits, signals, files, failing and killed ones), alone, in pairs and threes, arranged as steps, task references, dependencies, with environment, between steps that do nothing, in an included file and in another directory, under several umasks, limits, ignored signals, further descriptors and kinds of standard input: output, error output, what is left of the input, the files and the exit status must be those of sh -c run on the same texts one after another; texts with every character and of every length, compared with what a stand-in for the shell is given; non-trivial: all")
	work := make(chan seq, 64)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range work {
				ch.Eval(s.key())
				want, got := run(s, false), run(s, true)
				ch.Sample(map[string]any{"case": s.key(), "exit": got.exit, "out": short(got.out)})
				why := compare(want, got)
				if why == "" {
					continue
				}
				again := 0
				for tries := 0; tries < 8 && again < 2; tries++ {
					if w := compare(run(s, false), run(s, true)); w != "" {
						again++
						why = w
					}
				}
				if again < 2 {
					ch.Count("unreproduced", 1)
					continue
				}
				if ch.Violation(s.key(), map[string]any{"what": why, "files": s.files(), "start": s.st.name + ": " + s.st.pre, "input": s.st.in, "commands": s.cmds}) {
					fmt.Printf("  %s: %s\n", s.key(), why)
				}
			}
		}()
	}
	sequences(ch, func(s seq) bool {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return false
		}
		work <- s
		return true
	})
	close(work)
	wg.Wait()
	texts(ch)
}

func main() {
	ch := vlib.New(os.Args[1], "exploration")
	check(ch)
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}
