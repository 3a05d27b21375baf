package par

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
)

// real drives the real binary: each command says that it has started, and ends
// when it is told to.
type real struct {
	p       *Prog
	s       *sem
	dir     string
	log     string
	opened  []*os.File
	cmd     *exec.Cmd
	tty     *pty.Session
	out     bytes.Buffer
	done    chan struct{}
	ended   bool
	exit    int
	told    map[string]bool
	started time.Time
}

// settle is how long nothing may happen before the run counts as quiet.
const settle = 30 * time.Millisecond

// patience is how long something that must happen may take.
const patience = 30 * time.Second

func (r *real) script(name string) string {
	pre := ""
	if r.p.Stubborn {
		pre = "trap '' TERM INT HUP QUIT PIPE; "
	}
	end := "kill -9 $!"
	if r.p.Leaves {
		end = ":"
	}
	return pre + fmt.Sprintf("sleep 300 & echo $$ $! >> $BPIDS; echo +%s >> $BLOG; read x < $BDIR/%s; echo -%s >> $BLOG; %s; exit $x", name, name, name, end)
}

// startReal begins a run. With tty it is given a terminal.
func startReal(p *Prog, tty bool) *real {
	root := bb.NewRoot()
	r := &real{p: p, s: analyse(p), dir: root, log: filepath.Join(root, "blog"), done: make(chan struct{}), told: map[string]bool{}}
	for _, t := range p.Tasks {
		var mk func(st []Step)
		mk = func(st []Step) {
			for _, s := range st {
				if s.Cmd != "" {
					_ = syscall.Mkfifo(filepath.Join(root, s.Cmd), 0o600)
				}
				mk(s.Items)
			}
		}
		mk(t.Steps)
	}
	work := filepath.Join(root, "w")
	_ = os.MkdirAll(work, 0o755)
	_ = os.WriteFile(filepath.Join(work, "Babfile"), []byte(p.YAML(r.script)), 0o644)
	env := append(bb.BaseEnv(filepath.Join(root, "home"), r.log), "BDIR="+root, "BPIDS="+filepath.Join(root, "pids"))
	r.started = time.Now()
	if tty {
		env = append(env, "TERM=xterm-256color")
		s, err := pty.Start(bb.Bab(), []string{p.Main}, work, env, 80, 24)
		if err != nil {
			panic(err)
		}
		r.tty = s
		go func() { s.Wait(10 * time.Minute); r.exit = s.Exit; close(r.done) }()
		return r
	}
	r.cmd = exec.Command(bb.Bab(), p.Main)
	r.cmd.Dir, r.cmd.Env = work, env
	r.cmd.Stdout, r.cmd.Stderr = &r.out, &r.out
	r.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	r.cmd.WaitDelay = time.Second
	for try := 0; ; try++ {
		err := r.cmd.Start()
		if err == nil {
			break
		}
		if try > 5 {
			panic(err)
		}
		time.Sleep(200 * time.Millisecond)
		n := exec.Command(bb.Bab(), p.Main)
		n.Dir, n.Env, n.Stdout, n.Stderr, n.SysProcAttr, n.WaitDelay = work, env, &r.out, &r.out, r.cmd.SysProcAttr, time.Second
		r.cmd = n
	}
	go func() {
		_ = r.cmd.Wait()
		r.exit = r.cmd.ProcessState.ExitCode()
		close(r.done)
	}()
	return r
}

func (r *real) pid() int {
	if r.tty != nil {
		return r.tty.Pid()
	}
	return r.cmd.Process.Pid
}

func (r *real) events() []Event {
	data, _ := os.ReadFile(r.log)
	var ev []Event
	for _, l := range strings.Split(string(data), "\n") {
		if len(l) > 1 {
			ev = append(ev, Event{l[0] == '+', l[1:]})
		}
	}
	return ev
}

func (r *real) over() bool {
	select {
	case <-r.done:
		return true
	default:
		return false
	}
}

func running(ev []Event) []string {
	m := map[string]bool{}
	for _, e := range ev {
		if e.Start {
			m[e.Cmd] = true
		} else {
			delete(m, e.Cmd)
		}
	}
	return keys(m)
}

// tell lets a running command end.
func (r *real) tell(name string) {
	f, err := os.OpenFile(filepath.Join(r.dir, name), os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	r.opened = append(r.opened, f)
	code := "0"
	if r.p.Fail[name] {
		code = "3"
	}
	_, _ = io.WriteString(f, code+"\n")
	r.told[name] = true
}

// table is a picture of the processes: the state and the parent of each.
type table struct {
	sync.Mutex
	at     time.Time
	state  map[int]byte
	parent map[int]int
}

var processes table

func statOf(path string) (state byte, parent int) {
	data, err := os.ReadFile(path)
	s := string(data)
	i := strings.LastIndex(s, ")")
	if err != nil || i < 0 || i+2 >= len(s) {
		return 'R', 0 // it has just ended
	}
	_, _ = fmt.Sscan(s[i+4:], &parent)
	return s[i+2], parent
}

const waiting = "SZXIT"

// busy reports that a thread of bab, or a process below it, is running, ready
// to run or being made.
func (r *real) busy() bool {
	dir := fmt.Sprintf("/proc/%d/task", r.pid())
	tasks, _ := os.ReadDir(dir)
	for _, t := range tasks {
		if st, _ := statOf(filepath.Join(dir, t.Name(), "stat")); strings.IndexByte(waiting, st) < 0 {
			return true
		}
	}
	p := &processes
	p.Lock()
	defer p.Unlock()
	if time.Since(p.at) > 2*time.Millisecond {
		p.state, p.parent = map[int]byte{}, map[int]int{}
		ents, _ := os.ReadDir("/proc")
		for _, e := range ents {
			if n, err := strconv.Atoi(e.Name()); err == nil {
				p.state[n], p.parent[n] = statOf("/proc/" + e.Name() + "/stat")
			}
		}
		p.at = time.Now()
	}
	for n, st := range p.state {
		if strings.IndexByte(waiting, st) >= 0 {
			continue
		}
		for q, depth := n, 0; q > 1 && depth < 20; q, depth = p.parent[q], depth+1 {
			if q == r.pid() {
				return true
			}
		}
	}
	return false
}

// quiet waits until nothing but commands that wait can go on. It returns the
// events so far, and what is wrong if the blocks do not get as busy as they can.
func (r *real) quiet() ([]Event, string) {
	limit := time.Now().Add(patience)
	n := -1
	since := time.Now()
	for {
		ev := r.events()
		if len(ev) != n {
			n = len(ev)
			since = time.Now()
		}
		if r.over() {
			return r.events(), ""
		}
		if time.Since(since) > settle/3 && r.busy() {
			since = time.Now()
		}
		pending := false
		for _, c := range running(ev) {
			if r.told[c] {
				pending = true
			}
		}
		why := r.s.judgeQuiet(ev)
		calm := time.Since(since) > settle && !pending && len(running(ev)) > 0
		if calm && why == "" {
			return ev, ""
		}
		if time.Now().After(limit) {
			if why == "" {
				why = fmt.Sprintf("nothing happens any more after %v", ev)
			}
			return ev, why
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// follow ends the commands in the given order where it can, else the first
// running one; it reports the alternatives at each level.
func (r *real) follow(order []string) (path []string, alts [][]string, why string) {
	for level := 0; ; level++ {
		ev, bad := r.quiet()
		if bad != "" {
			return path, alts, bad
		}
		if r.over() {
			break
		}
		run := running(ev)
		if len(run) == 0 {
			continue
		}
		pick := run[0]
		if level < len(order) {
			for _, c := range run {
				if c == order[level] {
					pick = c
				}
			}
		}
		path = append(path, pick)
		alts = append(alts, run)
		r.tell(pick)
		if level > 60+2*len(r.s.exec) {
			return path, alts, "too many steps"
		}
	}
	if why := r.s.judgeOrder(r.events(), r.exit != 0); why != "" {
		return path, alts, fmt.Sprintf("%s: %v, exit status %d", why, r.events(), r.exit)
	}
	if why := r.s.judgeLimit(r.events()); why != "" {
		return path, alts, why
	}
	return path, alts, ""
}

func (r *real) pids() []int {
	data, _ := os.ReadFile(filepath.Join(r.dir, "pids"))
	var out []int
	for _, f := range strings.Fields(string(data)) {
		if n, err := strconv.Atoi(f); err == nil && n > 1 {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	return out
}

// alive lists the processes of the run's commands that still live.
func (r *real) alive() []int {
	var out []int
	for _, p := range r.pids() {
		if processLives(p) {
			out = append(out, p)
		}
	}
	return out
}

func processLives(pid int) bool {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return false
	}
	s := string(data)
	if i := strings.LastIndex(s, ")"); i >= 0 && i+2 < len(s) {
		return s[i+2] != 'Z' && s[i+2] != 'X'
	}
	return false
}

// close ends what is left of the run.
func (r *real) close() {
	if !r.over() {
		_ = syscall.Kill(r.pid(), syscall.SIGKILL)
		select {
		case <-r.done:
		case <-time.After(5 * time.Second):
		}
	}
	for _, p := range r.alive() {
		_ = syscall.Kill(p, syscall.SIGKILL)
	}
	for _, f := range r.opened {
		_ = f.Close()
	}
	if r.tty != nil {
		r.tty.Close()
	}
	bb.RemoveRoot(r.dir)
}

// orders explores every order in which the commands of the program can end,
// as far as the runs can be steered. It returns the number of runs.
func orders(p *Prog, tty bool, max int, bad func(path []string, why, out string)) (runs int, complete bool) {
	var todo [][]string
	todo = append(todo, nil)
	seen := map[string]bool{}
	for len(todo) > 0 {
		if runs >= max {
			return runs, max == 1 // one run is all that was asked for
		}
		order := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		r := startReal(p, tty)
		path, alts, why := r.follow(order)
		out := r.out.String()
		r.close()
		runs++
		if why != "" {
			// Once more.
			r2 := startReal(p, tty)
			_, _, why2 := r2.follow(path)
			r2.close()
			if why2 != "" {
				bad(path, why2, out)
				return runs, false
			}
			continue
		}
		for i := range path {
			for _, a := range alts[i] {
				k := strings.Join(append(append([]string{}, path[:i]...), a), " ")
				if a != path[i] && !seen[k] {
					todo = append(todo, append(append([]string{}, path[:i]...), a))
				}
				seen[k] = true
			}
		}
	}
	return runs, true
}

// interrupt signals the run at the given level of its default order and
// reports what is wrong afterwards.
func interrupt(p *Prog, tty bool, level int, sig syscall.Signal, key string) (reached bool, why string) {
	r := startReal(p, tty)
	defer r.close()
	for l := 0; l < level; l++ {
		ev, bad := r.quiet()
		if bad != "" {
			return false, bad
		}
		if r.over() {
			return false, ""
		}
		r.tell(running(ev)[0])
	}
	ev, bad := r.quiet()
	if bad != "" || r.over() {
		return false, bad
	}
	if key != "" {
		r.tty.Send(key)
	} else {
		_ = syscall.Kill(r.pid(), sig)
	}
	select {
	case <-r.done:
	case <-time.After(patience):
		return true, fmt.Sprintf("bab does not end after the signal at %v", ev)
	}
	// What was killed may take a moment to be gone.
	for i := 0; i < 500 && len(r.alive()) > 0; i++ {
		time.Sleep(4 * time.Millisecond)
	}
	if a := r.alive(); len(a) > 0 {
		return true, fmt.Sprintf("processes of the commands survive the signal at %v: %v", ev, a)
	}
	time.Sleep(settle)
	after := r.events()
	if len(after) != len(ev) {
		return true, fmt.Sprintf("after the signal at %v further commands ran: %v", ev, after[len(ev):])
	}
	return true, ""
}

// leftover lets all commands of a block end that leave something running in
// the background which still holds their output, and signals bab then.
func leftover(p *Prog, tty bool, sig syscall.Signal, key string) string {
	r := startReal(p, tty)
	defer r.close()
	limit := time.Now().Add(3 * time.Second) // of being busy without an event
	give := time.Now().Add(4 * patience)
	since, n := time.Now(), -1
	for {
		if r.over() {
			return "" // bab does not wait for the output of these
		}
		ev := r.events()
		if len(ev) != n {
			n, since = len(ev), time.Now()
			limit = since.Add(3 * time.Second)
		}
		if time.Since(since) > settle/3 && time.Now().Before(limit) && r.busy() {
			since = time.Now()
		}
		for _, c := range running(ev) {
			if !r.told[c] {
				r.tell(c)
				since = time.Now()
			}
		}
		if len(ev) > 0 && len(running(ev)) == 0 && time.Since(since) > 10*settle {
			break
		}
		if time.Now().After(give) {
			return fmt.Sprintf("nothing happens any more after %v", ev)
		}
		time.Sleep(2 * time.Millisecond)
	}
	ev := r.events()
	if key != "" {
		r.tty.Send(key)
	} else {
		_ = syscall.Kill(r.pid(), sig)
	}
	select {
	case <-r.done:
	case <-time.After(patience):
		return fmt.Sprintf("bab does not end after the signal at %v, while commands left processes in the background", ev)
	}
	for i := 0; i < 500 && len(r.alive()) > 0; i++ {
		time.Sleep(4 * time.Millisecond)
	}
	if a := r.alive(); len(a) > 0 {
		return fmt.Sprintf("processes that commands left in the background survive the signal at %v: %v", ev, a)
	}
	time.Sleep(settle)
	if after := r.events(); len(after) != len(ev) {
		return fmt.Sprintf("after the signal at %v further commands ran: %v", ev, after[len(ev):])
	}
	return ""
}
