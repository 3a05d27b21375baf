package par

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/fakeexec"
	"github.com/bab-sh/bab/internal/zzverif/sched"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
	"github.com/charmbracelet/log"
)

// Line is what a worker reports.
type Line struct {
	Key       string
	Schedules int64
	Points    int64
	Complete  bool
	Bad       string
	Detail    map[string]any
	Traces    int64
}

// world is the environment of one execution.
type world struct {
	mu     sync.Mutex
	p      *Prog
	ev     []Event
	cancel bool // the context was cancelled
	late   string
	err    error
	over   bool
	after  string
	quiet  []int
}

func name(script string) string { return script }

func (w *world) Start(script string, ctx context.Context, _ *fakeexec.Cmd) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.over && w.after == "" {
		w.after = script
	}
	if w.cancel && w.late == "" {
		w.late = script
	}
	w.ev = append(w.ev, Event{true, name(script)})
	return nil
}

func (w *world) End(script string, killed bool) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ev = append(w.ev, Event{false, name(script)})
	return !w.p.Fail[script]
}

func (w *world) Output(string) ([]string, []string) { return nil, nil }

func setup() (dir string) {
	// What bab prints goes nowhere; what a crash prints, to the parent.
	if fd, err := syscall.Dup(2); err == nil {
		_ = debug.SetCrashOutput(os.NewFile(uintptr(fd), "crash"), debug.CrashOptions{})
	}
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	os.Stdout, os.Stderr, os.Stdin = null, null, null
	_ = syscall.Dup2(int(null.Fd()), 2)
	log.SetOutput(io.Discard)
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "par")
	if err != nil {
		panic(err)
	}
	return dir
}

// mk makes the program to be run once under the scheduler.
func mk(file, main string, p *Prog, fine, cancel bool, cur **world) func() *sched.Program {
	return func() *sched.Program {
		w := &world{p: p}
		*cur = w
		fakeexec.H = w
		var ctx context.Context
		var stop context.CancelFunc
		sp := &sched.Program{Fine: fine, MaxSteps: 20000}
		ctx, stop = context.WithCancel(context.Background())
		sp.Main = func() {
			defer stop()
			w.err = runner.New(false, file).Run(ctx, main)
			w.over = true
		}
		sp.Quiet = func([]string) { w.quiet = append(w.quiet, len(w.ev)) }
		if cancel {
			sp.Cancel = func() {
				w.cancel = true
				stop()
			}
		}
		return sp
	}
}

// judge is the oracle of one property for one execution.
type judge func(s *sem, w *world, r sched.Result) string

func general(s *sem, w *world, r sched.Result) string {
	switch {
	case r.Panic != nil:
		return fmt.Sprintf("panic: %v", r.Panic)
	case r.Deadlock:
		return fmt.Sprintf("deadlock after %v", w.ev)
	case r.Cut:
		return fmt.Sprintf("no end in sight after %d steps", len(r.Decisions))
	case w.after != "":
		return fmt.Sprintf("command %s started after the run had ended", w.after)
	}
	return ""
}

func judgeP03(s *sem, w *world, r sched.Result) string {
	if why := general(s, w, r); why != "" {
		return why
	}
	if why := s.judgeOrder(w.ev, w.err != nil); why != "" {
		return fmt.Sprintf("%s: %v, error %v", why, w.ev, w.err)
	}
	return ""
}

func judgeP04(s *sem, w *world, r sched.Result) string {
	if why := general(s, w, r); why != "" {
		return why
	}
	if why := s.judgeLimit(w.ev); why != "" {
		return why
	}
	for _, n := range w.quiet {
		if why := s.judgeQuiet(w.ev[:n]); why != "" {
			return why
		}
	}
	if !s.ambiguous {
		started := map[string]bool{}
		for _, e := range w.ev {
			started[e.Cmd] = true
		}
		for _, c := range keys(s.exec) {
			if !started[c] {
				return fmt.Sprintf("command %s never got its turn: %v, error %v", c, w.ev, w.err)
			}
		}
	}
	return ""
}

func judgeP07(s *sem, w *world, r sched.Result) string {
	if why := general(s, w, r); why != "" {
		return why
	}
	if w.late != "" {
		return fmt.Sprintf("command %s started after the cancellation: %v", w.late, w.ev)
	}
	if w.cancel && w.err == nil {
		// Everything had ended before the cancellation, or it was missed.
		ended := map[string]bool{}
		for _, e := range w.ev {
			if !e.Start {
				ended[e.Cmd] = true
			}
		}
		for c := range s.exec {
			if !ended[c] {
				return fmt.Sprintf("success reported although %s did not run to its end: %v", c, w.ev)
			}
		}
	}
	return ""
}

var judges = map[string]judge{"P03": judgeP03, "P04": judgeP04, "P07": judgeP07}

// TestWorker explores a share of the programs of one property.
func TestWorker(t *testing.T) {
	prop := os.Getenv("PAR_PROP")
	if prop == "" {
		t.Skip()
	}
	out := os.Stdout
	dir := setup()
	defer func() { _ = os.RemoveAll(dir) }()
	enc := json.NewEncoder(out)
	share, _ := strconv.Atoi(os.Getenv("PAR_SHARE"))
	of, _ := strconv.Atoi(os.Getenv("PAR_OF"))
	skip, _ := strconv.Atoi(os.Getenv("PAR_SKIP"))
	limit, _ := strconv.ParseInt(os.Getenv("PAR_DEADLINE"), 10, 64)
	n := 0
	for i, j := range jobs(prop, os.Getenv("VERIF_TIER") == "thorough") {
		if i%of != share {
			continue
		}
		n++
		if n <= skip {
			continue
		}
		l := Line{Key: jobKey(j)}
		if time.Now().Unix() > limit {
			_ = enc.Encode(l)
			continue
		}
		file := filepath.Join(dir, "Babfile")
		yaml := j.P.YAML(func(n string) string { return n })
		if err := os.WriteFile(file, []byte(yaml), 0o644); err != nil {
			panic(err)
		}
		s := analyse(j.P)
		var w *world
		mkp := mk(file, j.P.Main, j.P, j.Fine, prop == "P07", &w)
		traces := map[string]bool{}
		report := func(why string, r sched.Result, prefix []int) {
			l.Bad = why
			l.Detail = map[string]any{"what": why, "babfile": yaml, "failing_commands": keys(j.P.Fail), "schedule": choices(r), "events": fmt.Sprint(w.ev), "error": fmt.Sprint(w.err), "fine": j.Fine}
		}
		var curPrefix []int
		var curRes *sched.Result
		sched.OnAbandon = func() {
			r := sched.Result{Deadlock: true}
			report(fmt.Sprintf("deadlock, or no end in sight, after %v", w.ev), r, curPrefix)
			l.Detail["schedule_prefix"] = fmt.Sprint(curPrefix)
			_ = enc.Encode(l)
			os.Exit(9)
		}
		_ = curRes
		_ = enc.Encode(map[string]string{"Begin": l.Key})
		l.Schedules, l.Points, l.Complete = sched.Explore(t, mkp, j.Bound, j.Max, func(sp *sched.Program, r sched.Result, prefix []int) bool {
			curPrefix = prefix
			traces[fmt.Sprint(w.ev)] = true
			why := judges[prop](s, w, r)
			if why == "" {
				return time.Now().Unix() <= limit
			}
			// The same schedule once more.
			r2 := sched.Run(t, mkp(), prefix)
			if why2 := judges[prop](s, w, r2); why2 != "" {
				report(why2, r2, prefix)
			} else {
				l.Detail = map[string]any{"unreproduced": why}
				return true
			}
			return false
		})
		l.Traces = int64(len(traces))
		_ = enc.Encode(l)
		if l.Bad != "" {
			return
		}
	}
}

func choices(r sched.Result) []int {
	var c []int
	for _, d := range r.Decisions {
		c = append(c, d.Chosen)
	}
	return c
}

func jobKey(j Job) string {
	k := fmt.Sprintf("%s b%d", j.P.Key, j.Bound)
	if j.Fine {
		k += " fine"
	}
	return k
}

// explore hands the programs of a property to worker processes.
func explore(ch *vlib.Check, prop string, budget time.Duration) {
	n := runtime.NumCPU()
	all := jobs(prop, ch.Thorough())
	ch.Set("programs", len(all))
	deadline := time.Now().Add(budget)
	var wg sync.WaitGroup
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			skip := 0
			for try := 0; try < 3; try++ {
				began, done, ok := worker(ch, prop, i, n, skip, deadline)
				if ok || ch.Enough() {
					return
				}
				_ = began
				skip += done
			}
		}()
	}
	wg.Wait()
}

func worker(ch *vlib.Check, prop string, share, of, skip int, deadline time.Time) (began string, done int, ok bool) {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "PAR_PROP="+prop, fmt.Sprint("PAR_SHARE=", share), fmt.Sprint("PAR_OF=", of),
		fmt.Sprint("PAR_SKIP=", skip), fmt.Sprint("PAR_DEADLINE=", deadline.Unix()), "VERIF_TIER="+ch.Tier, "GOMAXPROCS=2", "BAB_NO_UPDATE_CHECK=1")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	// A worker that says nothing for long is stuck in the code under test.
	stuck := time.AfterFunc(time.Until(deadline)+60*time.Second, func() { _ = cmd.Process.Kill() })
	defer stuck.Stop()
	sc := bufio.NewScanner(pipe)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	reported := false
	for sc.Scan() {
		b := sc.Bytes()
		var begin struct{ Begin string }
		if json.Unmarshal(b, &begin) == nil && begin.Begin != "" {
			began = begin.Begin
			continue
		}
		var l Line
		if json.Unmarshal(b, &l) != nil || l.Key == "" {
			continue
		}
		done++
		began = ""
		if !l.Complete && l.Bad == "" {
			ch.NotExhaustive()
			ch.Count("programs_cut", 1)
		}
		if os.Getenv("PAR_DEBUG") != "" {
			fmt.Println(l.Schedules, l.Points, l.Complete, l.Key)
		}
		if l.Schedules > 0 {
			ch.Count("programs_explored", 1)
			ch.Eval(l.Key)
			ch.EvalDistinct(l.Schedules - 1)
			ch.States(l.Schedules, l.Points)
			ch.Count("distinct_traces", l.Traces)
			ch.Sample(map[string]any{"program": l.Key, "schedules": l.Schedules, "decision_points": l.Points, "distinct_command_traces": l.Traces})
		}
		if u := l.Detail["unreproduced"]; u != nil && l.Bad == "" {
			ch.Count("unreproduced", 1)
		}
		if l.Bad != "" {
			reported = true
			if ch.Violation("schedule "+l.Key, l.Detail) {
				fmt.Println("  " + l.Bad)
			}
		}
	}
	err = cmd.Wait()
	if err != nil && !reported {
		tail := errb.String()
		if i := strings.Index(tail, "panic:"); i >= 0 {
			tail = tail[i:]
		}
		if i := strings.Index(tail, "fatal error:"); i >= 0 {
			tail = tail[i:]
		}
		if len(tail) > 3000 {
			tail = tail[:3000]
		}
		if began == "" {
			fmt.Println("worker failed:", err, tail)
			os.Exit(3)
		}
		if ch.Violation("crash "+began, map[string]any{"what": "the run crashes or hangs", "program": began, "stderr": tail}) {
			fmt.Println("  crash or hang in", began)
		}
		return began, done + 1, false
	}
	return began, done, err == nil && !reported
}

// budgeted splits the time of a check between its stages.
func sched0(ch *vlib.Check, prop string) {
	if os.Getenv("PAR_NOSCHED") != "" {
		fmt.Println("the runner could not be instrumented: only real runs")
		ch.NotExhaustive()
		ch.Count("instrumentation_failed", 1)
		return
	}
	explore(ch, prop, ch.Remaining()*6/10)
}

// realJob is one exploration of the real binary.
type realJob struct {
	key string
	run func() (runs int, complete bool, bad map[string]any)
}

func realRuns(ch *vlib.Check, jobs []realJob) {
	begin := time.Now()
	defer func() { ch.Set("real_seconds", int(time.Since(begin).Seconds())) }()
	work := make(chan realJob)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range work {
				if ch.Expired() || ch.Enough() {
					ch.NotExhaustive()
					continue
				}
				runs, complete, bad := j.run()
				ch.Validated(int64(runs))
				ch.Count("real_runs", int64(runs))
				for n := range runs {
					ch.Eval(fmt.Sprint("real ", j.key, n))
				}
				if !complete && bad == nil {
					ch.Count("real_programs_cut", 1)
					ch.NotExhaustive()
				}
				if bad != nil && ch.Violation("real "+j.key, bad) {
					fmt.Println("  ", bad["what"])
				}
			}
		}()
	}
	for _, j := range jobs {
		work <- j
	}
	close(work)
	wg.Wait()
	bb.Cleanup()
}

// orderJobs explores the orders in which commands end.
func orderJobs(progs []*Prog, max int, filter func(why string) bool) []realJob {
	var out []realJob
	for _, p := range progs {
		tty := strings.HasSuffix(p.Key, "grouped") || strings.HasSuffix(p.Key, "tabs") || strings.Contains(p.Key, "grouped fail") || strings.Contains(p.Key, "tabs fail")
		out = append(out, realJob{p.Key, func() (int, bool, map[string]any) {
			var bad map[string]any
			n, complete := orders(p, tty, max, func(path []string, why, out string) {
				bad = map[string]any{"what": why, "babfile": p.YAML(func(n string) string { return n }), "failing_commands": keys(p.Fail), "order_of_ends": path, "output": out}
			})
			return n, complete, bad
		}})
	}
	return out
}

func TestP03(t *testing.T) {
	ch := vlib.New("P03", "model_checking")
	ch.Rule(rule)
	sched0(ch, "P03")
	var ps []*Prog
	for _, w := range words("crsuden", 2) {
		ps = append(ps, withFails(build(w, 0, 0, 0, ""), 0)...)
	}
	for _, w := range []string{"cc", "cs", "uu", "sd", "cm", "vo"} {
		ps = append(ps, withFails(build(w, 0, 0, 1, ""), 1)...)
		ps = append(ps, withFails(build(w, 1, 0, 0, ""), 1)...)
		for _, m := range []string{"grouped", "tabs"} {
			ps = append(ps, withFails(build(w, 0, 0, 0, m), 1)...)
		}
	}
	max := 20
	if ch.Thorough() {
		max = 300
		for _, w := range words("crqsuvdenmo", 3) {
			ps = append(ps, withFails(build(w, 0, 0, 0, ""), 0)...)
		}
		for _, w := range words("crqsuvdenmo", 2) {
			for _, m := range []string{"grouped", "tabs"} {
				ps = append(ps, withFails(build(w, 0, 0, 2, m), 1)...)
			}
		}
	}
	realRuns(ch, orderJobs(ps, max, nil))
	// Longer blocks of every kind, each command of which fails once.
	ps = nil
	sizes := []int{4, 7, 12, 17}
	if ch.Thorough() {
		sizes = append(sizes, 5, 6, 8, 9, 16, 24, 33, 65)
	}
	for _, n := range sizes {
		for k, kinds := range []string{"c", "cr", "crsud", "ss", "uvc"} {
			w := strings.Repeat(kinds, n)[:n]
			q := withFails(build(w, []int{0, 2, n / 2}[k%3], 0, k%2, []string{"", "", "grouped", "", "tabs"}[k]), 1)
			for i, p := range q {
				if i < 3 || i > len(q)-3 || i == len(q)/2 || ch.Thorough() && n < 20 {
					ps = append(ps, p)
				}
			}
		}
	}
	realRuns(ch, orderJobs(ps, 1, nil))
	finish(ch)
}

func TestP04(t *testing.T) {
	ch := vlib.New("P04", "model_checking")
	ch.Rule(rule)
	sched0(ch, "P04")
	var ps []*Prog
	for _, m := range []string{"", "grouped", "tabs"} {
		for _, w := range []string{"ccc", "cqr", "nc"} {
			for l := 0; l <= 3; l++ {
				if l == 0 && m == "" {
					continue
				}
				ps = append(ps, withFails(build(w, l, 1, 0, m), 1)...)
			}
		}
	}
	max := 8
	if ch.Thorough() {
		max = 200
		for _, m := range []string{"", "grouped", "tabs"} {
			for _, w := range words("crqn", 4) {
				for l := 1; l <= 4; l++ {
					ps = append(ps, withFails(build(w, l, 2, 0, m), 0)...)
				}
			}
		}
	}
	realRuns(ch, orderJobs(ps, max, nil))
	// Many items: all of them that the limit admits are in progress together.
	wide := max0(72, 4*runtime.NumCPU())
	ps = nil
	for _, m := range []string{"", "grouped", "tabs"} {
		for _, l := range []int{0, wide - 1, wide / 2} {
			ps = append(ps, build(strings.Repeat("c", wide), l, 0, 0, m))
		}
		ps = append(ps, build(strings.Repeat("n", wide/2), wide/2, 0, 0, m), build(strings.Repeat("q", wide), wide-2, 0, 0, m))
	}
	for i, p := range ps {
		p.Key = fmt.Sprintf("%d items, program %d %s", wide, i, p.Tasks[len(p.Tasks)-1].Steps[0].Mode)
	}
	realRuns(ch, orderJobs(ps, 1, nil))
	// Every limit of every number of items.
	ps = nil
	top := 12
	if ch.Thorough() {
		top = 30
	}
	for n := 2; n <= top; n++ {
		for l := 1; l <= n+1; l++ {
			w := strings.Repeat([]string{"c", "cr", "q", "crq"}[(n+l)%4], n)[:n]
			p := build(w, l, 0, 0, []string{"", "", "grouped", "tabs"}[(n+2*l)%4])
			q := withFails(p, 1)
			ps = append(ps, p, q[len(q)/2])
		}
	}
	realRuns(ch, orderJobs(ps, 1, nil))
	finish(ch)
}

func max0(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// stubborn makes the commands ignore every signal that can be ignored.
func stubborn(p *Prog) *Prog {
	p.Stubborn = true
	p.Key += " stubborn"
	return p
}

func TestP07(t *testing.T) {
	ch := vlib.New("P07", "model_checking")
	ch.Rule(rule)
	sched0(ch, "P07")
	var jobs []realJob
	add := func(p *Prog, tty bool, sig syscall.Signal, key string) {
		for level := 0; level < 8; level++ {
			k := fmt.Sprintf("%s signal %d%q tty %v at %d", p.Key, int(sig), key, tty, level)
			jobs = append(jobs, realJob{k, func() (int, bool, map[string]any) {
				reached, why := interrupt(p, tty, level, sig, key)
				if why != "" {
					_, why = interrupt(p, tty, level, sig, key)
				}
				if why != "" {
					return 1, true, map[string]any{"what": why, "babfile": p.YAML(func(n string) string { return n }), "signal": int(sig), "key": key, "after_commands_ended": level}
				}
				if !reached {
					return 0, true, nil
				}
				return 1, true, nil
			}})
		}
	}
	ws := []string{"cc", "cs", "qn", "sd"}
	if ch.Thorough() {
		ws = words("crqsudn", 2)
		ws = append(ws, words("cqs", 3)...)
	}
	for _, w := range ws {
		for _, l := range []int{0, 1} {
			for _, sig := range []syscall.Signal{syscall.SIGINT, syscall.SIGTERM} {
				add(build(w, l, 0, 0, ""), false, sig, "")
				add(stubborn(build(w, l, 0, 0, "")), false, sig, "")
				add(build(w, l, 0, 1, ""), true, sig, "")
				for _, m := range []string{"grouped", "tabs"} {
					add(build(w, l, 0, 0, m), true, sig, "")
				}
			}
			for _, m := range []string{"grouped", "tabs"} {
				add(build(w, l, 0, 0, m), true, 0, "\x03")
				add(stubborn(build(w, l, 0, 0, m)), true, 0, "\x03")
			}
		}
	}
	for i, n := range []int{4, 9, 17, 40} {
		for j, l := range []int{0, 1, 2, n - 1} {
			w := strings.Repeat([]string{"c", "cr", "cqs", "cn"}[(i+j)%4], n)[:n]
			for k, m := range []string{"", "grouped", "tabs"} {
				p := build(w, l, 0, (i+j+k)%3, m)
				if (i+j+k)%2 == 1 {
					p = stubborn(p)
				}
				sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[(i+k)%2]
				add(p, m != "", sig, "")
				if m != "" {
					add(build(w, l, 0, 0, m), true, 0, "\x03")
				}
			}
		}
	}
	for _, w := range []string{"cc", "ccc", "qc", "nc"} {
		for _, l := range []int{0, 1, 2} {
			for _, m := range []string{"", "grouped", "tabs"} {
				for _, stub := range []bool{false, true} {
					for _, how := range []string{"\x03", "INT", "TERM"} {
						p := build(w, l, 0, 0, m)
						p.Leaves, p.Stubborn = true, stub
						sig, key := map[string]syscall.Signal{"INT": syscall.SIGINT, "TERM": syscall.SIGTERM}[how], ""
						if sig == 0 {
							key = how
							if m == "" {
								continue
							}
						}
						jobs = append(jobs, realJob{fmt.Sprintf("%s leaves processes, %q stubborn %v", p.Key, how, stub), func() (int, bool, map[string]any) {
							why := leftover(p, m != "", sig, key)
							for try := 0; why != "" && try < 2; try++ {
								why = leftover(p, m != "", sig, key)
							}
							if why != "" {
								return 1, true, map[string]any{"what": why, "babfile": p.YAML(func(n string) string { return n }), "how": how}
							}
							return 1, true, nil
						}})
					}
				}
			}
		}
	}
	realRuns(ch, jobs)
	finish(ch)
}

const rule = "every schedule of every listed program within its preemption bound on the instrumented runner, and every steered order of command ends on the real binary; a schedule or run counts once"

func finish(ch *vlib.Check) { ch.Finish() }
