package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/trace"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

var newA = answer{"v1.2.0", `"etag-a"`}
var newB = answer{"v1.3.0", `W/"etag-b"`}

func p22(ch *vlib.Check) {
	self, _ = os.Executable()
	ch.Rule("one case is one run of the real cache writer or reader under ptrace with a kill or an error at chosen system calls, one order of the calls of two writers, one power-loss state of the recorded calls, or one content of the cache file given to bab; all are non-trivial")
	ch.Assume("a machine crash keeps directory operations in the order they were made and any prefix of the data not yet synced")
	for _, part := range []struct {
		name string
		f    func(*vlib.Check)
	}{{"faults", singleFaults}, {"power_loss", torn}, {"reader", readFaults}, {"contents", contents}, {"two_writers", twoWriters}, {"sizes", sizes}} {
		if ch.Enough() {
			return
		}
		t := time.Now()
		part.f(ch)
		ch.Set("seconds_"+part.name, int(time.Since(t).Seconds()))
	}
}

type job struct {
	mode, kind string
	faults     []fault
}

func (j job) key() string {
	var f []string
	for _, x := range j.faults {
		f = append(f, fmt.Sprintf("%s@%d", x.What, x.At))
	}
	return j.mode + "/" + j.kind + "/" + strings.Join(f, ",")
}

// judge runs one writer with faults and checks everything promised; it
// returns how many relevant calls were made.
func judge(ch *vlib.Check, j job) int {
	p := setup(j.kind)
	defer p.done()
	start := time.Now()
	o := drive(p, []string{self, "helper", j.mode, newA.tag, newA.etag}, j.faults, func() string { return p.see(start, newA) })
	ch.Eval(j.key())
	ch.States(int64(len(o.log))+1, int64(len(o.log)))
	fail := func(why string) {
		var steps []string
		for _, s := range o.log {
			steps = append(steps, fmt.Sprintf("%s = %d", s, s.Ret))
		}
		ch.Violation("writer "+j.key(), map[string]any{"why": why, "calls": steps, "stdout": o.stdout, "stderr": o.stderr})
	}
	if o.runaway {
		fail("the writer does not end")
		return 0
	}
	if o.bad != "" {
		fail(o.bad)
	}
	missing, extra := p.litter()
	if len(missing) > 0 {
		fail(fmt.Sprintf("files of others: %v", missing))
	}
	if !o.killed {
		if !o.status.Exited() || o.status.ExitStatus() != 0 {
			fail(fmt.Sprintf("the process ended with %v", o.status))
		}
		if j.mode == "force" && strings.TrimSpace(o.stdout) != "v1.0.0 "+newA.tag {
			fail("the answer is " + strings.TrimSpace(o.stdout))
		}
		if len(extra) > 0 && !o.unlinkKO {
			fail(fmt.Sprintf("left behind: %v", extra))
		}
	}
	if len(j.faults) == 0 {
		b, _ := os.ReadFile(p.file)
		if len(b) == 0 || bytes.Equal(b, p.old) {
			fail("the new answer was not stored")
		}
		for n := range p.names() {
			if stale(n) {
				fail("the leftover " + n + " is still there")
			}
		}
		return len(o.log)
	}
	// What is left now must be cleared away once it is old.
	if len(extra) > 0 {
		old := time.Now().Add(-90 * time.Minute)
		for _, n := range extra {
			_ = os.Chtimes(filepath.Join(p.root, n), old, old)
		}
		cmd := exec.Command(self, "helper", "force", newB.tag, newB.etag)
		cmd.Env = p.env()
		var out []byte
		var err error
		trace.Alone(func() { out, err = cmd.CombinedOutput() })
		if err != nil {
			fail(fmt.Sprintf("the next run: %v %s", err, out))
		}
		missing, extra = p.litter()
		if len(missing)+len(extra) > 0 {
			fail(fmt.Sprintf("after the next run: left behind %v, %v", extra, missing))
		}
		if bad := p.see(start, newB); bad != "" {
			fail("after the next run: " + bad)
		}
		ch.Count("recoveries", 1)
	}
	return len(o.log)
}

// singleFaults runs the writer with every fault at every call, and pairs.
func singleFaults(ch *vlib.Check) {
	for _, mode := range []string{"refresh", "force"} {
		for _, kind := range []string{"none", "empty", "old", "littered"} {
			n := judge(ch, job{mode: mode, kind: kind})
			if ch.Enough() || n == 0 {
				return
			}
			ch.Set("calls_"+mode+"_"+kind, n)
			var jobs []job
			one := func(at int) []fault {
				fs := []fault{{At: at, What: "kill"}, {At: at, What: "killafter"}}
				for _, e := range errnos {
					fs = append(fs, fault{At: at, What: e.name, Err: e.e})
				}
				return fs
			}
			for at := 0; at < n; at++ {
				for _, f := range one(at) {
					jobs = append(jobs, job{mode, kind, []fault{f}})
				}
			}
			pairs := kind == "old" && mode == "refresh" || ch.Thorough()
			if pairs {
				for a := 0; a < n; a++ {
					for _, e := range errnos {
						if !ch.Thorough() && e.name != "ENOSPC" && e.name != "EACCES" && e.name != "ENOENT" {
							continue
						}
						// A failure adds calls (the removal), so look further.
						for b := a + 1; b < n+4; b++ {
							for _, f := range one(b) {
								if !ch.Thorough() && f.What != "kill" && f.What != "ENOSPC" && f.What != "EACCES" {
									continue
								}
								jobs = append(jobs, job{mode, kind, []fault{{At: a, What: e.name, Err: e.e}, f}})
							}
						}
					}
				}
			}
			parallel(jobs, func(j job) {
				if !ch.Enough() && !ch.Expired() {
					judge(ch, j)
				}
			})
		}
	}
	// A limit on the size of files makes the write itself partial.
	full := len(cacheText(0, newA.tag, newA.etag)) + 12
	var limits []int
	for n := 0; n <= full; n++ {
		limits = append(limits, n)
	}
	parallel(limits, func(n int) {
		for _, kind := range []string{"empty", "old"} {
			p := setup(kind)
			start := time.Now()
			o := drive(p, []string{self, "helper", "refresh", newA.tag, newA.etag, fmt.Sprint(n)}, nil, func() string { return p.see(start, newA) })
			_, extra := p.litter()
			ch.Eval(fmt.Sprintf("limit %s %d", kind, n))
			ch.States(int64(len(o.log))+1, int64(len(o.log)))
			if o.bad != "" || len(extra) > 0 {
				ch.Violation(fmt.Sprintf("file size limit %d with %s cache", n, kind), map[string]any{"why": o.bad, "left": extra})
			}
			p.done()
		}
	})
}

// inode of the power-loss model: what was written, and how much of that is
// certainly on disk.
type inode struct {
	data   []byte
	synced bool
	ever   []byte // last synced content
}

// torn records the calls of an undisturbed writer and enumerates what a
// power loss at each of them may leave.
func torn(ch *vlib.Check) {
	for _, mode := range []string{"refresh", "force"} {
		for _, kind := range []string{"empty", "old", "littered"} {
			p := setup(kind)
			start := time.Now()
			o := drive(p, []string{self, "helper", mode, newA.tag, newA.etag}, nil, nil)
			final, _ := os.ReadFile(p.file)
			states, bad := powerLoss(p, o.log, start, final)
			ch.States(states, states)
			ch.EvalDistinct(states)
			ch.Validated(1)
			if bad != "" {
				ch.Violation("power loss, "+mode+" with "+kind+" cache", map[string]any{"why": bad, "calls": fmt.Sprint(o.log)})
			}
			p.done()
		}
	}
}

func powerLoss(p *place, log []*trace.Stop, start time.Time, final []byte) (states int64, bad string) {
	// The namespace after each directory operation; data per inode over time.
	names := map[string]int{}
	var inodes []*inode
	add := func(path string, content []byte) int {
		inodes = append(inodes, &inode{data: content, synced: true, ever: content})
		names[path] = len(inodes) - 1
		return len(inodes) - 1
	}
	if p.old != nil {
		add(p.file, p.old)
	}
	fds := map[int]int{}
	off := map[int]int64{}
	type ns map[string]int
	snapshots := []ns{copyNS(names)}
	durable := 0 // directory operations certainly on disk
	check := func(at string) {
		for _, view := range snapshots[durable:] {
			id, ok := view[p.file]
			if !ok {
				states++
				if p.old != nil {
					bad = "at " + at + ": the cache file is gone"
				}
				continue
			}
			in := inodes[id]
			var contents [][]byte
			if in.synced {
				contents = [][]byte{in.data}
			} else {
				contents = append(contents, in.ever)
				for n := 0; n <= len(in.data); n++ {
					contents = append(contents, in.data[:n])
				}
				contents = append(contents, make([]byte, len(in.data)))
			}
			for _, c := range contents {
				states++
				if why := p.whole(c, true, start, newA); why != "" && bad == "" {
					bad = "at " + at + ": " + why
				}
			}
		}
	}
	check("the start")
	for _, s := range log {
		if s.Ret < 0 {
			continue
		}
		switch s.Name {
		case "open", "openat", "openat2", "creat":
			id, ok := names[s.Path]
			if !ok && s.Create {
				inodes = append(inodes, &inode{synced: false})
				id = len(inodes) - 1
				names[s.Path] = id
				snapshots = append(snapshots, copyNS(names))
				ok = true
			}
			if ok {
				fds[s.Fd] = id
				off[s.Fd] = 0
				if s.Trunc {
					inodes[id].data, inodes[id].synced = nil, false
				}
			}
		case "write", "pwrite64":
			if id, ok := fds[s.Fd]; ok {
				at := off[s.Fd]
				if s.Off >= 0 {
					at = s.Off
				}
				d := append([]byte{}, inodes[id].data...)
				for int64(len(d)) < at {
					d = append(d, 0)
				}
				d = append(d[:at], s.Data[:s.Ret]...)
				inodes[id].data, inodes[id].synced = d, false
				if s.Off < 0 {
					off[s.Fd] = at + s.Ret
				}
			}
		case "ftruncate":
			if id, ok := fds[s.Fd]; ok && s.Off <= int64(len(inodes[id].data)) {
				inodes[id].data, inodes[id].synced = inodes[id].data[:s.Off], false
			}
		case "fsync", "fdatasync":
			if id, ok := fds[s.Fd]; ok {
				inodes[id].synced, inodes[id].ever = true, inodes[id].data
			} else {
				durable = len(snapshots) - 1 // the directory itself
			}
		case "close":
			delete(fds, s.Fd)
		case "rename", "renameat", "renameat2":
			if id, ok := names[s.Path]; ok {
				delete(names, s.Path)
				names[s.Path2] = id
				snapshots = append(snapshots, copyNS(names))
			}
		case "unlink", "unlinkat":
			if _, ok := names[s.Path]; ok {
				delete(names, s.Path)
				snapshots = append(snapshots, copyNS(names))
			}
		}
		check(s.String())
	}
	// The model must end where the run did.
	if id, ok := names[p.file]; !ok || !bytes.Equal(inodes[id].data, final) {
		if bad == "" && !usesOther(log) {
			bad = "the recorded calls do not explain the final content"
		}
	}
	return states, bad
}

// usesOther reports calls the power-loss model does not describe.
func usesOther(log []*trace.Stop) bool {
	for _, s := range log {
		switch s.Name {
		case "link", "linkat", "symlink", "symlinkat", "writev", "sendfile", "copy_file_range", "truncate", "fallocate":
			return true
		}
	}
	return false
}

func copyNS(m map[string]int) map[string]int {
	c := map[string]int{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// twoWriters runs two writers, and for a while a third, in every order of
// the calls that can affect each other, and with one of them killed.
func twoWriters(ch *vlib.Check) {
	type sched struct {
		kind  string
		order []byte
	}
	for _, kind := range []string{"old", "empty", "littered"} {
		bound := 3
		if kind == "littered" {
			bound = 2
		}
		if ch.Thorough() {
			bound += 2
		}
		var runs atomic.Int64
		// Depth first over the choices, the prefixes shared out to workers.
		prefixes := [][]byte{{}}
		for len(prefixes) > 0 && !ch.Enough() && !ch.Expired() {
			next := make([][][]byte, len(prefixes))
			idx := make([]int, len(prefixes))
			for i := range idx {
				idx[i] = i
			}
			parallel(idx, func(i int) {
				if ch.Enough() || ch.Expired() {
					return
				}
				runs.Add(1)
				next[i] = twoRun(ch, kind, prefixes[i], bound)
			})
			prefixes = nil
			for _, n := range next {
				prefixes = append(prefixes, n...)
			}
		}
		ch.Count("two_writer_orders", runs.Load())
		if ch.Enough() {
			return
		}
	}
}

// twoRun runs one schedule: the prefix, then keeping to one writer. Choices
// are 0, 1 (make the held call of that writer) and 2, 3 (kill it instead).
// It returns the prefixes that differ from it at a later point, with at most
// bound switches away from a writer that could go on.
func twoRun(ch *vlib.Check, kind string, prefix []byte, bound int) (more [][]byte) {
	p := setup(kind)
	defer p.done()
	start := time.Now()
	news := []answer{newA, newB}
	var choices []byte
	bad := ""
	killed := false
	var logs [2][]*trace.Stop
	var status [2]syscall.WaitStatus
	trace.Run(p.root, func(s *trace.Session) {
		s.Gate = func(st *trace.Stop) bool { return st.Mutates() || st.Looks() }
		var pr [2]*trace.Proc
		for i, a := range news {
			var err error
			pr[i], err = s.Start([]string{self, "helper", "force", a.tag, a.etag}, p.env(), nil, nil)
			if err != nil {
				panic(err)
			}
		}
		last := byte(0)
		switches := 0
		for step := 0; ; step++ {
			s.Settle()
			var can []byte
			for i := range pr {
				if !pr[i].Exited {
					can = append(can, byte(i))
				}
			}
			if len(can) == 0 {
				break
			}
			if step > 200 {
				bad = "the writers do not end"
				break
			}
			pick := can[0]
			for _, c := range can {
				if c == last {
					pick = c
				}
			}
			free := pick != last // the other one has ended
			if step < len(prefix) {
				pick = prefix[step]
			} else {
				for _, c := range can {
					if c != pick && switches < bound {
						more = append(more, append(append([]byte{}, choices...), c))
					}
				}
				if !killed {
					for _, c := range can {
						if c == pick || switches < bound && !free {
							more = append(more, append(append([]byte{}, choices...), c+2))
						}
					}
				}
			}
			if pr[pick&1].Held() == nil {
				ch.Count("diverged", 1)
				more = nil
				return
			}
			choices = append(choices, pick)
			if pick < 2 && pick != last && !free && step > 0 {
				switches++
			}
			if pick >= 2 {
				killed = true
				s.Kill(pr[pick-2])
			} else {
				last = pick
				s.Step(pr[pick])
			}
			if bad == "" {
				if why := p.see(start, news...); why != "" {
					bad = fmt.Sprintf("after step %d: %s", step, why)
				}
			}
		}
		for i := range pr {
			logs[i], status[i] = pr[i].Log, pr[i].Status
		}
	})
	if len(choices) < len(prefix) {
		return nil // the prefix could not be repeated
	}
	ch.Eval(fmt.Sprintf("two/%s/%v", kind, choices))
	ch.States(int64(len(choices)), int64(len(choices)))
	missing, extra := p.litter()
	if bad == "" && len(missing) > 0 {
		bad = fmt.Sprint("files of others: ", missing)
	}
	if bad == "" && !killed {
		if len(extra) > 0 {
			bad = fmt.Sprint("left behind: ", extra)
		}
		if b, _ := os.ReadFile(p.file); bytes.Equal(b, p.old) {
			bad = "neither answer was stored"
		}
		for i := range status {
			if !status[i].Exited() || status[i].ExitStatus() != 0 {
				bad = fmt.Sprintf("writer %d ended with %v", i, status[i])
			}
		}
	}
	if bad != "" {
		ch.Violation(fmt.Sprintf("two writers, %s cache, order %v", kind, choices), map[string]any{"why": bad, "writer0": fmt.Sprint(logs[0]), "writer1": fmt.Sprint(logs[1])})
	}
	return more
}

// babfile for the runs of bab itself.
const babText = "tasks:\n  t:\n    run:\n      - cmd: echo out; echo err >&2; echo ran >> \"$BLOG\"\n      - cmd: exit 3\n  u:\n    desc: second\n    run:\n      - cmd: echo two >> \"$BLOG\"\n"

func buildVersioned() (string, error) {
	out := filepath.Join(bb.Scratch(), "babv1")
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	cmd := exec.Command("go", "build", "-ldflags", "-X main.version=v1.0.0", "-o", out, ".")
	cmd.Dir = repo
	var b []byte
	var err error
	trace.Alone(func() { b, err = cmd.CombinedOutput() })
	if err != nil {
		return "", fmt.Errorf("%v %s", err, b)
	}
	return out, nil
}

var bab string

type babRun struct {
	exit   int
	stdout string
	log    string
	stderr string // without an announcement
	news   bool
	hung   bool
}

func (r babRun) String() string {
	return fmt.Sprintf("exit %d hung %v stdout %q log %q stderr %q", r.exit, r.hung, r.stdout, r.log, r.stderr)
}

func splitNews(stderr string) (rest string, news bool) {
	var keep []string
	for _, l := range strings.SplitAfter(stderr, "\n") {
		if strings.Contains(l, "new version of bab") {
			news = true
			continue
		}
		keep = append(keep, l)
	}
	return strings.Join(keep, ""), news
}

func runBab(p *place, args ...string) (r babRun) {
	work := p.root + "-w"
	_ = os.MkdirAll(work, 0o755)
	defer os.RemoveAll(work)
	_ = os.WriteFile(filepath.Join(work, "Babfile"), []byte(babText), 0o644)
	cmd := exec.Command(bab, args...)
	cmd.Dir = work
	cmd.Env = append(p.env(), "BLOG="+filepath.Join(work, "log"))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	trace.Alone(func() {
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		t := time.AfterFunc(60*time.Second, func() { r.hung = true; _ = cmd.Process.Kill() })
		_ = cmd.Wait()
		t.Stop()
	})
	r.exit = cmd.ProcessState.ExitCode()
	r.stdout = so.String()
	r.stderr, r.news = splitNews(se.String())
	b, _ := os.ReadFile(filepath.Join(work, "log"))
	r.log = string(b)
	return r
}

// readFaults makes each call of the reader fail.
func readFaults(ch *vlib.Check) {
	for _, kind := range []string{"none", "empty", "old", "littered"} {
		p := setup(kind)
		o := drive(p, []string{self, "helper", "check", "", ""}, nil, nil)
		want := strings.TrimSpace(o.stdout)
		p.done()
		if kind != "none" && kind != "empty" && want != "v1.0.0 v1.1.0" || (kind == "none" || kind == "empty") && want != "none" {
			ch.Violation("reader with "+kind+" cache", map[string]any{"got": want})
		}
		var fs []fault
		for at := range o.log {
			for _, e := range errnos {
				fs = append(fs, fault{at, e.name, e.e})
			}
		}
		parallel(fs, func(f fault) {
			p := setup(kind)
			defer p.done()
			o := drive(p, []string{self, "helper", "check", "", ""}, []fault{f}, nil)
			got := strings.TrimSpace(o.stdout)
			ch.Eval(fmt.Sprintf("read/%s/%s@%d", kind, f.What, f.At))
			ch.States(int64(len(o.log))+1, int64(len(o.log)))
			missing, extra := p.litter()
			if got != want && got != "none" || !o.status.Exited() || o.status.ExitStatus() != 0 || len(missing)+len(extra) > 0 || p.see(time.Now()) != "" {
				ch.Violation(fmt.Sprintf("reader with %s cache, %s at call %d", kind, f.What, f.At), map[string]any{"got": got, "stderr": o.stderr, "calls": fmt.Sprint(o.log), "missing": missing, "extra": extra})
			}
		})
	}
}

// contents gives bab every enumerated content of the cache file.
func contents(ch *vlib.Check) {
	var err error
	bab, err = buildVersioned()
	if err != nil {
		fmt.Println("bab does not build:", err)
		os.Exit(3)
	}
	type c struct {
		key  string
		data []byte
		make func(p *place)
	}
	var cs []c
	valid := cacheText(time.Hour, "v9.0.0", `"e"`)
	put := func(key string, data []byte) { cs = append(cs, c{key: key, data: data}) }
	put("valid", valid)
	for n := 0; n < len(valid); n++ {
		put(fmt.Sprintf("first %d bytes", n), valid[:n])
	}
	subs := []byte{0, ' ', '"', '{', '9', 0xff}
	if ch.Thorough() {
		subs = nil
		for b := 0; b < 256; b++ {
			subs = append(subs, byte(b))
		}
	}
	for n := range valid {
		for _, b := range subs {
			d := append([]byte{}, valid...)
			d[n] = b
			put(fmt.Sprintf("byte %d is %#x", n, b), d)
		}
		put(fmt.Sprintf("without byte %d", n), append(append([]byte{}, valid[:n]...), valid[n+1:]...))
	}
	now := time.Now().UTC().Format(time.RFC3339Nano)
	values := []string{`null`, `true`, `0`, `-1`, `1e400`, `""`, `"x"`, `"v9.0.0"`, `"v9"`, `"9.0.0-rc.1+b"`, `"v99999999999999999999.0.0"`, `"\u0000"`, `"\ud800"`, `"v9.0.0\nmore"`, `"\u001b[2J"`, `[]`, `{}`, `["v9.0.0"]`,
		`"` + now + `"`, `"0000-01-01T00:00:00Z"`, `"9999-12-31T23:59:59Z"`, `"2024-02-30T00:00:00Z"`, `"` + strings.Repeat("9", 5000) + `"`, `"v` + strings.Repeat("1.", 3000) + `1"`}
	for _, a := range values {
		put("checked_at "+short(a), []byte(fmt.Sprintf(`{"checked_at":%s,"latest_version":"v9.0.0","etag":"e"}`, a)))
		put("latest_version "+short(a), []byte(fmt.Sprintf(`{"checked_at":%q,"latest_version":%s,"etag":"e"}`, now, a)))
		put("etag "+short(a), []byte(fmt.Sprintf(`{"checked_at":%q,"latest_version":"v9.0.0","etag":%s}`, now, a)))
		put("only "+short(a), []byte(a))
		if ch.Thorough() {
			for _, b := range values {
				put("latest_version "+short(a)+" etag "+short(b), []byte(fmt.Sprintf(`{"checked_at":%q,"latest_version":%s,"etag":%s}`, now, a, b)))
				put("checked_at "+short(a)+" latest_version "+short(b), []byte(fmt.Sprintf(`{"checked_at":%s,"latest_version":%s,"etag":""}`, a, b)))
			}
		}
	}
	put("big", bytes.Repeat([]byte("x"), 4<<20))
	put("deep", bytes.Repeat([]byte("["), 1<<20))
	put("two documents", append(append([]byte{}, valid...), valid...))
	put("duplicate keys", []byte(`{"latest_version":"v9.0.0","latest_version":null,"checked_at":"`+now+`"}`))
	put("BOM", append([]byte("\xef\xbb\xbf"), valid...))
	cs = append(cs, c{key: "a directory", make: func(p *place) { _ = os.Mkdir(p.file, 0o755) }},
		c{key: "a full directory", make: func(p *place) {
			_ = os.Mkdir(p.file, 0o755)
			_ = os.WriteFile(filepath.Join(p.file, "x"), nil, 0o644)
		}},
		c{key: "a link to itself", make: func(p *place) { _ = os.Symlink(p.file, p.file) }},
		c{key: "a dangling link", make: func(p *place) { _ = os.Symlink(filepath.Join(p.root, "nowhere"), p.file) }},
		c{key: "the cache directory is a file", make: func(p *place) { _ = os.RemoveAll(p.dir); _ = os.WriteFile(p.dir, nil, 0o644) }},
		c{key: "no cache home", make: func(p *place) { _ = os.RemoveAll(p.root); _ = os.WriteFile(p.root, nil, 0o644) }})

	invocations := [][]string{{"t"}, {"u"}, {"-l"}, {"--validate"}, {"nope"}}
	base := map[string]babRun{}
	for _, inv := range invocations {
		p := setup("none")
		base[inv[0]] = runBab(p, inv...)
		p.done()
	}
	if base["t"].log != "ran\n" || base["t"].exit == 0 {
		ch.Violation("bab without a cache", base["t"].String())
		return
	}
	ch.Set("cache_contents", len(cs))
	parallel(cs, func(x c) {
		if ch.Enough() || ch.Expired() {
			return
		}
		invs := invocations[:1]
		if x.make != nil || ch.Thorough() {
			invs = invocations
		}
		for _, inv := range invs {
			p := setup("empty")
			if x.make != nil {
				x.make(p)
			} else {
				_ = os.WriteFile(p.file, x.data, 0o644)
			}
			r := runBab(p, inv...)
			want := base[inv[0]]
			ch.Eval("content " + x.key + " " + inv[0])
			if r.exit != want.exit || r.hung || r.stdout != want.stdout || r.stderr != want.stderr || r.log != want.log {
				ch.Violation("cache content: "+x.key+", bab "+inv[0], map[string]any{"content": fmt.Sprintf("%.300q", x.data), "got": r.String(), "without cache": want.String()})
			}
			if x.key == "valid" && !r.news {
				ch.Violation("a newer version in the cache is not announced", map[string]any{"content": string(x.data)})
			}
			p.done()
		}
	})
	// Faults at every call bab itself makes below the cache directory.
	for _, kind := range []string{"none", "old"} {
		p := setup(kind)
		work := p.root + "-w"
		_ = os.MkdirAll(work, 0o755)
		bf := filepath.Join(work, "Babfile")
		_ = os.WriteFile(bf, []byte(babText), 0o644)
		o := drive(p, []string{bab, "-b", bf, "t"}, nil, nil)
		wantErr, _ := splitNews(o.stderr)
		var fs []fault
		for at := range o.log {
			for _, e := range errnos {
				fs = append(fs, fault{at, e.name, e.e})
			}
		}
		p.done()
		ch.Set("calls_bab_"+kind, len(o.log))
		parallel(fs, func(f fault) {
			if ch.Enough() || ch.Expired() {
				return
			}
			p := setup(kind)
			defer p.done()
			r := drive(p, []string{bab, "-b", bf, "t"}, []fault{f}, nil)
			gotErr, _ := splitNews(r.stderr)
			ch.Eval(fmt.Sprintf("bab/%s/%s@%d", kind, f.What, f.At))
			if r.status != o.status || r.stdout != o.stdout || gotErr != wantErr {
				ch.Violation(fmt.Sprintf("bab with %s cache, %s at call %d", kind, f.What, f.At), map[string]any{"got": r.stdout + r.stderr, "want": o.stdout + o.stderr, "calls": fmt.Sprint(r.log), "status": fmt.Sprint(r.status)})
			}
		})
		_ = os.RemoveAll(work)
	}
	ch.Sample(map[string]string{"cache": string(valid), "bab t": base["t"].String()})
}

func short(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}
