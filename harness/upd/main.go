// Command upd decides P22: the update cache under faults and bad content.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/update"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/trace"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "helper" {
		helper(os.Args[2:])
		return
	}
	ch := vlib.New(os.Args[1], "model_checking")
	p22(ch)
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}

// answer is the server of the helper.
type answer struct{ tag, etag string }

func (a answer) RoundTrip(*http.Request) (*http.Response, error) {
	if a.tag == "" {
		return nil, errors.New("no network")
	}
	h := http.Header{}
	h.Set("Etag", a.etag)
	body, _ := json.Marshal(map[string]any{"tag_name": a.tag, "name": "release " + a.tag, "draft": false})
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h,
		Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}, nil
}

// helper is the process whose system calls are explored.
func helper(args []string) {
	http.DefaultTransport = answer{args[1], args[2]}
	show := func(i *update.Info) {
		if i == nil {
			fmt.Println("none")
		} else {
			fmt.Println(i.CurrentVersion, i.LatestVersion)
		}
	}
	if len(args) > 3 { // a limit on the size of files
		var n uint64
		fmt.Sscan(args[3], &n)
		_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	switch args[0] {
	case "refresh":
		update.StartBackgroundRefresh(context.Background(), "v1.0.0")
		buf := make([]byte, 1<<16)
		for bytes.Contains(buf[:runtime.Stack(buf, true)], []byte("bab/internal/update.")) {
			time.Sleep(time.Millisecond)
		}
		fmt.Println("ok")
	case "force":
		show(update.ForceCheck("v1.0.0"))
	case "check":
		show(update.CheckCached("v1.0.0"))
	}
}

// place is a cache directory in a known state.
type place struct {
	root, dir, file string
	old             []byte // previous content of the cache file, nil if absent
	before          map[string]string
}

var seq int
var seqMu sync.Mutex

const day = 24 * time.Hour

func cacheText(age time.Duration, tag, etag string) []byte {
	b, _ := json.Marshal(map[string]any{"checked_at": time.Now().Add(-age).UTC(), "latest_version": tag, "etag": etag})
	return b
}

// setup makes a cache directory. Kinds: none (no cache directory at all),
// empty, old (an expired cache), littered (also leftovers of crashed writers
// and files of others).
func setup(kind string) *place {
	seqMu.Lock()
	seq++
	root := filepath.Join(bb.Scratch(), fmt.Sprintf("u%d", seq))
	seqMu.Unlock()
	p := &place{root: root, dir: filepath.Join(root, "bab"), file: filepath.Join(root, "bab", "update-check.json")}
	_ = os.MkdirAll(root, 0o755)
	if kind == "none" {
		p.before = p.names()
		return p
	}
	_ = os.MkdirAll(p.dir, 0o755)
	if kind == "old" || kind == "littered" {
		p.old = cacheText(3*day, "v1.1.0", `"etag-old"`)
		_ = os.WriteFile(p.file, p.old, 0o644)
	}
	if kind == "littered" {
		long := time.Now().Add(-2 * time.Hour)
		put := func(name string, old bool) {
			f := filepath.Join(p.dir, name)
			_ = os.WriteFile(f, []byte("content of "+name), 0o644)
			if old {
				_ = os.Chtimes(f, long, long)
			}
		}
		put("update-check-111.tmp", true)
		put("update-check-222.tmp", true)
		put("update-check-333.tmp", false)
		put("update-check-444.tmp.bak", true)
		put("update-check-notes.txt", true)
		put("my-update-check-5.tmp", true)
		put("other.tmp", true)
		put("update-check.json.orig", true)
		_ = os.Mkdir(filepath.Join(p.dir, "update-check-6.tmp"), 0o755)
		_ = os.Chtimes(filepath.Join(p.dir, "update-check-6.tmp"), long, long)
		_ = os.WriteFile(filepath.Join(root, "update-check-7.tmp"), []byte("outside"), 0o644)
		_ = os.Chtimes(filepath.Join(root, "update-check-7.tmp"), long, long)
		put("precious", true)
		_ = os.Symlink(filepath.Join(root, "update-check-7.tmp"), filepath.Join(p.dir, "link.tmp"))
	}
	p.before = p.names()
	return p
}

func (p *place) done() { _ = os.RemoveAll(p.root) }

// names lists the tree but for the cache file.
func (p *place) names() map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(p.root, func(path string, info os.FileInfo, err error) error {
		if err != nil || path == p.root || path == p.file || path == p.dir {
			return nil
		}
		rel, _ := filepath.Rel(p.root, path)
		if info.Mode().IsRegular() {
			b, _ := os.ReadFile(path)
			m[rel] = string(b)
		} else {
			m[rel] = info.Mode().Type().String()
		}
		return nil
	})
	return m
}

func stale(rel string) bool {
	return rel == "bab/update-check-111.tmp" || rel == "bab/update-check-222.tmp"
}

// rec is the content of a complete cache.
type rec struct {
	CheckedAt     time.Time `json:"checked_at"`
	LatestVersion string    `json:"latest_version"`
	ETag          string    `json:"etag"`
}

// whole says whether content is the previous one or a complete new one.
func (p *place) whole(b []byte, exists bool, start time.Time, news ...answer) string {
	if !exists {
		if p.old == nil {
			return ""
		}
		return "the cache file is gone"
	}
	if p.old != nil && bytes.Equal(b, p.old) {
		return ""
	}
	var r rec
	if err := json.Unmarshal(b, &r); err != nil {
		return fmt.Sprintf("the cache file holds %q", b)
	}
	for _, a := range news {
		if r.LatestVersion == a.tag && r.ETag == a.etag && !r.CheckedAt.Before(start.Add(-time.Second)) && !r.CheckedAt.After(time.Now().Add(time.Second)) {
			return ""
		}
	}
	return fmt.Sprintf("the cache file holds %q, neither the old nor a new content", b)
}

func (p *place) see(start time.Time, news ...answer) string {
	b, err := os.ReadFile(p.file)
	if err != nil && !errors.Is(err, os.ErrNotExist) {
		return "the cache file cannot be read: " + err.Error()
	}
	return p.whole(b, err == nil, start, news...)
}

// litter compares the other files with what was there before. Leftovers are
// temporary files of the writer's own.
func (p *place) litter() (missing, extra []string) {
	now := p.names()
	for n, c := range p.before {
		if got, ok := now[n]; !ok {
			if !stale(n) {
				missing = append(missing, n+" was removed")
			}
		} else if got != c {
			missing = append(missing, n+" was changed")
		}
	}
	for n := range now {
		if _, ok := p.before[n]; !ok {
			extra = append(extra, n)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}

func (p *place) env() []string {
	home := filepath.Join(p.root, "..", "home")
	return []string{"PATH=/usr/bin:/bin", "HOME=" + home, "XDG_CACHE_HOME=" + p.root, "XDG_CONFIG_HOME=" + home, "XDG_DATA_HOME=" + home, "XDG_STATE_HOME=" + home, "XDG_RUNTIME_DIR=" + home, "LANG=C.UTF-8", "TERM=dumb", "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=2"}
}

// fault is one thing that happens to the n-th relevant call of a run.
type fault struct {
	At   int
	What string // kill, killafter, or an error name
	Err  syscall.Errno
}

var errnos = []struct {
	name string
	e    syscall.Errno
}{{"ENOSPC", syscall.ENOSPC}, {"EIO", syscall.EIO}, {"EACCES", syscall.EACCES}, {"ENOENT", syscall.ENOENT}, {"EINVAL", syscall.EINVAL}, {"EEXIST", syscall.EEXIST}, {"EROFS", syscall.EROFS}, {"EMFILE", syscall.EMFILE}}

// outcome is one run of one helper.
type outcome struct {
	log      []*trace.Stop
	killed   bool
	status   syscall.WaitStatus
	stdout   string
	stderr   string
	bad      string
	runaway  bool
	unlinkKO bool
}

var self string

// drive runs one helper with the faults given; inspect is called after every
// relevant call.
func drive(p *place, argv []string, faults []fault, inspect func() string) (o outcome) {
	so, _ := os.CreateTemp(bb.Scratch(), "out")
	se, _ := os.CreateTemp(bb.Scratch(), "err")
	defer func() {
		so.Close()
		se.Close()
		os.Remove(so.Name())
		os.Remove(se.Name())
	}()
	trace.Run(p.root, func(s *trace.Session) {
		pr, err := s.Start(argv, append(p.env(), extraEnv...), so, se)
		if err != nil {
			panic(err)
		}
		n := 0
		for {
			s.Settle()
			if pr.Exited {
				break
			}
			st := pr.Held()
			act := fault{}
			for _, f := range faults {
				if f.At == n {
					act = f
				}
			}
			n++
			if n > 3000 {
				o.runaway = true
				s.Kill(pr)
				break
			}
			switch {
			case act.What == "kill":
				o.killed = true
				s.Kill(pr)
			case act.What == "killafter":
				o.killed = true
				s.KillAfter(pr)
			case act.Err != 0:
				if strings.HasPrefix(st.Name, "unlink") {
					o.unlinkKO = true
				}
				s.Fail(pr, act.Err)
			default:
				s.Step(pr)
			}
			if inspect != nil && o.bad == "" {
				if bad := inspect(); bad != "" {
					o.bad = "after " + st.String() + ": " + bad
				}
			}
			if pr.Exited {
				break
			}
		}
		o.status = pr.Status
		o.log = pr.Log
	})
	b, _ := os.ReadFile(so.Name())
	o.stdout = string(b)
	b, _ = os.ReadFile(se.Name())
	o.stderr = string(b)
	return o
}

var extraEnv []string

func parallel[T any](items []T, f func(T)) {
	var wg sync.WaitGroup
	ch := make(chan T)
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range ch {
				f(it)
			}
		}()
	}
	for _, it := range items {
		ch <- it
	}
	close(ch)
	wg.Wait()
}
