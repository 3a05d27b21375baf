// Package bb runs enumerated cases against the real bab binary.
package bb

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"iter"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// Case is one history: a directory tree and one or more invocations of bab.
type Case struct {
	Key     string            // identifies the case
	Trivial bool              // does not count as non-trivial
	Files   map[string]string // relative to the case directory
	Dirs    []string
	Links   map[string]string // symbolic links: place and target
	Cwd     string            // relative to the case directory
	Args    []string
	Env     []string
	Stdin   string
	Data    any
}

// Got is what the run of a case was seen to do.
type Got struct {
	Exit     int
	Log      []string // lines appended to $BLOG by the commands that ran
	Stdout   string
	Stderr   string
	TimedOut bool
	Root     string // the case directory
	Changed  []string
	Sub      []Got // further runs of the same case
}

var scratchOnce sync.Once
var scratchDir string

// Scratch is the private directory of this process.
func Scratch() string {
	scratchOnce.Do(func() {
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "bb-")
		if err != nil {
			panic(err)
		}
		scratchDir, _ = filepath.EvalSymlinks(d)
	})
	return scratchDir
}

// Cleanup removes the scratch directory.
func Cleanup() {
	if scratchDir != "" {
		_ = os.RemoveAll(scratchDir)
	}
}

// Bab is the binary under test.
func Bab() string {
	b := os.Getenv("VERIF_BAB")
	if b == "" {
		fmt.Println("VERIF_BAB is not set")
		os.Exit(3)
	}
	return b
}

// BaseEnv is the environment a case starts from.
func BaseEnv(home, log string) []string {
	return []string{
		"PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"HOME=" + home, "XDG_CACHE_HOME=" + home + "/.cache", "XDG_CONFIG_HOME=" + home + "/.config",
		"LANG=C.UTF-8", "TERM=dumb", "BAB_NO_UPDATE_CHECK=1", "BLOG=" + log,
	}
}

// Timeout is how long one invocation may take before it counts as hung.
var Timeout = 30 * time.Second

// Prepare lays out the tree of a case under root.
func Prepare(root string, c *Case) error {
	for _, d := range c.Dirs {
		if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
			return err
		}
	}
	for name, to := range c.Links {
		p := filepath.Join(root, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.Symlink(to, p); err != nil && !os.IsExist(err) {
			return err
		}
	}
	if c.Cwd != "" {
		if err := os.MkdirAll(filepath.Join(root, c.Cwd), 0o755); err != nil {
			return err
		}
	}
	for name, content := range c.Files {
		p := filepath.Join(root, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(strings.ReplaceAll(content, "@ROOT@", root)), 0o644); err != nil {
			return err
		}
	}
	return nil
}

var caseNo struct {
	sync.Mutex
	n int
}

// NewRoot makes a fresh case directory.
func NewRoot() string {
	caseNo.Lock()
	caseNo.n++
	n := caseNo.n
	caseNo.Unlock()
	root := filepath.Join(Scratch(), fmt.Sprintf("c%d", n))
	if err := os.MkdirAll(root, 0o755); err != nil {
		panic(err)
	}
	return root
}

// RemoveRoot removes a case directory made by NewRoot.
func RemoveRoot(dir string) { _ = os.RemoveAll(dir) }

// Run runs the case once in a fresh directory.
func Run(c *Case) Got {
	outer := NewRoot()
	defer func() { _ = os.RemoveAll(outer) }()
	root := filepath.Join(outer, "p")
	_ = os.MkdirAll(root, 0o755)
	return RunIn(outer, root, c)
}

// RunIn runs the case in the given directory.
func RunIn(outer, root string, c *Case) Got {
	if err := Prepare(root, c); err != nil {
		panic(err)
	}
	log := filepath.Join(outer, "blog")
	_ = os.Remove(log)
	home := filepath.Join(outer, "home")
	_ = os.MkdirAll(home, 0o755)
	args := make([]string, len(c.Args))
	for i, a := range c.Args {
		args[i] = strings.ReplaceAll(a, "@ROOT@", root)
	}
	got := Exec(Bab(), args, filepath.Join(root, c.Cwd), append(BaseEnv(home, log), c.Env...), c.Stdin)
	got.Root = root
	if data, err := os.ReadFile(log); err == nil {
		got.Log = splitLines(string(data))
	}
	return got
}

// ReadLog reads what the commands of a case appended.
func ReadLog(file string) []string {
	data, _ := os.ReadFile(file)
	return splitLines(string(data))
}

func splitLines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

// Exec runs one command to its end.
func Exec(bin string, args []string, dir string, env []string, stdin string) Got {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 2 * time.Second
	var got Got
	for attempt := 0; ; attempt++ {
		if err := cmd.Start(); err != nil {
			if attempt < 5 && (errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.ETXTBSY)) {
				time.Sleep(200 * time.Millisecond)
				n := exec.Command(bin, args...)
				n.Dir, n.Env, n.Stdout, n.Stderr, n.Stdin, n.SysProcAttr, n.WaitDelay = cmd.Dir, cmd.Env, cmd.Stdout, cmd.Stderr, cmd.Stdin, cmd.SysProcAttr, cmd.WaitDelay
				cmd = n
				continue
			}
			fmt.Println("cannot start", bin, err)
			os.Exit(3)
		}
		break
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(Timeout):
		got.TimedOut = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		got.Exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			got.Exit = 128 + int(ws.Signal())
		}
	} else if err != nil && !errors.Is(err, exec.ErrWaitDelay) {
		got.Exit = -1
	}
	got.Stdout, got.Stderr = out.String(), errb.String()
	return got
}

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;:]*[A-Za-z]")

// Plain removes the styling from text.
func Plain(s string) string { return ansiRE.ReplaceAllString(s, "") }

// Tree lists every file of a directory with its content.
func Tree(root string) map[string]string {
	m := map[string]string{}
	_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if d.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		data, _ := os.ReadFile(p)
		m[rel] = string(data)
		return nil
	})
	return m
}

// Judge says what is wrong with a run, or "".
type Judge func(c *Case, g Got) string

// Explore runs every case of the sequence and reports the ones judged wrong.
func Explore(ch *vlib.Check, cases iter.Seq[*Case], judge Judge) {
	ExploreWith(ch, cases, Run, judge)
}

// ExploreWith is Explore with a caller-supplied way to run a case.
func ExploreWith(ch *vlib.Check, cases iter.Seq[*Case], run func(*Case) Got, judge Judge) {
	work := make(chan *Case, 64)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range work {
				one(ch, c, run, judge)
			}
		}()
	}
	for c := range cases {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			break
		}
		work <- c
	}
	close(work)
	wg.Wait()
}

func one(ch *vlib.Check, c *Case, run func(*Case) Got, judge Judge) {
	g := run(c)
	key := c.Key
	if c.Trivial {
		key = ""
	}
	ch.Eval(key)
	ch.Sample(map[string]any{"case": c.Key, "args": c.Args, "files": c.Files, "log": g.Log, "exit": g.Exit})
	why := judge(c, g)
	if why == "" {
		return
	}
	// A deviation must show again before it is reported.
	again := 0
	tries := 0
	last := why
	lastG := g
	for tries < 12 && again < 2 {
		tries++
		g2 := run(c)
		if w := judge(c, g2); w != "" {
			again++
			last, lastG = w, g2
		}
	}
	if again == 0 {
		ch.Count("unreproduced", 1)
		return
	}
	if !ch.Violation(c.Key, map[string]any{
		"what": last, "files": c.Files, "dirs": c.Dirs, "cwd": c.Cwd, "args": c.Args, "env": c.Env, "stdin": c.Stdin,
		"exit": lastG.Exit, "log": lastG.Log, "stdout": lastG.Stdout, "stderr": lastG.Stderr,
		"seen_again": fmt.Sprintf("%d of %d reruns", again, tries),
	}) {
		return
	}
	fmt.Printf("  %s\n", strings.ReplaceAll(last, "\n", "\n  "))
}

// SortedKeys is a helper for deterministic output.
func SortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
