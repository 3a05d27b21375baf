// Command inst checks install.sh (P27): the script runs with a stand-in for
// every external command, in a scratch directory; each call is made to fail,
// to lie or to be interrupted, alone and in pairs.
package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

const tag = "v2.0.0"

// setup is the machine the script runs on.
type setup struct {
	os, arch string
	dl       string // curl or wget
	sum      string // sha256sum, gsha256sum, shasum, openssl
	shell    string
	piped    bool // sh -s < install.sh, as in the documentation
	old      string
	tagArg   string
	bindir   string // "flag", "flag-new" (does not exist), "env", "home"
	debug    bool
	sums     string // how the list of checksums looks
}

func (s setup) key() string {
	k := fmt.Sprintf("%s %s, %s, %s, %s", s.os, s.arch, s.dl, s.sum, s.shell)
	if s.piped {
		k += " -s"
	}
	k += ", into " + s.bindir
	if s.old != "" {
		k += ", over " + s.old
	}
	if s.tagArg != "" {
		k += ", tag " + s.tagArg
	}
	if s.debug {
		k += ", -d"
	}
	if s.sums != "" {
		k += ", checksums " + s.sums
	}
	return k
}

// archive is the name of the released archive for a machine, from .goreleaser.yaml.
func (s setup) archive() (name, exe string) {
	o, ext, exe := "", "tar.gz", "bab"
	switch s.os {
	case "Linux":
		o = "Linux"
	case "Darwin":
		o = "macOS"
	case "MINGW64_NT-10.0", "CYGWIN_NT-10.0", "MSYS_NT-10.0":
		o, ext, exe = "Windows", "zip", "bab.exe"
	}
	a := map[string]string{"x86_64": "x86_64", "amd64": "x86_64", "aarch64": "arm64", "arm64": "arm64", "armv7l": "armv7"}[s.arch]
	if o == "" || a == "" || o != "Linux" && a == "armv7" || o == "Windows" && a != "x86_64" {
		return "", exe
	}
	return fmt.Sprintf("bab_%s_%s_%s.%s", strings.TrimPrefix(tag, "v"), o, a, ext), exe
}

func program(version, note string) []byte {
	return []byte("#!/bin/sh\necho 'bab version " + version + "'\n# " + note + strings.Repeat("\n# filler", 200) + "\n")
}

func pack(name, exe string, content []byte) []byte {
	var b bytes.Buffer
	files := []struct {
		n string
		b []byte
	}{{"README.md", []byte("readme")}, {"LICENSE", []byte("licence")}, {exe, content}}
	if strings.HasSuffix(name, ".zip") {
		w := zip.NewWriter(&b)
		for _, f := range files {
			x, _ := w.Create(f.n)
			_, _ = x.Write(f.b)
		}
		_ = w.Close()
		return b.Bytes()
	}
	g := gzip.NewWriter(&b)
	w := tar.NewWriter(g)
	for _, f := range files {
		_ = w.WriteHeader(&tar.Header{Name: f.n, Mode: 0o755, Size: int64(len(f.b)), Typeflag: tar.TypeReg})
		_, _ = w.Write(f.b)
	}
	_ = w.Close()
	_ = g.Close()
	return b.Bytes()
}

type result struct {
	exit     int
	timedOut bool
	calls    []string
	applied  []string
	escapes  []string
	urls     []string
	binary   []byte // what is installed afterwards, nil if nothing
	before   []byte
	temps    []string
	stray    []string
	out      string
}

var runNo struct {
	sync.Mutex
	n int
}

// run executes the script once under a plan of faults.
func run(s setup, plan map[string]string) result {
	runNo.Lock()
	runNo.n++
	root := filepath.Join(bb.Scratch(), "i"+strconv.Itoa(runNo.n))
	runNo.Unlock()
	defer os.RemoveAll(root)
	for _, d := range []string{"bin", "count", "server", "other", "tmp", "home", "cwd"} {
		_ = os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	self, _ := os.Executable()
	tools := []string{"uname", "tr", "sed", "grep", "cut", "head", "cat", "mktemp", "rm", "mv", "cp", "chmod", "mkdir", "install", "tar", "unzip", "awk", "basename", "dirname", "sort", "tail", "wc", s.dl}
	if s.sum != "none" {
		tools = append(tools, s.sum)
	}
	for _, t := range tools {
		_ = os.Symlink(self, filepath.Join(root, "bin", t))
	}
	name, exe := s.archive()
	serve := func(dir, path string, b []byte) {
		_ = os.WriteFile(filepath.Join(root, dir, strings.ReplaceAll(path, "/", "%")), b, 0o644)
	}
	genuine, wrong := program("2.0.0", "genuine"), program("2.0.0", "tampered")
	release := []byte(`{"id":1,"tag_name":"` + tag + `","update_url":"/bab-sh/bab/releases/tag/` + tag + `"}`)
	serve("server", "latest", release)
	serve("server", tag, release)
	serve("other", "latest", bytes.ReplaceAll(release, []byte(tag), []byte("v9.0.0")))
	serve("other", tag, bytes.ReplaceAll(release, []byte(tag), []byte("v9.0.0")))
	var sums, otherSums strings.Builder
	for _, o := range []string{"Linux", "macOS"} {
		for _, a := range []string{"arm64", "armv7", "x86_64"} {
			if o == "macOS" && a == "armv7" {
				continue // not released
			}
			n := fmt.Sprintf("bab_2.0.0_%s_%s.tar.gz", o, a)
			pk := pack(n, "bab", append(bytes.Clone(genuine), []byte(o+a)...))
			if n == name {
				pk = pack(n, exe, genuine)
			}
			serve("server", "download/"+tag+"/"+n, pk)
			serve("other", "download/"+tag+"/"+n, pack(n, exe, wrong))
			fmt.Fprintf(&otherSums, "%x  %s\n", sha256.Sum256(pack(n, exe, append(wrong, '.'))), n)
			fmt.Fprintf(&sums, "%x  %s\n", sha256.Sum256(pk), n)
		}
	}
	zn := "bab_2.0.0_Windows_x86_64.zip"
	pk := pack(zn, "bab.exe", genuine)
	serve("server", "download/"+tag+"/"+zn, pk)
	serve("other", "download/"+tag+"/"+zn, pack(zn, "bab.exe", wrong))
	fmt.Fprintf(&sums, "%x  %s\n%x  README.md\n", sha256.Sum256(pk), zn, sha256.Sum256([]byte("readme")))
	serve("other", "download/"+tag+"/checksums.txt", []byte(otherSums.String()))
	list := sums.String()
	line := func(n string) string {
		for _, l := range strings.Split(sums.String(), "\n") {
			if strings.HasSuffix(l, "  "+n) {
				return l
			}
		}
		return ""
	}(name)
	switch s.sums {
	case "tabs":
		list = strings.ReplaceAll(list, "  ", "\t")
	case "without it":
		list = strings.ReplaceAll(list, line+"\n", "")
	case "without its hash":
		list = strings.ReplaceAll(list, line, "  "+name)
	case "with the hash of another":
		list = strings.ReplaceAll(list, line, fmt.Sprintf("%x  %s", sha256.Sum256([]byte("x")), name))
	case "with a shorter hash":
		list = strings.ReplaceAll(list, line, line[1:])
	case "with its hash cut":
		list = strings.ReplaceAll(list, line, line[:10]+line[64:])
	case "only under a longer name":
		list = strings.ReplaceAll(list, name, name+".old")
	case "only under another prefix":
		list = strings.ReplaceAll(list, name, "x"+name)
	case "with its hash in a comment":
		list = "# " + line + "\n" + strings.ReplaceAll(list, line, fmt.Sprintf("%x  %s", sha256.Sum256([]byte("x")), name))
	case "that are empty":
		list = ""
	case "in upper case":
		list = strings.ToUpper(list)
	}
	serve("server", "download/"+tag+"/checksums.txt", []byte(list))

	bindir := filepath.Join(root, "home", ".local", "bin")
	_ = os.MkdirAll(bindir, 0o755)
	var args []string
	env := []string{"HOME=" + filepath.Join(root, "home"), "TMPDIR=" + filepath.Join(root, "tmp"), "INST_ROOT=" + root, "INST_OS=" + s.os, "INST_ARCH=" + s.arch, "LC_ALL=C"}
	switch s.bindir {
	case "a directory":
		bindir = filepath.Join(root, "target")
		_ = os.MkdirAll(bindir, 0o755)
		args = append(args, "-b", bindir)
	case "a new directory":
		bindir = filepath.Join(root, "new", "deep")
		args = append(args, "-b", bindir)
	case "a directory with a space":
		bindir = filepath.Join(root, "my target")
		_ = os.MkdirAll(bindir, 0o755)
		args = append(args, "-b", bindir)
	case "BINDIR":
		bindir = filepath.Join(root, "envdir")
		_ = os.MkdirAll(bindir, 0o755)
		env = append(env, "BINDIR="+bindir)
	}
	if s.debug {
		args = append(args, "-d")
	}
	if s.tagArg != "" {
		args = append(args, s.tagArg)
	}
	path := filepath.Join(root, "bin")
	var r result
	if s.old != "" {
		_ = os.MkdirAll(bindir, 0o755)
		r.before = program(s.old, "old")
		_ = os.WriteFile(filepath.Join(bindir, exe), r.before, 0o755)
		path = bindir + ":" + path
		if exe != "bab" {
			_ = os.Symlink(filepath.Join(bindir, exe), filepath.Join(root, "bin", "bab"))
		}
	}
	env = append(env, "PATH="+path)
	var lines []string
	for k, f := range plan {
		lines = append(lines, k+"\t"+f)
	}
	sort.Strings(lines)
	env = append(env, "INST_PLAN="+strings.Join(lines, "\n"))
	files := tree(root)

	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	script := filepath.Join(repo, "install.sh")
	var cmd *exec.Cmd
	if s.piped {
		cmd = exec.Command(s.shell, append([]string{"-s", "--"}, args...)...)
		f, err := os.Open(script)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		defer f.Close()
		cmd.Stdin = f
	} else {
		cmd = exec.Command(s.shell, append([]string{script}, args...)...)
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env, cmd.Dir = env, filepath.Join(root, "cwd")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 3 * time.Second
	if err := cmd.Start(); err != nil {
		fmt.Println("cannot start the shell:", err)
		os.Exit(3)
	}
	timer := time.AfterFunc(30*time.Second, func() { r.timedOut = true; _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	_ = cmd.Wait()
	timer.Stop()
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	r.exit = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.exit = 128 + int(ws.Signal())
	}
	r.out = strings.ReplaceAll(out.String(), root, "@")
	r.calls, r.applied, r.escapes, r.urls = bb.ReadLog(filepath.Join(root, "calls")), bb.ReadLog(filepath.Join(root, "applied")), bb.ReadLog(filepath.Join(root, "escapes")), bb.ReadLog(filepath.Join(root, "urls"))
	r.binary, _ = os.ReadFile(filepath.Join(bindir, exe))
	for f := range tree(root) {
		if files[f] {
			continue
		}
		rel, _ := filepath.Rel(root, f)
		switch {
		case strings.HasPrefix(rel, "tmp/"):
			r.temps = append(r.temps, rel)
		case strings.HasPrefix(rel, "count/"), rel == "calls", rel == "applied", rel == "escapes", rel == "urls":
		case f == filepath.Join(bindir, exe), f == bindir, strings.HasPrefix(bindir, f+"/"):
		default:
			r.stray = append(r.stray, rel)
		}
	}
	sort.Strings(r.temps)
	sort.Strings(r.stray)
	return r
}

func tree(root string) map[string]bool {
	m := map[string]bool{}
	_ = filepath.WalkDir(root, func(p string, _ os.DirEntry, _ error) error { m[p] = true; return nil })
	return m
}

// judge compares a run with what the installer promises.
func judge(s setup, plan map[string]string, r result) string {
	genuine := program("2.0.0", "genuine")
	name, _ := s.archive()
	if len(r.escapes) > 0 {
		return "acts outside of the chosen directory: " + r.escapes[0]
	}
	if r.timedOut {
		return "does not end"
	}
	if len(r.stray) > 0 {
		return "leaves " + strings.Join(r.stray, " ")
	}
	rmFault := false
	for k := range plan {
		rmFault = rmFault || strings.HasPrefix(k, "rm ")
	}
	if len(r.temps) > 0 && !rmFault {
		return "leaves temporary files: " + strings.Join(r.temps, " ")
	}
	state := "nothing"
	switch {
	case r.binary == nil:
	case r.before != nil && bytes.Equal(r.binary, r.before):
		state = "old"
	case bytes.Equal(r.binary, genuine):
		state = "new"
	default:
		return "an unverified or broken binary is in place: " + fmt.Sprintf("%.60q", r.binary)
	}
	if r.before != nil && state == "nothing" {
		return "the installed binary is gone"
	}
	upToDate := s.old == "2.0.0"
	if r.exit == 0 && state != "new" && !(state == "old" && upToDate) {
		return "exit 0 with " + state + " in place"
	}
	verifiable := name != "" && (s.tagArg == "" || s.tagArg == tag) && s.sum != "none" && (s.sums == "" || s.sums == "tabs")
	if !verifiable && state == "new" {
		return "installed without a checksum that verifies it"
	}
	for k, f := range plan {
		// What was asked for and did not succeed.
		stage := strings.HasPrefix(k, s.dl+" ") || strings.HasPrefix(k, s.sum+" ") || strings.HasPrefix(k, "tar ") || strings.HasPrefix(k, "unzip ")
		// A file that is not the archive and damaged on the way may still say what matters.
		if (f == "short" || f == "flip") && !strings.Contains(k, name) {
			continue
		}
		if stage && state == "new" && f != "hup" && f != "int" && f != "term" {
			return "installed although " + k + " did not succeed"
		}
	}
	if len(plan) == 0 && verifiable && r.exit != 0 && s.sums == "" {
		return fmt.Sprintf("exit %d although nothing failed", r.exit)
	}
	if len(plan) == 0 && verifiable && s.sums == "" && !upToDate {
		want := []string{"https://github.com/bab-sh/bab/releases/download/" + tag + "/" + name, "https://github.com/bab-sh/bab/releases/download/" + tag + "/checksums.txt"}
		for _, u := range want {
			if !slices.Contains(r.urls, u) {
				return "does not ask for " + u
			}
		}
	}
	return ""
}

type job struct {
	s    setup
	plan map[string]string
}

func (j job) key() string {
	var l []string
	for k, f := range j.plan {
		l = append(l, f+" at "+k)
	}
	sort.Strings(l)
	if len(l) == 0 {
		return j.s.key()
	}
	return j.s.key() + ": " + strings.Join(l, ", ")
}

// faults are the ways a call can go wrong.
func faults(call string) []string {
	tool, _, _ := strings.Cut(call, " ")
	switch tool {
	case "curl":
		return []string{"fail", "kill", "404", "500", "cut", "short", "flip", "zero", "other", "html", "nofile"}
	case "wget":
		return []string{"fail", "kill", "404", "500", "cut", "short", "flip", "zero", "other", "html", "nofile"}
	case "tar", "unzip", "install":
		return []string{"fail", "kill", "partial"}
	case "mktemp", "rm", "mv", "mkdir":
		return []string{"fail", "kill"}
	case "sha256sum", "gsha256sum", "shasum", "openssl", "grep", "cut", "tr", "sed", "head", "cat", "uname":
		return []string{"fail", "kill", "empty"}
	}
	return []string{"fail", "kill"}
}

func main() {
	if tool := filepath.Base(os.Args[0]); os.Getenv("INST_ROOT") != "" {
		os.Exit(stub(tool, os.Args[1:]))
	}
	ch := vlib.New("P27", "fault_enumeration")
	ch.Rule("A case is a machine (system, tools, shell, what is installed), the way the script is called, and the faults of up to two of its external commands. Cases without a fault are trivial only in the default setup.")
	ch.Assume("The stand-ins for curl, wget, openssl, shasum and unzip behave as the real commands do; all others are the real ones behind a recorder.")
	linux := setup{os: "Linux", arch: "x86_64", dl: "curl", sum: "sha256sum", shell: "dash", bindir: "a directory"}
	var setups []setup
	seen := map[string]bool{}
	add := func(s setup) {
		if !seen[s.key()] {
			seen[s.key()] = true
			setups = append(setups, s)
		}
	}
	with := func(s setup, f func(*setup)) setup { f(&s); return s }
	for _, sh := range []string{"dash", "bash"} {
		for _, piped := range []bool{false, true} {
			for _, dl := range []string{"curl", "wget"} {
				for _, sum := range []string{"sha256sum", "gsha256sum", "shasum", "openssl", "none"} {
					for _, old := range []string{"", "1.0.0", "2.0.0"} {
						add(setup{os: "Linux", arch: "x86_64", dl: dl, sum: sum, shell: sh, piped: piped, old: old, bindir: "a directory"})
					}
				}
			}
		}
	}
	for _, o := range []string{"Linux", "Darwin", "MINGW64_NT-10.0", "CYGWIN_NT-10.0", "MSYS_NT-10.0", "FreeBSD", "SunOS", "Haiku"} {
		for _, a := range []string{"x86_64", "amd64", "aarch64", "arm64", "armv7l", "armv6l", "i686", "i386", "riscv64", ""} {
			for _, old := range []string{"", "1.0.0"} {
				add(with(linux, func(s *setup) { s.os, s.arch, s.old = o, a, old }))
			}
		}
	}
	for _, b := range []string{"a directory", "a new directory", "a directory with a space", "BINDIR", "home"} {
		for _, t := range []string{"", tag} {
			for _, d := range []bool{false, true} {
				for _, old := range []string{"", "1.0.0", "2.0.0"} {
					add(with(linux, func(s *setup) { s.bindir, s.tagArg, s.debug, s.old = b, t, d, old }))
				}
			}
		}
	}
	for _, l := range []string{"tabs", "without it", "without its hash", "with the hash of another", "with a shorter hash", "with its hash cut", "only under a longer name", "only under another prefix", "with its hash in a comment", "that are empty", "in upper case"} {
		for _, old := range []string{"", "1.0.0"} {
			for _, sum := range []string{"sha256sum", "openssl"} {
				add(with(linux, func(s *setup) { s.sums, s.old, s.sum = l, old, sum }))
			}
		}
	}
	add(with(linux, func(s *setup) { s.tagArg = "v7.7.7" }))

	var jobs []job
	for _, s := range setups {
		jobs = append(jobs, job{s, nil})
	}
	// Faults: every call alone in many setups, pairs in some.
	var base []setup
	for _, dl := range []string{"curl", "wget"} {
		for _, sum := range []string{"sha256sum", "gsha256sum", "shasum", "openssl"} {
			for _, old := range []string{"", "1.0.0"} {
				base = append(base, with(linux, func(s *setup) { s.dl, s.sum, s.old = dl, sum, old }))
			}
		}
	}
	for _, old := range []string{"", "1.0.0"} {
		base = append(base,
			with(linux, func(s *setup) { s.shell, s.old = "bash", old }),
			with(linux, func(s *setup) { s.piped, s.old = true, old }),
			with(linux, func(s *setup) { s.shell, s.piped, s.old = "bash", true, old }),
			with(linux, func(s *setup) { s.bindir, s.tagArg = "a new directory", tag }),
			with(linux, func(s *setup) { s.os, s.old = "MINGW64_NT-10.0", old }),
			with(linux, func(s *setup) { s.os, s.arch, s.bindir, s.old = "Darwin", "arm64", "home", old }))
	}
	for i, s := range base {
		clean := run(s, nil)
		ch.Count("calls", int64(len(clean.calls)))
		for _, c := range clean.calls {
			for _, f := range append(faults(c), "int", "term", "hup") {
				jobs = append(jobs, job{s, map[string]string{c: f}})
			}
		}
		pairs := i == 1
		if !pairs && !ch.Thorough() {
			continue
		}
		for a, c := range clean.calls {
			for _, d := range clean.calls[a+1:] {
				for _, f := range pairFaults(c) {
					for _, g := range pairFaults(d) {
						jobs = append(jobs, job{s, map[string]string{c: f, d: g}})
					}
				}
			}
		}
	}
	var wg sync.WaitGroup
	next := make(chan job)
	for range runtime.NumCPU() + 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range next {
				one(ch, j)
			}
		}()
	}
	for _, j := range jobs {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			break
		}
		next <- j
	}
	close(next)
	wg.Wait()
	ch.Count("setups", int64(len(setups)))
	bb.Cleanup()
	ch.Finish()
}

func pairFaults(call string) []string {
	tool, _, _ := strings.Cut(call, " ")
	switch tool {
	case "curl", "wget":
		return []string{"fail", "other", "flip", "404"}
	case "install", "tar", "unzip":
		return []string{"fail", "partial"}
	case "sha256sum", "grep", "cut", "tr":
		return []string{"fail", "empty"}
	case "sed", "head", "uname":
		return nil // only take text apart; broken twice the same way they would agree with each other
	}
	return []string{"fail"}
}

func one(ch *vlib.Check, j job) {
	r := run(j.s, j.plan)
	ch.Eval(j.key())
	why := judge(j.s, j.plan, r)
	if why != "" {
		ch.Count("deviations", 1)
		r = run(j.s, j.plan)
		why = judge(j.s, j.plan, r)
	}
	if why == "" {
		return
	}
	if ch.Violation(j.key(), map[string]any{"why": why, "exit": r.exit, "output": r.out, "calls": r.calls, "plan": j.plan}) {
		fmt.Println("  " + why)
	}
}
