//go:build linux && amd64

// Package trace runs processes under ptrace and stops them at every system
// call that concerns one directory tree, so that a caller decides which
// process makes its next step, which call fails, and where a process dies.
package trace

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
)

const (
	wNoThread = 0x20000000
	wAll      = 0x40000000
	optExit   = 0x100000
)

type kind int

const (
	pathCall   kind = iota // path at arg
	atCall                 // dirfd, path
	path2Call              // two paths
	at2Call                // dirfd, path, dirfd, path
	linkAtCall             // target, dirfd, path
	fdCall                 // descriptor
	fdOut3                 // descriptor in the third argument
)

type call struct {
	name string
	kind kind
}

var calls = map[uint64]call{
	2: {"open", pathCall}, 85: {"creat", pathCall}, 257: {"openat", atCall}, 437: {"openat2", atCall},
	82: {"rename", path2Call}, 264: {"renameat", at2Call}, 316: {"renameat2", at2Call},
	87: {"unlink", pathCall}, 263: {"unlinkat", atCall}, 84: {"rmdir", pathCall},
	83: {"mkdir", pathCall}, 258: {"mkdirat", atCall},
	4: {"stat", pathCall}, 6: {"lstat", pathCall}, 262: {"newfstatat", atCall}, 332: {"statx", atCall},
	21: {"access", pathCall}, 269: {"faccessat", atCall}, 439: {"faccessat2", atCall},
	89: {"readlink", pathCall}, 267: {"readlinkat", atCall},
	90: {"chmod", pathCall}, 268: {"fchmodat", atCall}, 452: {"fchmodat2", atCall}, 76: {"truncate", pathCall},
	86: {"link", path2Call}, 265: {"linkat", at2Call}, 88: {"symlink", path2Call}, 266: {"symlinkat", linkAtCall},
	280: {"utimensat", atCall},
	0:   {"read", fdCall}, 1: {"write", fdCall}, 3: {"close", fdCall}, 5: {"fstat", fdCall}, 8: {"lseek", fdCall},
	17: {"pread64", fdCall}, 18: {"pwrite64", fdCall}, 19: {"readv", fdCall}, 20: {"writev", fdCall},
	74: {"fsync", fdCall}, 75: {"fdatasync", fdCall}, 77: {"ftruncate", fdCall}, 78: {"getdents", fdCall},
	217: {"getdents64", fdCall}, 91: {"fchmod", fdCall}, 285: {"fallocate", fdCall}, 73: {"flock", fdCall},
	40: {"sendfile", fdCall}, 326: {"copy_file_range", fdOut3},
}

// Mutates reports that a call of this name may change files.
func (s *Stop) Mutates() bool {
	switch s.Name {
	case "open", "openat", "openat2", "creat":
		return s.Create || s.Trunc
	case "rename", "renameat", "renameat2", "unlink", "unlinkat", "rmdir", "mkdir", "mkdirat", "truncate",
		"link", "linkat", "symlink", "symlinkat", "write", "pwrite64", "writev", "ftruncate", "fallocate", "sendfile", "copy_file_range":
		return true
	}
	return false
}

// Looks reports that the result of the call depends on the directory's names.
func (s *Stop) Looks() bool {
	return s.Name == "getdents64" || s.Name == "getdents" || s.Name == "openat" || s.Name == "open"
}

// Stop is a process held at the entry of a relevant system call.
type Stop struct {
	Name   string
	Path   string // of the first file concerned
	Path2  string
	Fd     int
	Data   []byte // of a write
	Create bool
	Excl   bool
	Trunc  bool
	Off    int64
	Ret    int64 // after the call
	tid    int
	nr     uint64
}

func (s *Stop) String() string {
	t := s.Name + " " + filepath.Base(s.Path)
	if s.Path2 != "" {
		t += " " + filepath.Base(s.Path2)
	}
	return t
}

type thread struct {
	inCall bool
	cur    *Stop // relevant call being executed
	fail   syscall.Errno
	killed bool // kill at its exit
}

// Proc is one traced process.
type Proc struct {
	Pid     int
	Exited  bool
	Status  syscall.WaitStatus
	threads map[int]*thread
	fds     map[int]string
	held    []*Stop
	Log     []*Stop // relevant calls made, in order
}

// Held is the call the process is held at, nil if it is not.
func (p *Proc) Held() *Stop {
	if len(p.held) == 0 {
		return nil
	}
	return p.held[0]
}

// Session is a set of processes traced by one thread.
type Session struct {
	Tree  string
	Gate  func(*Stop) bool // which relevant calls to stop at; all if nil
	procs []*Proc
	early map[int]bool
}

// Run calls f on a thread of its own.
func Run(tree string, f func(*Session)) {
	done := make(chan any)
	go func() {
		runtime.LockOSThread() // never unlocked: the thread ends with the goroutine
		s := &Session{Tree: tree, early: map[int]bool{}}
		defer func() {
			r := recover()
			s.killAll()
			done <- r
		}()
		f(s)
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

// Alone calls f on a thread of its own: a process started there cannot be
// waited for by a session.
func Alone(f func()) {
	done := make(chan any)
	go func() {
		runtime.LockOSThread()
		defer func() { done <- recover() }()
		f()
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

func (s *Session) killAll() {
	for _, p := range s.procs {
		if !p.Exited {
			_ = syscall.Kill(p.Pid, syscall.SIGKILL)
			for !p.Exited {
				if !s.pump(false) {
					break
				}
			}
		}
	}
}

// Start starts a program, stopped before its first instruction.
func (s *Session) Start(argv, env []string, stdout, stderr *os.File) (*Proc, error) {
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	defer null.Close()
	files := []uintptr{null.Fd(), null.Fd(), null.Fd()}
	if stdout != nil {
		files[1] = stdout.Fd()
	}
	if stderr != nil {
		files[2] = stderr.Fd()
	}
	pid, err := syscall.ForkExec(argv[0], argv, &syscall.ProcAttr{Dir: "/", Env: env, Files: files, Sys: &syscall.SysProcAttr{Ptrace: true}})
	if err != nil {
		return nil, err
	}
	var ws syscall.WaitStatus
	for {
		_, err = syscall.Wait4(pid, &ws, wAll, nil)
		if err != syscall.EINTR {
			break
		}
	}
	if err != nil || !ws.Stopped() {
		return nil, fmt.Errorf("start: %v %v", err, ws)
	}
	if err := syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACESYSGOOD|syscall.PTRACE_O_TRACECLONE|syscall.PTRACE_O_TRACEFORK|syscall.PTRACE_O_TRACEVFORK|optExit); err != nil {
		return nil, err
	}
	p := &Proc{Pid: pid, threads: map[int]*thread{pid: {}}, fds: map[int]string{}}
	s.procs = append(s.procs, p)
	if err := syscall.PtraceSyscall(pid, 0); err != nil {
		return nil, err
	}
	return p, nil
}

func (s *Session) owner(tid int) (*Proc, *thread) {
	for _, p := range s.procs {
		if t := p.threads[tid]; t != nil {
			return p, t
		}
	}
	return nil, nil
}

// Settle runs every process until it is held or has ended.
func (s *Session) Settle() {
	for {
		busy := false
		for _, p := range s.procs {
			if !p.Exited && len(p.held) == 0 {
				busy = true
			}
		}
		if !busy {
			return
		}
		if !s.pump(true) {
			return
		}
	}
}

// pump handles one event.
func (s *Session) pump(hold bool) bool {
	var ws syscall.WaitStatus
	tid, err := syscall.Wait4(-1, &ws, wAll|wNoThread, nil)
	if err == syscall.EINTR {
		return true
	}
	if err != nil {
		for _, p := range s.procs {
			p.Exited = true
		}
		return false
	}
	p, t := s.owner(tid)
	if t == nil {
		// A new thread that stops before its parent's event, or a child of
		// a traced process: those are let go.
		if ws.Stopped() {
			s.early[tid] = true
		}
		return true
	}
	if ws.Exited() || ws.Signaled() {
		delete(p.threads, tid)
		for i, h := range p.held {
			if h.tid == tid {
				p.held = append(p.held[:i:i], p.held[i+1:]...)
				break
			}
		}
		if tid == p.Pid {
			p.Exited, p.Status = true, ws
			p.held = nil
		}
		return true
	}
	if !ws.Stopped() {
		return true
	}
	sig := ws.StopSignal()
	switch {
	case sig == syscall.SIGTRAP|0x80:
		if !t.inCall {
			t.inCall = true
			if hold {
				if st := s.relevant(p, tid); st != nil {
					if s.Gate == nil || s.Gate(st) {
						p.held = append(p.held, st)
						return true
					}
					t.cur = st
				}
			}
		} else {
			t.inCall = false
			s.leave(p, t, tid)
			if t.killed {
				return true
			}
		}
		_ = syscall.PtraceSyscall(tid, 0)
	case ws.TrapCause() > 0:
		if msg, err := syscall.PtraceGetEventMsg(tid); err == nil {
			switch ws.TrapCause() {
			case syscall.PTRACE_EVENT_CLONE:
				p.threads[int(msg)] = &thread{}
				if s.early[int(msg)] {
					delete(s.early, int(msg))
					_ = syscall.PtraceSyscall(int(msg), 0)
				}
			case syscall.PTRACE_EVENT_FORK, syscall.PTRACE_EVENT_VFORK:
				// A child process runs untraced.
				child := int(msg)
				if !s.early[child] {
					var w syscall.WaitStatus
					for {
						if _, err := syscall.Wait4(child, &w, wAll, nil); err != syscall.EINTR {
							break
						}
					}
				}
				delete(s.early, child)
				_ = syscall.PtraceDetach(child)
			}
		}
		_ = syscall.PtraceSyscall(tid, 0)
	case sig == syscall.SIGTRAP:
		_ = syscall.PtraceSyscall(tid, 0)
	case sig == syscall.SIGSTOP:
		_ = syscall.PtraceSyscall(tid, 0)
	default:
		_ = syscall.PtraceSyscall(tid, int(sig))
	}
	return true
}

func (s *Session) leave(p *Proc, t *thread, tid int) {
	st := t.cur
	t.cur = nil
	if st == nil {
		return
	}
	var r syscall.PtraceRegs
	if err := syscall.PtraceGetRegs(tid, &r); err != nil {
		return
	}
	if t.fail != 0 {
		r.Rax = uint64(-int64(t.fail))
		_ = syscall.PtraceSetRegs(tid, &r)
		t.fail = 0
	}
	st.Ret = int64(r.Rax)
	p.Log = append(p.Log, st)
	switch st.Name {
	case "open", "openat", "openat2", "creat":
		if st.Ret >= 0 {
			p.fds[int(st.Ret)] = st.Path
			st.Fd = int(st.Ret)
		}
	case "close":
		delete(p.fds, st.Fd)
	}
	if t.killed {
		_ = syscall.Kill(p.Pid, syscall.SIGKILL)
	}
}

func (s *Session) in(path string) bool {
	return path == s.Tree || strings.HasPrefix(path, s.Tree+"/")
}

func (s *Session) relevant(p *Proc, tid int) *Stop {
	var r syscall.PtraceRegs
	if err := syscall.PtraceGetRegs(tid, &r); err != nil {
		return nil
	}
	c, ok := calls[r.Orig_rax]
	if !ok {
		return nil
	}
	st := &Stop{Name: c.name, tid: tid, nr: r.Orig_rax, Fd: -1}
	at := func(fd uint64, addr uint64) string {
		path := s.str(tid, addr)
		if !strings.HasPrefix(path, "/") {
			if dir, ok := p.fds[int(int32(fd))]; ok {
				path = filepath.Join(dir, path)
			}
		}
		return filepath.Clean("/" + path)
	}
	const cwd = uint64(0xffffff9c)
	var flags uint64
	switch c.kind {
	case pathCall:
		st.Path, flags = at(cwd, r.Rdi), r.Rsi
	case atCall:
		st.Path, flags = at(r.Rdi, r.Rsi), r.Rdx
	case path2Call:
		st.Path, st.Path2 = at(cwd, r.Rdi), at(cwd, r.Rsi)
	case at2Call:
		st.Path, st.Path2 = at(r.Rdi, r.Rsi), at(r.Rdx, r.R10)
	case linkAtCall:
		st.Path, st.Path2 = at(r.Rsi, r.Rdx), at(cwd, r.Rdi)
	case fdCall, fdOut3:
		st.Fd = int(int32(r.Rdi))
		if c.kind == fdOut3 {
			st.Fd = int(int32(r.Rdx))
		}
		path, ok := p.fds[st.Fd]
		if !ok {
			return nil
		}
		st.Path = path
		if c.name == "write" || c.name == "pwrite64" {
			st.Data = s.mem(tid, r.Rsi, int(r.Rdx))
			st.Off = -1
			if c.name == "pwrite64" {
				st.Off = int64(r.R10)
			}
		}
		if c.name == "ftruncate" {
			st.Off = int64(r.Rsi)
		}
		return st
	}
	if !s.in(st.Path) && (st.Path2 == "" || !s.in(st.Path2)) {
		return nil
	}
	switch c.name {
	case "open", "openat":
		st.Create = flags&syscall.O_CREAT != 0
		st.Excl = flags&syscall.O_EXCL != 0
		st.Trunc = flags&syscall.O_TRUNC != 0
	case "creat":
		st.Create, st.Trunc = true, true
	case "truncate":
		st.Off = int64(flags)
	}
	return st
}

func (s *Session) str(tid int, addr uint64) string {
	var out []byte
	buf := make([]byte, 64)
	for len(out) < 4096 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf)
		if err != nil || n == 0 {
			break
		}
		for i := 0; i < n; i++ {
			if buf[i] == 0 {
				return string(append(out, buf[:i]...))
			}
		}
		out = append(out, buf[:n]...)
	}
	return string(out)
}

func (s *Session) mem(tid int, addr uint64, n int) []byte {
	if n > 1<<20 {
		n = 1 << 20
	}
	buf := make([]byte, n)
	m, _ := syscall.PtracePeekData(tid, uintptr(addr), buf)
	return buf[:m]
}

func (p *Proc) pop() *Stop {
	st := p.held[0]
	p.held = p.held[1:]
	return st
}

// Go lets the held call happen; the process is held or ended again after
// the next Settle. The call itself has been completed when Step returns.
func (s *Session) Step(p *Proc) { s.step(p, 0, false) }

// Fail makes the held call fail.
func (s *Session) Fail(p *Proc, e syscall.Errno) { s.step(p, e, false) }

// KillAfter lets the held call happen and then kills the process.
func (s *Session) KillAfter(p *Proc) { s.step(p, 0, true) }

// Kill kills the process where it is.
func (s *Session) Kill(p *Proc) {
	p.held = nil
	_ = syscall.Kill(p.Pid, syscall.SIGKILL)
	for !p.Exited {
		if !s.pump(true) {
			return
		}
	}
}

func (s *Session) step(p *Proc, e syscall.Errno, kill bool) {
	st := p.pop()
	t := p.threads[st.tid]
	t.cur = st
	t.killed = kill
	if e != 0 {
		var r syscall.PtraceRegs
		if err := syscall.PtraceGetRegs(st.tid, &r); err == nil {
			r.Orig_rax = ^uint64(0)
			_ = syscall.PtraceSetRegs(st.tid, &r)
			t.fail = e
		}
	}
	n := len(p.Log)
	_ = syscall.PtraceSyscall(st.tid, 0)
	for !p.Exited && (len(p.Log) == n || kill) {
		if !s.pump(true) {
			return
		}
	}
}
