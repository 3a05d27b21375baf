// Package pty runs a program on a pseudo terminal of its own.
package pty

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Session is a program on a terminal.
type Session struct {
	cmd    *exec.Cmd
	master *os.File
	mu     sync.Mutex
	cond   *sync.Cond
	out    []byte
	last   time.Time
	closed bool
	exited chan struct{}
	Exit   int
	Before [60]byte // the setting of the terminal at the start
}

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// Open makes a pseudo terminal.
func Open(cols, rows int) (master, slave *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	zero := int32(0)
	if err := ioctl(uintptr(fd), 0x40045431, unsafe.Pointer(&zero)); err != nil { // TIOCSPTLCK
		return nil, nil, err
	}
	var n uint32
	if err := ioctl(uintptr(fd), 0x80045430, unsafe.Pointer(&n)); err != nil { // TIOCGPTN
		return nil, nil, err
	}
	ws := [4]uint16{uint16(rows), uint16(cols), 0, 0}
	_ = ioctl(uintptr(fd), 0x5414, unsafe.Pointer(&ws)) // TIOCSWINSZ
	_ = syscall.SetNonblock(fd, true)
	master = os.NewFile(uintptr(fd), "ptmx")
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	return master, slave, err
}

// Start runs the program with the terminal as standard input, output, error
// and controlling terminal.
func Start(bin string, args []string, dir string, env []string, cols, rows int) (*Session, error) {
	var s *Session
	for attempt := 0; ; attempt++ {
		master, slave, err := Open(cols, rows)
		if err == nil {
			s = &Session{master: master, exited: make(chan struct{}), last: time.Now()}
			s.cond = sync.NewCond(&s.mu)
			s.cmd = exec.Command(bin, args...)
			s.cmd.Dir, s.cmd.Env = dir, env
			s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = slave, slave, slave
			s.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
			s.Before = s.Termios()
			err = s.cmd.Start()
			_ = slave.Close()
		}
		if err != nil {
			if attempt < 5 {
				time.Sleep(200 * time.Millisecond)
				continue
			}
			return nil, err
		}
		break
	}
	go s.read()
	go func() {
		err := s.cmd.Wait()
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			s.Exit = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				s.Exit = 128 + int(ws.Signal())
			}
		} else if err != nil {
			s.Exit = -1
		}
		close(s.exited)
		s.cond.Broadcast()
	}()
	return s, nil
}

// answers to what programs ask a terminal
var queries = []struct{ q, a string }{
	{"\x1b[6n", "\x1b[1;1R"},
	{"\x1b]10;?\x07", "\x1b]10;rgb:ffff/ffff/ffff\x07"}, {"\x1b]11;?\x07", "\x1b]11;rgb:0000/0000/0000\x07"},
	{"\x1b]10;?\x1b\\", "\x1b]10;rgb:ffff/ffff/ffff\x07"}, {"\x1b]11;?\x1b\\", "\x1b]11;rgb:0000/0000/0000\x07"},
	{"\x1b[c", "\x1b[?62c"},
}

func (s *Session) read() {
	buf := make([]byte, 65536)
	seen := 0
	for {
		n, err := s.master.Read(buf)
		s.mu.Lock()
		s.out = append(s.out, buf[:n]...)
		s.last = time.Now()
		reply := ""
		// a query may come in two reads
		from := max(0, seen-16)
		text := string(s.out[from:])
		for _, q := range queries {
			for i := 0; ; {
				j := strings.Index(text[i:], q.q)
				if j < 0 {
					break
				}
				i += j + len(q.q)
				if from+i > seen {
					reply += q.a
				}
			}
		}
		seen = len(s.out)
		s.cond.Broadcast()
		if err != nil {
			s.closed = true
			s.mu.Unlock()
			return
		}
		s.mu.Unlock()
		if reply != "" {
			_, _ = s.master.WriteString(reply)
		}
	}
}

var strip = regexp.MustCompile("\x1b\\[[0-9;:<=>?]*[ -/]*[@-~]|\x1b\\][^\x07\x1b]*(\x07|\x1b\\\\)|\x1b[ -/]*[0-~]")

// Plain removes escape sequences.
func Plain(s string) string { return strip.ReplaceAllString(s, "") }

// Output is all the program wrote.
func (s *Session) Output() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return string(s.out)
}

// Mark is the current end of the output.
func (s *Session) Mark() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.out)
}

// WaitFor waits until the condition holds of the output, without escape
// sequences, from the mark on. It reports false when the program ended before
// or the time is up.
func (s *Session) WaitFor(from int, cond func(string) bool, timeout time.Duration) bool {
	deadline := time.Now().Add(timeout)
	for {
		s.mu.Lock()
		ok := cond(Plain(string(s.out[from:])))
		closed := s.closed
		s.mu.Unlock()
		if ok {
			return true
		}
		if closed || time.Now().After(deadline) {
			return false
		}
		select {
		case <-s.exited:
			time.Sleep(20 * time.Millisecond)
			s.mu.Lock()
			ok := cond(Plain(string(s.out[from:])))
			s.mu.Unlock()
			return ok
		case <-time.After(3 * time.Millisecond):
		}
	}
}

// Quiet waits until nothing was written for a while.
func (s *Session) Quiet(d, timeout time.Duration) {
	deadline := time.Now().Add(timeout)
	for time.Now().Before(deadline) {
		s.mu.Lock()
		q := time.Since(s.last) >= d
		s.mu.Unlock()
		if q {
			return
		}
		select {
		case <-s.exited:
			return
		case <-time.After(d / 4):
		}
	}
}

// Send types at the terminal.
func (s *Session) Send(keys string) { _, _ = s.master.WriteString(keys) }

// Running reports whether the program still runs.
func (s *Session) Running() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

// Wait waits for the end of the program and reports whether it came in time.
func (s *Session) Wait(timeout time.Duration) bool {
	select {
	case <-s.exited:
	case <-time.After(timeout):
		return false
	}
	for range 100 {
		s.mu.Lock()
		c := s.closed
		s.mu.Unlock()
		if c {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

// Pid is the process number.
func (s *Session) Pid() int { return s.cmd.Process.Pid }

// Close ends the program if it still runs, and the terminal.
func (s *Session) Close() {
	if s.Running() {
		_ = syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
		_ = s.cmd.Process.Kill()
		<-s.exited
	}
	_ = s.master.Close()
}

// Termios is the current setting of the terminal.
func (s *Session) Termios() [60]byte {
	var t [60]byte
	if c, err := s.master.SyscallConn(); err == nil {
		_ = c.Control(func(fd uintptr) { _ = ioctl(fd, 0x5401, unsafe.Pointer(&t[0])) })
	}
	return t
}
