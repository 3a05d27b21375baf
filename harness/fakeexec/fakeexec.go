// Package fakeexec stands in for os/exec in instrumented code. A command does
// not run: its start and end are events, and the scheduler decides when it
// ends.
package fakeexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/sched"
)

// Real types that need no stand-in.
type (
	Error = exec.Error
)

// Errors of os/exec.
var (
	ErrNotFound  = exec.ErrNotFound
	ErrDot       = exec.ErrDot
	ErrWaitDelay = exec.ErrWaitDelay
)

// LookPath is exec.LookPath.
func LookPath(f string) (string, error) { return f, nil }

// ExitError is exec.ExitError.
type ExitError struct {
	*os.ProcessState
	Stderr []byte
	code   int
	killed bool
}

func (e *ExitError) Error() string {
	if e.killed {
		return "signal: killed"
	}
	return "exit status 1"
}

// ExitCode is os.ProcessState.ExitCode.
func (e *ExitError) ExitCode() int {
	if e.killed {
		return -1
	}
	return e.code
}

// Exited is os.ProcessState.Exited.
func (e *ExitError) Exited() bool { return !e.killed }

// Success is os.ProcessState.Success.
func (e *ExitError) Success() bool { return false }

// Cmd is exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx     context.Context
	done    chan struct{}
	err     error
	started bool
	pipes   []io.Closer
}

// Handler is what commands do.
type Handler interface {
	// Start says that a command starts; nil lets it.
	Start(script string, ctx context.Context, c *Cmd) error
	// End says that it ends, and whether it succeeds.
	End(script string, killed bool) bool
	// Output yields what the command writes.
	Output(script string) (stdout, stderr []string)
}

// H is the handler of the running program.
var H Handler

// NoPid is a process id that cannot exist.
const NoPid = 0x7ffffff0

// Command is exec.Command.
func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

// CommandContext is exec.CommandContext.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	c.Cancel = func() error { return nil }
	return c
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

// Environ is exec.Cmd.Environ.
func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

func (c *Cmd) script() string {
	if len(c.Args) == 0 {
		return ""
	}
	return c.Args[len(c.Args)-1]
}

// Start is exec.Cmd.Start.
func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	if c.ctx != nil {
		if err := c.ctx.Err(); err != nil {
			return err
		}
	}
	if err := H.Start(c.script(), c.ctx, c); err != nil {
		return err
	}
	c.started = true
	c.Process = &os.Process{Pid: NoPid}
	if len(c.pipes) == 0 {
		// Nobody reads along: what the command does can wait for Wait, which
		// makes for fewer schedules.
		return nil
	}
	c.done = make(chan struct{})
	sched.Go(func() {
		defer close(c.done)
		c.err = c.body()
	})
	return nil
}

func (c *Cmd) body() error {
	script := c.script()
	outs, errs := H.Output(script)
	n := 0
	fin := make(chan struct{}, 2)
	emit := func(w io.Writer, chunks []string) {
		for _, s := range chunks {
			sched.Pre()
			if w != nil {
				_, _ = io.WriteString(w, s)
			}
		}
	}
	if len(errs) > 0 && len(outs) > 0 && c.Stdout != c.Stderr {
		n = 1
		sched.Go(func() { emit(c.Stderr, errs); fin <- struct{}{} })
		errs = nil
	}
	emit(c.Stdout, outs)
	emit(c.Stderr, errs)
	for range n {
		<-fin
		sched.Post()
	}
	sched.Env(script)
	defer func() {
		for _, p := range c.pipes {
			_ = p.Close()
		}
	}()
	if c.ctx != nil && c.ctx.Err() != nil {
		H.End(script, true)
		if c.Cancel != nil {
			_ = c.Cancel()
		}
		return &ExitError{killed: true}
	}
	if !H.End(script, false) {
		return &ExitError{code: 1}
	}
	return nil
}

// Wait is exec.Cmd.Wait.
func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.done == nil {
		return c.body()
	}
	<-c.done
	sched.Post()
	return c.err
}

// Run is exec.Cmd.Run.
func (c *Cmd) Run() error {
	if c.started {
		return errors.New("exec: already started")
	}
	if c.ctx != nil {
		if err := c.ctx.Err(); err != nil {
			return err
		}
	}
	if err := H.Start(c.script(), c.ctx, c); err != nil {
		return err
	}
	c.started = true
	c.Process = &os.Process{Pid: NoPid}
	return c.body()
}

// Output is exec.Cmd.Output.
func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

// CombinedOutput is exec.Cmd.CombinedOutput.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) pipe(w *io.Writer) (io.ReadCloser, error) {
	r, pw := io.Pipe()
	*w = pw
	c.pipes = append(c.pipes, pw)
	return r, nil
}

// StdoutPipe is exec.Cmd.StdoutPipe.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) { return c.pipe(&c.Stdout) }

// StderrPipe is exec.Cmd.StderrPipe.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) { return c.pipe(&c.Stderr) }

// StdinPipe is exec.Cmd.StdinPipe.
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	_, w := io.Pipe()
	return w, nil
}
