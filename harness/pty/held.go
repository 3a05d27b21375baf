package pty

import (
	"os"
	"sync"
	"time"
)

// Held is a terminal whose far end the caller attaches as it likes.
type Held struct {
	Slave *os.File
	s     *Session
}

// Hold opens a terminal and answers what is asked of it.
func Hold(cols, rows int) (*Held, error) {
	var err error
	for range 6 {
		var master, slave *os.File
		master, slave, err = Open(cols, rows)
		if err == nil {
			s := &Session{master: master, exited: make(chan struct{}), last: time.Now()}
			s.cond = sync.NewCond(&s.mu)
			go s.read()
			return &Held{Slave: slave, s: s}, nil
		}
		time.Sleep(200 * time.Millisecond)
	}
	return nil, err
}

// Release closes the far end once it has been handed over.
func (h *Held) Release() { _ = h.Slave.Close() }

// Output waits for the end of what was written and returns it.
func (h *Held) Output() string {
	end := time.Now().Add(2 * time.Second)
	for time.Now().Before(end) {
		h.s.mu.Lock()
		closed := h.s.closed
		h.s.mu.Unlock()
		if closed {
			break
		}
		time.Sleep(time.Millisecond)
	}
	return h.s.Output()
}

// Close gives the terminal up.
func (h *Held) Close() { _ = h.s.master.Close() }
