package main

import (
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
)

// runDryTTY previews on a terminal: a task that is named, or one that is picked.
func runDryTTY(c *bb.Case) bb.Got {
	outer := bb.NewRoot()
	defer func() { _ = os.RemoveAll(outer) }()
	root := filepath.Join(outer, "p")
	_ = os.MkdirAll(root, 0o755)
	if err := bb.Prepare(root, c); err != nil {
		panic(err)
	}
	log, home := filepath.Join(outer, "blog"), filepath.Join(outer, "home")
	_ = os.MkdirAll(home, 0o755)
	env := bb.BaseEnv(home, log)
	for i, e := range env {
		if strings.HasPrefix(e, "TERM=") {
			env[i] = "TERM=xterm-256color"
		}
	}
	var args []string
	pick := ""
	for _, a := range c.Args {
		if name, ok := strings.CutPrefix(a, "pick:"); ok {
			pick = name
			continue
		}
		args = append(args, strings.ReplaceAll(a, "@ROOT@", root))
	}
	before := bb.Tree(root)
	s, err := pty.Start(bb.Bab(), args, filepath.Join(root, c.Cwd), append(env, c.Env...), 200, 24)
	if err != nil {
		fmt.Println("pty:", err)
		os.Exit(3)
	}
	defer s.Close()
	if pick != "" {
		// the picker shows how many of all match
		s.WaitFor(0, func(o string) bool { return strings.Contains(pty.Plain(o), "/") && strings.Contains(o, "> ") }, 20*time.Second)
		s.Send(pick)
		time.Sleep(30 * time.Millisecond)
		s.Send("\r")
	}
	ended := s.Wait(20 * time.Second)
	g := bb.Got{Exit: s.Exit, Stderr: s.Output(), TimedOut: !ended, Root: root, Log: bb.ReadLog(log)}
	if after := bb.Tree(root); !maps.Equal(before, after) {
		g.Changed = []string{fmt.Sprintf("%d files before, %d after", len(before), len(after))}
	}
	return g
}
