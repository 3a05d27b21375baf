package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// A stand-in for the shell that writes down what it is given, byte for byte.
const standIn = `#!/bin/sh
printf '%s\0' "$#" "$@" >>"$BLOG"
`

// maxArg is the longest argument Linux passes on, without its end.
const maxArg = 131071

// texts gives every kind of text to the shell.
func texts(ch *vlib.Check) {
	type data struct {
		want []string
		fail bool
	}
	seq := func(yield func(*bb.Case) bool) {
		emit := func(key string, l ...string) bool {
			f := &spec.File{Silent: spec.B(true)}
			t := &spec.Task{Name: "main"}
			d := data{}
			for _, x := range l {
				t.Run = append(t.Run, spec.Cmd(x))
				if len(x) > maxArg {
					d.fail = true
				}
				if !d.fail {
					d.want = append(d.want, "2", "-c", x)
				}
			}
			f.Tasks = []*spec.Task{t}
			return yield(&bb.Case{Key: "text " + key, Files: map[string]string{"Babfile": f.YAML(), "bin/sh": standIn}, Args: []string{"main"}, Data: d})
		}
		for c := rune(1); c < 0x250; c++ {
			if c == '\r' || c == 0x85 {
				continue // ends of lines to YAML
			}
			if !emit(fmt.Sprintf("character %04x", c), string(c)+"x", "a"+string(c)+"b", "echo x"+string(c), "x "+string(c)+string(c)+" y") {
				return
			}
		}
		for _, c := range []rune{0x300, 0x5d0, 0x627, 0x200b, 0x200d, 0x202e, 0x2028, 0x2029, 0x20ac, 0x3042, 0xac00, 0xfeff, 0xfffd, 0x1f600, 0x10ffff} {
			if !emit(fmt.Sprintf("character %04x", c), "a"+string(c)+"b", string(c)+".") {
				return
			}
		}
		for n := 1; n < 70; n++ {
			if !emit(fmt.Sprintf("length %d", n), strings.Repeat("x", n), "e"+strings.Repeat(" ", n)+"e", strings.Repeat("l\n", n), strings.Repeat("'", n), strings.Repeat(`\`, n), strings.Repeat("$", n), strings.Repeat("{}", n)) {
				return
			}
		}
		for _, n := range []int{100, 127, 128, 255, 256, 1000, 1023, 1024, 4095, 4096, 8192, 65535, 65536, 100000, maxArg - 1, maxArg, maxArg + 1, 200000, 1000000} {
			if !emit(fmt.Sprintf("length %d", n), "first", strings.Repeat("x", n), "last") {
				return
			}
			if !emit(fmt.Sprintf("lines %d", n), "first", strings.Repeat("x\n", n/2), "last") {
				return
			}
		}
		for _, n := range []int{1, 2, 3, 10, 50, 99, 100, 101, 255, 256, 257, 500} {
			var l []string
			for i := range n {
				l = append(l, fmt.Sprintf("step %d", i))
			}
			if !emit(fmt.Sprintf("steps %d", n), l...) {
				return
			}
		}
		words := []string{"-c", "--", "-", "#", "\\", "$", "$$", "$(", "${", "}}", "{{", "${x}", "$ {{ x }}", "%", "%s", "%!", "\"", "'", "`", "~", "*", "?", "!", "&", "|", ";", "\n", "\t", " ", "\n\n", " \n ", "\x7f", "é", "true", "null", "0", "@x", "\\n", "\\\\", "\\$", "\\$x"}
		for _, a := range words {
			for _, b := range words {
				if strings.TrimSpace(a+b) == "" || strings.Contains(a+b, "${{") {
					continue
				}
				if !emit(fmt.Sprintf("words %q", a+b), a+b, a+" "+b, "x"+a+b+"y") {
					return
				}
			}
		}
	}
	run := func(c *bb.Case) bb.Got {
		outer := bb.NewRoot()
		defer bb.RemoveRoot(outer)
		root := filepath.Join(outer, "p")
		_ = os.MkdirAll(root, 0o755)
		if err := bb.Prepare(root, c); err != nil {
			panic(err)
		}
		bin := filepath.Join(root, "bin")
		_ = os.Chmod(filepath.Join(bin, "sh"), 0o755)
		log, home := filepath.Join(outer, "blog"), filepath.Join(outer, "home")
		_ = os.MkdirAll(home, 0o755)
		env := append(bb.BaseEnv(home, log), "PATH="+bin+":/usr/bin:/bin")
		g := bb.Exec(bb.Bab(), c.Args, root, env, "")
		if text, err := os.ReadFile(log); err == nil {
			g.Log = strings.Split(strings.TrimSuffix(string(text), "\x00"), "\x00")
		}
		return g
	}
	bb.ExploreWith(ch, seq, run, func(c *bb.Case, g bb.Got) string {
		d := c.Data.(data)
		if g.TimedOut {
			return "bab did not finish"
		}
		for i := range min(len(d.want), len(g.Log)) {
			if d.want[i] != g.Log[i] {
				return fmt.Sprintf("the shell was given %s, must be %s (%v)", short(g.Log[i]), short(d.want[i]), utf8.ValidString(g.Log[i]))
			}
		}
		if len(d.want) != len(g.Log) {
			return fmt.Sprintf("the shell was called with %d words in all, must be %d; standard error %s", len(g.Log), len(d.want), short(bb.Plain(g.Stderr)))
		}
		if d.fail != (g.Exit != 0) || g.Exit != 0 && strings.TrimSpace(g.Stderr) == "" {
			return fmt.Sprintf("exit status %d, standard error %s", g.Exit, short(bb.Plain(g.Stderr)))
		}
		return ""
	})
}
