// Command behave decides the properties about what one run of bab does with an
// enumerated Babfile: P08, P10, P11, P12, P13, P15 and P16.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

type data struct {
	f    *spec.File
	task string
	// line is what a command that ran must have logged; "" for nothing.
	line func(e spec.Event) string
	env  func(string) string
	exit func(it *spec.Item) int
	// dirOK says whether a directory exists; nil means all do.
	root string
	x    any
}

// echo is a command that logs a text as the shell expands it.
func echo(text string) *spec.Item { return spec.Cmd(`echo "` + text + `" >>"$BLOG"`) }

// echoed is the text an echo command logs, before the shell expands it.
func echoed(text string) string {
	i := strings.Index(text, `echo "`)
	j := strings.Index(text, `" >>"$BLOG"`)
	if i < 0 || j < i {
		if m, ok := strings.CutSuffix(text, ` >>"$BLOG"`); ok {
			return strings.TrimPrefix(m, "echo ")
		}
		return ""
	}
	return text[i+len(`echo "`) : j]
}

func sorted(l []string) []string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return l
}

func baseEnv(extra []string) func(string) string {
	m := map[string]string{}
	for _, kv := range append(bb.BaseEnv("@HOME@", "@LOG@"), extra...) {
		k, v, _ := strings.Cut(kv, "=")
		m[k] = v
	}
	return func(k string) string { return m[k] }
}

// same compares the log of a run with the reference. Without parallel blocks
// the order counts too.
func same(c *bb.Case, g bb.Got) (*spec.Run, string) {
	d := c.Data.(data)
	env := d.env
	if env == nil {
		env = baseEnv(c.Env)
	}
	r := spec.Eval(d.f, d.task, spec.World{Exit: d.exit, Env: env})
	line := d.line
	if line == nil {
		line = func(e spec.Event) string { return echoed(e.Text) }
	}
	var want []string
	par := false
	for _, e := range r.Events {
		if e.Kind == "par" {
			par = true
		}
		if e.Kind == "run" {
			if l := line(e); l != "" {
				want = append(want, strings.ReplaceAll(l, "@ROOT@", g.Root))
			}
		}
	}
	got := g.Log
	if g.TimedOut {
		return r, "bab did not finish"
	}
	if par {
		want, got = sorted(want), sorted(got)
	}
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return r, fmt.Sprintf("commands logged %q, must be %q (exit %d, stderr: %s)", got, want, g.Exit, bb.Plain(g.Stderr))
	}
	exit := 0
	if r.Err != nil {
		exit = 1
	}
	if g.Exit != exit {
		return r, fmt.Sprintf("exit status %d, must be %d: reference error %v (stderr: %s)", g.Exit, exit, r.Err, bb.Plain(g.Stderr))
	}
	return r, ""
}

func judgeSame(c *bb.Case, g bb.Got) string {
	_, why := same(c, g)
	return why
}

// product calls f with every combination of choices.
func product(sizes []int, f func(ix []int) bool) bool {
	ix := make([]int, len(sizes))
	for {
		if !f(ix) {
			return false
		}
		k := len(ix) - 1
		for k >= 0 {
			ix[k]++
			if ix[k] < sizes[k] {
				break
			}
			ix[k] = 0
			k--
		}
		if k < 0 {
			return true
		}
	}
}

var checks = map[string]func(*vlib.Check){}

func main() {
	ch := vlib.New(os.Args[1], "exploration")
	checks[os.Args[1]](ch)
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}
