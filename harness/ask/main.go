// Command ask checks the prompts (P26) on the real bab: every combination of
// attributes without a terminal, and enumerated key sequences in sessions on a
// pseudo terminal, where the screen is compared with a reference after every
// key and the stored answer at the end.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// prompt is a prompt as it is written in the Babfile.
type prompt struct {
	typ         string
	name        string
	message     string
	def         string
	defs        []string
	opts        []string
	min, max    *int
	validate    string
	placeholder string
	confirm     string // "", true, false
}

func num(n int) *int { return &n }

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (p prompt) yaml(indent string) string {
	var b strings.Builder
	line := func(f string, a ...any) { b.WriteString(indent + "  " + fmt.Sprintf(f, a...) + "\n") }
	fmt.Fprintf(&b, "%s- prompt: %s\n", indent, p.name)
	line("type: %s", p.typ)
	line("message: %s", quote(p.message))
	if p.def != "" {
		line("default: %s", quote(p.def))
	}
	list := func(key string, v []string) {
		if len(v) == 0 {
			return
		}
		q := make([]string, len(v))
		for i, s := range v {
			q[i] = quote(s)
		}
		line("%s: [%s]", key, strings.Join(q, ", "))
	}
	list("options", p.opts)
	list("defaults", p.defs)
	if p.min != nil {
		line("min: %d", *p.min)
	}
	if p.max != nil {
		line("max: %d", *p.max)
	}
	if p.validate != "" {
		line("validate: %s", quote(p.validate))
	}
	if p.placeholder != "" {
		line("placeholder: %s", quote(p.placeholder))
	}
	if p.confirm != "" {
		line("confirm: %s", p.confirm)
	}
	return b.String()
}

func (p prompt) key() string {
	s := p.typ
	add := func(k, v string) {
		if v != "" {
			if len(v) > 120 {
				v = fmt.Sprintf("%s…(%d)", v[:100], len(v))
			}
			s += " " + k + "=" + v
		}
	}
	add("message", strings.TrimPrefix(p.message, "Q"))
	add("default", p.def)
	add("defaults", strings.Join(p.defs, "+"))
	if len(p.opts) > 3 {
		add("options", itoa(len(p.opts)))
	} else {
		add("options", strings.Join(p.opts, "+"))
	}
	if p.min != nil {
		add("min", itoa(*p.min))
	}
	if p.max != nil {
		add("max", itoa(*p.max))
	}
	add("validate", p.validate)
	add("placeholder", p.placeholder)
	add("confirm", p.confirm)
	return s
}

func itoa(n int) string { return strconv.Itoa(n) }

// truth is what a confirm default means.
func truth(s string) bool {
	switch strings.ToLower(s) {
	case "true", "yes", "y", "1":
		return true
	}
	return false
}

// unasked is the documented answer of a prompt nobody is asked.
func (p prompt) unasked() (string, bool) {
	switch p.typ {
	case "password":
		return "", false
	case "multiselect":
		return strings.Join(p.defs, ","), len(p.defs) > 0
	case "confirm":
		return strconv.FormatBool(truth(p.def)), p.def != ""
	}
	return p.def, p.def != ""
}

// accepts tells whether an answer satisfies the declared limits.
func (p prompt) accepts(answer string, count int) bool {
	switch p.typ {
	case "input":
		return p.validate == "" || regexp.MustCompile(p.validate).MatchString(answer)
	case "number":
		if answer == "" {
			answer = p.def
		}
		n, err := strconv.Atoi(answer)
		return err == nil && (p.min == nil || n >= *p.min) && (p.max == nil || n <= *p.max)
	case "multiselect":
		return (p.min == nil || count >= *p.min) && (p.max == nil || count <= *p.max)
	}
	return true
}

// store is the command that shows the answer to the harness.
func store(name, indent string) string {
	return indent + "- cmd: 'printf \"%s\\n\" \"" + name + "=[${{ " + name + " }}]\" >> $BLOG'\n" + indent + "  silent: true\n"
}

func parallel[T any](jobs []T, f func(T)) {
	var wg sync.WaitGroup
	next := make(chan T)
	for range runtime.NumCPU() + 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range next {
				f(j)
			}
		}()
	}
	for _, j := range jobs {
		next <- j
	}
	close(next)
	wg.Wait()
}

var dirs struct {
	sync.Mutex
	n int
}

// newDir makes the directory of one session.
func newDir(babfile string) string {
	dirs.Lock()
	dirs.n++
	dir := filepath.Join(bb.Scratch(), "ask"+itoa(dirs.n))
	dirs.Unlock()
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, "Babfile"), []byte(babfile), 0o644)
	return dir
}

func termEnv(dir string) []string {
	env := bb.BaseEnv(dir, filepath.Join(dir, "log"))
	for i, e := range env {
		if strings.HasPrefix(e, "TERM=") {
			env[i] = "TERM=xterm-256color"
		}
	}
	return env
}

func main() {
	ch := vlib.New("P26", "exploration")
	ch.Rule("A case is one prompt with a value for each of its attributes, and either a kind of standard input or a sequence of keys and signals. Cases without any attribute, key or input are trivial.")
	ch.Assume("The terminal is an emulator of the sequences bab uses; the key bindings are those the prompt shows.")
	unasked(ch)
	if !ch.Enough() {
		sessions(ch)
	}
	if !ch.Enough() {
		stories(ch)
	}
	bb.Cleanup()
	ch.Finish()
}
