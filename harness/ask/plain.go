package main

import (
	"fmt"
	"iter"
	"slices"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// prompts enumerates the prompts that are valid in a Babfile.
func prompts() []prompt {
	var out []prompt
	opts := []string{"aa", "bb", "c d"}
	for _, hint := range []string{"", "hint"} {
		for _, d := range []string{"", "ab", "a b", "9", "true", "${{ g }}", "x-${{ g }}"} {
			for _, v := range []string{"", "^[a-b]+$"} {
				out = append(out, prompt{typ: "input", def: d, validate: v, placeholder: hint})
			}
		}
		limits := []*int{nil, num(-1), num(3), num(7)}
		for _, d := range []string{"", "5", "-2", "0", "12", "007"} {
			for _, lo := range limits {
				for _, hi := range limits {
					if lo == nil || hi == nil || *lo <= *hi {
						out = append(out, prompt{typ: "number", def: d, min: lo, max: hi, placeholder: hint})
					}
				}
			}
		}
	}
	for _, d := range []string{"", "true", "false", "yes", "no", "y", "n", "1", "0", "Yes", "TRUE", "YES", "on", "t", "${{ yes }}", "${{ g }}"} {
		out = append(out, prompt{typ: "confirm", def: d})
	}
	for _, d := range append([]string{""}, opts...) {
		out = append(out, prompt{typ: "select", def: d, opts: opts})
	}
	out = append(out, prompt{typ: "select", def: "${{ g }}", opts: []string{"aa", "${{ g }}"}}, prompt{typ: "select", opts: []string{"only"}}, prompt{typ: "select", def: "only", opts: []string{"only"}})
	limits := []*int{nil, num(0), num(1), num(2), num(3)}
	for _, d := range [][]string{nil, {"aa"}, {"c d"}, {"aa", "bb"}, {"bb", "aa"}, {"aa", "bb", "c d"}} {
		for _, lo := range limits {
			for _, hi := range limits {
				if lo == nil || hi == nil || *lo <= *hi {
					out = append(out, prompt{typ: "multiselect", defs: d, opts: opts, min: lo, max: hi})
				}
			}
		}
	}
	out = append(out, prompt{typ: "multiselect", defs: []string{"${{ g }}", "aa"}, opts: []string{"aa", "${{ g }}"}})
	for _, c := range []string{"", "true", "false"} {
		out = append(out, prompt{typ: "password", confirm: c}, prompt{typ: "password", confirm: c, def: "pw"})
	}
	for i := range out {
		out[i].name, out[i].message = "v", "Q"
	}
	return out
}

// resolve gives the references in a text their values.
func resolve(s string) string {
	s = strings.ReplaceAll(s, "\\${{ g }}", "\x00")
	s = strings.NewReplacer("${{ g }}", "gv", "${{ yes }}", "YES").Replace(s)
	return strings.ReplaceAll(s, "\x00", "${{ g }}")
}

func (p prompt) resolved() prompt {
	p.def, p.placeholder, p.message = resolve(p.def), resolve(p.placeholder), resolve(p.message)
	p.defs, p.opts = slices.Clone(p.defs), slices.Clone(p.opts)
	for i := range p.defs {
		p.defs[i] = resolve(p.defs[i])
	}
	for i := range p.opts {
		p.opts[i] = resolve(p.opts[i])
	}
	return p
}

const globals = "vars:\n  g: gv\n  yes: 'YES'\n"

type plainWant struct {
	ok     bool
	log    []string
	prompt string
}

// unasked runs every prompt in every place without a terminal.
func unasked(ch *vlib.Check) {
	stdins := []struct{ name, text string }{{"nothing", ""}, {"lines", "aa\ny\n7\n\n"}}
	cases := func() iter.Seq[*bb.Case] {
		return func(yield func(*bb.Case) bool) {
			for _, p := range prompts() {
				answer, ok := p.resolved().unasked()
				for _, place := range []string{"first", "dependency", "task", "second", "twice"} {
					for _, in := range stdins {
						step := p.yaml("      ")
						show := store("v", "      ")
						main := "  t:\n    run:\n"
						var files, want = "", []string{}
						line := "v=[" + answer + "]"
						switch place {
						case "first":
							files = main + step + show + "      - cmd: echo end >> $BLOG\n"
							want = []string{line, "end"}
						case "dependency":
							files = "  d:\n    run:\n" + step + show + "  t:\n    deps: [d]\n    run:\n      - cmd: echo end >> $BLOG\n"
							want = []string{line, "end"}
						case "task":
							files = "  d:\n    run:\n" + step + show + main + "      - task: d\n      - cmd: echo end >> $BLOG\n"
							want = []string{line, "end"}
						case "second":
							files = main + "      - cmd: echo start >> $BLOG\n" + step + show
							want = []string{"start", line}
						case "twice":
							q := p
							q.name = "w"
							files = main + step + q.yaml("      ") + show + store("w", "      ")
							want = []string{line, "w=[" + answer + "]"}
						}
						w := plainWant{ok: ok, log: want, prompt: "v"}
						if !ok {
							w.log = nil
							if place == "second" {
								w.log = []string{"start"}
							}
						}
						if !yield(&bb.Case{
							Key:   p.key() + ", " + place + ", stdin " + in.name,
							Files: map[string]string{"Babfile": globals + "tasks:\n" + files},
							Args:  []string{"t"}, Stdin: in.text, Data: w,
						}) {
							return
						}
					}
				}
			}
		}
	}
	bb.Explore(ch, cases(), judgePlain)
	sizesUnasked(ch)
}

func judgePlain(c *bb.Case, g bb.Got) string {
	w := c.Data.(plainWant)
	if w.ok != (g.Exit == 0) {
		return fmt.Sprintf("exit %d", g.Exit)
	}
	if strings.Join(g.Log, "\n") != strings.Join(w.log, "\n") {
		return fmt.Sprintf("ran %q, not %q", g.Log, w.log)
	}
	if !w.ok && !strings.Contains(g.Stderr+g.Stdout, w.prompt) {
		return "the message does not name the prompt"
	}
	return ""
}
