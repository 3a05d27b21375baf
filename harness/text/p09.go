package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P09"] = p09 }

// The letters are pieces of the reference syntax and its surroundings.
var p09alphabet = []string{"$", "{", "{{", "${{", "}", "}}", " ", "a", "b", "u", "env.EA", "\n", ".", "1"}

var p09vars = map[string]string{
	"a": "VA", "b": "${{ a }}", "aa": "$${{ a }}", "ab": "", "ba": "$1 ${1} \\1 $$", "bb": "}} ${{", "_": "x", "b1": "é\x1b[0m", "a.b": "dotted",
}

func p09(ch *vlib.Check) {
	ch.Rule("texts, names and values of every length and character one at a time; every string of up to 6 (thorough 7) pieces of the reference syntax, with values that contain references, escapes and regular expression replacements, through interpolate.Interpolate; every place that takes references through the binary with every value. Non-trivial: the string contains at least one reference or escape")
	n := 6
	if ch.Thorough() {
		n = 7
	}
	env := os.Getenv
	for k := 0; k <= n; k++ {
		words(ch, p09alphabet, k, func(w []int) {
			var b strings.Builder
			for _, i := range w {
				b.WriteString(p09alphabet[i])
			}
			s := b.String()
			check09(ch, s, env)
		})
	}
	// whole references in every spelling, next to each other
	whole := []string{"${{a}}", "${{ a }}", "${{\ta\n}}", "$${{ a }}", "$$${{ a }}", "$$$${{ a }}", "${{ b }}", "${{ aa }}", "${{ ab }}", "${{ ba }}", "${{ bb }}", "${{ _ }}", "${{ b1 }}", "${{ a.b }}", "${{ env.EA }}", "${{ env.EB }}", "${{ env.UNSET }}", "${{ u }}", "${{ env. }}", "${{ env }}", "${{ environ }}", "${{ -a }}", "${{ 1a }}", "${{ a b }}", "${{ }}", "${ { a } }", "é", "\\", "\"", "'", "%s", "$1", "x"}
	m := 3
	if ch.Thorough() {
		m = 4
	}
	for k := 1; k <= m; k++ {
		words(ch, whole, k, func(w []int) {
			var b strings.Builder
			for _, i := range w {
				b.WriteString(whole[i])
			}
			check09(ch, b.String(), env)
		})
	}
	sizes09(ch)
	p09places(ch)
}

func check09(ch *vlib.Check, s string, env func(string) string) {
	want, werr := spec.Interp(s, p09vars, env)
	got, err := interpolate.Interpolate(s, interpolate.NewContextWithLocation(p09vars, "Babfile", 7))
	key := ""
	if strings.Contains(s, "${{") {
		key = "s " + s
		ch.EvalN(1, []uint64{vlib.Hash(s)})
	} else {
		ch.EvalN(1, nil)
	}
	if key != "" {
		ch.Sample(map[string]any{"input": s, "result": got, "error": fmt.Sprint(err)})
	}
	if (err != nil) != (werr != nil) || werr == nil && got != want {
		ch.Violation(fmt.Sprintf("interpolate %q", s), map[string]any{"input": s, "vars": p09vars, "got": got, "error": fmt.Sprint(err), "must_be": want, "must_fail": fmt.Sprint(werr)})
		return
	}
	if werr != nil {
		var nf *errs.VarNotFoundError
		if !errors.As(err, &nf) || "undefined "+nf.Name != werr.Error() {
			ch.Violation(fmt.Sprintf("error of %q", s), map[string]any{"input": s, "got": fmt.Sprint(err), "must_name": werr.Error()})
		}
	}
}

// p09places puts references into every field that takes them.
func p09places(ch *vlib.Check) {
	values := []string{"plain", "${{ other }}", "$${{ other }}", "${{ env.OUTER }}", "two  words ", "a'b", "$HOME `id` \\n", "é%s", "}}", "${{", "", "x\ny", "# no: comment", "*", "~"}
	refs := []string{"${{ v }}", "<${{ v }}>${{v}}", "$${{ v }}", "${{ nope }}", "$${{ nope }}${{ v }}", "${{ env.OUTER }}", "${{ env.NOT_SET }}|"}
	places := []string{"cmd", "cmdenv", "taskenv", "fileenv", "log", "when", "dir", "taskdir", "filedir", "taskvar", "filevar", "prompt", "defaults", "parcmd", "parlog", "taskwhen"}
	show := func(id string) *spec.Item {
		return spec.Cmd(`printf '%s' "$V" >>"$BLOG"`)
	}
	type exp struct {
		place, ref, want string
		err              bool
	}
	lookup := baseLookup(map[string]string{"OUTER": "outer ${{ v }}"})
	gen := func(yield func(*bb.Case) bool) {
		for _, place := range places {
			for vi, v := range values {
				for _, ref := range refs {
					raw := strings.ReplaceAll(v, "${{", "$${{")
					if v == "$${{ other }}" {
						raw = "$$${{ other }}" // resolves to $ and a literal ${{
					}
					vars := spec.KV{{"v", raw}, {"other", "OTHER"}}
					rv, err := spec.ResolveVars(vars.Map(), nil, lookup)
					if err != nil {
						panic(err)
					}
					want, werr := spec.Interp(ref, rv, lookup)
					f := &spec.File{Vars: vars}
					t := &spec.Task{Name: "t"}
					f.Tasks = []*spec.Task{t}
					it := show("1")
					heredoc := func(r string) string { return "cat >>\"$BLOG\" <<'EOT'\n" + r + "\nEOT" }
					switch place {
					case "cmd":
						if strings.Contains(want, "EOT") {
							continue
						}
						it = spec.Cmd(heredoc(ref))
						want += "\n"
					case "parcmd":
						it = spec.Par(spec.Cmd(heredoc(ref)))
						want += "\n"
					case "cmdenv":
						it.Env = spec.KV{{"V", ref}}
					case "taskenv":
						t.Env = spec.KV{{"V", ref}}
					case "fileenv":
						f.Env = spec.KV{{"V", ref}}
					case "log":
						it = spec.Log(ref)
					case "parlog":
						it = spec.Par(spec.Log(ref))
					case "when":
						it.Env = spec.KV{{"V", "ran"}}
						it.When = ref
						if spec.Truthy(want) {
							want = "ran"
						} else {
							want = ""
						}
					case "taskwhen":
						it.Env = spec.KV{{"V", "ran"}}
						t.When = ref
						if spec.Truthy(want) {
							want = "ran"
						} else {
							want = ""
						}
					case "dir", "taskdir", "filedir":
						// a directory of exactly that name exists
						if werr != nil || strings.TrimSpace(want) != want || want == "" || strings.ContainsAny(want, "/\x00") || want == "~" {
							if werr == nil {
								continue
							}
						}
						switch place {
						case "dir":
							it.Dir = ref
						case "taskdir":
							t.Dir = ref
						default:
							f.Dir = ref
						}
						it.Text = `basename "$(pwd)"  >>"$BLOG"`
					case "taskvar":
						t.Vars = spec.KV{{"w", ref}}
						it.Env = spec.KV{{"V", "${{ w }}"}}
					case "filevar":
						f.Vars = append(f.Vars, [2]string{"w", ref})
						it.Env = spec.KV{{"V", "${{ w }}"}}
					case "prompt":
						if want == "" {
							continue
						}
						t.Run = append(t.Run, &spec.Item{Kind: "prompt", Text: "w", PType: "input", Message: "m ${{ v }}", Default: ref})
						it.Env = spec.KV{{"V", "${{ w }}"}}
					case "defaults":
						t.Run = append(t.Run, &spec.Item{Kind: "prompt", Text: "w", PType: "multiselect", Message: "m", Options: []string{ref, "z"}, Defaults: []string{ref, "z"}})
						it.Env = spec.KV{{"V", "${{ w }}"}}
						want += ",z"
					}
					t.Run = append(t.Run, it)
					c := &bb.Case{Key: fmt.Sprintf("%s value%d %q", place, vi, ref), Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"},
						Env: []string{"OUTER=outer ${{ v }}"}, Data: exp{place, ref, want, werr != nil}}
					if strings.HasSuffix(place, "dir") && werr == nil {
						c.Dirs = []string{want}
						x := c.Data.(exp)
						x.want += "\n"
						c.Data = x
					}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		d := c.Data.(exp)
		log := strings.Join(g.Log, "\n")
		if d.err {
			if g.Exit != 1 || len(g.Log) != 0 {
				return fmt.Sprintf("undefined variable: exit %d, logged %q", g.Exit, log)
			}
			if !strings.Contains(bb.Plain(g.Stderr), "nope") {
				return fmt.Sprintf("the message does not name the variable: %s", bb.Plain(g.Stderr))
			}
			return ""
		}
		if g.Exit != 0 {
			return fmt.Sprintf("failed: %s", bb.Plain(g.Stderr))
		}
		want := strings.TrimSuffix(d.want, "\n")
		if strings.HasSuffix(d.place, "log") {
			out := bb.Plain(g.Stderr + g.Stdout)
			for _, l := range strings.Split(want, "\n") {
				if !strings.Contains(out, strings.TrimRight(l, " ")) {
					return fmt.Sprintf("message must contain %q: %q", want, out)
				}
			}
			if strings.Contains(d.ref, "<") && !strings.Contains(out, "<") {
				return "message lost its text"
			}
			return ""
		}
		if log != want {
			return fmt.Sprintf("the command saw %q, must be %q", log, want)
		}
		return ""
	})
}

func baseLookup(extra map[string]string) func(string) string {
	return func(k string) string { return extra[k] }
}
