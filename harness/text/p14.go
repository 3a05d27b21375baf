package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/bab-sh/bab/internal/condition"
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P14"] = p14 }

var p14values = []string{"", "x", "false", "true", "FALSE", "False", "y", "x ", " x", " ", "\t\n", " false ", "falsey", "0", "no", "'x'", `"x"`, "'", `"`, "==", "!=", "x == 'x'", "x != 'x'", `x == "y"`, "== 'x'", "x' == 'x", "x\ny", "x\n", "\nx", "a\n== 'a'", "${{ w }}", "$${{ w }}", "${{ undefined }}", "é", "x==x", "''", "x'y", `x"y`, "$1", "\\", "X", "null", "~", "!x", "x=='x'"}

// operands as written; %q stands for nothing, they are inserted verbatim.
var p14lefts = []string{"${{ v }}", "${{v}}", "'${{ v }}'", `"${{ v }}"`, "a${{ v }}", "${{ v }}b", "${{ v }}${{ w }}", "${{ w }}", "x", "${{ env.EV }}", "$${{ v }}", "${{ v }}-${{ env.EV }}"}
var p14rights = []string{"", "x", "y", "false", "${{ v }}", "${{ w }}", "a${{ w }}", " x", "x ", "x y", "==", "$${{ v }}", "X", "${{ env.EV }}", "${{", "\\", "é"}

type cond14 struct{ left, op, right, text string }

func conds14(thorough bool) []cond14 {
	var out []cond14
	trim := func(l string) string { return strings.Trim(l, `'"`) }
	for _, l := range p14lefts {
		for _, sp := range []string{"", " ", "  ", "\t", "\n"} {
			out = append(out, cond14{l, "", "", sp + l + sp})
		}
		rights := append([]string{}, p14rights...)
		for _, v := range p14values {
			if v == "" || strings.Contains(v, "${{") {
				continue
			}
			rights = append(rights, v)
		}
		for _, op := range []string{"==", "!="} {
			for _, r := range rights {
				for _, q := range []string{"'", `"`} {
					if strings.Contains(r, q) {
						continue
					}
					forms := []string{l + " " + op + " " + q + r + q}
					if !strings.Contains(l, "v }}b") && !strings.HasSuffix(l, "=") {
						forms = append(forms, l+op+q+r+q, " "+l+"  "+op+"\t"+q+r+q+" ")
					}
					for i, f := range forms {
						if i > 0 && !thorough && r != "x" && r != "" && r != "${{ w }}" {
							continue
						}
						out = append(out, cond14{trim(l), op, r, f})
					}
				}
			}
		}
	}
	for _, lit := range []string{"false", "true", "False", " false", "x", "0", "falsefalse", "no"} {
		out = append(out, cond14{lit, "", "", lit})
	}
	return out
}

func p14(ch *vlib.Check) {
	ch.Rule("operands of every length and character one at a time; every condition of the forms value, value == 'text', value != 'text' over operands made of references, literals and quoted references, both quotes, spacings, and every pair of values chosen to collide with the syntax, through condition.Evaluate; a sub-product through the binary on tasks and run items. Non-trivial: the condition refers to a variable")
	conds := conds14(ch.Thorough())
	ws := []string{"x", "", "y", "'", "== 'x'", "false"}
	if ch.Thorough() {
		ws = p14values
	}
	for _, v := range p14values {
		if ch.Expired() || ch.Enough() {
			break
		}
		for _, w := range ws {
			for _, ev := range []string{"", "x == 'x'"} {
				vars := map[string]string{"v": v, "w": w}
				_ = os.Setenv("EV", ev)
				env := func(k string) string { return map[string]string{"EV": ev}[k] }
				var keys []uint64
				for _, c := range conds {
					l := c.left
					if c.op == "" {
						l = strings.TrimSpace(c.text)
					}
					want, werr := spec.Cond(l, c.op, c.right, vars, env)
					got, err := condition.Evaluate(c.text, interpolate.NewContext(vars))
					key := fmt.Sprintf("%q v=%q w=%q ev=%q", c.text, v, w, ev)
					keys = append(keys, vlib.Hash(key))
					if (err != nil) != (werr != nil) || werr == nil && got.ShouldRun != want {
						ch.Violation(key, map[string]any{"condition": c.text, "vars": vars, "got": got, "error": fmt.Sprint(err), "must_be": want})
					}
				}
				ch.EvalN(int64(len(conds)), keys)
			}
		}
	}
	ch.Sample(map[string]any{"condition": conds[len(conds)/2].text, "values": p14values})
	sizes14(ch)
	// undefined variables never let the step run
	for _, c := range []string{"${{ u }}", "${{ u }} == ''", "${{ u }} != 'x'", "${{ v }} == '${{ u }}'", "x != '${{ u }}'", "'${{ u }}' == ''", "a${{ u }}"} {
		got, err := condition.Evaluate(c, interpolate.NewContext(map[string]string{"v": "x"}))
		ch.Eval("undefined " + c)
		if got.ShouldRun && err == nil {
			ch.Violation("undefined "+c, map[string]any{"condition": c, "got": got})
		}
	}
	// the guarded step, through the binary
	gen := func(yield func(*bb.Case) bool) {
		texts := []cond14{{"${{ v }}", "", "", "${{ v }}"}, {"${{ v }}", "==", "x", "${{ v }} == 'x'"}, {"${{ v }}", "!=", "x", `${{ v }} != "x"`}, {"${{ v }}", "==", "", "${{ v }} == ''"}, {"${{ v }}", "==", "${{ w }}", "${{ v }} == '${{ w }}'"}, {"${{ v }}", "!=", "${{ w }}", `'${{ v }}' != "${{ w }}"`}, {"${{ u }}", "", "", "${{ u }}"}, {"${{ u }}", "!=", "x", "${{ u }} != 'x'"}}
		for _, place := range []string{"item", "task", "dep", "ref", "reftask", "log", "par", "paritem"} {
			for _, v := range p14values {
				for ti, tx := range texts {
					vars := spec.KV{{"v", strings.ReplaceAll(v, "${{", "$${{")}, {"w", "x"}}
					rv, err := spec.ResolveVars(vars.Map(), nil, baseLookup(nil))
					if err != nil {
						continue
					}
					want, werr := spec.Cond(tx.left, tx.op, tx.right, rv, baseLookup(nil))
					f := &spec.File{Vars: vars}
					t := &spec.Task{Name: "t"}
					x := &spec.Task{Name: "x", Run: []*spec.Item{spec.Mark("guarded")}}
					f.Tasks = []*spec.Task{t, x}
					g := spec.Mark("guarded")
					switch place {
					case "item":
						g.When = tx.text
						t.Run = []*spec.Item{g}
					case "task":
						t.When = tx.text
						t.Run = []*spec.Item{g}
					case "dep":
						x.When = tx.text
						t.Deps = []string{"x"}
					case "reftask":
						x.When = tx.text
						t.Run = []*spec.Item{spec.Ref("x")}
					case "ref":
						r := spec.Ref("x")
						r.When = tx.text
						t.Run = []*spec.Item{r}
					case "log":
						l := spec.Log("guarded-log")
						l.When = tx.text
						t.Run = []*spec.Item{l}
					case "par":
						p := spec.Par(g)
						p.When = tx.text
						t.Run = []*spec.Item{p}
					case "paritem":
						g.When = tx.text
						t.Run = []*spec.Item{spec.Par(g)}
					}
					t.Run = append(t.Run, spec.Mark("after"))
					wl := []string{"guarded", "after"}
					if !want {
						wl = []string{"after"}
						if place == "task" {
							wl = nil
						}
					}
					if werr != nil {
						wl = nil
					}
					if place == "log" && want && werr == nil {
						wl = wl[1:]
					}
					if !yield(&bb.Case{Key: fmt.Sprintf("%s %q cond%d", place, v, ti), Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"},
						Data: struct {
							log  []string
							err  bool
							show bool
						}{wl, werr != nil, place == "log" && want && werr == nil}}) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		d := c.Data.(struct {
			log  []string
			err  bool
			show bool
		})
		if d.err {
			for _, l := range g.Log {
				if l == "guarded" {
					return "a condition with an undefined variable let the step run"
				}
			}
			return ""
		}
		if strings.Join(g.Log, " ") != strings.Join(d.log, " ") || g.Exit != 0 {
			return fmt.Sprintf("ran %v (exit %d), must be %v: %s", g.Log, g.Exit, d.log, bb.Plain(g.Stderr))
		}
		if strings.HasPrefix(c.Key, "log") && strings.Contains(bb.Plain(g.Stderr+g.Stdout), "guarded-log") != d.show {
			return "message shown or hidden against its condition"
		}
		return ""
	})
}
