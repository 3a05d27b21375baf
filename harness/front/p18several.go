package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// several18 has problems that show up while a run goes on, in one of several
// files, after tasks of other files have run: the place is the one of the
// problem, wherever the run has been.
func several18(ch *vlib.Check) {
	type file struct{ name, ns string }
	files := []file{{"Babfile", ""}, {"a/b.yml", "a:"}, {"a/e/b.yml", "a:e:"}, {"c/b.yml", "c:"}}
	problems := []string{
		"cmd: echo ${{ zq }}",
		"cmd: echo\n        when: ${{ zq }}",
		"cmd: echo\n        env: {X: \"${{ zq }}\"}",
		"cmd: echo\n        dir: ${{ zq }}",
	}
	type data struct{ at string }
	gen := func(yield func(*bb.Case) bool) {
		for how, hows := 0, []string{"deps", "refs", "par", "deep"}; how < len(hows); how++ {
			for pi, p := range problems {
				for fail := range files {
					for before := range 1 + len(files) + len(files)*len(files) {
						var seq []int
						switch {
						case before > len(files):
							k := before - len(files) - 1
							seq = []int{k / len(files), k % len(files)}
						case before > 0:
							seq = []int{before - 1}
						}
						if pi > 0 && len(seq) > 1 && !ch.Thorough() {
							continue
						}
						texts := map[string]string{}
						at := ""
						for i, f := range files {
							var l []string
							add := func(format string, args ...any) {
								l = append(l, strings.Split(fmt.Sprintf(format, args...), "\n")...)
							}
							for range 7 * i {
								add("# %s", f.name)
							}
							switch i {
							case 0:
								add("includes:\n  a: {babfile: a/b.yml}\n  c: {babfile: c/b.yml}")
							case 1:
								add("includes:\n  e: {babfile: e/b.yml}")
							}
							add("tasks:\n  ok1:\n    run:\n      - cmd: \"true\"\n  ok2:\n    run:\n      - cmd: \"true\"\n  bad:\n    run:\n      - cmd: \"true\"\n      - platforms: [windows]\n        cmd: echo")
							if i == fail {
								at = fmt.Sprintf("%s:%d", f.name, len(l)+1)
							}
							add("      - %s", p)
							if i == 0 {
								var names []string
								for k, s := range seq {
									names = append(names, fmt.Sprintf("%sok%d", files[s].ns, k+1))
								}
								bad := files[fail].ns + "bad"
								switch hows[how] {
								case "deps":
									add("  t:\n    deps: [%s]\n    run:\n      - cmd: \"true\"", `"`+strings.Join(append(slices.Clone(names), bad), `", "`)+`"`)
								case "refs":
									add("  t:\n    run:")
									for _, n := range append(slices.Clone(names), bad) {
										add("      - task: %s", n)
									}
								case "par": // the others may run at the same time
									add("  t:\n    run:\n      - parallel:\n          - task: %s", bad)
									for _, n := range append(slices.Clone(names), "ok3") {
										add("          - task: %s", n)
									}
									add("  ok3:\n    run:\n      - cmd: \"true\"")
								case "deep": // the problem is in a task whose dependency is in another file
									add("  t:\n    deps: [u]\n    run:\n      - task: %s", bad)
									add("  u:\n    run:\n      - cmd: \"true\"")
									for _, n := range names {
										add("      - task: %s", n)
									}
								}
							}
							texts[f.name] = strings.Join(l, "\n") + "\n"
						}
						if !yield(&bb.Case{Key: fmt.Sprintf("after %v in %s problem %d %s", seq, files[fail].name, pi, hows[how]), Files: texts, Args: []string{"t"}, Data: data{at}}) {
							return
						}
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		at := c.Data.(data).at
		text := bb.Plain(g.Stderr)
		i := strings.Index(text, "ERRO ")
		if g.Exit != 1 || i < 0 {
			return fmt.Sprintf("exit status %d: %s", g.Exit, text)
		}
		if locs := locNoLineRE.FindAllStringSubmatch(text[i:], -1); len(locs) == 0 || locs[len(locs)-1][0] != at && !strings.Contains(text[i:], at+":") {
			return fmt.Sprintf("the problem is at %s: %s", at, text[i:])
		}
		return ""
	})
}
