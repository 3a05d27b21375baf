package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// ask is one prompt of a story and the keys it gets.
type ask struct {
	p    prompt
	keys []key
}

// story is a Babfile with several prompts and what should come of it.
type story struct {
	name    string
	babfile string
	asks    []ask
	want    string // what the commands log when nothing is cancelled
	before  string // what they log before a cancelled prompt
	pick    bool   // the task is picked from the list first
}

func stories(ch *vlib.Check) {
	end := "      - cmd: echo end >> $BLOG\n        silent: true\n"
	begin := "      - cmd: echo start >> $BLOG\n        silent: true\n"
	mk := func(typ string) prompt {
		p := prompt{typ: typ, name: "v", message: "Q"}
		if typ == "select" || typ == "multiselect" {
			p.opts = []string{"aa", "bb"}
		}
		return p
	}
	var list []story
	types := []string{"confirm", "input", "number", "select", "multiselect", "password"}
	give := map[string][]key{"confirm": {right, enter}, "input": {char("a"), enter}, "number": {char("4"), enter}, "select": {down, enter}, "multiselect": {space, enter}, "password": {char("p"), enter}}
	answers := map[string]string{"confirm": "true", "input": "a", "number": "4", "select": "bb", "multiselect": "aa", "password": "p"}
	for _, typ := range types {
		p := mk(typ)
		step := p.yaml("      ") + store("v", "      ")
		got := "v=[" + answers[typ] + "]\n"
		for _, stop := range []key{{}, ctrlC, sigint, term} {
			keys := give[typ]
			if stop.name != "" {
				keys = append(append([]key{}, keys[:len(keys)-1]...), stop)
			}
			add := func(place, files, before, want string, more ...ask) {
				asks := append([]ask{{p, keys}}, more...)
				list = append(list, story{typ + " in " + place + " " + names(keys), "tasks:\n" + files, asks, want, before, false})
			}
			add("a dependency", "  d:\n    run:\n"+step+"  t:\n    deps: [d]\n    run:\n"+end, "", got+"end\n")
			add("a referenced task", "  d:\n    run:\n"+step+"  t:\n    run:\n"+begin+"      - task: d\n"+end, "start\n", "start\n"+got+"end\n")
			add("a task before another dependency", "  d:\n    run:\n"+step+"  e:\n    deps: [d]\n    run:\n"+begin+"  t:\n    deps: [d, e]\n    run:\n"+end, "", got+"start\nend\n")
			// The second prompt: its texts depend on the first answer.
			for _, typ2 := range []string{"input", "select", "confirm"} {
				q := mk(typ2)
				q.name, q.message = "w", "R ${{ v }} end"
				r := q
				r.message = "R " + answers[typ] + " end"
				var keys2 []key
				second := ""
				switch typ2 {
				case "input":
					q.def, r.def = "d-${{ v }}", "d-"+answers[typ]
					keys2 = []key{bs, char("z"), enter}
					second = r.def[:len(r.def)-1] + "z"
				case "select":
					q.opts, r.opts = []string{"first", "${{ v }}"}, []string{"first", answers[typ]}
					q.def, r.def = "${{ v }}", answers[typ]
					keys2 = []key{enter}
					second = answers[typ]
				case "confirm":
					q.def, r.def = "${{ v }}", answers[typ]
					keys2 = []key{enter}
					second = fmt.Sprint(truth(answers[typ]))
				}
				if stop.name != "" {
					continue
				}
				add("front of a prompt for "+typ2, "  t:\n    run:\n"+step+q.yaml("      ")+store("w", "      ")+end, "", got+"w=["+second+"]\nend\n", ask{r, keys2})
				add("front of a cancelled prompt for "+typ2, "  t:\n    run:\n"+step+q.yaml("      ")+store("w", "      ")+end, got, "", ask{r, []key{ctrlC}})
			}
		}
	}
	// Prompts that depend on an answer.
	for _, yes := range []bool{false, true} {
		k, log := char("n"), "v=[false]\nend\n"
		if yes {
			k, log = char("y"), "v=[true]\nw=[a]\nend\n"
		}
		q := prompt{typ: "input", name: "w", message: "R"}
		p := mk("confirm")
		asks := []ask{{p, []key{k}}}
		if yes {
			asks = append(asks, ask{q, []key{char("a"), enter}})
		}
		w := strings.Replace(store("w", "      "), "silent: true", "silent: true\n        when: ${{ v }}", 1)
		list = append(list, story{"a prompt only after " + k.name, "tasks:\n  t:\n    run:\n" + p.yaml("      ") + store("v", "      ") + q.yaml("      ") + "        when: ${{ v }}\n" + w + end, asks, log, "", false})
	}
	// A prompt after the picker and after a view of a parallel block.
	for _, typ := range []string{"input", "confirm", "select"} {
		p := mk(typ)
		body := p.yaml("      ") + store("v", "      ")
		after := "v=[" + answers[typ] + "]\n"
		for i := range 6 {
			n := fmt.Sprintf(" (%d)", i+1)
			list = append(list, story{name: typ + " after the picker" + n, babfile: "tasks:\n  t:\n    run:\n" + body, asks: []ask{{p, give[typ]}}, want: after, pick: true})
			list = append(list, story{name: typ + " after a view" + n, babfile: "tasks:\n  t:\n    run:\n      - mode: tabs\n        parallel:\n          - cmd: sleep 0.2\n          - cmd: ':'\n" + body, asks: []ask{{p, give[typ]}}, want: after})
		}
	}
	size := [2]int{80, 24}
	parallel(list, func(st story) {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return
		}
		run := func() (string, map[string]any) {
			dir := newDir(st.babfile)
			defer os.RemoveAll(dir)
			args := []string{"t"}
			if st.pick {
				args = nil
			}
			s, before := start(dir, size, args...)
			defer s.Close()
			why := ""
			if st.pick {
				s.WaitFor(0, func(o string) bool { return strings.Contains(o, "1/1") }, 20*time.Second)
				s.Send("\r")
			}
			var last *state
			for _, a := range st.asks {
				last = newState(a.p)
				if why = talk(s, last, a.keys, size); why != "" || last.cancelled {
					break
				}
			}
			if why == "" {
				want := st.want
				if last.cancelled {
					want = st.before
				}
				why = finish(s, dir, last, before, want)
			}
			sc := pty.NewScreen(size[0], size[1])
			sc.Write(s.Output())
			return why, map[string]any{"babfile": st.babfile, "screen": sc.Lines(), "exit": s.Exit, "running": s.Running()}
		}
		why, detail := run()
		if why != "" {
			ch.Count("deviations", 1)
			if why, detail = run(); why != "" {
				detail["why"] = why
				if ch.Violation("on a terminal: "+st.name, detail) {
					fmt.Println("  " + why)
				}
			}
		}
		ch.Eval("on a terminal: " + st.name)
	})
	ch.Count("stories", int64(len(list)))
}
