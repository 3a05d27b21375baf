package main

import (
	"fmt"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P15"] = p15 }

var platChoices = [][]string{nil, {"linux"}, {"windows"}, {"darwin", "linux"}, {"darwin", "windows"}, {}}
var whenChoices = []string{"", "${{ yes }}", "${{ no }}", "${{ p }} == 'old'", "${{ p }} == 'new'", "${{ p }} != 'old'", " "}

func place15(it *spec.Item, plat, when int) *spec.Item {
	it.Platforms, it.When = platChoices[plat], whenChoices[when]
	return it
}

// judge15 also looks for the messages of log items.
func judge15(c *bb.Case, g bb.Got) string {
	r, why := same(c, g)
	if why != "" {
		return why
	}
	want := map[string]int{}
	for _, e := range r.Events {
		if e.Kind == "log" {
			want[e.Text]++
		}
	}
	for _, t := range []string{"LOG-0", "LOG-1", "LOG-2", "LOG-3"} {
		if n := strings.Count(bb.Plain(g.Stderr+g.Stdout), " "+t+"\n"); n != want[t] {
			return fmt.Sprintf("message %s shown %d times, must be %d", t, n, want[t])
		}
	}
	return ""
}

func p15(ch *vlib.Check) {
	ch.Rule("all sequences of two run items of every kind (command, log, reference, prompt, parallel block) with every platform list and condition; all parallel blocks of two such items; all assignments of conditions to a task, its dependencies and references; one restricted or unrestricted item anywhere in rows, blocks and chains of growing length; every list of up to four platforms; long values. Non-trivial: some item is restricted")
	// kinds of items; n makes them distinguishable
	mk := func(kind string, n int) *spec.Item {
		id := fmt.Sprint(n)
		switch kind {
		case "cmd":
			return echo("c" + id + " p=${{ p }}")
		case "log":
			return spec.Log("LOG-" + id)
		case "ref":
			return spec.Ref("r" + id)
		case "prompt":
			return &spec.Item{Kind: "prompt", Text: "p", PType: "input", Message: "m", Default: "new"}
		case "par":
			return spec.Par(echo("x"+id+" p=${{ p }}"), spec.Mark("y"+id))
		}
		return nil
	}
	file := func(items ...*spec.Item) *spec.File {
		f := &spec.File{Vars: spec.KV{{"yes", "1"}, {"no", "false"}, {"p", "old"}}, Tasks: []*spec.Task{{Name: "t", Run: items}}}
		for i := range 4 {
			f.Tasks = append(f.Tasks, &spec.Task{Name: fmt.Sprintf("r%d", i), Run: []*spec.Item{echo(fmt.Sprintf("r%d p=${{ p }}", i))}})
		}
		return f
	}
	kcase := func(key string, f *spec.File, trivial bool) *bb.Case {
		return &bb.Case{Key: key, Trivial: trivial, Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Data: data{f: f, task: "t"}}
	}
	kindNames := []string{"cmd", "log", "ref", "prompt", "par"}
	gen := func(yield func(*bb.Case) bool) {
		np, nw := 4, 4
		if ch.Thorough() {
			np, nw = len(platChoices), len(whenChoices)
		}
		// one item
		if !product([]int{5, len(platChoices), len(whenChoices)}, func(ix []int) bool {
			f := file(place15(mk(kindNames[ix[0]], 0), ix[1], ix[2]))
			return yield(kcase(fmt.Sprintf("one %s %v", kindNames[ix[0]], ix[1:]), f, ix[1]+ix[2] == 0))
		}) {
			return
		}
		// two items
		ws := []int{0, 2, 3, 4, 1, 5}
		if !product([]int{5, np, nw, 5, np, nw}, func(ix []int) bool {
			f := file(place15(mk(kindNames[ix[0]], 0), ix[1], ws[ix[2]]), place15(mk(kindNames[ix[3]], 1), ix[4], ws[ix[5]]))
			return yield(kcase(fmt.Sprintf("two %v", ix), f, ix[1]+ix[2]+ix[4]+ix[5] == 0))
		}) {
			return
		}
		// parallel items, before and after a prompt
		pk := []string{"cmd", "log", "ref"}
		if !product([]int{3, np, nw, 3, np, nw, 2}, func(ix []int) bool {
			b := spec.Par(place15(mk(pk[ix[0]], 0), ix[1], ws[ix[2]]), place15(mk(pk[ix[3]], 1), ix[4], ws[ix[5]]), spec.Mark("z"))
			items := []*spec.Item{b, echo("end p=${{ p }}")}
			if ix[6] == 1 {
				items = append([]*spec.Item{mk("prompt", 0)}, items...)
			}
			return yield(kcase(fmt.Sprintf("par %v", ix), file(items...), ix[1]+ix[2]+ix[4]+ix[5] == 0))
		}) {
			return
		}
		// task-level conditions
		tw := []string{"", "${{ yes }}", "${{ no }}", "${{ own }} == 'own'", "${{ own }} != 'own'", "false"}
		if !product([]int{len(tw), len(tw), len(tw), len(tw), 2}, func(ix []int) bool {
			f := file(spec.Mark("t1"), spec.Ref("r0"), spec.Mark("t2"))
			own := spec.KV{{"own", "own"}}
			f.Tasks[0].Deps = []string{"d", "r1"}
			f.Tasks[0].Vars, f.Tasks[0].When = own, tw[ix[0]]
			f.Tasks[1].Vars, f.Tasks[1].When = own, tw[ix[1]]
			f.Tasks[1].Deps = []string{"e"}
			f.Tasks = append(f.Tasks, &spec.Task{Name: "d", Vars: own, When: tw[ix[2]], Deps: []string{"e"}, Run: []*spec.Item{spec.Mark("d")}},
				&spec.Task{Name: "e", Vars: own, When: tw[ix[3]], Run: []*spec.Item{spec.Mark("e")}})
			if ix[4] == 1 {
				f.Tasks[0].Run = []*spec.Item{spec.Par(spec.Mark("t1"), spec.Ref("r0")), spec.Mark("t2")}
				if ix[0] != 0 && ix[0] != 2 {
					return true
				}
			}
			return yield(kcase(fmt.Sprintf("task %v", ix), f, false))
		}) {
			return
		}
		// an item that cannot run anywhere leaves the task failing, also as dependency
		for _, how := range []string{"dep", "ref", "par"} {
			for _, plat := range []int{1, 2} {
				f := file()
				x := &spec.Task{Name: "x", Run: []*spec.Item{place15(spec.Mark("x"), plat, 0)}}
				f.Tasks = append(f.Tasks, x)
				switch how {
				case "dep":
					f.Tasks[0].Deps, f.Tasks[0].Run = []string{"x"}, []*spec.Item{spec.Mark("t")}
				case "ref":
					f.Tasks[0].Run = []*spec.Item{spec.Ref("x"), spec.Mark("t")}
				case "par":
					f.Tasks[0].Run = []*spec.Item{spec.Par(spec.Ref("x"), spec.Mark("s")), spec.Mark("t")}
				}
				if !yield(kcase(fmt.Sprintf("nothing %s %d", how, plat), f, false)) {
					return
				}
			}
		}
	}
	bb.Explore(ch, gen, judge15)
	wide15(ch)
}
