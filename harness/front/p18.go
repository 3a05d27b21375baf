package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P18"] = p18 }

// A defect is a piece of a Babfile. The lines that may be reported carry #@;
// names it must mention carry nothing. # in the text stands for a number that
// makes names unique.
type defect struct {
	name  string
	top   bool     // belongs to the file, not under tasks
	text  string   // task-level text is indented by two
	names []string // the message must contain these
	run   string   // a run-time problem: the task to run
}

var defects = []defect{
	{name: "dep", text: "  t#:\n    desc: x\n    deps: [zq#] #@\n", names: []string{`"zq#"`}},
	{name: "depblock", text: "  t#:\n    deps: #@\n      - ok\n      - zq# #@\n    run:\n      - cmd: echo\n", names: []string{`"zq#"`}},
	{name: "ref", text: "  t#:\n    run:\n      - cmd: echo\n      - task: zq# #@\n", names: []string{`"zq#"`}},
	{name: "parref", text: "  t#:\n    run:\n      - parallel:\n          - cmd: echo\n          - task: zq# #@\n", names: []string{`"zq#"`}},
	{name: "dup", text: "  t#:\n    run:\n      - cmd: echo\n  t#: #@\n    run:\n      - cmd: echo\n", names: []string{`"t#"`}},
	{name: "aliastask", text: "  t#: #@\n    alias: ok #@\n    run:\n      - cmd: echo\n", names: []string{`ok"`}},
	{name: "aliasdup", text: "  t#: #@\n    alias: al# #@\n    run:\n      - cmd: echo\n  u#: #@\n    aliases: [x#, al#] #@\n    run:\n      - cmd: echo\n", names: []string{`al#"`}},
	{name: "tasklist", text: "  t#: [a] #@\n", names: []string{"t#"}},
	{name: "env", text: "  t#:\n    env: [x] #@\n    run:\n      - cmd: echo\n"},
	{name: "envval", text: "  t#:\n    env:\n      A: a\n      B#: [x] #@\n    run:\n      - cmd: echo\n", names: []string{"B#"}},
	{name: "vars", text: "  t#:\n    vars: text #@\n    run:\n      - cmd: echo\n"},
	{name: "varsval", text: "  t#:\n    vars:\n      A: a\n      B#: {x: y} #@\n    run:\n      - cmd: echo\n", names: []string{"B#"}},
	{name: "silent", text: "  t#:\n    silent: perhaps #@\n    run:\n      - cmd: echo\n"},
	{name: "output", text: "  t#:\n    run:\n      - cmd: echo\n    output: [true] #@\n"},
	{name: "dirlist", text: "  t#:\n    dir: [a] #@\n    run:\n      - cmd: echo\n", names: []string{"t#"}},
	{name: "whenlist", text: "  t#:\n    when: [a] #@\n    run:\n      - cmd: echo\n", names: []string{"t#"}},
	{name: "depsmap", text: "  t#:\n    deps: {a: b} #@\n    run:\n      - cmd: echo\n"},
	{name: "desclist", text: "  t#:\n    desc: [a] #@\n    run:\n      - cmd: echo\n"},
	{name: "aliasmap", text: "  t#:\n    alias: {a: b} #@\n    run:\n      - cmd: echo\n"},
	{name: "aliasesmap", text: "  t#:\n    aliases: {a: b} #@\n    run:\n      - cmd: echo\n"},
	{name: "runmap", text: "  t#:\n    run: {cmd: x} #@\n", names: []string{"t#"}},
	{name: "runtext", text: "  t#:\n    run: echo #@\n", names: []string{"t#"}},
	{name: "itemtext", text: "  t#:\n    run:\n      - cmd: echo\n      - echo #@\n", names: []string{"t#", "run[1]"}},
	{name: "twokinds", text: "  t#:\n    run:\n      - cmd: echo #@\n        task: ok #@\n", names: []string{"t#"}},
	{name: "nokind", text: "  t#:\n    run:\n      - cmd: echo\n      - dir: x #@\n", names: []string{"t#", "run[1]"}},
	{name: "cmdlist", text: "  t#:\n    run:\n      - cmd: [x] #@\n", names: []string{"t#"}},
	{name: "itemdir", text: "  t#:\n    run:\n      - cmd: echo\n        dir: {a: b} #@\n", names: []string{"t#"}},
	{name: "itemwhen", text: "  t#:\n    run:\n      - cmd: echo\n        when: [b] #@\n", names: []string{"t#"}},
	{name: "itemenv", text: "  t#:\n    run:\n      - cmd: echo\n        env: x #@\n"},
	{name: "itemsilent", text: "  t#:\n    run:\n      - cmd: echo\n        silent: 5 #@\n"},
	{name: "platform", text: "  t#:\n    run:\n      - cmd: echo\n        platforms: [linux, bsd#] #@\n", names: []string{"bsd#"}},
	{name: "platformsmap", text: "  t#:\n    run:\n      - cmd: echo\n        platforms: {a: b} #@\n"},
	{name: "level", text: "  t#:\n    run:\n      - log: x #@\n        level: loud# #@\n", names: []string{"loud#"}},
	{name: "ptype", text: "  t#:\n    run:\n      - prompt: p #@\n        type: what# #@\n        message: m\n", names: []string{"what#"}},
	{name: "pnotype", text: "  t#:\n    run:\n      - prompt: p# #@\n        message: m\n", names: []string{"p#", "type"}},
	{name: "pnomsg", text: "  t#:\n    run:\n      - prompt: p# #@\n        type: input\n", names: []string{"p#", "message"}},
	{name: "pname", text: "  t#:\n    run:\n      - prompt: p-# #@\n        type: input\n        message: m\n", names: []string{"p-#"}},
	{name: "pnoopts", text: "  t#:\n    run:\n      - prompt: p# #@\n        type: select\n        message: m\n", names: []string{"p#", "options"}},
	{name: "pdefault", text: "  t#:\n    run:\n      - prompt: p# #@\n        type: select\n        message: m\n        options: [a, b]\n        default: c# #@\n", names: []string{"p#", "c#"}},
	{name: "pdefaults", text: "  t#:\n    run:\n      - prompt: p# #@\n        type: multiselect\n        message: m\n        options: [a, b]\n        defaults: [a, c#] #@\n", names: []string{"p#", "c#"}},
	{name: "pminmax", text: "  t#:\n    run:\n      - prompt: p# #@\n        type: number\n        message: m\n        min: 5 #@\n        max: 4 #@\n", names: []string{"p#"}},
	{name: "pmin", text: "  t#:\n    run:\n      - prompt: p#\n        type: number\n        message: m\n        min: few #@\n"},
	{name: "pregex", text: "  t#:\n    run:\n      - prompt: p# #@\n        type: input\n        message: m\n        validate: '(' #@\n", names: []string{"p#"}},
	{name: "pconfirm", text: "  t#:\n    run:\n      - prompt: p# #@\n        type: input\n        message: m\n        confirm: true #@\n", names: []string{"p#", "confirm"}},
	{name: "pnumber", text: "  t#:\n    run:\n      - prompt: p# #@\n        type: number\n        message: m\n        default: few# #@\n", names: []string{"p#", "few#"}},
	{name: "parempty", text: "  t#:\n    run:\n      - parallel: [] #@\n", names: []string{"t#"}},
	{name: "partext", text: "  t#:\n    run:\n      - parallel: x #@\n", names: []string{"t#"}},
	{name: "parmode", text: "  t#:\n    run:\n      - parallel:\n          - cmd: echo\n        mode: fast# #@\n", names: []string{"fast#"}},
	{name: "parlimit", text: "  t#:\n    run:\n      - parallel:\n          - cmd: echo\n        limit: -1 #@\n", names: []string{"t#"}},
	{name: "parlimittext", text: "  t#:\n    run:\n      - parallel:\n          - cmd: echo\n        limit: many #@\n"},
	{name: "parkey", text: "  t#:\n    run:\n      - parallel:\n          - cmd: echo\n        retry#: 2 #@\n", names: []string{"retry#"}},
	{name: "parnested", text: "  t#:\n    run:\n      - parallel:\n          - cmd: echo\n          - parallel: #@\n              - cmd: echo\n", names: []string{"t#"}},
	{name: "parprompt", text: "  t#:\n    run:\n      - parallel:\n          - prompt: p #@\n            type: input\n            message: m\n", names: []string{"t#"}},
	{name: "pariteminner", text: "  t#:\n    run:\n      - parallel:\n          - cmd: echo\n          - cmd: echo\n            platforms: [beos#] #@\n", names: []string{"beos#"}},
	{name: "gvars", top: true, text: "vars: [x] #@\n"},
	{name: "gvarsval", top: true, text: "vars:\n  A: a\n  B#: [b] #@\n", names: []string{"B#"}},
	{name: "genv", top: true, text: "env: [x] #@\n"},
	{name: "gsilent", top: true, text: "silent: perhaps #@\n"},
	{name: "gdir", top: true, text: "dir: [x] #@\n"},
	{name: "incmissing", top: true, text: "includes:\n  fine:\n    babfile: fine.yml\n  zz: #@\n    babfile: gone#.yml #@\n", names: []string{"gone#.yml"}},
	{name: "inctext", top: true, text: "includes:\n  zz: #@\n    gone.yml #@\n"},
	{name: "inclist", top: true, text: "includes: [x] #@\n"},
	{name: "syntax1", text: "  t#: a: b #@\n"},
	{name: "syntax2", text: "  t#: #@\n    desc: 'x' y #@\n"},
	{name: "loop", text: "  t#: &l#\n    run: *l# #@\n", names: []string{"l#"}},
	// problems found when the task is run
	{name: "rcmd", run: "t#", text: "  t#:\n    run:\n      - cmd: echo\n      - cmd: echo ${{ zq# }} #@\n", names: []string{"zq#"}},
	{name: "rlog", run: "t#", text: "  t#:\n    run:\n      - log: ${{ zq# }} #@\n", names: []string{"zq#"}},
	{name: "rwhen", run: "t#", text: "  t#:\n    run:\n      - cmd: echo #@\n        when: ${{ zq# }} #@\n", names: []string{"zq#"}},
	{name: "rtaskwhen", run: "t#", text: "  t#: #@\n    when: ${{ zq# }} #@\n    run:\n      - cmd: echo\n", names: []string{"zq#"}},
	{name: "renv", run: "t#", text: "  t#:\n    run:\n      - cmd: echo #@\n        env:\n          A: ${{ zq# }} #@\n", names: []string{"zq#"}},
	{name: "rdir", run: "t#", text: "  t#:\n    run:\n      - cmd: echo #@\n        dir: ${{ zq# }} #@\n", names: []string{"zq#"}},
	{name: "rtaskvar", run: "t#", text: "  t#: #@\n    vars:\n      A: ${{ zq# }} #@\n    run:\n      - cmd: echo ${{ A }}\n", names: []string{"zq#"}},
	{name: "rtaskvarloop", run: "t#", text: "  t#: #@\n    vars:\n      AA#: ${{ BB }} #@\n      BB: ${{ AA# }} #@\n    run:\n      - cmd: echo\n", names: []string{"AA# → BB → AA#|BB → AA# → BB"}},
	{name: "rtaskenv", run: "t#", text: "  t#: #@\n    env:\n      A: ${{ zq# }} #@\n    run:\n      - cmd: echo #@\n", names: []string{"zq#"}},
	{name: "rtaskdir", run: "t#", text: "  t#: #@\n    dir: ${{ zq# }} #@\n    run:\n      - cmd: echo #@\n", names: []string{"zq#"}},
	{name: "rprompt", run: "t#", text: "  t#:\n    run:\n      - prompt: p #@\n        type: input\n        message: ${{ zq# }} #@\n        default: d\n", names: []string{"zq#"}},
	{name: "rparallel", run: "t#", text: "  t#:\n    run:\n      - parallel:\n          - cmd: echo\n          - cmd: echo ${{ zq# }} #@\n", names: []string{"zq#"}},
	{name: "rref", run: "t#", text: "  t#:\n    run:\n      - task: u#\n  u#:\n    run:\n      - cmd: echo ${{ zq# }} #@\n", names: []string{"zq#"}},
}

type want18 struct {
	file  string
	lines map[int]bool
	names []string
}

type data18 struct {
	wants   []want18 // every reported problem must be one of these
	all     bool     // and each of these must be reported, once
	incl    map[string]bool
	known   map[string]bool // names that exist
	runtime bool
}

// skeleton puts pieces into a file: where is 0 before, 1 between, 2 after the
// sound tasks. It returns the text and the lines of each piece.
func skeleton(pieces []defect, where []int, extra string, comments bool) (string, []want18) {
	var b strings.Builder
	wants := make([]want18, len(pieces))
	line := 0
	put := func(text string, piece int) {
		for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
			line++
			if piece >= 0 && strings.HasSuffix(l, " #@") {
				wants[piece].lines[line] = true
				l = strings.TrimSuffix(l, " #@")
			}
			b.WriteString(l + "\n")
		}
	}
	for i, p := range pieces {
		n := fmt.Sprint(i + 1)
		wants[i].lines = map[int]bool{}
		for _, x := range p.names {
			wants[i].names = append(wants[i].names, strings.ReplaceAll(x, "#", n))
		}
	}
	text := func(i int) string {
		t := strings.ReplaceAll(pieces[i].text, " #@", "\x00")
		t = strings.ReplaceAll(t, "#", fmt.Sprint(i+1))
		return strings.ReplaceAll(t, "\x00", " #@")
	}
	if comments {
		put("# a comment: [\n\n# more\n", -1)
	}
	for i, p := range pieces {
		if p.top && where[i] < 2 {
			put(text(i), i)
		}
	}
	if extra != "" {
		put(extra, -1)
	}
	put("tasks:\n", -1)
	for w, sound := range []string{"  ok:\n    desc: fine\n    run:\n      - cmd: echo ok\n", "  zulu:\n    vars:\n      Z: z\n    run:\n      - cmd: |\n          echo 1\n          echo 2\n      - task: ok\n", ""} {
		for i, p := range pieces {
			if !p.top && where[i] == w {
				if comments {
					put("\n    # note: x\n", -1)
				}
				put(text(i), i)
			}
		}
		if sound != "" {
			put(sound, -1)
		}
	}
	for i, p := range pieces {
		if p.top && where[i] == 2 {
			put(text(i), i)
		}
	}
	return b.String(), wants
}

var locRE = regexp.MustCompile(`([^\s:"]+):(\d+): `)
var locNoLineRE = regexp.MustCompile(`([^\s:"]+\.yml|Babfile)(:\d+)?: `)
var meanRE = regexp.MustCompile(`did you mean "([^"]*)"`)

func judge18(c *bb.Case, g bb.Got) string {
	d := c.Data.(data18)
	if g.TimedOut {
		return "bab did not finish"
	}
	if g.Exit != 1 {
		return fmt.Sprintf("exit status %d (stderr %s)", g.Exit, bb.Plain(g.Stderr))
	}
	seen := make([]int, len(d.wants))
	n := 0
	// an error may span lines: continuation lines do not start with ERRO
	var problems []string
	for _, l := range strings.Split(bb.Plain(g.Stderr), "\n") {
		if strings.HasPrefix(l, "ERRO ") {
			problems = append(problems, strings.TrimPrefix(l, "ERRO "))
		} else if len(problems) > 0 && l != "" {
			problems[len(problems)-1] += "\n" + l
		}
	}
	for _, l := range problems {
		n++
		if m := meanRE.FindStringSubmatch(l); m != nil && !d.known[m[1]] {
			return fmt.Sprintf("suggests %q, which does not exist: %s", m[1], l)
		}
		// the last location in front of the message is the one that counts
		locs := locNoLineRE.FindAllStringSubmatch(l, -1)
		if len(locs) == 0 {
			return "no file is named: " + l
		}
		ok := false
		for _, loc := range locs {
			file, lineNo := loc[1], 0
			if loc[2] != "" {
				lineNo, _ = strconv.Atoi(loc[2][1:])
			}
			if d.incl[fmt.Sprintf("%s:%d", file, lineNo)] {
				continue
			}
			hit := false
			for i, w := range d.wants {
				if file != w.file || !w.lines[lineNo] {
					continue
				}
				named := true
				for _, alts := range w.names {
					any := false
					for _, a := range strings.Split(alts, "|") {
						any = any || strings.Contains(l, a)
					}
					named = named && any
				}
				if named {
					seen[i]++
					hit = true
					break
				}
			}
			if hit {
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("the report does not point at a planted problem %v: %s", d.wants, l)
		}
	}
	if n == 0 {
		return "nothing is reported"
	}
	if d.all {
		for i, s := range seen {
			if s != 1 {
				return fmt.Sprintf("problem %v is reported %d times: %s", d.wants[i], s, bb.Plain(g.Stderr))
			}
		}
	}
	return ""
}

// placed wraps a file text so that it is the root, or included at a depth.
func placed(text string, wants []want18, depth int) (map[string]string, []want18, map[string]bool, string) {
	files := map[string]string{"fine.yml": "tasks:\n  fine:\n    run:\n      - cmd: echo\n"}
	incl := map[string]bool{}
	name, ns := "Babfile", ""
	switch depth {
	case 1:
		name, ns = "lib.yml", "in:"
		files["Babfile"] = "# root\nincludes:\n  in:\n    babfile: lib.yml\ntasks:\n  root:\n    deps: [fine]\n    run:\n      - cmd: echo root\n  fine:\n    run:\n      - cmd: echo fine\n"
		incl["Babfile:3"] = true
	case 2:
		name, ns = "lib.yml", "up:in:"
		files["Babfile"] = "tasks:\n  root:\n    run:\n      - cmd: echo root\n\nincludes:\n\n  up:\n    babfile: mid.yml\n"
		files["mid.yml"] = "includes:\n  in:\n    babfile: lib.yml\ntasks:\n  mid:\n    run:\n      - cmd: echo root\n"
		incl["Babfile:8"], incl["mid.yml:2"] = true, true
	}
	files[name] = text
	out := make([]want18, len(wants))
	for i, w := range wants {
		w.file = name
		out[i] = w
	}
	return files, out, incl, ns
}

var knownNames = []string{"ok", "zulu", "fine", "root", "mid"}

func known18(files map[string]string, ns string) map[string]bool {
	m := map[string]bool{}
	keyRE := regexp.MustCompile(`(?m)^  ([a-z0-9]+): *$`)
	for name, text := range files {
		for _, p := range []string{"", "in:", "up:", "up:in:"} {
			for _, k := range keyRE.FindAllStringSubmatch(text, -1) {
				m[p+k[1]] = true
			}
		}
		_ = name
	}
	for _, v := range []string{"A", "Z", "AA1", "BB"} {
		m[v] = true
	}
	return m
}

func p18(ch *vlib.Check) {
	ch.Rule("every kind of defect at every position of a file that is the root, included or included twice over, with and without comments, alone and with a second defect; all subsets of five dangling references; problems at any line and any number of them; through validate, list and run; run-time problems in each of four files after tasks of the others have run. In process: every cycle of all graphs over 3 tasks and of all include graphs over 3 files, step by step. Non-trivial: every case")
	gen := func(yield func(*bb.Case) bool) {
		cmds := [][]string{{"--validate"}, {"--list"}, {"ok"}, {"-n", "ok"}}
		emit := func(ps []defect, where []int, depth int, comments bool, all bool, ci int) bool {
			text, wants := skeleton(ps, where, "", comments)
			files, w, incl, ns := placed(text, wants, depth)
			args := cmds[ci]
			runtime := false
			var names []string
			for i, p := range ps {
				names = append(names, p.name)
				if p.run != "" {
					runtime = true
					args = []string{ns + strings.ReplaceAll(p.run, "#", fmt.Sprint(i+1))}
				}
			}
			if !runtime && ci >= 2 {
				args = append(append([]string(nil), args[:len(args)-1]...), ns+"ok")
			}
			for i := range w {
				for k, x := range w[i].names {
					// names of tasks are reported under their full name
					if strings.HasPrefix(x, `"zq`) {
						w[i].names[k] = `"` + ns + x[1:]
					}
				}
			}
			return yield(&bb.Case{Key: fmt.Sprintf("%v at %v depth %d comments %v %v", names, where, depth, comments, args), Files: files, Args: args,
				Data: data18{wants: w, all: all, incl: incl, known: known18(files, ns), runtime: runtime}})
		}
		for _, p := range defects {
			for where := range 3 {
				for depth := range 3 {
					for _, com := range []bool{false, true} {
						for ci := range cmds {
							if ci > 0 && (where != 1 || com) || p.run != "" && ci > 0 {
								continue
							}
							if !emit([]defect{p}, []int{where}, depth, com, true, ci) {
								return
							}
						}
					}
				}
			}
		}
		// pairs
		for i, p := range defects {
			for j, q := range defects {
				if p.run != "" || q.run != "" || strings.HasPrefix(p.name, "syntax") || strings.HasPrefix(q.name, "syntax") {
					continue
				}
				if p.top && q.top && strings.SplitN(p.text, ":", 2)[0] == strings.SplitN(q.text, ":", 2)[0] {
					continue
				}
				if !ch.Thorough() && (i+j)%3 != 0 {
					continue
				}
				for depth := range 3 {
					if depth != (i+j)%2 && !ch.Thorough() {
						continue
					}
					if !emit([]defect{p, q}, []int{(i + j) % 3, j % 3}, depth, i%2 == 0, false, 0) {
						return
					}
				}
			}
		}
		// all subsets of dangling references
		dang := []defect{defects[0], defects[1], defects[2], defects[3], defects[2]}
		for set := 1; set < 32; set++ {
			var ps []defect
			var where []int
			for i, p := range dang {
				if set>>i&1 == 1 {
					ps = append(ps, p)
					where = append(where, (i+set)%3)
				}
			}
			for depth := range 3 {
				for ci := range cmds {
					if !emit(ps, where, depth, set%2 == 0, true, ci) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, judge18)
	several18(ch)
	sizes18(ch)

	each(ch, func(yield func(doc) bool) {
		_ = graphDocs(ch, yield) && includeDocs(ch, yield) && sizeDocs17(ch, yield)
	}, judge18chain)

	// Cycles of variables and names near a wrong one.
	sizes := same(7, 4)
	if ch.Thorough() {
		sizes = same(7, 5)
	}
	vnames := []string{"a", "b", "ab", "c1", "long_name"}[:len(sizes)]
	product(sizes, func(ix []int) bool {
		vars := babfile.VarMap{}
		refs := map[string]string{}
		wrong := false
		for i, n := range vnames {
			refs[n] = append(append([]string(nil), vnames...), "lon_name", "")[(ix[i]+i)%(len(vnames)+2)]
			vars[n] = "v"
			if refs[n] != "" {
				vars[n] = "x${{ " + refs[n] + " }}y"
			}
			wrong = wrong || refs[n] == "lon_name"
		}
		_, err := interpolate.ResolveVarsWithLocation(vars, nil, "/x/Babfile", 3)
		key := fmt.Sprintf("variables %v", vars)
		ch.Eval(key)
		bad := ""
		var cyc *errs.VarCycleError
		var nf *errs.VarNotFoundError
		switch {
		case errors.As(err, &cyc):
			c := cyc.Chain
			if len(c) < 2 || c[0] != c[len(c)-1] {
				bad = fmt.Sprintf("a cycle that does not close: %v", c)
			}
			for i := 0; i+1 < len(c); i++ {
				if refs[c[i]] != c[i+1] {
					bad = fmt.Sprintf("cycle %v: %q does not refer to %q", c, c[i], c[i+1])
				}
			}
		case errors.As(err, &nf):
			if nf.Name != "lon_name" {
				bad = fmt.Sprintf("%q is reported as undefined", nf.Name)
			}
			if m := meanRE.FindStringSubmatch(nf.Error()); m != nil && vars[m[1]] == "" {
				bad = fmt.Sprintf("suggests %q, which does not exist", m[1])
			}
		case err != nil:
			bad = err.Error()
		case wrong:
			bad = "an undefined variable is not reported"
		}
		if bad == "" && err != nil && !strings.Contains(err.Error(), "/x/Babfile:3: ") {
			bad = "the place is not named: " + err.Error()
		}
		if bad != "" {
			if ch.Violation(key, map[string]any{"what": bad, "vars": vars}) {
				fmt.Println("  " + bad)
			}
		}
		return !ch.Enough()
	})
}

// judge18chain checks every reported cycle and dangling name against the file.
func judge18chain(d doc, dir string) string {
	g := d.x.(graph17)
	dangling, cyclic, _ := verdict(g.flat)
	if len(dangling) == 0 && !cyclic && !g.incBad {
		return ""
	}
	p := parseIn(dir, d.files)
	if p.panic != nil || p.err == nil {
		return fmt.Sprintf("not rejected, %v", p.panic)
	}
	missing, cycles, _ := reported(p.err)
	names := map[string]*spec.Task{}
	for _, t := range g.flat {
		names[t.Name] = t
	}
	sawCycle := false
	for _, c := range cycles {
		ch := c.Chain
		if len(ch) < 2 || ch[0] != ch[len(ch)-1] {
			return fmt.Sprintf("a cycle that does not close: %v", ch)
		}
		for i := 0; i+1 < len(ch); i++ {
			ok := false
			if c.Type == "include" {
				ok = includesFile(d.files, filepath.Base(ch[i]), filepath.Base(ch[i+1]))
			} else if t := names[ch[i]]; t != nil {
				for _, to := range targets(t) {
					ok = ok || to == ch[i+1]
				}
			}
			if !ok {
				return fmt.Sprintf("%s cycle %v: %q does not refer to %q", c.Type, ch, ch[i], ch[i+1])
			}
		}
		sawCycle = true
	}
	if cyclic && !g.incBad && !sawCycle {
		return "there is a cycle but none is reported: " + p.err.Error()
	}
	if !g.incBad {
		var got []string
		for _, m := range missing {
			got = append(got, m.ReferencedBy+"->"+m.TaskName)
			if names[m.TaskName] != nil {
				return fmt.Sprintf("task %q is reported as missing but exists", m.TaskName)
			}
			if s := meanRE.FindStringSubmatch(m.Error()); s != nil && names[s[1]] == nil {
				return fmt.Sprintf("suggests %q, which does not exist", s[1])
			}
		}
		sort.Strings(got)
		// Collisions between files stop the reading before references are looked at.
		var perr *errs.ParseError
		if len(missing) == 0 && asParse(p.err, &perr) && strings.Contains(p.err.Error(), "collision") {
			return ""
		}
		if strings.Join(got, " ") != strings.Join(dangling, " ") {
			return fmt.Sprintf("dangling references reported %v, must be %v", got, dangling)
		}
	}
	return ""
}

func asParse(err error, to **errs.ParseError) bool {
	p, ok := err.(*errs.ParseError)
	*to = p
	return ok
}

func includesFile(files map[string]string, from, to string) bool {
	return strings.Contains(files[from], "babfile: "+spec.Q(to)+"\n")
}
