package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P19"] = p19 }

// canon is the content of a file, independent of its form.
type canon struct{ b strings.Builder }

func (c *canon) put(k string, v any) { fmt.Fprintf(&c.b, "%s=%q\n", k, fmt.Sprint(v)) }
func (c *canon) optb(k string, v *bool) {
	if v != nil {
		c.put(k, *v)
	}
}
func (c *canon) opti(k string, v *int) {
	if v != nil {
		c.put(k, *v)
	}
}
func (c *canon) list(k string, v []string) {
	for i, s := range v {
		c.put(fmt.Sprintf("%s[%d]", k, i), s)
	}
}
func (c *canon) m(k string, v map[string]string) {
	keys := make([]string, 0, len(v))
	for x := range v {
		keys = append(keys, x)
	}
	sort.Strings(keys)
	for _, x := range keys {
		c.put(k+"."+x, v[x])
	}
}

func plats(p []babfile.Platform) []string {
	var out []string
	for _, x := range p {
		out = append(out, string(x))
	}
	return out
}

func (c *canon) gotItem(k string, it babfile.RunItem, label string) {
	if label != "" {
		c.put(k+".label", label)
	}
	switch v := it.(type) {
	case babfile.CommandRun:
		c.put(k+".cmd", v.Cmd)
		c.put(k+".dir", v.Dir)
		c.m(k+".env", v.Env)
		c.optb(k+".silent", v.Silent)
		c.optb(k+".output", v.Output)
		c.list(k+".platforms", plats(v.Platforms))
		c.put(k+".when", v.When)
	case babfile.TaskRun:
		c.put(k+".task", v.Task)
		c.optb(k+".silent", v.Silent)
		c.optb(k+".output", v.Output)
		c.list(k+".platforms", plats(v.Platforms))
		c.put(k+".when", v.When)
	case babfile.LogRun:
		c.put(k+".log", v.Log)
		c.put(k+".level", v.Level)
		c.list(k+".platforms", plats(v.Platforms))
		c.put(k+".when", v.When)
	case babfile.PromptRun:
		c.put(k+".prompt", v.Prompt)
		c.put(k+".type", v.Type)
		c.put(k+".message", v.Message)
		c.put(k+".default", v.Default)
		c.list(k+".defaults", v.Defaults)
		c.list(k+".options", v.Options)
		c.put(k+".placeholder", v.Placeholder)
		c.put(k+".validate", v.Validate)
		c.opti(k+".min", v.Min)
		c.opti(k+".max", v.Max)
		c.optb(k+".confirm", v.Confirm)
		c.list(k+".platforms", plats(v.Platforms))
		c.put(k+".when", v.When)
	case babfile.ParallelRun:
		c.put(k+".mode", v.Mode)
		c.put(k+".limit", v.Limit)
		c.optb(k+".color", v.Color)
		c.optb(k+".silent", v.Silent)
		c.optb(k+".output", v.Output)
		c.list(k+".platforms", plats(v.Platforms))
		c.put(k+".when", v.When)
		for i, x := range v.Items {
			l := ""
			if i < len(v.Labels) {
				l = v.Labels[i]
			}
			c.gotItem(fmt.Sprintf("%s.%d", k, i), x, l)
		}
	default:
		c.put(k, fmt.Sprintf("%T", it))
	}
}

func canonGot(r *parser.ParseResult) string {
	var c canon
	c.m("vars", r.GlobalVars)
	c.m("env", r.GlobalEnv)
	c.optb("silent", r.GlobalSilent)
	c.optb("output", r.GlobalOutput)
	c.put("dir", r.GlobalDir)
	names := r.Tasks.Names()
	sort.Strings(names)
	for _, n := range names {
		t := r.Tasks[n]
		if strings.HasPrefix(n, "inc:") {
			c.put("included", n)
			continue
		}
		c.put("task", n)
		c.put("name", t.Name)
		c.put("desc", t.Desc)
		c.put("alias", t.Alias)
		c.list("aliases", t.Aliases)
		c.m("vars", t.Vars)
		c.m("env", t.Env)
		c.optb("silent", t.Silent)
		c.optb("output", t.Output)
		c.put("dir", t.Dir)
		c.put("when", t.When)
		c.list("deps", t.Deps)
		for i, it := range t.Run {
			c.gotItem(fmt.Sprintf("run.%d", i), it, "")
		}
	}
	return c.b.String()
}

func (c *canon) wantItem(k string, it *spec.Item, inPar bool) {
	if inPar && it.Label != "" {
		c.put(k+".label", it.Label)
	}
	switch it.Kind {
	case "cmd":
		c.put(k+".cmd", it.Text)
		c.put(k+".dir", it.Dir)
		c.m(k+".env", it.Env.Map())
		c.optb(k+".silent", it.Silent)
		c.optb(k+".output", it.Output)
	case "task":
		c.put(k+".task", it.Text)
		c.optb(k+".silent", it.Silent)
		c.optb(k+".output", it.Output)
	case "log":
		c.put(k+".log", it.Text)
		l := it.Level
		if l == "" {
			l = "info"
		}
		c.put(k+".level", l)
	case "prompt":
		c.put(k+".prompt", it.Text)
		c.put(k+".type", it.PType)
		c.put(k+".message", it.Message)
		c.put(k+".default", it.Default)
		c.list(k+".defaults", it.Defaults)
		c.list(k+".options", it.Options)
		c.put(k+".placeholder", it.Placeholder)
		c.put(k+".validate", it.Validate)
		c.opti(k+".min", it.Min)
		c.opti(k+".max", it.Max)
		c.optb(k+".confirm", it.Confirm)
	case "parallel":
		m := it.Mode
		if m == "" {
			m = "interleaved"
		}
		c.put(k+".mode", m)
		c.put(k+".limit", it.Limit)
		c.optb(k+".color", it.Color)
		c.optb(k+".silent", it.Silent)
		c.optb(k+".output", it.Output)
	}
	c.list(k+".platforms", it.Platforms)
	c.put(k+".when", it.When)
	for i, x := range it.Items {
		c.wantItem(fmt.Sprintf("%s.%d", k, i), x, true)
	}
}

func canonWant(f *spec.File) string {
	var c canon
	c.m("vars", f.Vars.Map())
	c.m("env", f.Env.Map())
	c.optb("silent", f.Silent)
	c.optb("output", f.Output)
	c.put("dir", f.Dir)
	tasks := append([]*spec.Task(nil), f.Tasks...)
	if len(f.Includes) > 0 {
		tasks = append(tasks, &spec.Task{Name: "inc:i"})
	}
	sort.Slice(tasks, func(i, j int) bool { return tasks[i].Name < tasks[j].Name })
	for _, t := range tasks {
		if t.Name == "inc:i" {
			c.put("included", t.Name)
			continue
		}
		c.put("task", t.Name)
		c.put("name", t.Name)
		c.put("desc", t.Desc)
		c.put("alias", t.Alias)
		c.list("aliases", t.Aliases)
		c.m("vars", t.Vars.Map())
		c.m("env", t.Env.Map())
		c.optb("silent", t.Silent)
		c.optb("output", t.Output)
		c.put("dir", t.Dir)
		c.put("when", t.When)
		c.list("deps", t.Deps)
		for i, it := range t.Run {
			c.wantItem(fmt.Sprintf("run.%d", i), it, false)
		}
	}
	return c.b.String()
}

// texts that YAML makes difficult
var hardTexts = []string{"x", "true", "5", "null", "~", "a: b", "a #b", " lead", "trail ", "two\nlines\n", "three\n\n lines\nend", "it's", `say "x"`, "é", "{x}", "[x", "- x", "*a", "&b", "!x", "%x", "@x", "`x`", "a, b", "${{ v }}", "'${{ v }}' == 'x'", "#x", ": x", "? x", "|", ">", "0x10", "1e3", "1_000", "2001-01-01", "yes", "No", "a\\nb", "\ttab", "end\n\n", "=", "<<", "...", "---"}

func files19() []*spec.File {
	p := spec.Par(spec.Cmd("echo a"), spec.Ref("b"), spec.Log("hello"))
	p.Mode, p.Limit, p.Color, p.Silent, p.Output, p.When, p.Platforms = "grouped", 2, spec.B(false), spec.B(true), spec.B(false), "${{ V }}", []string{"linux", "darwin"}
	p.Items[0].Label, p.Items[0].Env, p.Items[0].Dir = "one", spec.KV{{"A", "a"}, {"B", "b"}}, "sub"
	p.Items[1].Silent, p.Items[1].Label = spec.B(true), "one"
	p.Items[2].Level = "warn"
	full := spec.Cmd("echo a")
	full.Dir, full.Env, full.Silent, full.Output, full.When, full.Platforms = "sub", spec.KV{{"A", "a"}, {"B", "b"}}, spec.B(false), spec.B(true), "${{ V }} == 'x'", []string{"linux", "darwin"}
	lg := spec.Log("hello")
	lg.Level, lg.When, lg.Platforms = "error", "${{ V }}", []string{"linux"}
	rf := spec.Ref("b")
	rf.Silent, rf.Output, rf.When, rf.Platforms = spec.B(true), spec.B(true), "x", []string{"windows"}
	all := &spec.File{
		Vars: spec.KV{{"V", "x"}, {"W", "${{ V }}"}}, Env: spec.KV{{"A", "a"}, {"B", "b"}}, Silent: spec.B(true), Output: spec.B(false), Dir: "sub",
		Includes: spec.KV{{"inc", "inc.yml"}},
		Tasks: []*spec.Task{
			{Name: "a", Desc: "first task", Alias: "x", Aliases: []string{"y", "z:z"}, Vars: spec.KV{{"V", "x"}, {"W", "${{ V }}"}}, Env: spec.KV{{"A", "a"}, {"B", "b"}},
				Silent: spec.B(false), Output: spec.B(true), Dir: "sub", When: "${{ V }} == 'x'", Deps: []string{"b", "c:d"}, Run: []*spec.Item{full, lg, rf, p}},
			{Name: "b", Run: []*spec.Item{spec.Cmd("echo a"), spec.Cmd("echo a")}},
			{Name: "c:d", Run: []*spec.Item{spec.Cmd("echo a"), spec.Cmd("echo a")}},
		},
	}
	prompts := &spec.File{Tasks: []*spec.Task{{Name: "p", Run: []*spec.Item{
		{Kind: "prompt", Text: "c", PType: "confirm", Message: "sure", Default: "no"},
		{Kind: "prompt", Text: "i", PType: "input", Message: "sure", Default: "abc", Placeholder: "abc", Validate: `^[a-z]+$`},
		{Kind: "prompt", Text: "s", PType: "select", Message: "sure", Options: []string{"a", "b"}, Default: "b"},
		{Kind: "prompt", Text: "m", PType: "multiselect", Message: "sure", Options: []string{"a", "b"}, Defaults: []string{"a"}, Min: spec.I(1), Max: spec.I(2)},
		{Kind: "prompt", Text: "w", PType: "password", Message: "sure", Confirm: spec.B(true)},
		{Kind: "prompt", Text: "n", PType: "number", Message: "sure", Default: "5", Min: spec.I(-1), Max: spec.I(10), When: "x", Platforms: []string{"linux"}},
	}}}}
	out := []*spec.File{all, prompts}
	// every difficult text in every place a free text may stand
	for i, x := range hardTexts {
		nonblank := x
		o := hardTexts[(i+1)%len(hardTexts)]
		pl := spec.Par(spec.Cmd(x), spec.Log(x))
		pl.Items[0].Label, pl.Items[0].Dir = x, x
		pl.When = x
		f := &spec.File{Vars: spec.KV{{"V", x}, {"W", x}}, Env: spec.KV{{"E", x}, {"F", o}}, Dir: x,
			Tasks: []*spec.Task{{Name: "t", Desc: x, When: x, Dir: x, Vars: spec.KV{{"V", x}, {"W", o}}, Env: spec.KV{{"E", x}}, Run: []*spec.Item{
				{Kind: "cmd", Text: x, Dir: x, When: o, Env: spec.KV{{"E", x}}}, {Kind: "log", Text: x, When: x},
				{Kind: "prompt", Text: "s", PType: "select", Message: nonblank, Options: []string{x, o}, Default: x},
				{Kind: "prompt", Text: "i", PType: "input", Message: x, Default: x, Placeholder: x},
				{Kind: "prompt", Text: "m", PType: "multiselect", Message: x, Options: []string{x, o}, Defaults: []string{x, o}},
				pl,
			}}}}
		out = append(out, f)
	}
	return out
}

func formDocs(ch *vlib.Check, yield func(doc) bool) bool {
	inc := "tasks:\n  i:\n    run:\n      - cmd: echo\n"
	b := func(i int) bool { return i == 1 }
	for fi, f := range files19() {
		n := fileNode(f)
		want := canonWant(f)
		sizes := []int{5, 5, 3, 3, 2, 2, 2, 2, 2, 5, 2}
		if fi > 1 {
			sizes = []int{3, 5, 1, 2, 2, 2, 1, 2, 1, 3, 1}
		} else if !ch.Thorough() {
			sizes = []int{5, 5, 3, 2, 2, 2, 2, 2, 1, 5, 2}
		}
		if !product(sizes, func(ix []int) bool {
			fm := form{flowAt: []int{99, 0, 4, 3, 2}[ix[0]], quote: ix[1], order: ix[2], step: []int{2, 4, 1}[ix[3]], compact: b(ix[4]), spread: b(ix[5]),
				comments: b(ix[6]), crlf: b(ix[7]), marker: b(ix[8]), anchors: ix[9], quoteKey: b(ix[10])}
			if fi > 1 {
				fm.anchors = []int{0, 1, 3}[ix[9]]
			}
			if fm.spread && fm.flowAt == 99 || fm.flowAt == 0 && (fm.compact || fm.step != 2) {
				return true
			}
			return yield(doc{key: fmt.Sprintf("file %d form %+v", fi, fm), files: map[string]string{"Babfile": fm.text(n), "inc.yml": inc}, x: want})
		}) {
			return false
		}
	}
	return true
}

func judge19(d doc, dir string) string {
	p := parseIn(dir, d.files)
	if p.panic != nil {
		return fmt.Sprintf("the parser panics: %v", p.panic)
	}
	if p.err != nil {
		return "rejected: " + p.err.Error()
	}
	if got := canonGot(p.res); got != d.x.(string) {
		g, w := strings.Split(got, "\n"), strings.Split(d.x.(string), "\n")
		for i := range min(len(g), len(w)) {
			if g[i] != w[i] {
				return fmt.Sprintf("read as %s, must be %s", g[i], w[i])
			}
		}
		return "read as something else"
	}
	return ""
}

// Every field with every kind of value.
type field struct {
	name, path, pre, need string // need: text, bool, int, list, map
}

var fields19 = []field{
	{"vars", "", "%s", "map"}, {"env", "", "%s", "map"}, {"silent", "", "%s", "bool"}, {"output", "", "%s", "bool"}, {"dir", "", "%s", "text"},
	{"includes", "", "%s", "map"}, {"a", "includes", "includes:\n  %s", "map"}, {"babfile", "includes.a", "includes:\n  a:\n    %s", "text"},
	{"tasks", "", "", "map"},
	{"V", "vars", "vars:\n  %s", "text"}, {"E", "env", "env:\n  %s", "text"},
	{"u", "task", "T", "map"},
	{"desc", "task", "t", "text"}, {"alias", "task", "t", "text"}, {"aliases", "task", "t", "list"}, {"vars", "task", "t", "map"}, {"env", "task", "t", "map"},
	{"silent", "task", "t", "bool"}, {"output", "task", "t", "bool"}, {"dir", "task", "t", "text"}, {"when", "task", "t", "text"}, {"deps", "task", "t", "list"}, {"run", "task", "t", "list"},
	{"V", "task vars", "tv", "text"}, {"E", "task env", "te", "text"}, {"-", "run item", "ri", "map"}, {"-", "dep", "di", "text"}, {"-", "alias", "ai", "text"},
	{"cmd", "item", "i", "text"}, {"task", "item", "i", "text"}, {"log", "item", "i", "text"}, {"prompt", "item", "i", "text"}, {"parallel", "item", "i", "list"},
	{"dir", "cmd", "ci", "text"}, {"when", "cmd", "ci", "text"}, {"env", "cmd", "ci", "map"}, {"silent", "cmd", "ci", "bool"}, {"output", "cmd", "ci", "bool"}, {"platforms", "cmd", "ci", "list"}, {"label", "cmd", "ci", "text"},
	{"level", "log", "li", "text"}, {"when", "log", "li", "text"}, {"platforms", "log", "li", "list"},
	{"when", "ref", "xi", "text"}, {"silent", "ref", "xi", "bool"}, {"output", "ref", "xi", "bool"}, {"platforms", "ref", "xi", "list"},
	{"default", "prompt", "pi", "text"}, {"placeholder", "prompt", "pi", "text"}, {"validate", "prompt", "pi", "text"}, {"when", "prompt", "pi", "text"}, {"platforms", "prompt", "pi", "list"},
	{"type", "prompt", "py", "text"}, {"message", "prompt", "pm", "text"}, {"options", "prompt", "ps", "list"}, {"defaults", "prompt", "pu", "list"}, {"min", "prompt", "pn", "int"}, {"max", "prompt", "pn", "int"}, {"confirm", "prompt", "pw", "bool"},
	{"mode", "parallel", "ra", "text"}, {"limit", "parallel", "ra", "int"}, {"color", "parallel", "ra", "bool"}, {"silent", "parallel", "ra", "bool"}, {"output", "parallel", "ra", "bool"}, {"platforms", "parallel", "ra", "list"}, {"when", "parallel", "ra", "text"},
	{"-", "parallel item", "rx", "map"}, {"cmd", "parallel item", "rc", "text"}, {"label", "parallel item", "rl", "text"}, {"env", "parallel item", "rl", "map"}, {"dir", "parallel item", "rl", "text"}, {"silent", "parallel item", "rl", "bool"},
	{"E", "cmd env", "ce", "text"},
}

var values19 = []struct{ text, kind string }{
	{"[]", "list"}, {"[x]", "list"}, {"[[x]]", "list"}, {"{}", "map"}, {"{x: y}", "map"}, {"{x: {y: z}}", "map"}, {"x", "text"}, {"'x'", "text"}, {"[true, {a: b}]", "list"},
	{"true", "bool"}, {"12", "int"}, {"1.5", "float"}, {"*seq", "list"}, {"*map", "map"}, {"\"\"", "text"},
}

// words that are no text in YAML unless they are quoted
var words19 = []string{"true", "True", "FALSE", "yes", "No", "on", "OFF", "y", "12", "007", "0x1F", "0o17", "0b11", "1_000", "+1", "-0", "1.10", "1.", ".5", "1e3", "1.0E+2", "12345678901234567890123", ".inf", "-.INF", ".nan", "2001-01-01", "2001-12-14t21:59:43.10-05:00", "1:30:00", "="}

// bad says that a value of a kind cannot stand where another is needed.
func bad(need, kind, text string) bool {
	switch need {
	case "text":
		return kind == "list" || kind == "map"
	case "bool":
		return kind != "bool"
	case "int":
		return kind != "int"
	case "list":
		return kind != "list" || text == "[[x]]" || strings.Contains(text, "{a: b}")
	case "map":
		return kind != "map"
	}
	return false
}

func fieldText(f field, v string) string {
	kv := f.name + ": " + v
	if f.name == "-" {
		kv = "- " + v
	}
	head := "z1: &seq [b]\nz2: &map {b: c}\n"
	tasks := "tasks:\n  b:\n    run:\n      - cmd: echo b\n"
	t := tasks + "  t:\n    "
	switch f.pre {
	case "":
		return head + kv + "\n"
	case "T":
		return head + tasks + "  " + kv + "\n"
	case "t":
		s := head + t + kv + "\n"
		if f.name != "run" {
			s += "    run:\n      - cmd: echo\n"
		}
		return s
	case "tv":
		return head + t + "vars:\n      " + kv + "\n    run:\n      - cmd: echo\n"
	case "te":
		return head + t + "env:\n      " + kv + "\n    run:\n      - cmd: echo\n"
	case "ri":
		return head + t + "run:\n      - cmd: echo\n      " + kv + "\n"
	case "di":
		return head + t + "deps:\n      - b\n      " + kv + "\n    run:\n      - cmd: echo\n"
	case "ai":
		return head + t + "aliases:\n      - q\n      " + kv + "\n    run:\n      - cmd: echo\n"
	}
	item := map[string]string{
		"i": "", "ci": "cmd: echo", "li": "log: x", "xi": "task: b", "pi": "prompt: p\n        type: input\n        message: m", "py": "prompt: p\n        message: m",
		"pm": "prompt: p\n        type: input", "ps": "prompt: p\n        type: select\n        message: m", "pu": "prompt: p\n        type: multiselect\n        message: m\n        options: [x, b]",
		"pn": "prompt: p\n        type: number\n        message: m", "pw": "prompt: p\n        type: password\n        message: m", "ra": "parallel: [{cmd: echo}, {cmd: echo}]",
		"rx": "parallel:\n          - cmd: echo\n          ", "rc": "parallel:\n          - cmd: echo\n          - ", "rl": "parallel:\n          - cmd: echo\n            ", "ce": "cmd: echo\n        env:\n          ",
	}
	if x, ok := item[f.pre]; ok {
		sep := "\n        "
		switch f.pre {
		case "i", "rx", "rc", "rl", "ce":
			sep = ""
		}
		return head + t + "run:\n      - " + x + sep + kv + "\n"
	}
	return head + strings.Replace(f.pre, "%s", kv, 1) + "\n" + tasks
}

// short strings over the pieces of YAML syntax
var tokens19 = []string{"a", ":", " ", "\n", "- ", "&x", "*x", "{", "}", "[", "]", "'", "\"", "|", ">", "#", "!!int", "<<", "? ", "tasks", ",", "\t", "---\n", "%", "\x00", "\xff", "~", "5"}
var ctx19 = []struct{ pre, post string }{
	{"", ""}, {"tasks:\n  t:\n    run:\n      - cmd: ", "\n"}, {"tasks:\n  t:\n    ", "\n    run:\n      - cmd: echo\n"}, {"tasks:\n  t: &x\n    run:\n      - ", "\n"}, {"tasks: &x\n  t: ", ""}, {"vars: &x\n  V: ", "\ntasks:\n  t: {}\n"}, {"includes: &x\n  ", "\ntasks:\n  t: {}\n"},
}

func p19(ch *vlib.Check) {
	ch.Rule("Babfiles that use every field, and every difficult text in every place of a free text, written in all combinations of block and flow style, quoting, key order, indentation, comments, line ends, document markers, anchors and aliases: the parser must read exactly the data. Every field with every kind of YAML value; every text field with every kind of unquoted word, read as in quotes. The same files in other encodings, line ends and spellings; texts of every length and with every character, and many of each kind of entry. Every value of a pool at every place of a document with every field, every part left out, every key added and two such changes of one mapping, as far as the published schema accepts the result. All strings of YAML syntax tokens up to a length in several contexts: no crash, no hang. Non-trivial: every case")
	each(ch, func(yield func(doc) bool) { formDocs(ch, yield) }, judge19)
	each(ch, func(yield func(doc) bool) { encodings19(ch, yield) }, judge19)
	each(ch, func(yield func(doc) bool) { sizes19(ch, yield) }, judge19)

	schemas19(ch)

	each(ch, func(yield func(doc) bool) {
		for _, f := range fields19 {
			for _, v := range values19 {
				d := doc{key: fmt.Sprintf("field %s of %s is %s", f.name, f.path, v.text), files: map[string]string{"Babfile": fieldText(f, v.text), "x": "tasks: {t: {run: [{cmd: x}]}}"}, x: bad(f.need, v.kind, v.text)}
				if !yield(d) {
					return
				}
			}
		}
	}, func(d doc, dir string) string {
		p := parseIn(dir, d.files)
		if p.panic != nil {
			return fmt.Sprintf("the parser panics: %v", p.panic)
		}
		if d.x.(bool) && p.err == nil {
			return "a value of the wrong type is accepted"
		}
		return ""
	})

	// A text is what is written, also where YAML would take the unquoted word
	// for something else.
	each(ch, func(yield func(doc) bool) {
		for _, f := range fields19 {
			if f.need != "text" {
				continue
			}
			for _, w := range words19 {
				d := doc{key: fmt.Sprintf("field %s of %s is the bare word %s", f.name, f.path, w), files: map[string]string{"Babfile": fieldText(f, w), "x": "tasks: {t: {run: [{cmd: x}]}}"}, x: fieldText(f, "'"+w+"'")}
				if !yield(d) {
					return
				}
			}
		}
	}, func(d doc, dir string) string {
		p := parseIn(dir, d.files)
		if p.panic != nil {
			return fmt.Sprintf("the parser panics: %v", p.panic)
		}
		q := parseIn(dir, map[string]string{"Babfile": d.x.(string)})
		if (p.err == nil) != (q.err == nil) {
			return fmt.Sprintf("unquoted: %v, quoted: %v", p.err, q.err)
		}
		if p.err == nil && canonGot(p.res) != canonGot(q.res) {
			return fmt.Sprintf("read as another text than in quotes: %q, %q", canonGot(p.res), canonGot(q.res))
		}
		return ""
	})

	each(ch, func(yield func(doc) bool) {
		for ci, c := range ctx19 {
			depth := 3
			if ci == 0 || ch.Thorough() {
				depth = 4
			}
			if ci == 0 && ch.Thorough() {
				depth = 5
			}
			for n := 1; n <= depth; n++ {
				if !product(same(len(tokens19), n), func(ix []int) bool {
					var b strings.Builder
					for _, i := range ix {
						b.WriteString(tokens19[i])
					}
					return yield(doc{key: fmt.Sprintf("tokens %d %q", ci, b.String()), files: map[string]string{"Babfile": c.pre + b.String() + c.post}})
				}) {
					return
				}
			}
		}
	}, func(d doc, dir string) string {
		if p := parseIn(dir, d.files); p.panic != nil {
			return fmt.Sprintf("the parser panics: %v", p.panic)
		}
		return ""
	})

	// The same through the binary: the forms must run alike, the wrong types must be refused.
	gen := func(yield func(*bb.Case) bool) {
		n := 0
		run := &spec.File{Vars: spec.KV{{"V", "x"}, {"W", "x"}}, Env: spec.KV{{"A", "x"}, {"B", "it's"}}, Tasks: []*spec.Task{
			{Name: "t", Deps: []string{"b"}, Env: spec.KV{{"A", "x"}, {"C", "${{ V }}"}}, Run: []*spec.Item{spec.Cmd("echo \"$A $B $C ${{ W }}\" >>\"$BLOG\"\necho two >>\"$BLOG\"\n"), spec.Ref("b"), spec.Par(spec.Mark("p"), spec.Ref("c"))}},
			{Name: "b", Run: []*spec.Item{spec.Mark("b")}}, {Name: "c", Run: []*spec.Item{spec.Mark("b")}},
		}}
		root := fileNode(run)
		sizes := []int{5, 5, 3, 2, 2, 2, 2, 1, 5}
		if !product(sizes, func(ix []int) bool {
			n++
			fm := form{flowAt: []int{99, 0, 4, 3, 2}[ix[0]], quote: ix[1], order: ix[2], step: 2 + ix[3], compact: ix[4] == 1, comments: ix[5] == 1, crlf: ix[6] == 1, anchors: ix[8]}
			if !ch.Thorough() && n%4 != 0 {
				return true
			}
			return yield(&bb.Case{Key: fmt.Sprintf("run form %+v", fm), Files: map[string]string{"Babfile": fm.text(root)}, Args: []string{"t"}, Data: true})
		}) {
			return
		}
		for i, f := range fields19 {
			for j, v := range values19 {
				if bad(f.need, v.kind, v.text) && (ch.Thorough() || (i+j)%4 == 0) {
					if !yield(&bb.Case{Key: fmt.Sprintf("run field %s of %s is %s", f.name, f.path, v.text), Files: map[string]string{"Babfile": fieldText(f, v.text)}, Args: []string{"b"}, Data: false}) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		if g.TimedOut {
			return "bab did not finish"
		}
		if c.Data.(bool) {
			if w := "[b x it's x x two b p]"; g.Exit != 0 || fmt.Sprint(g.Log[:min(4, len(g.Log))]) != "[b x it's x x two b]" && fmt.Sprint(sortedTail(g.Log)) != w {
				return fmt.Sprintf("exit %d log %q stderr %s", g.Exit, g.Log, bb.Plain(g.Stderr))
			}
			return ""
		}
		if g.Exit != 1 || len(g.Log) > 0 || strings.Contains(g.Stderr, "panic") {
			return fmt.Sprintf("a value of the wrong type: exit %d, log %q, stderr %s", g.Exit, g.Log, bb.Plain(g.Stderr))
		}
		return ""
	})
}

// sortedTail sorts what the parallel block logged.
func sortedTail(l []string) []string {
	if len(l) < 3 {
		return l
	}
	out := append([]string(nil), l...)
	sort.Strings(out[3:])
	return out
}
