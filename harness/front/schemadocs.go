package main

import (
	"encoding/json"
	"fmt"
	"maps"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/schema"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

type object = map[string]any

// deep copies a document.
func deep(d any) any {
	switch x := d.(type) {
	case object:
		m := object{}
		for k, v := range x {
			m[k] = deep(v)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, v := range x {
			l[i] = deep(v)
		}
		return l
	}
	return d
}

// place is where something of a document is.
type place []any

func (p place) String() string {
	var b strings.Builder
	for _, x := range p {
		fmt.Fprintf(&b, "/%v", x)
	}
	return b.String()
}

// walk calls f with every place of the document, maps in order.
func walk(d any, at place, f func(place, any)) {
	f(slices.Clone(at), d)
	switch x := d.(type) {
	case object:
		for _, k := range slices.Sorted(maps.Keys(x)) {
			walk(x[k], append(at, k), f)
		}
	case []any:
		for i, v := range x {
			walk(v, append(at, i), f)
		}
	}
}

func get(d any, at place) any {
	for _, s := range at {
		if k, ok := s.(string); ok {
			d = d.(object)[k]
		} else {
			d = d.([]any)[s.(int)]
		}
	}
	return d
}

// put returns a copy of the document with another value at the place.
func put(d any, at place, v any) any {
	if len(at) == 0 {
		return v
	}
	n := deep(d)
	up := get(n, at[:len(at)-1])
	switch k := at[len(at)-1].(type) {
	case string:
		up.(object)[k] = v
	case int:
		up.([]any)[k] = v
	}
	return n
}

// cut returns a copy without what is at the place.
func cut(d any, at place) any {
	n := deep(d)
	up := at[:len(at)-1]
	switch k := at[len(at)-1].(type) {
	case string:
		delete(get(n, up).(object), k)
	case int:
		l := get(n, up).([]any)
		l = slices.Delete(slices.Clone(l), k, k+1)
		return put(n, up, l)
	}
	return n
}

// specOf is what a document that the schema accepts says.
func specOf(d object) *spec.File {
	f := &spec.File{Vars: kvOf(d["vars"]), Env: kvOf(d["env"]), Silent: boolOf(d["silent"]), Output: boolOf(d["output"]), Dir: strOf(d["dir"])}
	inc, _ := d["includes"].(object)
	for k, v := range inc {
		f.Includes = append(f.Includes, [2]string{k, strOf(v.(object)["babfile"])})
	}
	tasks, _ := d["tasks"].(object)
	for n, x := range tasks {
		m := x.(object)
		t := &spec.Task{Name: n, Desc: strOf(m["desc"]), Alias: strOf(m["alias"]), Aliases: listOf(m["aliases"]), Vars: kvOf(m["vars"]), Env: kvOf(m["env"]),
			Silent: boolOf(m["silent"]), Output: boolOf(m["output"]), Dir: strOf(m["dir"]), When: strOf(m["when"]), Deps: listOf(m["deps"])}
		run, _ := m["run"].([]any)
		for _, y := range run {
			t.Run = append(t.Run, itemOf(y.(object)))
		}
		f.Tasks = append(f.Tasks, t)
	}
	return f
}

func strOf(d any) string {
	switch x := d.(type) {
	case string:
		return x
	case bool: // the default of a prompt
		return fmt.Sprint(x)
	}
	return ""
}

func boolOf(d any) *bool {
	if b, ok := d.(bool); ok {
		return &b
	}
	return nil
}

func intOf(d any) *int {
	if f, ok := d.(float64); ok {
		i := int(f)
		return &i
	}
	return nil
}

func listOf(d any) []string {
	l, _ := d.([]any)
	var out []string
	for _, x := range l {
		out = append(out, x.(string))
	}
	return out
}

func kvOf(d any) spec.KV {
	m, _ := d.(object)
	var kv spec.KV
	for k, v := range m {
		kv = append(kv, [2]string{k, v.(string)})
	}
	return kv
}

func itemOf(m object) *spec.Item {
	it := &spec.Item{Dir: strOf(m["dir"]), When: strOf(m["when"]), Env: kvOf(m["env"]), Silent: boolOf(m["silent"]), Output: boolOf(m["output"]), Platforms: listOf(m["platforms"]), Label: strOf(m["label"]), Level: strOf(m["level"]),
		PType: strOf(m["type"]), Message: strOf(m["message"]), Default: strOf(m["default"]), Placeholder: strOf(m["placeholder"]), Validate: strOf(m["validate"]), Defaults: listOf(m["defaults"]), Options: listOf(m["options"]), Min: intOf(m["min"]), Max: intOf(m["max"]), Confirm: boolOf(m["confirm"]),
		Mode: strOf(m["mode"]), Color: boolOf(m["color"])}
	if i := intOf(m["limit"]); i != nil {
		it.Limit = *i
	}
	for _, k := range []string{"cmd", "task", "log", "prompt"} {
		if v, ok := m[k]; ok {
			it.Kind, it.Text = k, strOf(v)
		}
	}
	if l, ok := m["parallel"].([]any); ok {
		it.Kind = "parallel"
		for _, x := range l {
			it.Items = append(it.Items, itemOf(x.(object)))
		}
	}
	return it
}

// consistent says whether a document of the right form also keeps the rules
// between its parts, which a schema cannot say: references, names, prompts.
func consistent(f *spec.File) bool {
	edges := map[string][]string{}
	for _, t := range f.Tasks {
		edges[t.Name] = nil
	}
	if len(f.Includes) > 0 {
		edges["inc:i"] = nil
	}
	seen := map[string]bool{}
	var refs func(t *spec.Task, l []*spec.Item) bool
	refs = func(t *spec.Task, l []*spec.Item) bool {
		for _, it := range l {
			if it.Kind == "task" {
				edges[t.Name] = append(edges[t.Name], it.Text)
			}
			if it.Kind == "prompt" && !promptOK(it) || !refs(t, it.Items) {
				return false
			}
		}
		return true
	}
	for _, t := range f.Tasks {
		names := t.Aliases
		if t.Alias != "" {
			names = append([]string{t.Alias}, names...)
		}
		for _, a := range names {
			if _, task := edges[a]; task || seen[a] {
				return false
			}
			seen[a] = true
		}
		edges[t.Name] = append(edges[t.Name], t.Deps...)
		if !refs(t, t.Run) {
			return false
		}
	}
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		if state[n] == 1 {
			return false
		}
		if state[n] == 2 {
			return true
		}
		state[n] = 1
		for _, m := range edges[n] {
			if _, ok := edges[m]; !ok || !visit(m) {
				return false
			}
		}
		state[n] = 2
		return true
	}
	for n := range edges {
		if !visit(n) {
			return false
		}
	}
	return true
}

func promptOK(it *spec.Item) bool {
	choose := it.PType == "select" || it.PType == "multiselect"
	if choose != (len(it.Options) > 0) || len(it.Defaults) > 0 && it.PType != "multiselect" {
		return false
	}
	if it.Validate != "" {
		if _, err := regexp.Compile(it.Validate); err != nil || it.PType != "input" {
			return false
		}
	}
	if it.Confirm != nil && it.PType != "password" || it.Min != nil && it.Max != nil && *it.Min > *it.Max {
		return false
	}
	if it.Default != "" {
		if _, err := strconv.Atoi(it.Default); it.PType == "number" && err != nil {
			return false
		}
		if it.PType == "select" && !slices.Contains(it.Options, it.Default) {
			return false
		}
	}
	for _, d := range it.Defaults {
		if !slices.Contains(it.Options, d) {
			return false
		}
	}
	return true
}

func wholeDoc() object {
	task := func(t ...any) object { return object{"run": t} }
	prompt := func(kind string, more object) object {
		m := object{"prompt": "p", "type": kind, "message": "m"}
		maps.Copy(m, more)
		return m
	}
	return object{
		"vars": object{"v": "1"}, "env": object{"E": "1"}, "silent": false, "output": true, "dir": ".",
		"includes": object{"inc": object{"babfile": "inc.babfile.yml"}},
		"tasks": object{
			"main": object{"desc": "d", "alias": "m", "aliases": []any{"n"}, "vars": object{"w": "1"}, "env": object{"F": "2"}, "silent": true, "output": true, "dir": ".", "when": "true", "deps": []any{"t", "inc:i"},
				"run": []any{
					object{"cmd": "true", "dir": ".", "env": object{"G": "3"}, "silent": true, "output": true, "platforms": []any{"linux"}, "when": "true", "label": "l"},
					object{"task": "t", "silent": true, "output": true, "platforms": []any{"linux"}, "when": "true", "label": "l"},
					object{"log": "hi", "level": "info", "platforms": []any{"linux"}, "when": "true", "label": "l"},
					object{"parallel": []any{
						object{"cmd": "true", "dir": ".", "env": object{"G": "3"}, "silent": true, "output": true, "platforms": []any{"linux"}, "when": "true", "label": "l"},
						object{"task": "t", "silent": true, "output": true, "platforms": []any{"linux"}, "when": "true", "label": "l"},
						object{"log": "x", "level": "warn", "platforms": []any{"linux"}, "when": "true", "label": "l"},
					}, "mode": "grouped", "limit": 1.0, "color": true, "silent": true, "output": true, "platforms": []any{"linux"}, "when": "true"},
				}},
			"a": task(prompt("input", object{"default": "x", "placeholder": "p", "validate": "x", "platforms": []any{"linux"}, "when": "true"})),
			"b": task(prompt("confirm", object{"default": true})),
			"c": task(prompt("select", object{"default": "a", "options": []any{"a", "b"}})),
			"d": task(prompt("multiselect", object{"defaults": []any{"a"}, "options": []any{"a", "b"}, "min": 1.0, "max": 2.0})),
			"e": task(prompt("password", object{"confirm": true, "min": 1.0, "max": 9.0})),
			"f": task(prompt("number", object{"default": "5", "min": 1.0, "max": 9.0})),
			"t": task(object{"cmd": "true"}),
		},
	}
}

// schemaDocs enumerates what a published schema accepts: every value of the
// pool at every place of a document that uses everything, every part left out,
// every key added, and every two such changes of one mapping.
func schemaDocs(v *validator, thorough bool, yield func(doc) bool) bool {
	pool := []any{nil, true, false, 0.0, 1.0, 2.0, 9.0, -1.0, 1000000.0, "", " ", "a", "b", "t", "t:t", "main", "inc:i", "a b", "true", "5", "-7", "-", "0", "_", "a:b:c", "a_b-1", "x1", "[", "é", "a\nb", "linux", "windows", "info", "debug", "warn", "error",
		"interleaved", "grouped", "tabs", "confirm", "input", "select", "multiselect", "password", "number",
		[]any{}, []any{"a"}, []any{"a", "b"}, []any{"b", "a"}, []any{"a", "a"}, []any{""}, []any{"t"}, []any{"linux", "darwin", "windows"}, []any{"inc:i", "t"}, []any{"x", "y", "z"},
		object{}, object{"a": "b"}, object{"A_1": ""}, object{"_": "true"}, object{"a b": "c"}, object{"": "c"}, object{"1": "5"}, object{"x.y": "-"}, object{"a": "1", "b": "2", "c": "3"}, object{"cmd": "x"},
		[]any{object{"cmd": "x"}}, []any{object{"cmd": "x"}, object{"log": "y"}, object{"task": "t"}}}
	keys := []string{"vars", "env", "silent", "output", "dir", "includes", "tasks", "desc", "alias", "aliases", "when", "deps", "run", "cmd", "task", "log", "level", "prompt", "type", "message", "default", "defaults", "options", "placeholder", "validate", "min", "max", "confirm", "parallel", "mode", "limit", "color", "platforms", "label", "babfile", "other"}
	base := wholeDoc()
	ok := true

	emit := func(key string, d any) {

		if !ok || v.valid(v.root, d, "") != "" {
			return
		}
		f := specOf(d.(object))
		want := ""
		if consistent(f) {
			want = canonWant(f)
		}
		data, err := json.Marshal(d)
		if err != nil {
			panic(err)
		}
		ok = yield(doc{key: "schema" + key, trivial: want == "", files: map[string]string{"Babfile": string(data), "inc.babfile.yml": "tasks: {i: {run: [{cmd: 'true'}]}}"}, x: want})
	}
	emit(" whole", base)
	type change struct {
		k   string
		v   any
		out bool
		key string
	}
	apply := func(d any, at place, c change) any {
		to := append(slices.Clone(at), c.k)
		if c.out {
			return cut(d, to)
		}
		return put(d, to, c.v)
	}
	walk(base, nil, func(at place, here any) {
		for i, x := range pool {
			if len(at) > 0 {
				emit(fmt.Sprintf("%s = %d %v", at, i, x), put(base, at, x))
			}
		}
		if len(at) > 0 {
			emit(at.String()+" out", cut(base, at))
		}
		m, isMap := here.(object)
		if !isMap {
			return
		}
		var all []change
		names := slices.Clone(keys)
		for k := range m {
			if !slices.Contains(names, k) {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		for _, k := range names {
			if _, has := m[k]; has {
				all = append(all, change{k: k, out: true, key: k + " out"})
			}
			for i, x := range pool {
				all = append(all, change{k: k, v: x, key: fmt.Sprintf("%s = %d %v", k, i, x)})
			}
		}
		var good []change
		for _, c := range all {
			if d := apply(base, at, c); v.valid(v.root, d, "") == "" {
				good = append(good, c)
				emit(fmt.Sprintf("%s: %s", at, c.key), d)
			}
		}
		if len(good) > 400 && !thorough {
			return // names of tasks and variables
		}
		for i, c := range good {
			one := apply(base, at, c)
			for j, e := range good[:i] {
				if c.k == e.k || !thorough && (i+j)%16 != 0 && len(good) > 40 {
					continue
				}
				emit(fmt.Sprintf("%s: %s, %s", at, c.key, e.key), apply(one, at, e))
			}
		}
	})

	return ok
}

// schemas19 compares bab with the published schema, the file and the code
// that writes it.
func schemas19(ch *vlib.Check) {
	check := func(v *validator) {
		each(ch, func(yield func(doc) bool) { schemaDocs(v, ch.Thorough(), yield) }, func(d doc, dir string) string {
			if d.x == "" {
				if p := parseIn(dir, d.files); p.panic != nil {
					return fmt.Sprintf("the parser panics: %v", p.panic)
				}
				return ""
			}
			return judge19(d, dir)
		})
	}
	file, err := loadSchema()
	if err != nil {
		fmt.Println(err)
		ch.NotExhaustive()
		return
	}
	check(file)
	data, err := json.Marshal(schema.GenerateSchema())
	made := &validator{}
	if err == nil {
		err = json.Unmarshal(data, &made.root)
	}
	if err == nil {
		err = made.known(made.root, "")
	}
	if err != nil {
		fmt.Println(err)
		ch.NotExhaustive()
		return
	}
	a, _ := json.Marshal(file.root)
	b, _ := json.Marshal(made.root)
	if string(a) != string(b) {
		check(made)
	}
}
