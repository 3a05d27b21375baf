// Package spec is the reference side: an abstract Babfile, its YAML text, and
// the meaning the documentation gives it.
package spec

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	"gopkg.in/yaml.v3"
)

var plainName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_-]*$`)

// KV is an ordered string map.
type KV [][2]string

// Map turns it into a map.
func (kv KV) Map() map[string]string {
	m := map[string]string{}
	for _, p := range kv {
		m[p[0]] = p[1]
	}
	return m
}

// File is one Babfile.
type File struct {
	Vars, Env      KV
	Silent, Output *bool
	Dir            string
	Includes       KV
	Tasks          []*Task
}

// Task is one task.
type Task struct {
	Name, Desc, Alias string
	Aliases           []string
	Vars, Env         KV
	Silent, Output    *bool
	Dir, When         string
	Deps              []string
	Run               []*Item
}

// Item is one run item. Kind is cmd, task, log, prompt or parallel.
type Item struct {
	Kind           string
	Text           string // command, task name, message or variable
	Dir, When      string
	Env            KV
	Silent, Output *bool
	Platforms      []string
	Label          string
	Level          string

	PType, Message, Default, Placeholder, Validate string
	Defaults, Options                              []string
	Min, Max                                       *int
	Confirm                                        *bool

	Items []*Item
	Mode  string
	Limit int
	Color *bool
}

// B is a boolean pointer.
func B(b bool) *bool { return &b }

// I is an int pointer.
func I(i int) *int { return &i }

// Cmd is a command item.
func Cmd(text string) *Item { return &Item{Kind: "cmd", Text: text} }

// Mark is a command that records its name and succeeds.
func Mark(id string) *Item { return Cmd(`echo ` + id + ` >>"$BLOG"`) }

// MarkExit is a command that records its name and exits with code.
func MarkExit(id string, code int) *Item {
	return Cmd(fmt.Sprintf(`echo %s >>"$BLOG"; exit %d`, id, code))
}

// Ref is a task reference item.
func Ref(task string) *Item { return &Item{Kind: "task", Text: task} }

// Log is a log item.
func Log(msg string) *Item { return &Item{Kind: "log", Text: msg} }

// Par is a parallel block.
func Par(items ...*Item) *Item { return &Item{Kind: "parallel", Items: items} }

// unprintable escapes what YAML does not allow as it is and JSON does.
var unprintable = func() *strings.Replacer {
	var l []string
	for r := rune(0x7f); r < 0xa0; r++ {
		l = append(l, string(r), fmt.Sprintf("\\u%04x", r))
	}
	for _, r := range []rune{0xfeff, 0xfffe, 0xffff} {
		l = append(l, string(r), fmt.Sprintf("\\u%04x", r))
	}
	return strings.NewReplacer(l...)
}()

// Q quotes a YAML scalar.
func Q(s string) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)
	return strings.TrimSuffix(unprintable.Replace(b.String()), "\n")
}

func qs(list []string) string {
	out := make([]string, len(list))
	for i, s := range list {
		out[i] = Q(s)
	}
	return "[" + strings.Join(out, ", ") + "]"
}

type w struct{ strings.Builder }

func (b *w) line(ind int, format string, a ...any) {
	b.WriteString(strings.Repeat("  ", ind))
	fmt.Fprintf(&b.Builder, format, a...)
	b.WriteByte('\n')
}

func (b *w) kv(ind int, key string, kv KV) {
	if kv == nil {
		return
	}
	if len(kv) == 0 {
		b.line(ind, "%s: {}", key)
		return
	}
	b.line(ind, "%s:", key)
	for _, p := range kv {
		b.line(ind+1, "%s: %s", Q(p[0]), Q(p[1]))
	}
}

func (b *w) boolp(ind int, key string, v *bool) {
	if v != nil {
		b.line(ind, "%s: %v", key, *v)
	}
}

func (b *w) str(ind int, key, v string) {
	if v != "" {
		b.line(ind, "%s: %s", key, Q(v))
	}
}

func (b *w) list(ind int, key string, v []string) {
	if v != nil {
		b.line(ind, "%s: %s", key, qs(v))
	}
}

// YAML is the text of the file.
func (f *File) YAML() string {
	var b w
	b.kv(0, "vars", f.Vars)
	b.kv(0, "env", f.Env)
	b.boolp(0, "silent", f.Silent)
	b.boolp(0, "output", f.Output)
	b.str(0, "dir", f.Dir)
	if len(f.Includes) > 0 {
		b.line(0, "includes:")
		for _, p := range f.Includes {
			name := p[0]
			if !plainName.MatchString(name) {
				name = Q(name)
			}
			b.line(1, "%s:", name)
			b.line(2, "babfile: %s", Q(p[1]))
		}
	}
	if len(f.Tasks) == 0 {
		b.line(0, "tasks: {}")
		return b.String()
	}
	b.line(0, "tasks:")
	for _, t := range f.Tasks {
		b.line(1, "%s:", Q(t.Name))
		n := b.Len()
		b.str(2, "desc", t.Desc)
		b.str(2, "alias", t.Alias)
		b.list(2, "aliases", t.Aliases)
		b.kv(2, "vars", t.Vars)
		b.kv(2, "env", t.Env)
		b.boolp(2, "silent", t.Silent)
		b.boolp(2, "output", t.Output)
		b.str(2, "dir", t.Dir)
		b.str(2, "when", t.When)
		b.list(2, "deps", t.Deps)
		if len(t.Run) > 0 {
			b.line(2, "run:")
			for _, it := range t.Run {
				it.yaml(&b, 3)
			}
		}
		if b.Len() == n {
			b.line(2, "desc: %s", Q("-"))
		}
	}
	return b.String()
}

// Line is the file as one line of JSON, which is YAML, too.
func (f *File) Line() string {
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(f.YAML()), &n); err != nil {
		panic(err)
	}
	var b strings.Builder
	var rec func(n *yaml.Node)
	rec = func(n *yaml.Node) {
		switch n.Kind {
		case yaml.DocumentNode:
			rec(n.Content[0])
		case yaml.MappingNode:
			b.WriteByte('{')
			for i, c := range n.Content {
				if i > 0 {
					b.WriteString([]string{", ", ": "}[i%2])
				}
				rec(c)
			}
			b.WriteByte('}')
		case yaml.SequenceNode:
			b.WriteByte('[')
			for i, c := range n.Content {
				if i > 0 {
					b.WriteString(", ")
				}
				rec(c)
			}
			b.WriteByte(']')
		default:
			if n.Tag == "!!str" {
				b.WriteString(Q(n.Value))
			} else {
				b.WriteString(n.Value)
			}
		}
	}
	rec(&n)
	return b.String() + "\n"
}

func (it *Item) yaml(b *w, ind int) {
	var c w
	switch it.Kind {
	case "cmd":
		c.line(0, "cmd: %s", Q(it.Text))
	case "task":
		c.line(0, "task: %s", Q(it.Text))
	case "log":
		c.line(0, "log: %s", Q(it.Text))
		c.str(0, "level", it.Level)
	case "prompt":
		c.line(0, "prompt: %s", Q(it.Text))
		c.str(0, "type", it.PType)
		c.str(0, "message", it.Message)
		c.str(0, "default", it.Default)
		c.list(0, "defaults", it.Defaults)
		c.list(0, "options", it.Options)
		c.str(0, "placeholder", it.Placeholder)
		c.str(0, "validate", it.Validate)
		if it.Min != nil {
			c.line(0, "min: %d", *it.Min)
		}
		if it.Max != nil {
			c.line(0, "max: %d", *it.Max)
		}
		c.boolp(0, "confirm", it.Confirm)
	case "parallel":
		c.line(0, "parallel:")
		for _, x := range it.Items {
			x.yaml(&c, 1)
		}
		c.str(0, "mode", it.Mode)
		if it.Limit != 0 {
			c.line(0, "limit: %d", it.Limit)
		}
		c.boolp(0, "color", it.Color)
	}
	c.str(0, "dir", it.Dir)
	c.str(0, "when", it.When)
	c.kv(0, "env", it.Env)
	c.boolp(0, "silent", it.Silent)
	c.boolp(0, "output", it.Output)
	c.list(0, "platforms", it.Platforms)
	c.str(0, "label", it.Label)
	for i, l := range strings.Split(strings.TrimSuffix(c.String(), "\n"), "\n") {
		if i == 0 {
			b.line(ind, "- %s", l)
		} else {
			b.line(ind, "  %s", l)
		}
	}
}
