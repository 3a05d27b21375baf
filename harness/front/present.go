package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/spec"
)

// node is YAML data: a string, a boolean or integer, a mapping or a list.
type node struct {
	kind byte // s b i m l
	text string
	keys []string
	vals []*node
}

func str(s string) *node   { return &node{kind: 's', text: s} }
func boolean(b bool) *node { return &node{kind: 'b', text: fmt.Sprint(b)} }
func integer(i int) *node  { return &node{kind: 'i', text: fmt.Sprint(i)} }
func list(v ...*node) *node {
	return &node{kind: 'l', vals: v}
}
func strs(l []string) *node {
	n := list()
	for _, s := range l {
		n.vals = append(n.vals, str(s))
	}
	return n
}
func mapping() *node { return &node{kind: 'm'} }
func (n *node) set(k string, v *node) *node {
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	return n
}
func kvNode(kv spec.KV) *node {
	n := mapping()
	for _, p := range kv {
		n.set(p[0], str(p[1]))
	}
	return n
}

// fileNode is the data of a file.
func fileNode(f *spec.File) *node {
	n := mapping()
	opt := func(n *node, k, v string) {
		if v != "" {
			n.set(k, str(v))
		}
	}
	optb := func(n *node, k string, v *bool) {
		if v != nil {
			n.set(k, boolean(*v))
		}
	}
	optl := func(n *node, k string, v []string) {
		if v != nil {
			n.set(k, strs(v))
		}
	}
	optkv := func(n *node, k string, v spec.KV) {
		if v != nil {
			n.set(k, kvNode(v))
		}
	}
	var item func(it *spec.Item) *node
	item = func(it *spec.Item) *node {
		m := mapping()
		switch it.Kind {
		case "parallel":
			l := list()
			for _, x := range it.Items {
				l.vals = append(l.vals, item(x))
			}
			m.set("parallel", l)
			opt(m, "mode", it.Mode)
			if it.Limit != 0 {
				m.set("limit", integer(it.Limit))
			}
			optb(m, "color", it.Color)
		default:
			m.set(it.Kind, str(it.Text))
		}
		opt(m, "level", it.Level)
		opt(m, "type", it.PType)
		opt(m, "message", it.Message)
		opt(m, "default", it.Default)
		optl(m, "defaults", it.Defaults)
		optl(m, "options", it.Options)
		opt(m, "placeholder", it.Placeholder)
		opt(m, "validate", it.Validate)
		if it.Min != nil {
			m.set("min", integer(*it.Min))
		}
		if it.Max != nil {
			m.set("max", integer(*it.Max))
		}
		optb(m, "confirm", it.Confirm)
		opt(m, "dir", it.Dir)
		opt(m, "when", it.When)
		optkv(m, "env", it.Env)
		optb(m, "silent", it.Silent)
		optb(m, "output", it.Output)
		optl(m, "platforms", it.Platforms)
		opt(m, "label", it.Label)
		return m
	}
	optkv(n, "vars", f.Vars)
	optkv(n, "env", f.Env)
	optb(n, "silent", f.Silent)
	optb(n, "output", f.Output)
	opt(n, "dir", f.Dir)
	if len(f.Includes) > 0 {
		m := mapping()
		for _, p := range f.Includes {
			m.set(p[0], mapping().set("babfile", str(p[1])))
		}
		n.set("includes", m)
	}
	ts := mapping()
	for _, t := range f.Tasks {
		m := mapping()
		opt(m, "desc", t.Desc)
		opt(m, "alias", t.Alias)
		optl(m, "aliases", t.Aliases)
		optkv(m, "vars", t.Vars)
		optkv(m, "env", t.Env)
		optb(m, "silent", t.Silent)
		optb(m, "output", t.Output)
		opt(m, "dir", t.Dir)
		opt(m, "when", t.When)
		optl(m, "deps", t.Deps)
		if len(t.Run) > 0 {
			l := list()
			for _, it := range t.Run {
				l.vals = append(l.vals, item(it))
			}
			m.set("run", l)
		}
		ts.set(t.Name, m)
	}
	return n.set("tasks", ts)
}

// form is one way to write data as YAML.
type form struct {
	flowAt   int // depth from which collections are written in flow style
	quote    int // 0 plain where possible, 1 single, 2 double, 3 literal, 4 folded
	order    int // 0 as given, 1 reversed, 2 rotated
	step     int // indentation
	compact  bool
	spread   bool // flow collections over several lines
	comments bool
	crlf     bool
	marker   bool // document marker
	anchors  int  // 0 none, 1 repeated scalars, 2 repeated collections, 3 both, 4 also keys
	quoteKey bool
}

type writer struct {
	form
	anchor map[string]string
	count  map[string]int
	n      int
}

func (n *node) id() string {
	switch n.kind {
	case 'm':
		var b strings.Builder
		b.WriteString("{")
		for i, k := range n.keys {
			fmt.Fprintf(&b, "%q:%s,", k, n.vals[i].id())
		}
		return b.String() + "}"
	case 'l':
		var b strings.Builder
		b.WriteString("[")
		for _, v := range n.vals {
			b.WriteString(v.id() + ",")
		}
		return b.String() + "]"
	}
	return fmt.Sprintf("%c%q", n.kind, n.text)
}

func (w *writer) tally(n *node) {
	w.count[n.id()]++
	for _, v := range n.vals {
		w.tally(v)
	}
	if w.anchors == 4 {
		for _, k := range n.keys {
			w.count[str(k).id()]++
		}
	}
}

// prop returns an alias to use instead of the node, or the anchor to put on it.
func (w *writer) prop(n *node) (alias, anchor string) {
	scalar := n.kind != 'm' && n.kind != 'l'
	switch w.anchors {
	case 0:
		return
	case 1, 4:
		if !scalar {
			return
		}
	case 2:
		if scalar {
			return
		}
	}
	id := n.id()
	if w.count[id] < 2 || !scalar && len(n.vals) == 0 {
		return
	}
	if a := w.anchor[id]; a != "" {
		return "*" + a, ""
	}
	w.n++
	a := fmt.Sprintf("x%d", w.n)
	w.anchor[id] = a
	return "", "&" + a
}

var reserved = regexp.MustCompile(`(?i)^(true|false|yes|no|on|off|y|n|null|~|\.nan|[-+]?\.inf|[-+]?[0-9.][0-9._eE+-]*|0[xo].*|[0-9]{4}-.*|<<|=)$`)
var plainStart = regexp.MustCompile(`^[A-Za-z_/$(é]`)

func plainOK(s string, flow bool) bool {
	if s == "" || !plainStart.MatchString(s) || reserved.MatchString(s) {
		return false
	}
	if strings.ContainsAny(s, "\n\t\r") || strings.Contains(s, ": ") || strings.Contains(s, " #") || strings.HasSuffix(s, " ") || strings.HasSuffix(s, ":") {
		return false
	}
	if flow && strings.ContainsAny(s, ",[]{}:#") {
		return false
	}
	return true
}

func single(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// scalar writes a string so that it may stand behind a key at an indentation.
func (w *writer) scalar(s string, ind int, flow bool) string {
	for _, r := range s {
		// These have to be escaped or would be a line end.
		if r != '\n' && r != '\t' && (r < ' ' || r >= 0x7f && r < 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r >= 0xfffe && r < 0x10000) {
			return spec.Q(s)
		}
	}
	switch w.quote {
	case 0:
		if plainOK(s, flow) {
			return s
		}
	case 1:
		if !strings.ContainsAny(s, "\n\t\r\x1b") {
			return single(s)
		}
	case 3:
		if !flow && s != "" && !strings.HasSuffix(s, "\n\n") && !strings.HasPrefix(s, " ") && !strings.HasPrefix(s, "\n") && !strings.ContainsAny(s, "\r\x1b") && strings.Trim(s, "\n \t") != "" && !strings.HasSuffix(s, " ") && !strings.HasSuffix(s, "\t") && !strings.Contains(s, " \n") && !strings.HasPrefix(s, "\t") {
			body := strings.TrimRight(s, "\n")
			chomp := map[int]string{0: "-", 1: ""}
			c, ok := chomp[len(s)-len(body)]
			if !ok {
				c = "+"
			}
			pad := strings.Repeat(" ", ind)
			out := "|" + c
			for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
				if l == "" {
					out += "\n"
				} else {
					out += "\n" + pad + l
				}
			}
			return out
		}
	case 4:
		if !flow && s != "" && !strings.ContainsAny(s, "\n\t\r\x1b") && !strings.HasPrefix(s, " ") && !strings.HasSuffix(s, " ") && !strings.Contains(s, "  ") {
			pad := strings.Repeat(" ", ind)
			return ">-\n" + pad + strings.ReplaceAll(s, " ", "\n"+pad)
		}
	}
	return spec.Q(s)
}

func (w *writer) keyText(k string, flow bool) string {
	if w.anchors == 4 {
		n := str(k)
		if a, anc := w.prop(n); a != "" {
			return a + " "
		} else if anc != "" {
			return anc + " " + spec.Q(k)
		}
	}
	if w.quoteKey {
		if plainOK(k, true) {
			return single(k)
		}
		return spec.Q(k)
	}
	if plainOK(k, flow) && !(flow && strings.Contains(k, ":")) {
		return k
	}
	return spec.Q(k)
}

func (w *writer) perm(n int) []int {
	ix := make([]int, n)
	for i := range ix {
		switch w.order {
		case 1:
			ix[i] = n - 1 - i
		case 2:
			ix[i] = (i + 1) % n
		default:
			ix[i] = i
		}
	}
	return ix
}

// value writes a node behind "key:" or "-": on the same line, or as a block
// below it, indented by ind.
func (w *writer) value(n *node, ind, depth int, flow bool) string {
	alias, anchor := w.prop(n)
	if alias != "" {
		return " " + alias
	}
	if anchor != "" {
		anchor = " " + anchor
	}
	switch n.kind {
	case 's':
		return anchor + " " + w.scalar(n.text, ind, flow)
	case 'b', 'i':
		return anchor + " " + n.text
	}
	if flow || depth >= w.flowAt || len(n.vals) == 0 {
		return anchor + " " + w.flowText(n, ind, depth)
	}
	c := ""
	if w.comments {
		c = " # note: {"
	}
	return anchor + c + "\n" + w.block(n, ind, depth)
}

func (w *writer) flowText(n *node, ind, depth int) string {
	sep, open := ", ", ""
	if w.spread {
		sep = ",\n" + strings.Repeat(" ", ind+1)
		open = "\n" + strings.Repeat(" ", ind+1)
		if w.comments {
			sep = ", # c ]\n" + strings.Repeat(" ", ind+1)
		}
	}
	var parts []string
	if n.kind == 'l' {
		for _, v := range n.vals {
			parts = append(parts, strings.TrimPrefix(w.value(v, ind+1, depth+1, true), " "))
		}
		return "[" + open + strings.Join(parts, sep) + "]"
	}
	for _, i := range w.perm(len(n.vals)) {
		k := w.keyText(n.keys[i], true)
		parts = append(parts, k+":"+w.value(n.vals[i], ind+1, depth+1, true))
	}
	return "{" + open + strings.Join(parts, sep) + "}"
}

func (w *writer) block(n *node, ind, depth int) string {
	pad := strings.Repeat(" ", ind)
	var b strings.Builder
	note := func() {
		if w.comments {
			b.WriteString(pad + "# - comment: [\n")
		}
	}
	if n.kind == 'l' {
		for _, v := range n.vals {
			note()
			if v.kind == 'm' && len(v.vals) > 0 && depth+1 < w.flowAt {
				alias, anchor := w.prop(v)
				if alias != "" {
					b.WriteString(pad + "- " + alias + "\n")
					continue
				}
				if anchor != "" || w.comments {
					b.WriteString(strings.TrimRight(pad+"- "+anchor, " ") + "\n" + w.block(v, ind+2, depth+1))
					continue
				}
				text := w.block(v, ind+2, depth+1)
				b.WriteString(pad + "- " + text[ind+2:])
				continue
			}
			b.WriteString(pad + "-" + w.value(v, ind+2, depth+1, false) + "\n")
		}
		return b.String()
	}
	for _, i := range w.perm(len(n.vals)) {
		note()
		v := n.vals[i]
		in := ind + w.step
		if v.kind == 'l' && w.compact {
			in = ind
		}
		k := w.keyText(n.keys[i], false)
		text := w.value(v, in, depth+1, false)
		b.WriteString(pad + k + ":" + text)
		if !strings.HasSuffix(text, "\n") {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func (fm form) text(n *node) string {
	w := &writer{form: fm, anchor: map[string]string{}, count: map[string]int{}}
	w.tally(n)
	s := ""
	if fm.flowAt == 0 {
		s = w.flowText(n, 0, 0) + "\n"
	} else {
		s = w.block(n, 0, 0)
	}
	if fm.marker {
		s = "# head\n---\n" + s + "...\n"
	}
	if fm.crlf {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}
