package spec

import (
	"errors"
	"fmt"
	"sort"
	"strings"
)

// Interp is the reference substitution: one left-to-right pass, values are
// inserted as they are, $${{ is a literal ${{.
func Interp(s string, vars map[string]string, env func(string) string) (string, error) {
	var out strings.Builder
	var first error
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "$${{") {
			out.WriteString("${{")
			i += 4
			continue
		}
		if strings.HasPrefix(s[i:], "${{") {
			if name, n, ok := refAt(s[i:]); ok {
				switch {
				case strings.HasPrefix(name, "env."):
					out.WriteString(env(name[len("env."):]))
				default:
					v, known := vars[name]
					if !known {
						if first == nil {
							first = fmt.Errorf("undefined %s", name)
						}
						v = s[i : i+n]
					}
					out.WriteString(v)
				}
				i += n
				continue
			}
		}
		out.WriteByte(s[i])
		i++
	}
	return out.String(), first
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }

func nameStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func nameByte(c byte) bool { return nameStart(c) || c >= '0' && c <= '9' || c == '.' }

// refAt reads a reference ${{ name }} at the start of s.
func refAt(s string) (name string, n int, ok bool) {
	i := len("${{")
	for i < len(s) && isSpace(s[i]) {
		i++
	}
	j := i
	if j >= len(s) || !nameStart(s[j]) {
		return "", 0, false
	}
	for j < len(s) && nameByte(s[j]) {
		j++
	}
	name = s[i:j]
	for j < len(s) && isSpace(s[j]) {
		j++
	}
	if !strings.HasPrefix(s[j:], "}}") {
		return "", 0, false
	}
	return name, j + 2, true
}

// Refs lists the variables a text refers to, environment references aside.
func Refs(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "$${{") {
			i += 4
			continue
		}
		if strings.HasPrefix(s[i:], "${{") {
			if name, n, ok := refAt(s[i:]); ok {
				if !strings.HasPrefix(name, "env.") {
					out = append(out, name)
				}
				i += n
				continue
			}
		}
		i++
	}
	return out
}

// ErrCycle and ErrUndefined are the two ways variables cannot be resolved.
var (
	ErrCycle     = errors.New("cycle")
	ErrUndefined = errors.New("undefined")
)

// ResolveVars is the reference resolution of one level of variables over its
// parent's: own variables win, may refer to each other in any order, and fall
// back to the parent's.
func ResolveVars(own map[string]string, parent map[string]string, env func(string) string) (map[string]string, error) {
	const (
		white = iota
		grey
		black
	)
	colour := map[string]int{}
	out := map[string]string{}
	for k, v := range parent {
		out[k] = v
	}
	bad := map[string]error{}
	var visit func(k string) error
	visit = func(k string) error {
		switch colour[k] {
		case grey:
			return ErrCycle
		case black:
			return bad[k]
		}
		colour[k] = grey
		var first error
		for _, r := range Refs(own[k]) {
			if _, ok := own[r]; ok {
				if err := visit(r); err != nil && first == nil {
					first = err
				}
			} else if _, ok := parent[r]; !ok && first == nil {
				first = ErrUndefined
			}
		}
		if first == nil {
			v, err := Interp(own[k], out, env)
			if err != nil {
				first = ErrUndefined
			}
			out[k] = v
		}
		colour[k] = black
		bad[k] = first
		return first
	}
	keys := make([]string, 0, len(own))
	for k := range own {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var err error
	for _, k := range keys {
		if e := visit(k); e != nil && err == nil {
			err = e
		}
	}
	return out, err
}

// Cond is the reference meaning of a when text of one of the documented forms.
// The operands are the texts as written.
func Cond(left, op, right string, vars map[string]string, env func(string) string) (bool, error) {
	l, err := Interp(left, vars, env)
	if err != nil {
		return false, err
	}
	if op == "" {
		return Truthy(l), nil
	}
	r, err := Interp(right, vars, env)
	if err != nil {
		return false, err
	}
	if op == "==" {
		return l == r, nil
	}
	return l != r, nil
}

// Truthy is the documented truth of a value.
func Truthy(s string) bool {
	t := strings.TrimSpace(s)
	return t != "" && !strings.EqualFold(t, "false")
}

// CondText evaluates a when text of a documented form.
func CondText(s string, vars map[string]string, env func(string) string) (bool, error) {
	t := strings.TrimSpace(s)
	for _, q := range []string{"'", `"`} {
		if !strings.HasSuffix(t, q) {
			continue
		}
		for _, op := range []string{"==", "!="} {
			i := strings.Index(t, op)
			if i < 0 {
				continue
			}
			r := strings.TrimSpace(t[i+2:])
			if len(r) >= 2 && strings.HasPrefix(r, q) && !strings.Contains(r[1:len(r)-1], q) {
				l := strings.Trim(strings.TrimSpace(t[:i]), `'"`)
				return Cond(l, op, r[1:len(r)-1], vars, env)
			}
		}
	}
	return Cond(t, "", "", vars, env)
}

// Event is one observable step of a sequential run.
type Event struct {
	Kind string // task, dep, head, run, log
	Text string
	Item *Item
	Task *Task
	Env  map[string]string // the configured environment of a run event
	Vars map[string]string
	Dir  string // as configured, interpolated; "" is the Babfile's directory
	Show bool   // output shown
	Par  bool   // inside a parallel block
}

// Run is the outcome of the reference execution.
type Run struct {
	Events []Event
	Err    error
	Failed string // task in which it failed
}

// World is what a run depends on besides the file.
type World struct {
	Env      func(string) string
	OS       string
	Exit     func(it *Item) int // exit status of a command
	MaxItems int
}

type exec struct {
	f      *File
	w      World
	global map[string]string
	tasks  map[string]*Task
	state  map[string]int
	failed map[string]error
	run    *Run
	depth  int // of parallel blocks
}

func pick(def bool, vals ...*bool) bool {
	for _, v := range vals {
		if v != nil {
			return *v
		}
	}
	return def
}

func firstOf(vals ...*bool) *bool {
	for _, v := range vals {
		if v != nil {
			return v
		}
	}
	return nil
}

// Eval runs a task of a file without includes.
func Eval(f *File, task string, w World) *Run {
	if w.Env == nil {
		w.Env = func(string) string { return "" }
	}
	if w.OS == "" {
		w.OS = "linux"
	}
	if w.Exit == nil {
		w.Exit = func(*Item) int { return 0 }
	}
	x := &exec{f: f, w: w, tasks: map[string]*Task{}, state: map[string]int{}, failed: map[string]error{}, run: &Run{}}
	for _, t := range f.Tasks {
		x.tasks[t.Name] = t
	}
	for _, t := range f.Tasks {
		for _, a := range append([]string{t.Alias}, t.Aliases...) {
			if a != "" && a == task {
				task = t.Name
			}
		}
	}
	g, err := ResolveVars(f.Vars.Map(), nil, w.Env)
	if err != nil {
		x.run.Err = err
		return x.run
	}
	x.global = g
	x.run.Err = x.task(task, true, nil, nil)
	return x.run
}

func (x *exec) emit(e Event) {
	e.Par = x.depth > 0
	x.run.Events = append(x.run.Events, e)
}

func (x *exec) task(name string, main bool, ovS, ovO *bool) error {
	switch x.state[name] {
	case 1:
		return errors.New("cycle")
	case 2:
		return x.failed[name]
	}
	err := x.once(name, main, ovS, ovO)
	x.state[name], x.failed[name] = 2, err
	return err
}

func (x *exec) once(name string, main bool, ovS, ovO *bool) error {
	t := x.tasks[name]
	if t == nil {
		return errors.New("no task " + name)
	}
	x.state[name] = 1
	vars, verr := ResolveVars(t.Vars.Map(), x.global, x.w.Env)
	if t.When != "" {
		if verr != nil {
			return verr
		}
		ok, err := CondText(t.When, vars, x.w.Env)
		if err != nil {
			x.run.Failed = name
			return err
		}
		if !ok {
			x.state[name] = 2
			return nil
		}
	}
	if !pick(false, ovS, t.Silent, x.f.Silent) {
		kind := "dep"
		if main {
			kind = "task"
		}
		x.emit(Event{Kind: kind, Text: name})
	}
	for _, d := range t.Deps {
		if err := x.task(d, false, nil, nil); err != nil {
			return err
		}
	}
	if len(t.Run) > 0 {
		if verr != nil {
			x.run.Failed = name
			return verr
		}
		if err := x.items(t, vars, ovS, ovO); err != nil {
			if x.run.Failed == "" {
				x.run.Failed = name
			}
			return err
		}
	}
	x.state[name] = 2
	return nil
}

func (x *exec) interpEnv(dst map[string]string, kv KV, vars map[string]string) error {
	for _, p := range kv {
		v, err := Interp(p[1], vars, x.w.Env)
		if err != nil {
			return err
		}
		dst[p[0]] = v
	}
	return nil
}

func (x *exec) items(t *Task, vars map[string]string, ovS, ovO *bool) error {
	// Task-level values win, so an overridden global value need not resolve.
	merged := map[string]string{}
	for _, p := range x.f.Env {
		merged[p[0]] = p[1]
	}
	for _, p := range t.Env {
		merged[p[0]] = p[1]
	}
	env := map[string]string{}
	for k, v := range merged {
		r, err := Interp(v, vars, x.w.Env)
		if err != nil {
			return err
		}
		env[k] = r
	}
	executed, skipped := 0, 0
	for _, it := range t.Run {
		if !x.platform(it) {
			continue
		}
		if it.When != "" {
			ok, err := CondText(it.When, vars, x.w.Env)
			if err != nil {
				return err
			}
			if !ok {
				skipped++
				continue
			}
		}
		executed++
		switch it.Kind {
		case "cmd", "task", "log":
			if err := x.simple(it, t, vars, env, ovS, ovO); err != nil {
				return err
			}
		case "prompt":
			v, err := x.answer(it, vars)
			if err != nil {
				return err
			}
			vars[it.Text] = v
		case "parallel":
			if err := x.parallel(it, t, vars, env, ovS, ovO); err != nil {
				return err
			}
		default:
			panic("unsupported kind " + it.Kind)
		}
	}
	if executed == 0 && skipped == 0 {
		return errors.New("no run items for this platform")
	}
	return nil
}

// simple runs a command, a task reference or a log message.
func (x *exec) simple(it *Item, t *Task, vars, env map[string]string, ovS, ovO *bool) error {
	switch it.Kind {
	case "cmd":
		text, err := Interp(it.Text, vars, x.w.Env)
		if err != nil {
			return err
		}
		cenv := map[string]string{}
		for k, v := range env {
			cenv[k] = v
		}
		if err := x.interpEnv(cenv, it.Env, vars); err != nil {
			return err
		}
		dir := it.Dir
		if dir == "" {
			dir = t.Dir
		}
		if dir == "" {
			dir = x.f.Dir
		}
		if dir, err = Interp(dir, vars, x.w.Env); err != nil {
			return err
		}
		if !pick(false, it.Silent, ovS, t.Silent, x.f.Silent) {
			x.emit(Event{Kind: "head", Text: text})
		}
		x.emit(Event{Kind: "run", Text: text, Item: it, Task: t, Env: cenv, Vars: vars, Dir: dir,
			Show: pick(true, it.Output, ovO, t.Output, x.f.Output)})
		if x.w.Exit(it) != 0 {
			return errors.New("command failed")
		}
	case "task":
		if err := x.task(it.Text, false, firstOf(it.Silent, ovS), firstOf(it.Output, ovO)); err != nil {
			return err
		}
	case "log":
		text, err := Interp(it.Text, vars, x.w.Env)
		if err != nil {
			return err
		}
		x.emit(Event{Kind: "log", Text: text, Item: it})
	}
	return nil
}

// parallel runs the selected items one after the other, one of the schedules
// that are allowed; every item runs even if another one fails.
func (x *exec) parallel(pr *Item, t *Task, vars, env map[string]string, ovS, ovO *bool) error {
	var sel []*Item
	for _, it := range pr.Items {
		if !x.platform(it) {
			continue
		}
		if it.When != "" {
			ok, err := CondText(it.When, vars, x.w.Env)
			if err != nil {
				return err
			}
			if !ok {
				continue
			}
		}
		sel = append(sel, it)
	}
	own := map[string]string{}
	for k, v := range vars {
		own[k] = v
	}
	if pr.Silent != nil {
		ovS = pr.Silent
	}
	if pr.Output != nil {
		ovO = pr.Output
	}
	x.emit(Event{Kind: "par", Item: pr, Task: t})
	x.depth++
	defer func() { x.depth-- }()
	var first error
	for _, it := range sel {
		if err := x.simple(it, t, own, env, ovS, ovO); err != nil && first == nil {
			first = err
		}
	}
	return first
}

func (x *exec) platform(it *Item) bool {
	for _, p := range it.Platforms {
		if p == x.w.OS {
			return true
		}
	}
	return len(it.Platforms) == 0
}

// answer is what a prompt without a terminal yields.
func (x *exec) answer(it *Item, vars map[string]string) (string, error) {
	def, err := Interp(it.Default, vars, x.w.Env)
	if err != nil {
		return "", err
	}
	defs := make([]string, len(it.Defaults))
	for i, d := range it.Defaults {
		if defs[i], err = Interp(d, vars, x.w.Env); err != nil {
			return "", err
		}
	}
	switch it.PType {
	case "password":
		return "", errors.New("no terminal")
	case "multiselect":
		if len(defs) == 0 {
			return "", errors.New("no default")
		}
		return strings.Join(defs, ","), nil
	case "confirm":
		if def == "" {
			return "", errors.New("no default")
		}
		switch strings.ToLower(def) {
		case "true", "yes", "y", "1":
			return "true", nil
		}
		return "false", nil
	default:
		if def == "" {
			return "", errors.New("no default")
		}
		return def, nil
	}
}
