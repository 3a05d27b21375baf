package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// oddRunes are the characters tried in names, descriptions and paths: all
// printable ASCII and some of every kind beyond.
func oddRunes() []rune {
	var out []rune
	for r := rune(0x21); r < 0x7f; r++ {
		out = append(out, r)
	}
	return append(out, 'é', 'ß', 'İ', 'ı', 'ſ', 'K', 'Ω', 'ж', '中', '文', '한', '😀', '🇩', '\u0301', '\u200d', '\ufe0f', 'א', 'ﬁ', '\ue000', '\U0010fffd')
}

type wideData struct {
	f      *spec.File
	incs   map[string]*spec.File
	typed  []string // texts to complete
	tries  []string // texts to run
	single bool     // compare the list with the exact line
}

// wideDocs20 are files with many tasks, long and oddly written names.
func wideDocs20(ch *vlib.Check, yield func(*bb.Case) bool) bool {
	put := func(key string, d wideData) bool {
		files := map[string]string{"Babfile": d.f.YAML()}
		for n, f := range d.incs {
			files[n] = f.YAML()
		}
		return yield(&bb.Case{Key: "wide " + key, Files: files, Args: []string{"--list"}, Data: d})
	}
	mark := func(i int) []*spec.Item { return []*spec.Item{spec.Mark(fmt.Sprintf("L.%d", i))} }
	small, top := 6, 501
	if ch.Thorough() {
		small, top = 40, 2001
	}
	// Many tasks, flat and in namespaces, each with aliases.
	for _, n := range lengths(small, top) {
		for shape := range 3 {
			f := &spec.File{}
			inc := &spec.File{}
			for i := range n {
				t := &spec.Task{Name: fmt.Sprintf("t%d", i), Run: mark(i)}
				switch shape {
				case 1:
					t.Name = fmt.Sprintf("g%d:h%d:t%d", i%3, i%7, i)
				case 2:
					t.Name = fmt.Sprintf("%c%d", 'a'+i%26, n-i)
				}
				if i%2 == 0 {
					t.Alias = fmt.Sprintf("al%d", i)
				}
				if i%5 == 0 {
					t.Aliases = []string{fmt.Sprintf("z:%d", i), fmt.Sprintf("%dth", i)}
				}
				if i%3 == 0 {
					t.Desc = fmt.Sprintf("task number %d", i)
				}
				if shape == 2 && i%2 == 1 {
					inc.Tasks = append(inc.Tasks, t)
				} else {
					f.Tasks = append(f.Tasks, t)
				}
			}
			d := wideData{f: f, typed: []string{"", "t", "t1", "al", "g1:h", "z:1", "in:", "q", "1"}}
			if len(inc.Tasks) > 0 {
				f.Includes = spec.KV{{"in", "inc.yml"}}
				d.incs = map[string]*spec.File{"inc.yml": inc}
			}
			na, ok := namesOf(f, d.incs)
			if !ok {
				panic("wide names")
			}
			all := na.all()
			for _, i := range []int{0, 1, len(all) / 2, len(all) - 2, len(all) - 1} {
				if i >= 0 && i < len(all) {
					d.tries = append(d.tries, all[i], all[i]+"0:")
				}
			}
			if !put(fmt.Sprintf("%d tasks, shape %d", n, shape), d) {
				return false
			}
		}
		// One task with many aliases; one task in a deep namespace; long ones.
		var as []string
		for i := range n {
			as = append(as, fmt.Sprintf("a%d", i))
		}
		if n > 1000 {
			continue // a YAML key of more than 1024 characters has another form
		}
		one := func(t *spec.Task) wideData {
			t.Run = mark(0)
			d := wideData{f: &spec.File{Tasks: []*spec.Task{t}}, single: !strings.Contains(t.Name, ":")}
			for i, x := range append([]string{t.Name, t.Alias}, t.Aliases...) {
				if x != "" && (i < 3 || i == len(t.Aliases)/2 || i == len(t.Aliases)+1) {
					d.tries = append(d.tries, x, x+"x", x[:len(x)-1])
					d.typed = append(d.typed, x, x+"x", x[:len(x)/2])
				}
			}
			return d
		}
		l := strings.Repeat("n", n)
		if !put(fmt.Sprintf("%d aliases", n), one(&spec.Task{Name: "t", Aliases: as})) ||
			!put(fmt.Sprintf("namespace depth %d", min(n, 500)), one(&spec.Task{Name: strings.Repeat("n:", min(n, 500)) + "t"})) ||
			!put(fmt.Sprintf("name of %d", n), one(&spec.Task{Name: l, Alias: "x" + l, Desc: "d"})) ||
			!put(fmt.Sprintf("alias of %d", n), one(&spec.Task{Name: "t", Alias: l, Desc: "d"})) ||
			!put(fmt.Sprintf("description of %d", n), one(&spec.Task{Name: "t", Alias: "a", Desc: strings.Repeat("d", n)})) ||
			!put(fmt.Sprintf("description of %d words", n), one(&spec.Task{Name: "t", Desc: strings.TrimSpace(strings.Repeat("d ", n))})) {
			return false
		}
	}
	// Every character in a name, an alias and a description.
	for _, r := range oddRunes() {
		c := string(r)
		if r == ':' {
			continue // separates, above
		}
		for k, x := range []string{c, "x" + c + "y", c + c, "n:" + c, c + "x", "x" + c, c + ":n"} {
			if k > 3 && !ch.Thorough() {
				break
			}
			for how := range 3 {
				t := &spec.Task{Name: x, Run: mark(0)}
				switch how {
				case 1:
					t.Name, t.Alias = "task", x
				case 2:
					t.Name, t.Desc = "task", x
				}
				d := wideData{f: &spec.File{Tasks: []*spec.Task{t, {Name: "other", Run: mark(1)}}}, single: !strings.Contains(t.Name, ":")}
				ys := []string{x, strings.ToUpper(x), strings.ToLower(x), x + "x", "x" + c}
				if how == 2 {
					ys = []string{x, "task"}
				}
				seen := map[string]bool{}
				for _, y := range ys {
					if !seen[y] {
						d.tries = append(d.tries, y)
						d.typed = append(d.typed, y)
					}
					seen[y] = true
				}
				d.typed = append(d.typed, "")
				if !put(fmt.Sprintf("%q as %d.%d", c, k, how), d) {
					return false
				}
			}
		}
	}
	return true
}

// wide20 runs one of them.
func wide20(ch *vlib.Check, c *bb.Case) bb.Got {
	outer := bb.NewRoot()
	defer bb.RemoveRoot(outer)
	root := filepath.Join(outer, "p")
	g := bb.RunIn(outer, root, c)
	d := c.Data.(wideData)
	na, _ := namesOf(d.f, d.incs)
	runs := func(args ...string) bb.Got {
		c2 := *c
		c2.Files, c2.Args = nil, args
		ch.Count("invocations", 1)
		return bb.RunIn(outer, root, &c2)
	}
	fail := func(s string, a ...any) bb.Got {
		g.Exit, g.Stderr = 99, tail(fmt.Sprintf(s, a...), 4000)
		return g
	}
	if g.Exit != 0 || len(g.Log) > 0 {
		return fail("--list: exit %d, ran %q: %s", g.Exit, g.Log, bb.Plain(g.Stderr))
	}
	if d.single {
		var want []string
		for _, t := range d.f.Tasks {
			l := t.Name
			if a := append([]string{t.Alias}, t.Aliases...); len(a) > 1 || a[0] != "" {
				if a[0] == "" {
					a = a[1:]
				}
				l += " (" + strings.Join(a, ", ") + ")"
			}
			if t.Desc != "" {
				l += " " + t.Desc
			}
			want = append(want, l)
		}
		sort.Strings(want)
		got := strings.Split(strings.TrimRight(bb.Plain(g.Stdout), "\n"), "\n")
		for i := range got {
			got[i] = strings.TrimRight(got[i], " ")
		}
		sort.Strings(got)
		if !sameStrings(got, want) {
			return fail("--list shows %q, must be %q", got, want)
		}
	} else {
		nodes, why := listed(g.Stdout)
		if why != "" {
			return fail("--list: %s", why)
		}
		for full, t := range na.tasks {
			ns := strings.TrimSuffix(full, t.Name)
			var al []string
			for _, a := range append([]string{t.Alias}, t.Aliases...) {
				if a != "" {
					al = append(al, ns+a)
				}
			}
			nd := nodes[full]
			if nd == nil || nd.aliases != strings.Join(al, ", ") || nd.desc != t.Desc {
				return fail("--list shows %q as %+v, must have %q and %q", full, nd, al, t.Desc)
			}
		}
		for x, nd := range nodes {
			if na.tasks[x] == nil && (nd.leaf || nd.aliases != "" || nd.desc != "") {
				return fail("--list offers %q, which is no task", x)
			}
		}
	}
	all := na.all()
	for _, p := range d.typed {
		if strings.HasPrefix(p, "-") {
			continue
		}
		s := runs("__complete", p)
		var want, got []string
		for _, x := range all {
			if strings.HasPrefix(x, p) {
				want = append(want, x)
			}
		}
		lines := strings.Split(strings.TrimRight(s.Stdout, "\n"), "\n")
		last := lines[len(lines)-1]
		for _, l := range lines[:len(lines)-1] {
			got = append(got, strings.SplitN(l, "\t", 2)[0])
		}
		sort.Strings(got)
		if s.Exit != 0 || len(s.Log) > 0 || last != ":4" || !sameStrings(got, want) {
			return fail("completion of %q offers %q (%s), must be %q", p, got, last, want)
		}
	}
	for _, x := range d.tries {
		full := na.resolve(x)
		want := ""
		if full != "" {
			want = strings.TrimSuffix(strings.TrimPrefix(na.tasks[full].Run[0].Text, "echo "), ` >>"$BLOG"`)
		}
		s, n := runs("--", x), runs("-n", "--", x)
		switch {
		case len(n.Log) > 0:
			return fail("a dry run of %q ran %q", x, n.Log)
		case full == "" && (s.Exit != 1 || len(s.Log) > 0 || s.Stderr == "" || n.Exit != 1):
			return fail("%q, which is no task, was run: exit %d and %d, ran %q, stderr %q", x, s.Exit, n.Exit, s.Log, bb.Plain(s.Stderr))
		case full != "" && (s.Exit != 0 || !sameStrings(s.Log, []string{want}) || n.Exit != 0 || !strings.Contains(n.Stderr, want+" ")):
			return fail("%q must run exactly %q: exit %d and %d, ran %q: %s %s", x, want, s.Exit, n.Exit, s.Log, bb.Plain(s.Stderr), bb.Plain(n.Stderr))
		}
	}
	g.Stderr = ""
	return g
}

// widePicker20 goes through a picker with many rows.
func widePicker20(ch *vlib.Check) {
	type row struct {
		rows int
		keys string
		want string
	}
	sizes := []int{1, 2, 19, 20, 21, 26, 27, 50, 101, 300}
	if ch.Thorough() {
		sizes = append(sizes, 3, 10, 99, 100, 128, 256, 257, 500, 1000)
	}
	bb.ExploreWith(ch, func(yield func(*bb.Case) bool) {
		for _, n := range sizes {
			f := &spec.File{}
			for i := range n {
				t := &spec.Task{Name: fmt.Sprintf("t%04d", i), Run: []*spec.Item{spec.Mark(fmt.Sprintf("L.%d", i))}}
				if i%10 == 3 {
					t.Alias = fmt.Sprintf("q%d", i)
				}
				f.Tasks = append(f.Tasks, t)
			}
			for _, h := range []int{24, 6, 60} {
				put := func(what, keys string, want int) bool {
					return yield(&bb.Case{Key: fmt.Sprintf("picker of %d in %d lines: %s", n, h, what), Files: map[string]string{"Babfile": f.YAML()}, Data: row{h, keys, fmt.Sprintf("L.%d", want)}})
				}
				down, up := "\x1b[B", "\x1b[A"
				for _, k := range []int{0, 1, h - 5, h - 4, h - 3, h, n / 2, n - 2, n - 1, n, n + 3} {
					if k < 0 || k > n+3 {
						continue
					}
					if !put(fmt.Sprintf("%d down", k), strings.Repeat(down, k)+"\r", min(k, n-1)) ||
						!put(fmt.Sprintf("to the end and %d up", k), strings.Repeat("\x0e", n+2)+strings.Repeat(up, k)+"\r", max(0, n-1-k)) {
						return
					}
				}
				for _, k := range []int{0, n / 2, n - 1} {
					if !put(fmt.Sprintf("down and name %d", k), strings.Repeat(down, n/2)+fmt.Sprintf("t%04d", k)+"\r", k) ||
						!put(fmt.Sprintf("name %d and back", k), "t0000\x15"+strings.Repeat(down, k)+"\r", k) {
						return
					}
				}
				if n > 13 && !put("alias q13", "q13\r", 13) {
					return
				}
			}
		}
		// Names and aliases of any length and of any characters, typed.
		for _, x := range append([]string{strings.Repeat("n", 60), strings.Repeat("n", 99), strings.Repeat("n", 100), strings.Repeat("nm", 49)}, func() (o []string) {
			for _, r := range oddRunes() {
				if r < 0x7f || r == 'é' || r == 'ж' || r == '中' || r == '한' || r == '😀' || r == 'ß' || r == 'İ' {
					o = append(o, "x"+string(r)+"y", string(r))
				}
			}
			return o
		}()...) {
			f := &spec.File{Tasks: []*spec.Task{{Name: "aa", Run: []*spec.Item{spec.Mark("L.0")}}, {Name: "bb", Run: []*spec.Item{spec.Mark("L.1")}, Alias: x}, {Name: "cc", Run: []*spec.Item{spec.Mark("L.2")}}}}
			for k := range 2 {
				if k == 1 {
					f.Tasks[1].Name, f.Tasks[1].Alias = x, ""
				}
				if !yield(&bb.Case{Key: fmt.Sprintf("picker types %q %d", x, k), Files: map[string]string{"Babfile": f.YAML()}, Data: row{24, x + "\r", "L.1"}}) {
					return
				}
			}
		}
	}, func(c *bb.Case) bb.Got {
		return onTerminal(c, 120, c.Data.(row).rows, []step{{"bab.sh", c.Data.(row).keys}})
	}, func(c *bb.Case, g bb.Got) string {
		r := c.Data.(row)
		if g.TimedOut || g.Exit != 0 || !sameStrings(g.Log, []string{r.want}) {
			return fmt.Sprintf("exit %d (timed out: %v), ran %q, must be %q: %q", g.Exit, g.TimedOut, g.Log, r.want, tail(pty.Plain(g.Stdout), 500))
		}
		return ""
	})
}

// wide21 starts in directories of any depth and name.
func wide21(ch *vlib.Check) {
	type where struct {
		dir  string // the nearest Babfile is here
		sub  string // bab starts this far below
		pwd  string // what $PWD claims; "-" leaves it out
		link string // a link to the directory, to start through
		name string
	}
	small, top := 20, 260
	if ch.Thorough() {
		small, top = 40, 600
	}
	bb.ExploreWith(ch, func(yield func(*bb.Case) bool) {
		put := func(key string, w where) bool {
			if w.name == "" {
				w.name = "Babfile"
			}
			return yield(&bb.Case{Key: "start " + key, Data: w})
		}
		for _, n := range lengths(small, top) {
			for i, nm := range babNames {
				if i > 0 && n > 3 && n%10 != 0 {
					continue
				}
				if !put(fmt.Sprintf("%d below %s", n, nm), where{dir: "r", sub: strings.Repeat("d/", n), name: nm}) ||
					!put(fmt.Sprintf("below %s of depth %d", nm, n), where{dir: "r" + strings.Repeat("/d", n), sub: "e", name: nm}) {
					return
				}
			}
			if n <= 255 && (!put(fmt.Sprintf("in a name of %d", n), where{dir: "r/" + strings.Repeat("n", n), sub: "e"}) || !put(fmt.Sprintf("below a name of %d", n), where{dir: "r", sub: strings.Repeat("n", n)})) {
				return
			}
		}
		var nms []string
		for _, r := range append(oddRunes(), ' ', '\n', '\t', 1, 0x7f) {
			if r == '/' {
				continue
			}
			c := string(r)
			if c != "." {
				nms = append(nms, c)
			}
			nms = append(nms, c+"x", "x"+c, "x"+c+"y", c+c+c)
		}
		nms = append(nms, "...", "\xff", "x\xffy", "Babfile.d", "babfile", ".git", "node_modules", ".bab", "~", "$HOME", "${{ a }}", "%s", "a b c", " ", "  x  ")
		for _, n := range nms {
			if !put(fmt.Sprintf("in %q", n), where{dir: "r/" + n, sub: "e"}) || !put(fmt.Sprintf("below %q", n), where{dir: "r", sub: n + "/e"}) {
				return
			}
			for i := range 2 {
				if !put(fmt.Sprintf("right in %q %d", n, i), where{dir: "r/" + n, name: babNames[i*4]}) {
					return
				}
			}
		}
		for _, pwd := range []string{"-", "", "/", ".", "r", "@ROOT@", "@ROOT@/r", "@ROOT@/other", "@ROOT@/nowhere", "@ROOT@/r/d/../d", "@ROOT@/link"} {
			for _, sub := range []string{"", "d", "d/e"} {
				if pwd == "@ROOT@/link" && sub != "" {
					continue // the directory above is either one
				}
				if !put(fmt.Sprintf("PWD %q %q", pwd, sub), where{dir: "r", sub: sub, pwd: pwd}) ||
					!put(fmt.Sprintf("PWD %q %q through a link", pwd, sub), where{dir: "r", sub: sub, pwd: pwd, link: "other/link"}) {
					return
				}
			}
		}
	}, func(c *bb.Case) bb.Got {
		outer := bb.NewRoot()
		defer bb.RemoveRoot(outer)
		root := filepath.Join(outer, "p")
		w := c.Data.(where)
		d := filepath.Join(root, w.dir)
		must := func(err error) {
			if err != nil {
				panic(err)
			}
		}
		must(os.MkdirAll(filepath.Join(d, w.sub), 0o755))
		must(os.MkdirAll(filepath.Join(root, "other/deep"), 0o755))
		must(os.WriteFile(filepath.Join(root, "Babfile"), []byte(babText("id1")), 0o644))
		must(os.WriteFile(filepath.Join(root, "other/Babfile"), []byte(babText("id2")), 0o644))
		must(os.WriteFile(filepath.Join(d, w.name), []byte(babText("id7")), 0o644))
		cwd := filepath.Join(w.dir, w.sub)
		if w.link != "" {
			must(os.Symlink(filepath.Join(d, w.sub), filepath.Join(root, w.link)))
			cwd = w.link
		}
		must(os.Symlink(filepath.Join(d, w.sub), filepath.Join(root, "link")))
		var g bb.Got
		for _, a := range [][]string{{"t"}, {"-n", "t"}, {"--list"}, {"--validate"}, {"__complete", ""}} {
			log := filepath.Join(outer, "blog")
			_ = os.Remove(log)
			env := bb.BaseEnv(outer, log)
			at := filepath.Join(root, cwd)
			if w.pwd != "" && w.pwd != "-" {
				env = append(env, "PWD="+strings.ReplaceAll(w.pwd, "@ROOT@", root))
			}
			if w.pwd == "-" {
				env = append(env, "PWD=")
			}
			s := bb.Exec(bb.Bab(), a, at, env, "")
			s.Log = bb.ReadLog(log)
			g.Sub = append(g.Sub, s)
			ch.Count("invocations", 1)
		}
		return g
	}, func(c *bb.Case, g bb.Got) string {
		w := c.Data.(where)
		want := "id7"
		_ = w
		for i, s := range g.Sub {
			ok := s.Exit == 0 && (i == 0) == (len(s.Log) > 0)
			switch i {
			case 0:
				ok = ok && sameStrings(s.Log, []string{want})
			case 1:
				ok = ok && strings.Contains(s.Stderr, want)
			case 2, 4:
				ok = ok && strings.Contains(s.Stdout, want) && strings.Count(s.Stdout, "id") == 1
			}
			if !ok {
				return fmt.Sprintf("command %d must use %s: exit %d, ran %q, shows %q %q", i, want, s.Exit, s.Log, tail(bb.Plain(s.Stdout), 500), tail(bb.Plain(s.Stderr), 500))
			}
		}
		return ""
	})
}
