package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/pty"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func init() { checks["P21"] = p21 }

// The names in their order of preference.
var babNames = []string{"Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml"}

// a layout gives each name of one directory its kind: a absent, f file, d
// directory, x broken file, l link to a file, g dangling link, e link to a
// directory, r relative link to a file of another name
type layout [3]string // for the directories r, r/a, r/a/b

// ident numbers the files, so that every file has its own tasks.
func ident(dir, name int) string { return fmt.Sprintf("id%d%d", dir, name) }

func babText(id string) string {
	return fmt.Sprintf("tasks:\n  t:\n    run:\n      - cmd: echo %s >>\"$BLOG\"\n  %s:\n    run:\n      - cmd: echo %s >>\"$BLOG\"\n", id, id, id)
}

// others are entries that have nothing to do with the search.
var others = []string{".git", ".git/HEAD", ".hg", ".svn", ".babroot", "go.mod", "package.json", ".gitignore", "Babfile.lock", "Babfile.json", "Babfile.bak", "BABFILE", "babfile", "Babfile.YML", ".Babfile", ".babfile.yml", "Taskfile.yml", "Makefile", ".bab", ".bab/Babfile", ".config/Babfile", ".env", "x/Babfile"}

type p21data struct {
	junk int // which of the others lies in the directories, plus one; -1: all
	lay  layout
	want string // the id, "broken" or "none"
	args []string
	rep  [][]string
}

func p21(ch *vlib.Check) {
	ch.Rule("every assignment of {absent, file, directory} (thorough: also broken file and dangling link) to the five names in the nearest directory, and of more kinds of entry to three of them, below layouts of the two directories above, started there and in a directory below. Other entries in these directories (repositories, project files, names that are nearly a Babfile's). With -b: relative, absolute, dotted, linked, missing, directory, broken and oddly named paths from several directories. Every case through a run, a dry run, the list, completion, validation, in a few also the picker. The same from directories of growing depth and name length, with every character in their names, through links, and with other values of PWD. Non-trivial: some Babfile exists")
	pick := func(l layout, from int) string {
		for d := from; d >= 0; d-- {
			for n, k := range l[d] {
				switch k {
				case 'f', 'l', 'r':
					return ident(d, n)
				case 'x':
					return "broken"
				}
			}
		}
		return "none"
	}
	all := func(kinds string, n int, pad string) []string {
		out := []string{""}
		for range n {
			var next []string
			for _, o := range out {
				for _, k := range kinds {
					next = append(next, o+string(k))
				}
			}
			out = next
		}
		for i := range out {
			out[i] += pad
		}
		return out
	}
	near := all("afd", 5, "")
	near = append(near, all("afxlgedr", 3, "aa")...)
	ups := []string{"aaaaa", "faaaa", "daaaf", "aaxaa"}
	tops := []string{"aaaaa", "aafaa"}
	if ch.Thorough() {
		near = append(near, all("afdxg", 5, "")...)
	}
	dirs := []string{"r", "r/a", "r/a/b"}
	build := func(root string, l layout) {
		must := func(err error) {
			if err != nil {
				panic(err)
			}
		}
		must(os.MkdirAll(filepath.Join(root, "r/a/b/c"), 0o755))
		must(os.MkdirAll(filepath.Join(root, "else/dir"), 0o755))
		for d, dir := range dirs {
			for n, k := range l[d] {
				p := filepath.Join(root, dir, babNames[n])
				id := ident(d, n)
				switch k {
				case 'f':
					must(os.WriteFile(p, []byte(babText(id)), 0o644))
				case 'd':
					must(os.Mkdir(p, 0o755))
				case 'x':
					must(os.WriteFile(p, []byte("tasks: [\n"), 0o644))
				case 'l':
					must(os.WriteFile(filepath.Join(root, "else", id), []byte(babText(id)), 0o644))
					must(os.Symlink(filepath.Join(root, "else", id), p))
				case 'r':
					must(os.WriteFile(filepath.Join(root, dir, "."+id), []byte(babText(id)), 0o644))
					must(os.Symlink("."+id, p))
				case 'g':
					must(os.Symlink(filepath.Join(root, "else/missing"), p))
				case 'e':
					must(os.Symlink(filepath.Join(root, "else/dir"), p))
				}
			}
		}
	}
	gen := func(yield func(*bb.Case) bool) {
		seen := map[layout]bool{}
		for _, n := range near {
			for ui, u := range ups {
				for ti, t := range tops {
					l := layout{t, u, n}
					if seen[l] || !ch.Thorough() && (ti > 0 || ui > 1) && strings.ContainsAny(n, "fxlr") {
						continue
					}
					seen[l] = true
					for _, cwd := range []string{"r/a/b", "r/a/b/c"} {
						if cwd == "r/a/b/c" && ui+ti > 0 {
							continue
						}
						want := pick(l, 2)
						if !yield(&bb.Case{Key: fmt.Sprintf("%s from %s", l, cwd), Trivial: want == "none", Cwd: cwd, Data: p21data{lay: l, want: want}}) {
							return
						}
					}
				}
			}
		}
		// other entries do not matter
		for _, n := range []string{"aaaaa", "afaaa", "aaaaf", "daaaa"} {
			for _, u := range []string{"aaaaa", "faaaa", "aaafa"} {
				for j := -1; j <= len(others); j++ {
					if j == 0 {
						continue
					}
					l := layout{"faaaa", u, n}
					if !yield(&bb.Case{Key: fmt.Sprintf("%s with other entry %d", l, j), Cwd: "r/a/b/c", Data: p21data{lay: l, want: pick(l, 2), junk: j}}) {
						return
					}
				}
			}
		}
		// -b
		l := layout{"afaaa", "faaaf", "adxfa"}
		for _, cwd := range []string{"r/a/b", "r/a", "r", "else", "r/a/b/c"} {
			rel := func(p string) string {
				x, _ := filepath.Rel("/"+cwd, "/"+p)
				return x
			}
			for _, b := range []struct{ path, want string }{
				{"r/a/b/babfile.yaml", ident(2, 3)}, {"r/a/babfile.yml", ident(1, 4)}, {"r/a/Babfile", ident(1, 0)}, {"r/Babfile.yaml", ident(0, 1)},
				{"else/other.txt", "id99"}, {"else/link", ident(1, 0)}, {"r/a/b/Babfile.yml", "broken"}, {"r/a/b/Babfile.yaml", "broken"}, {"else/missing", "broken"},
				{"r/a/b", "broken"}, {"else/empty", "broken"}, {"r/a/b/babfile.yml", "broken"}, {"else/dangling", "broken"}, {"else/we ird", "id99"}, {"else/-n", "id99"},
			} {
				for _, form := range [][]string{{"-b", rel(b.path)}, {"-b", "@ROOT@/" + b.path}, {"--babfile=" + rel(b.path)}, {"-b", "./" + rel(b.path)}, {"-b" + rel(b.path)}, {"--babfile", "@ROOT@/else/../" + b.path}} {
					if !yield(&bb.Case{Key: fmt.Sprintf("%q from %s", form, cwd), Cwd: cwd, Data: p21data{lay: l, want: b.want, args: form}}) {
						return
					}
				}
			}
		}
	}
	bb.ExploreWith(ch, gen, func(c *bb.Case) bb.Got {
		outer := bb.NewRoot()
		defer bb.RemoveRoot(outer)
		root := filepath.Join(outer, "p")
		d := c.Data.(p21data)
		build(root, d.lay)
		for i, o := range others {
			if d.junk != -1 && d.junk != i+1 {
				continue
			}
			for _, dir := range []string{"r", "r/a", "r/a/b", "r/a/b/c"} {
				p := filepath.Join(root, dir, o)
				if o == ".git" || o == ".hg" || o == ".svn" || o == ".bab" {
					_ = os.Mkdir(p, 0o755)
					continue
				}
				_ = os.MkdirAll(filepath.Dir(p), 0o755)
				_ = os.WriteFile(p, []byte(babText("id77")), 0o644)
			}
		}
		if d.args != nil {
			_ = os.WriteFile(filepath.Join(root, "else/other.txt"), []byte(babText("id99")), 0o644)
			_ = os.WriteFile(filepath.Join(root, "else/we ird"), []byte(babText("id99")), 0o644)
			_ = os.WriteFile(filepath.Join(root, "else/-n"), []byte(babText("id99")), 0o644)
			_ = os.WriteFile(filepath.Join(root, "else/empty"), nil, 0o644)
			_ = os.Symlink("../r/a/Babfile", filepath.Join(root, "else/link"))
			_ = os.Symlink("nothing", filepath.Join(root, "else/dangling"))
		}
		var g bb.Got
		for _, a := range [][]string{{"t"}, {"-n", "t"}, {"--list"}, {"--validate"}, {"__complete", ""}} {
			c2 := *c
			c2.Args = append(append([]string{}, d.args...), a...)
			if a[0] == "__complete" {
				c2.Args = append(append([]string{"__complete"}, d.args...), "")
			}
			g.Sub = append(g.Sub, bb.RunIn(outer, root, &c2))
			ch.Count("invocations", 1)
		}
		return g
	}, func(c *bb.Case, g bb.Got) string {
		d := c.Data.(p21data)
		for i, s := range g.Sub {
			what := []string{"a run", "a dry run", "the list", "validation", "completion"}[i]
			if i > 0 && len(s.Log) > 0 {
				return what + " ran something"
			}
			if d.want == "none" || d.want == "broken" {
				if i == 4 {
					if n := strings.Split(s.Stdout, "\n")[0]; !strings.HasPrefix(n, ":") {
						return fmt.Sprintf("completion offers %q, there is no usable Babfile", n)
					}
					continue
				}
				if s.Exit != 1 || len(s.Log) > 0 || s.Stderr == "" {
					return fmt.Sprintf("%s: exit %d, ran %q, although there is no usable Babfile: %s %s", what, s.Exit, s.Log, s.Stdout, bb.Plain(s.Stderr))
				}
				continue
			}
			if i == 4 && len(d.args) == 1 && strings.HasPrefix(d.args[0], "-b") {
				continue // cobra's completion does not know a flag with its value attached
			}
			ok := s.Exit == 0
			switch i {
			case 0:
				ok = ok && len(s.Log) == 1 && s.Log[0] == d.want
			case 1:
				ok = ok && strings.Contains(s.Stderr, d.want)
			case 2, 4:
				ok = ok && strings.Contains(s.Stdout, d.want) && strings.Count(s.Stdout, "id") == 1
			}
			if !ok {
				return fmt.Sprintf("%s must use %s: exit %d, ran %q, shows %q %q", what, d.want, s.Exit, s.Log, bb.Plain(s.Stdout), bb.Plain(s.Stderr))
			}
		}
		return ""
	})
	wide21(ch)
	// the picker
	bb.ExploreWith(ch, func(yield func(*bb.Case) bool) {
		for _, b := range [][]string{nil, {"-b", "other/x.yml"}, {"-b", "Babfile"}, {"-b", "@ROOT@/babfile.yml"}} {
			w := map[string]string{"": "id1", "other/x.yml": "id2", "Babfile": "id1", "@ROOT@/babfile.yml": "id3"}
			last := ""
			if b != nil {
				last = b[1]
			}
			if !yield(&bb.Case{Key: fmt.Sprintf("picker %q", b), Files: map[string]string{"Babfile": babText("id1"), "other/x.yml": babText("id2"), "babfile.yml": babText("id3")}, Args: b, Data: w[last]}) {
				return
			}
		}
	}, func(c *bb.Case) bb.Got {
		outer := *c
		if len(c.Args) > 0 && strings.HasPrefix(c.Args[1], "@ROOT@") {
			outer.Args = []string{"-b", "./babfile.yml"}
		}
		return onTerminal(&outer, 80, 24, []step{{"bab.sh", "\r"}})
	}, func(c *bb.Case, g bb.Got) string {
		if g.TimedOut || g.Exit != 0 || !sameStrings(g.Log, []string{c.Data.(string)}) {
			return fmt.Sprintf("the picker must offer the tasks of %s: exit %d, ran %q: %q", c.Data, g.Exit, g.Log, tail(pty.Plain(g.Stdout), 400))
		}
		return ""
	})
}
