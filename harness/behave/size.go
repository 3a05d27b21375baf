package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// sizes are the lengths that are tried of everything that can be long.
func sizes(small, upTo int) []int {
	var out []int
	for n := 1; n <= small; n++ {
		out = append(out, n)
	}
	for _, p := range []int{32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131000} {
		for d := -1; d <= 1; d++ {
			if p+d <= upTo && p+d > small {
				out = append(out, p+d)
			}
		}
	}
	return out
}

// environ logs the whole environment, one variable in a line; a line break in
// a value becomes \x01.
func environ() *spec.Item { return spec.Cmd(`tr '\0\n' '\n\1' < /proc/self/environ >> "$BLOG"`) }

// sizes11 has values with every character, long values, and many variables.
func sizes11(ch *vlib.Check) {
	type want map[string]string
	gen := func(yield func(*bb.Case) bool) {
		put := func(key string, g, t, c spec.KV, os []string) bool {
			w := want{}
			for _, kv := range os {
				n, v, _ := strings.Cut(kv, "=")
				w[n] = v
			}
			for _, l := range []spec.KV{g, t, c} {
				for _, kv := range l {
					w[kv[0]] = kv[1]
				}
			}
			esc := func(l spec.KV) spec.KV {
				var out spec.KV
				for _, kv := range l {
					out = append(out, [2]string{kv[0], strings.ReplaceAll(kv[1], "${{", "$${{")})
				}
				return out
			}
			own := environ()
			own.Env = esc(c)
			f := &spec.File{Env: esc(g), Tasks: []*spec.Task{{Name: "t", Env: esc(t), Run: []*spec.Item{own}}}}
			return yield(&bb.Case{Key: key, Files: map[string]string{"Babfile": f.YAML()}, Args: []string{"t"}, Env: os, Data: w})
		}
		// The characters, two hundred in a run, on each level.
		var chars []string
		for r := rune(2); r < 0x3000; r++ {
			chars = append(chars, string(r), "x"+string(r)+"x")
		}
		for _, r := range []rune{0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff} {
			chars = append(chars, string(r))
		}
		chars = append(chars, " ", "  a  ", "\t", "\n", "a\n", "\na", "a=b", "=", "==", "${{ v }}", "$${{ v }}", "$A", "${A}", "`a`", "'", `"`, `\`, `\n`, "#", "a #b", "null", "~", "true", "0x10", "1e3", "- a", "{a: b}", "[a]", "*a", "&a", "!a", "%", "@", "|", ">")
		for level := range 4 {
			for i := 0; i < len(chars); i += 200 {
				var kv spec.KV
				var os []string
				for k, c := range chars[i:min(i+200, len(chars))] {
					n := fmt.Sprintf("C_%d", k)
					kv = append(kv, [2]string{n, c})
					os = append(os, n+"="+c)
				}
				l := make([]spec.KV, 4)
				l[level] = kv
				if level > 0 {
					os = nil
				}
				if !put(fmt.Sprintf("characters %d on level %d", i, level), l[1], l[2], l[3], os) {
					return
				}
			}
		}
		// Names.
		names := spec.KV{}
		for r := rune('A'); r <= 'z'; r++ {
			if r <= 'Z' || r >= 'a' || r == '_' {
				for _, n := range []string{"K" + string(r), string(r) + "K", "k" + string(r) + "9", string(r) + string(r) + "_"} {
					names = append(names, [2]string{n, "is " + n})
				}
			}
		}
		for _, n := range []string{"BAB", "BAB_X", "CI_X", "TERM", "LANG", "LC_ALL", "EDITOR", "PAGER", "NO_COLOR", "FORCE_COLOR", "CLICOLOR", "USER", "LOGNAME", "TZ", "TMPDIR", "GOPATH", "LD_X", "IFS_X", "CDPATH", "XDG_DATA_HOME", "http_proxy", "HTTP_PROXY"} {
			names = append(names, [2]string{n, "is " + n})
		}
		for level := range 4 {
			l := make([]spec.KV, 4)
			l[level] = names
			var os []string
			if level == 0 {
				for _, kv := range names {
					os = append(os, kv[0]+"="+kv[1])
				}
			}
			if !put(fmt.Sprintf("names on level %d", level), l[1], l[2], l[3], os) {
				return
			}
			// each level overrides all below it
			if level > 0 {
				for below := range level {
					m := make([]spec.KV, 4)
					var over spec.KV
					for _, kv := range names {
						over = append(over, [2]string{kv[0], "over " + kv[0]})
					}
					m[level], m[below] = over, names
					os = nil
					if below == 0 {
						for _, kv := range names {
							os = append(os, kv[0]+"="+kv[1])
						}
					}
					if !put(fmt.Sprintf("names on level %d over %d", level, below), m[1], m[2], m[3], os) {
						return
					}
				}
			}
		}
		// Long values, long names and many variables.
		for _, n := range sizes(20, 131000) {
			for level := range 4 {
				l := make([]spec.KV, 4)
				l[level] = spec.KV{{"LONG", strings.Repeat("x", n)}, {"AFTER", "y"}}
				if n < 1000 {
					l[level] = append(l[level], [2]string{"N" + strings.Repeat("n", n), "v"})
				}
				var os []string
				if level == 0 {
					for _, kv := range l[0] {
						os = append(os, kv[0]+"="+kv[1])
					}
				}
				if !put(fmt.Sprintf("a value of %d on level %d", n, level), l[1], l[2], l[3], os) {
					return
				}
				if n <= 2049 {
					var kv spec.KV
					os = nil
					for i := range n {
						kv = append(kv, [2]string{fmt.Sprintf("M%d", i), fmt.Sprintf("m%d", i)})
						os = append(os, fmt.Sprintf("M%d=m%d", i, i))
					}
					l[level] = kv
					if level > 0 {
						os = nil
					}
					if !put(fmt.Sprintf("%d variables on level %d", n, level), l[1], l[2], l[3], os) {
						return
					}
				}
			}
		}
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		w := c.Data.(want)
		if g.Exit != 0 || g.TimedOut {
			return fmt.Sprintf("exit %d: %.300s", g.Exit, bb.Plain(g.Stderr))
		}
		got := map[string]string{}
		var twice []string
		for _, l := range g.Log {
			n, v, _ := strings.Cut(l, "=")
			if _, ok := got[n]; ok {
				twice = append(twice, n)
			}
			got[n] = strings.ReplaceAll(v, "\x01", "\n")
		}
		var names []string
		for n := range w {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if v, ok := got[n]; !ok || v != w[n] {
				return fmt.Sprintf("%.50s is %.100q (set: %v), must be %.100q", n, v, ok, w[n])
			}
		}
		if len(twice) > 0 {
			return fmt.Sprintf("set twice: %v", twice)
		}
		// Nothing else comes in.
		known := map[string]bool{"PWD": true, "OLDPWD": true, "_": true, "SHLVL": true}
		for _, kv := range bb.BaseEnv("", "") {
			n, _, _ := strings.Cut(kv, "=")
			known[n] = true
		}
		for n := range got {
			if _, ok := w[n]; !ok && !known[n] {
				return fmt.Sprintf("%q is set to %.100q", n, got[n])
			}
		}
		return ""
	})
}

// sizes12 has directories of every name, depth and length.
func sizes12(ch *vlib.Check) {
	gen := func(yield func(*bb.Case) bool) {
		put := func(name, dir, isDir string, links map[string]string) bool {
			for _, level := range []string{"file", "task", "command", "variable", "included", "block"} {
				f := &spec.File{}
				it := spec.Cmd(`printf '%s\n' "1 $(pwd -P)" >>"$BLOG"`)
				t := &spec.Task{Name: "t", Run: []*spec.Item{it}}
				f.Tasks = []*spec.Task{t}
				text := strings.ReplaceAll(dir, "${{", "$${{")
				files := map[string]string{}
				arg := "t"
				switch level {
				case "file":
					f.Dir = text
				case "task":
					t.Dir = text
				case "command":
					it.Dir = text
				case "variable":
					f.Vars = spec.KV{{"d", text}}
					it.Dir = "${{ d }}"
				case "included":
					it.Dir = text
					arg = "n:t"
				case "block":
					it.Dir = text
					t.Run = []*spec.Item{spec.Par(it)}
				}
				files["p/Babfile"] = f.YAML()
				if arg != "t" {
					files["Babfile"] = (&spec.File{Includes: spec.KV{{"n", "p/Babfile"}}}).YAML()
				}
				c := &bb.Case{Key: fmt.Sprintf("%s, %s", name, level), Files: files, Dirs: []string{"p", "p/" + isDir}, Links: links, Cwd: "p", Args: []string{arg}, Data: "/p/" + isDir}
				if arg != "t" {
					c.Cwd = "."
				}
				if strings.HasPrefix(isDir, "!") {
					c.Dirs, c.Data = []string{"p"}, ""
				}
				if !yield(c) {
					return false
				}
			}
			return true
		}
		for r := rune(0x20); r < 0x180; r++ {
			if r == '/' || r >= 0x7f && r < 0xa1 {
				continue
			}
			c := string(r)
			for i, n := range []string{"a" + c + "b", c + "x", "x" + c, c + c + c} {
				if r > 0x7f && i > 0 && !ch.Thorough() {
					break
				}
				if strings.TrimSpace(n) == "" {
					continue
				}
				if !put(fmt.Sprintf("named %q", n), n, n, nil) {
					return
				}
			}
		}
		for _, n := range []string{"日本", "👩‍💻", "e\u0301", "$HOME", "${HOME}", "~", "~root", "%TEMP%", "${{ x }}", "-", "--", "...", "..a", ".hidden", "null", "true", "CON", "a b  c", `a\b`} {
			if !put(fmt.Sprintf("named %q", n), n, n, nil) || !put(fmt.Sprintf("below %q", n), n+"/sub", n+"/sub", nil) || !put(fmt.Sprintf("dotted %q", n), "./"+n+"/", n, nil) {
				return
			}
		}
		for _, n := range sizes(40, 255) {
			n := strings.Repeat("n", n)
			if !put(fmt.Sprintf("a name of %d", len(n)), n, n, nil) {
				return
			}
		}
		for _, n := range sizes(12, 400) {
			deep := strings.TrimSuffix(strings.Repeat("d/", n), "/")
			if !put(fmt.Sprintf("depth %d", n), deep, deep, nil) || !put(fmt.Sprintf("there and back %d", n), strings.Repeat("x/../", n)+"x", "x", nil) || !put(fmt.Sprintf("dots %d", n), strings.Repeat("./", n)+"x"+strings.Repeat("/", n), "x", nil) {
				return
			}
			if !put(fmt.Sprintf("missing at depth %d", n), deep+"/no", "!", nil) {
				return
			}
		}
		// Links to directories, to files, and to nothing.
		if !put("a link", "l", "real", map[string]string{"p/l": "real"}) ||
			!put("below a link", "l/sub", "real/sub", map[string]string{"p/l": "real"}) ||
			!put("a link to a link", "m", "real", map[string]string{"p/l": "real", "p/m": "l"}) ||
			!put("a link out", "l", "real", map[string]string{"p/l": "../p/real"}) ||
			!put("a link to a file", "l", "!", map[string]string{"p/l": "Babfile"}) ||
			!put("a dangling link", "l", "!", map[string]string{"p/l": "nowhere"}) ||
			!put("a link to itself", "l", "!", map[string]string{"p/l": "l"}) ||
			!put("a file", "Babfile", "!", nil) ||
			!put("below a file", "Babfile/x", "!", nil) {
			return
		}
	}
	bb.Explore(ch, gen, func(c *bb.Case, g bb.Got) string {
		d := c.Data.(string)
		if d == "" {
			if g.Exit != 1 || len(g.Log) != 0 {
				return fmt.Sprintf("exit %d, ran in %q, must fail", g.Exit, g.Log)
			}
			return ""
		}
		if want := "1 " + g.Root + d; g.Exit != 0 || strings.Join(g.Log, "\n") != want {
			return fmt.Sprintf("ran in %.300q (exit %d), must be %.300q; stderr: %.300s", g.Log, g.Exit, want, bb.Plain(g.Stderr))
		}
		return ""
	})
}
