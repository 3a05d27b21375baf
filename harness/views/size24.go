package main

import (
	"fmt"
	"strings"
	"unicode"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func paste(s string) key { return key{"paste " + s, tea.PasteMsg{Content: s}, ""} }

// sizes24 are pickers with many rows, at every size, and names of every length
// and with every character.
func sizes24(ch *vlib.Check) {
	ns := []int{1, 2, 3, 9, 10, 11, 15, 16, 17, 31, 32, 33, 50, 64, 99, 100, 101, 128, 255, 256, 257, 400}
	if !ch.Thorough() {
		ns = []int{1, 2, 10, 16, 17, 33, 64, 100, 101, 257}
	}
	type job struct {
		w world
		o *orders
		h []key
	}
	var jobs []job
	rep := func(k key, n int) (out []key) {
		for range n {
			out = append(out, k)
		}
		return
	}
	cat := func(ks ...[]key) (out []key) {
		for _, k := range ks {
			out = append(out, k...)
		}
		return
	}
	for _, n := range ns {
		w := world{name: fmt.Sprintf("%d rows", n)}
		for i := range n {
			p := pick{name: fmt.Sprintf("t%03d", i)}
			if i%3 == 0 {
				p.desc = strings.Repeat("word ", i%20)
			}
			if i%4 == 1 {
				p.aliases = []string{fmt.Sprintf("q%d", i), fmt.Sprintf("alias-%d", i)}
			}
			w.tasks = append(w.tasks, p)
		}
		o := &orders{m: map[string][]string{}}
		put := func(h []key) { jobs = append(jobs, job{w, o, h}) }
		for _, ht := range []int{1, 4, 5, 6, 7, 14, 20, 24, 36, 37, 60, 104, 105, 300} {
			vis := max(1, ht-4)
			for _, k := range []int{0, 1, vis - 1, vis, vis + 1, 2 * vis, n / 2, n - vis - 1, n - vis, n - 2, n - 1, n, n + 2} {
				if k < 0 || k > n+2 {
					continue
				}
				at := cat([]key{size(80, ht)}, rep(kDown, k))
				put(at)
				// grow, shrink, and back up
				for _, h2 := range []int{5, 20, 60} {
					put(cat(at, []key{size(80, h2)}))
					put(cat(at, []key{size(80, h2)}, rep(kUp, min(k, vis+1))))
				}
				put(cat(at, rep(kUp, min(k, vis))))
				put(cat(at, rep(kUp, min(k, vis+1)), rep(kDown, 2)))
				put(cat(at, []key{runes("t"), kBack}))
			}
			for _, k := range []int{0, n / 2, n - 1} {
				put(cat([]key{size(80, ht)}, rep(kDown, n/2), []key{paste(fmt.Sprintf("t%03d", k))}))
				put(cat([]key{size(80, ht)}, rep(kDown, n/2), []key{paste("1"), kDown, kDown, kUp, size(30, 9)}))
				put(cat([]key{size(80, ht), paste(fmt.Sprintf("q%d", k/4*4+1))}))
				put(cat([]key{size(80, ht), paste(fmt.Sprintf("alias-%d", k/4*4+1)), kDown}))
			}
		}
	}
	// Names, aliases and descriptions of any length, at any width.
	for _, n := range []int{1, 2, 20, 39, 40, 41, 59, 60, 76, 77, 78, 79, 80, 81, 98, 99, 100, 101, 120, 200, 300, 1000} {
		long := strings.Repeat("n", n)
		for i, c := range []string{"n", "é", "日"} {
			long = strings.Repeat(c, n)
			w := world{name: fmt.Sprintf("length %d %s", n, c), tasks: []pick{{long + "x", []string{"y" + long}, long}, {"short", nil, long}, {"other", []string{long}, ""}}}
			o := &orders{m: map[string][]string{}}
			for _, wd := range []int{1, 10, 39, 79, 80, 81, 200} {
				for _, q := range []string{"", "x", c, "y", "s", "zz"} {
					jobs = append(jobs, job{w, o, []key{size(wd, 20), paste(q), kDown}})
				}
				if n < 98 && i == 0 {
					jobs = append(jobs, job{w, o, []key{size(wd, 20), paste(long + "x")}}, job{w, o, []key{size(wd, 20), paste("y" + long)}}, job{w, o, []key{size(wd, 20), paste(long)}})
				}
			}
		}
	}
	// Every character in names and aliases, typed alone and in its context.
	top := rune(0x500)
	if ch.Thorough() {
		top = 0x3000
	}
	for r := rune(0x21); r < top; r++ {
		c := string(r)
		if !unicode.IsPrint(r) || unicode.IsSpace(r) {
			continue
		}
		w := world{name: fmt.Sprintf("character %U", r), tasks: []pick{{"a" + c + "b", nil, ""}, {"ab", []string{c}, ""}, {"plain", []string{"p" + c}, c}, {"sk", nil, ""}}}
		o := &orders{m: map[string][]string{}}
		for _, q := range [][]key{{runes(c)}, {paste("a" + c)}, {paste(strings.ToUpper(c))}, {paste("p" + c), kDown}, {paste(c + c)}, {runes(c), kBack}} {
			jobs = append(jobs, job{w, o, q})
		}
	}
	parallel(jobs, func(j job) {
		if ch.Enough() || ch.Expired() {
			return
		}
		pickRun(ch, j.w, j.o, j.h)
		ch.States(1, int64(len(j.h)))
	})
	ch.Set("sized_histories", len(jobs))
}
