package main

import (
	"fmt"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// say is one line written by an item; nestAs is a nested block with these items.
func say(k, text string) event {
	return event{name: fmt.Sprintf("%s says %.20q", k, text), kind: "say", key: k, text: text}
}
func nestAs(k string, labels ...string) event {
	return event{name: fmt.Sprintf("%s nests %d", k, len(labels)), kind: "nest as", key: k, labels: labels}
}
func do(kind, k string) event { return event{name: kind + " " + k, kind: kind, key: k} }

func kev(k key) event { return event{name: k.name, kind: "key", k: k} }
func sev(w, h int) event {
	k := size(w, h)
	return event{name: k.name, kind: "size", k: k}
}

// sizes25 are views with many items, many lines, wide and deep nested blocks,
// and labels and lines of every length and with every character.
func sizes25(ch *vlib.Check) {
	type job struct {
		mode   string
		labels []string
		h      []event
	}
	var jobs []job
	put := func(mode string, labels []string, h ...[]event) {
		var all []event
		for _, x := range h {
			all = append(all, x...)
		}
		jobs = append(jobs, job{mode, labels, all})
	}
	rep := func(e event, n int) (out []event) {
		for range n {
			out = append(out, e)
		}
		return
	}
	names := func(n int, f string) (out []string) {
		for i := range n {
			out = append(out, fmt.Sprintf(f, i))
		}
		return
	}
	l := func(e ...event) []event { return e }
	end := []string{"ok", "fail", "stopped"}
	ns := []int{1, 2, 3, 9, 10, 11, 12, 17, 33, 64, 100, 101, 129}
	if ch.Thorough() {
		ns = append(ns, 16, 32, 63, 65, 128, 200, 256, 257, 300)
	}
	// Many items, in every mixture of states.
	for _, n := range ns {
		for st := range 4 {
			var h []event
			for i := range n {
				k := itoa(i)
				switch (i + st) % 4 {
				case 1:
					h = append(h, do("start", k), do("out", k))
				case 2:
					h = append(h, do("start", k), do("out", k), do(end[i%3], k))
				case 3:
					h = append(h, do("start", k))
					h = append(h, rep(do("out", k), 1+i%9)...)
				}
			}
			labels := names(n, "i%d")
			put("grouped", labels, l(sev(80, 24)), h)
			put("grouped", labels, h, l(kev(ctrl('c'))))
			for _, t := range []int{0, 1, n - 1, n, n + 1} {
				put("tabs", labels, l(sev(10*n+60, 12)), h, rep(kev(kTab), t))
				put("tabs", labels, l(sev(10*n+60, 12)), rep(kev(kSTab), t), h)
			}
		}
		// Ends in each order, and then all is over.
		var h, back []event
		for i := range n {
			h = append(h, do("start", itoa(i)))
			back = append([]event{do("ok", itoa(i))}, back...)
		}
		put("grouped", names(n, "i%d"), h, back)
		put("tabs", names(n, "i%d"), l(sev(10*n+60, 9)), h, back)
		put("grouped", names(n, "i%d"), h, back, l(event{name: "all done", kind: "all"}))
		put("tabs", names(n, "i%d"), h, back, l(event{name: "all done", kind: "all"}))
	}
	// Many lines, before and after a look at another tab.
	ls := []int{4, 5, 6, 7, 19, 20, 21, 99, 100, 101, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 1500}
	if ch.Thorough() {
		ls = append(ls, 2047, 2048, 2049, 4096, 5000)
	}
	two := []string{"one", "two"}
	for _, n := range ls {
		out := append(l(do("start", "0"), do("start", "1")), rep(do("out", "0"), n)...)
		put("grouped", two, out)
		put("grouped", two, out, l(do("fail", "0")))
		for _, ht := range []int{6, 9, 24, 104} {
			put("tabs", two, l(sev(80, ht)), out)
			put("tabs", two, l(sev(80, ht)), out, l(kev(kTab), kev(kSTab)))
			put("tabs", two, l(sev(80, ht), kev(kTab)), out, l(kev(kSTab)))
			put("tabs", two, l(sev(80, ht)), out, l(kev(kUp)), rep(do("out", "0"), 3))
			put("tabs", two, l(sev(80, ht)), out, l(do("ok", "0"), do("out", "1"), kev(kTab)))
			put("tabs", two, l(sev(80, 30)), out, l(sev(80, ht)))
		}
	}
	// Wide and deep nested blocks.
	for _, n := range ns {
		kids := names(n, "kid %d")
		h := l(do("start", "0"), do("out", "0"), nestAs("0", kids...))
		var rest, off []event
		for i := range n {
			k := "0." + itoa(i)
			h = append(h, do("start", k))
			if i%3 > 0 {
				h = append(h, say(k, fmt.Sprintf("word %d", i)))
			}
			rest = append(rest, do([]string{"ok", "fail"}[i%2], k))
		}
		off = l(do("unnest", "0"), do("out", "0"))
		put("grouped", two, h)
		put("grouped", two, h, rest)
		put("grouped", two, h, rest, off)
		for _, ht := range []int{6, 24, n + 4, n + 5} {
			put("tabs", two, l(sev(80, ht)), h)
			put("tabs", two, l(sev(80, ht)), h, rest)
			put("tabs", two, l(sev(80, ht)), h, rest, off)
		}
		// Again and again.
		again := l(do("start", "0"))
		for range n {
			again = append(again, nestAs("0", "a"), do("start", "0.0"), do("out", "0.0"), do("ok", "0.0"), do("unnest", "0"))
		}
		put("grouped", two, again)
		put("tabs", two, l(sev(80, 24)), again)
		put("tabs", two, l(sev(80, 24)), again, l(nestAs("0", "a", "b")))
	}
	for _, d := range []int{2, 3, 4, 5, 6, 8, 10} {
		var h, back []event
		k := "0"
		for i := range d {
			h = append(h, do("start", k), nestAs(k, fmt.Sprintf("in %d", i), "x"))
			back = append(l(do("ok", k+".0"), do("stopped", k+".1"), do("unnest", k)), back...)
			k += ".0"
		}
		leaf := l(do("start", k), do("out", k))
		put("grouped", two, h, leaf)
		put("tabs", two, l(sev(80, 24)), h, leaf)
		for b := 2; b <= len(back); b++ {
			// The deepest item ends, and its blocks with it.
			put("grouped", two, h, leaf, back[:b])
			put("tabs", two, l(sev(80, 24)), h, leaf, back[:b])
		}
	}
	// Labels and lines of every length.
	step := 1
	if !ch.Thorough() {
		step = 3
	}
	for n := 1; n <= 90; n += step {
		for _, c := range []string{"x", "é", "日", "e\u0301"} {
			s := strings.Repeat(c, n)
			if c != "日" || n < 60 {
				put("tabs", []string{s, "two"}, l(sev(250, 9), do("start", "0"), do("out", "0")))
				put("grouped", []string{s, "two"}, l(sev(250, 9), do("start", "0"), do("out", "0")))
			}
			put("grouped", two, l(do("start", "0"), say("0", s), say("0", "y"+s), say("0", "end")))
			put("tabs", two, l(sev(250, 9), do("start", "0"), say("0", s), say("0", "y"+s), say("0", "end")))
			put("grouped", two, l(do("start", "0"), nestAs("0", "a", "b"), do("start", "0.0"), say("0.0", s), do("start", "0.1"), say("0.1", s), say("0.1", "")))
			if n <= 30 {
				put("grouped", two, l(do("start", "0"), nestAs("0", s, "b"), do("start", "0.0"), say("0.0", "word"), do("start", "0.1"), do("fail", "0.0")))
				put("tabs", two, l(sev(80, 24), do("start", "0"), nestAs("0", s, "b"), do("start", "0.0"), do("fail", "0.0")))
			}
		}
	}
	// Every character.
	var r []rune
	for c := rune(0x21); c < 0x250; c++ {
		if c < 0x7f || c > 0xa0 && c != 0xad {
			r = append(r, c)
		}
	}
	for _, c := range r {
		s := "a" + string(c) + "b"
		t := string(c)
		put("grouped", []string{s, t}, l(do("start", "0"), say("0", s), say("0", t), say("0", t+t+" "+t), do("start", "1"), say("1", "  "+t)))
		put("tabs", []string{s, t}, l(sev(80, 24), do("start", "0"), say("0", s), say("0", t), say("0", "  "+t), do("start", "1"), say("1", t)))
		put("grouped", two, l(do("start", "0"), nestAs("0", s, t), do("start", "0.0"), say("0.0", s), do("start", "0.1"), say("0.1", t)))
		put("tabs", two, l(sev(80, 24), do("start", "0"), nestAs("0", s, t), do("start", "0.0"), do("start", "0.1"), do("fail", "0.1")))
	}
	parallel(jobs, func(j job) {
		if ch.Enough() || ch.Expired() {
			return
		}
		ch.States(1, int64(len(j.h)))
		viewRun(ch, j.mode, j.labels, j.h, true)
	})
	ch.Set("views of sizes", len(jobs))
}
