package updhist

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/bab-sh/bab/internal/update"
)

// sizes are version numbers, ages, delays, answers, tags and histories of every
// size, beyond those of the exploration.
func sizes() {
	_ = os.Unsetenv("CI")
	_ = os.Unsetenv("BAB_NO_UPDATE_CHECK")
	pair := func(l, c string) {
		if ch.Enough() || ch.Expired() {
			return
		}
		b, _ := json.Marshal(rec{time.Now().Add(-time.Hour), l, ""})
		_ = os.WriteFile(file, b, 0o644)
		got := update.CheckCached(c)
		ch.Eval("versions " + l + " " + c)
		ch.States(0, 1)
		if (got != nil) != newer(l, c) || got != nil && (got.CurrentVersion != c || got.LatestVersion != l) {
			ch.Violation("cached "+l+", running "+c, map[string]any{"announced": got, "newer": newer(l, c)})
		}
	}
	put([]byte("{}"))
	// Numbers of every size, at every place, against every other.
	nums := []int{0, 1, 2, 3, 8, 9, 10, 11, 19, 20, 21, 90, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 32768, 65535, 65536, 99999, 100000, 2147483647, 2147483648, 4294967295, 4294967296, 9999999999}
	for _, a := range nums {
		for _, b := range nums {
			pair(fmt.Sprintf("v%d.0.0", a), fmt.Sprintf("v%d.9.9", b))
			pair(fmt.Sprintf("v1.%d.0", a), fmt.Sprintf("1.%d.5", b))
			pair(fmt.Sprintf("1.2.%d", a), fmt.Sprintf("v1.2.%d", b))
			pair(fmt.Sprintf("v%d.%d.0", a, b), fmt.Sprintf("v%d.%d.0", b, a))
			pair(fmt.Sprintf("v0.%d.%d", b, a), fmt.Sprintf("v0.%d.%d", a, b))
			pair(fmt.Sprintf("v1.2.0-rc.%d", a), fmt.Sprintf("v1.2.0-rc.%d", b))
			pair(fmt.Sprintf("v1.2.%d-rc.1", a), fmt.Sprintf("v1.2.%d", b))
			pair(fmt.Sprintf("v1.2.%d", a), fmt.Sprintf("v1.2.%d-rc.1", b))
			pair(fmt.Sprintf("v1.2.0-%d", a), fmt.Sprintf("v1.2.0-%d.%d", b, a))
			pair(fmt.Sprintf("v1.%d.2+b%d", a, b), fmt.Sprintf("v1.%d.2+b%d", b, a))
			pair(fmt.Sprintf("v%d", a), fmt.Sprintf("v%d.0.1", b))
		}
	}
	pres := []string{"", "-0", "-1", "-a", "-a.1", "-a.1.1", "-alpha", "-alpha.1", "-beta", "-beta.2", "-beta.11", "-rc.1", "-rc1", "-rc10", "-rc.1.1.1.1.1", "-" + strings.Repeat("x", 200), "-" + strings.Repeat("x", 200) + "y", "+x", "-rc.1+x"}
	for _, p := range pres {
		for _, q := range pres {
			pair("v1.2.3"+p, "v1.2.3"+q)
			pair("1.2.3"+p, "v1.2.4"+q)
			pair("v1.3.0"+p, "1.2.3"+q)
		}
	}

	run := func(n node, ev event) node {
		if ch.Enough() || ch.Expired() {
			return n
		}
		o, why := transition(n, ev)
		ch.States(1, 1)
		ch.Validated(1)
		ch.Eval("sized " + fmt.Sprint(n.key(), "|", ev, len(n.history), n.now.Sub(n.m.CheckedAt), len(n.raw)))
		if why != "" {
			h := o.history
			if len(h) > 8 {
				h = append([]string{fmt.Sprintf("(%d more)", len(h)-8)}, h[len(h)-8:]...)
			}
			ch.Violation("history: "+strings.Join(h, "; "), map[string]any{"why": why, "before": fmt.Sprintf("%.300q", n.raw), "after": fmt.Sprintf("%.300q", o.raw)})
		}
		return o
	}
	at := func(age time.Duration, tag, etag string) node {
		m := model{true, rec{started.Add(-age), tag, etag}}
		b, _ := json.Marshal(m.rec)
		return node{now: started, raw: b, m: m, history: []string{fmt.Sprintf("cached %.40s %.40s %v ago", tag, etag, age)}}
	}
	put1 := func(a answer) int {
		allAns = append(allAns, a)
		return len(allAns) - 1
	}
	const day = 24 * time.Hour
	none := node{now: started, history: []string{"no cache"}}
	old := at(3*day, "v1.1.0", `"b"`)
	good := func(tag, etag string) answer {
		return answer{name: fmt.Sprintf("200 %.40s %.40s", tag, etag), status: 200, tag: tag, etag: etag, body: release(tag)}
	}
	n304 := put1(answer{name: "304", status: 304})
	fail := put1(answer{name: "refused", err: true})

	// Ages of every size.
	g := put1(good("v1.4.0", `"g"`))
	for mins := -3000; mins <= 3000; mins += 41 {
		age := time.Duration(mins) * time.Minute
		run(at(age, "v1.3.0", `"a"`), event{0, 0, g})
		run(at(age, "v1.3.0", `"a"`), event{0, 0, n304})
	}
	for _, age := range []time.Duration{day - time.Second, day - time.Millisecond, day - 1, day, day + 1, day + time.Second, 7 * day, 30 * day, 365 * day, 3650 * day, 36500 * day, -day, -365 * day, -36500 * day, 1, -1} {
		for _, x := range []int{g, n304, fail} {
			run(at(age, "v1.3.0", `"a"`), event{0, 0, x})
		}
	}
	// Delays of every size: before and after the limit.
	for ms := 0; ms <= 9000; ms += 250 {
		if ms == 5000 {
			continue
		}
		d := time.Duration(ms) * time.Millisecond
		a := good("v1.4.0", `"g"`)
		a.name, a.delay = fmt.Sprint("200 after ", d), d
		b := answer{name: fmt.Sprint("304 after ", d), status: 304, delay: d}
		for _, x := range []int{put1(a), put1(b)} {
			run(none, event{0, 0, x})
			run(old, event{0, 0, x})
		}
	}
	// Answers of every size up to the limit, the tag before, behind and within
	// all the rest.
	for _, size := range []int{100, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4000, 4095, 4096, 4097, 16000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 262144, 500000, 524288, 1000000, 1<<20 - 1, 1 << 20} {
		for form := range 3 {
			parts := []string{`{"tag_name":"v1.4.0","body":"`, `"}`}
			switch form {
			case 1:
				parts = []string{`{"body":"`, `","tag_name":"v1.4.0"}`}
			case 2:
				parts = []string{`{"assets":[{"tag_name":"v9.9.9","x":"`, `"}],"tag_name":"v1.4.0","name":null}`}
			}
			pad := size - len(parts[0]) - len(parts[1])
			if pad < 0 {
				continue
			}
			x := put1(answer{name: fmt.Sprintf("form %d of %d bytes", form, size), status: 200, tag: "v1.4.0", etag: `"g"`, body: parts[0] + strings.Repeat("x", pad) + parts[1]})
			run(none, event{0, 0, x})
			run(old, event{0, 0, x})
		}
	}
	// Tags and their versions of every length and with every character: what is
	// kept now is asked with a day later.
	follow := func(tag, etag string) {
		o := run(old, event{0, 0, put1(good(tag, etag))})
		o = run(o, event{time.Hour, 0, g})
		o = run(o, event{day, 0, n304})
		run(o, event{2 * day, 0, fail})
	}
	for _, n := range []int{1, 2, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 8000, 20000} {
		follow("v1.4.0", `"`+strings.Repeat("e", n)+`"`)
		follow("v1.4.0-"+strings.Repeat("r", n), `W/"x"`)
	}
	for c := rune(0x20); c < 0x180; c++ {
		if c < 0x7f && c != '"' {
			follow("v1.4.0", `"a`+string(c)+`b"`)
		}
		if c >= 0x7f && c < 0xa1 {
			continue
		}
		follow("v1.4.0", "\"x\"")
		follow("release-"+string(c)+"-x", `"y"`)
	}
	// Commands again and again, for weeks.
	for _, step := range []time.Duration{time.Hour, 5 * time.Hour, 11 * time.Hour, 12 * time.Hour, 23*time.Hour + 58*time.Minute, day - time.Minute, day, day + time.Minute, 36 * time.Hour} {
		for mode := range 4 {
			n := old
			for i := range 60 {
				if ch.Enough() || ch.Expired() {
					break
				}
				x := n304
				switch {
				case mode == 1 && i%3 == 0, mode == 3 && i%7 == 2:
					x = put1(good(fmt.Sprintf("v1.%d.0", i), fmt.Sprintf(`"e%d"`, i)))
				case mode == 2, mode == 3 && i%2 == 0:
					x = fail
				}
				n = run(n, event{step, 0, x})
			}
		}
	}
}
