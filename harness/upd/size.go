package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

// sizes explores writers of answers of every size and of every number of
// leftovers.
func sizes(ch *vlib.Check) {
	type job struct {
		mode, kind string
		a          answer
		faults     []fault
		limit      string
	}
	var jobs []job
	lens := []int{1, 100, 500, 1000, 4000, 4096, 4097, 9000, 33000, 66000, 120000}
	if ch.Thorough() {
		lens = append(lens, 200, 511, 512, 513, 2000, 2047, 2048, 2049, 4095, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 100000)
	}
	for _, n := range lens {
		a := answer{"v1.5.0", `"` + strings.Repeat("e", n) + `"`}
		b := answer{"v1.5.0-" + strings.Repeat("r", n), `"e"`}
		for _, mode := range []string{"refresh", "force"} {
			for _, kind := range []string{"empty", "old"} {
				jobs = append(jobs, job{mode: mode, kind: kind, a: a}, job{mode: mode, kind: kind, a: b})
			}
		}
		for at := range 24 {
			for _, f := range []fault{{At: at, What: "kill"}, {At: at, What: "killafter"}, {At: at, What: "ENOSPC", Err: syscall.ENOSPC}} {
				jobs = append(jobs, job{mode: "refresh", kind: "old", a: a, faults: []fault{f}})
			}
		}
		for _, l := range []int{0, 1, n / 2, n - 1, n, n + 20, n + 60, 512, 1024, 4096, 8192, 65536} {
			if l >= 0 && l < n+200 {
				jobs = append(jobs, job{mode: "refresh", kind: "old", a: a, limit: fmt.Sprint(l)})
			}
		}
	}
	parallel(jobs, func(j job) {
		if ch.Enough() || ch.Expired() {
			return
		}
		p := setup(j.kind)
		defer p.done()
		start := time.Now()
		argv := []string{self, "helper", j.mode, j.a.tag, j.a.etag}
		if j.limit != "" {
			argv = append(argv, j.limit)
		}
		o := drive(p, argv, j.faults, func() string { return p.see(start, j.a) })
		key := fmt.Sprintf("size %s/%s tag of %d, etag of %d, limit %q", j.mode, j.kind, len(j.a.tag), len(j.a.etag), j.limit)
		for _, f := range j.faults {
			key += fmt.Sprintf(", %s@%d", f.What, f.At)
		}
		ch.Eval(key)
		ch.States(int64(len(o.log))+1, int64(len(o.log)))
		why := o.bad
		missing, extra := p.litter()
		switch {
		case o.runaway:
			why = "the writer does not end"
		case len(missing) > 0:
			why = fmt.Sprint("files of others: ", missing)
		case len(extra) > 0 && !o.killed && !o.unlinkKO:
			why = fmt.Sprint("left behind: ", extra)
		case len(j.faults) == 0 && j.limit == "":
			if b, _ := os.ReadFile(p.file); len(b) == 0 || bytes.Equal(b, p.old) {
				why = "the new answer was not stored"
			}
		}
		if why != "" {
			if len(why) > 600 {
				why = why[:300] + " … " + why[len(why)-300:]
			}
			ch.Violation(key, map[string]any{"why": why})
		}
	})
	ch.Set("sized_writers", len(jobs))

	// Leftovers: any number, of any age, among the files of others.
	counts := []int{1, 2, 5, 10, 33, 64, 100, 101, 128, 150, 257, 500}
	parallel(counts, func(n int) {
		for _, others := range []int{0, 1, 50, 300} {
			if ch.Enough() || ch.Expired() {
				return
			}
			p := setup("old")
			put := func(name string, age time.Duration) {
				f := filepath.Join(p.dir, name)
				_ = os.WriteFile(f, []byte(name), 0o600)
				at := time.Now().Add(-age)
				_ = os.Chtimes(f, at, at)
			}
			for i := range others {
				put(fmt.Sprintf("a-%d.tmp", i), 100*day)
				put(fmt.Sprintf("update-checked-%d", i), 100*day)
				put(fmt.Sprintf("z-update-check-%d.tmp", i), 100*day)
				put(fmt.Sprintf("update-check-%d.tmp", 900000+i), time.Duration(i%40)*time.Minute)
			}
			p.before = p.names()
			for i := range n {
				name := fmt.Sprintf("update-check-%d.tmp", uint32(i)*uint32(i)*uint32(2654435761))
				put(name, 2*time.Hour+time.Duration(i*i)*time.Hour)
			}
			start := time.Now()
			o := drive(p, []string{self, "helper", "refresh", newA.tag, newA.etag}, nil, nil)
			ch.Eval(fmt.Sprintf("%d leftovers, %d others", n, others))
			ch.States(int64(len(o.log))+1, int64(len(o.log)))
			missing, extra := p.litter()
			why := p.see(start, newA)
			switch {
			case len(missing) > 0:
				why = fmt.Sprintf("%d files of others are gone: %.300v", len(missing), missing)
			case len(extra) > 0:
				why = fmt.Sprintf("%d leftovers are still there: %.300v", len(extra), extra)
			}
			if b, _ := os.ReadFile(p.file); bytes.Equal(b, p.old) {
				why = "the new answer was not stored"
			}
			if why != "" {
				ch.Violation(fmt.Sprintf("%d leftovers, %d others", n, others), map[string]any{"why": why})
			}
			p.done()
		}
	})
}
