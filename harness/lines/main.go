// Command lines decides the properties about the output of parallel items: P05 and P06.
package main

import (
	"os"
	"runtime"
	"sync"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

var checks = map[string]func(*vlib.Check){}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "item" {
		item(os.Args[2:])
		return
	}
	ch := vlib.New(os.Args[1], "exploration")
	checks[os.Args[1]](ch)
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}

// words enumerates all words over n letters with lengths from lo to hi, in
// blocks by their first letters, on all cores. f reports whether to go on.
func words(ch *vlib.Check, n, lo, hi int, f func(w []int) bool) {
	type job struct{ prefix []int }
	jobs := make(chan job, 1024)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if ch.Enough() || ch.Expired() {
					ch.NotExhaustive()
					continue
				}
				cnt := int64(0)
				rest := hi - len(j.prefix)
				if len(j.prefix) < 2 {
					rest = 0 // short words are jobs of their own
				}
				w := append([]int(nil), j.prefix...)
				var rec func(k int) bool
				rec = func(k int) bool {
					if len(w) >= lo {
						cnt++
						if !f(w) {
							return false
						}
					}
					if k == 0 {
						return true
					}
					for i := range n {
						w = append(w, i)
						ok := rec(k - 1)
						w = w[:len(w)-1]
						if !ok {
							return false
						}
					}
					return true
				}
				rec(rest)
				ch.Count("words", cnt)
			}
		}()
	}
	jobs <- job{nil}
	if hi >= 1 {
		for i := range n {
			jobs <- job{[]int{i}}
		}
	}
	if hi >= 2 {
		for i := range n {
			for j := range n {
				jobs <- job{[]int{i, j}}
			}
		}
	}
	close(jobs)
	wg.Wait()
}
