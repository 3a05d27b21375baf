// Command text decides the properties about substitution, conditions and
// variables: P09, P10 and P14, in process and through the binary.
package main

import (
	"os"
	"runtime"
	"sync"

	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

var checks = map[string]func(*vlib.Check){}

func main() {
	for _, k := range []string{"EA", "EB", "a", "p"} {
		_ = os.Unsetenv(k)
	}
	_ = os.Setenv("EA", "env value ${{ a }}")
	_ = os.Setenv("EB", "")
	ch := vlib.New(os.Args[1], "exploration")
	checks[os.Args[1]](ch)
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}

// words calls f with every word of exactly n letters of the alphabet, in
// parallel, split by the first two letters.
func words(ch *vlib.Check, alphabet []string, n int, f func(word []int)) {
	type job struct{ a, b int }
	jobs := make(chan job)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				w := make([]int, n)
				pre := 0
				if n > 0 {
					w[0], pre = j.a, 1
				}
				if n > 1 {
					w[1], pre = j.b, 2
				}
				var rec func(k int)
				rec = func(k int) {
					if k == n {
						f(w)
						return
					}
					for i := range alphabet {
						w[k] = i
						rec(k + 1)
					}
				}
				rec(pre)
			}
		}()
	}
	na, nb := 1, 1
	if n > 0 {
		na = len(alphabet)
	}
	if n > 1 {
		nb = len(alphabet)
	}
	for a := range na {
		for b := range nb {
			if ch.Enough() || ch.Expired() {
				ch.NotExhaustive()
				continue
			}
			jobs <- job{a, b}
		}
	}
	close(jobs)
	wg.Wait()
}

func product(sizes []int, f func(ix []int) bool) bool {
	ix := make([]int, len(sizes))
	for {
		if !f(ix) {
			return false
		}
		k := len(ix) - 1
		for k >= 0 {
			ix[k]++
			if ix[k] < sizes[k] {
				break
			}
			ix[k] = 0
			k--
		}
		if k < 0 {
			return true
		}
	}
}
