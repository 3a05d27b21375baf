// Command front decides the properties about reading Babfiles: P17 to P21.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

var checks = map[string]func(*vlib.Check){}

func main() {
	ch := vlib.New(os.Args[1], "exploration")
	checks[os.Args[1]](ch)
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}

// doc is one case for the parser itself.
type doc struct {
	key     string
	files   map[string]string // the first to parse is Babfile
	trivial bool
	x       any
}

// parsed is what the parser said.
type parsed struct {
	res   *parser.ParseResult
	err   error
	panic any
	hung  bool
	dir   string
}

// parseIn writes the files to a directory and parses its Babfile.
func parseIn(dir string, files map[string]string) (p parsed) {
	p.dir = dir
	for name, text := range files {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	defer func() { p.panic = recover() }()
	p.res, p.err = parser.Parse(filepath.Join(dir, "Babfile"))
	return p
}

// each runs the judge on every document, on all cores. A document the parser
// does not finish within a minute counts as hung.
func each(ch *vlib.Check, gen func(yield func(doc) bool), judge func(d doc, dir string) string) {
	work := make(chan doc, 256)
	var wg sync.WaitGroup
	for i := range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			dir := bb.NewRoot()
			_ = i
			var keys []uint64
			n := int64(0)
			var mu sync.Mutex
			var began time.Time
			var cur doc
			stop := make(chan struct{})
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(5 * time.Second):
						mu.Lock()
						hung := !began.IsZero() && time.Since(began) > time.Minute
						d := cur
						mu.Unlock()
						if hung {
							ch.Violation("hang "+d.key, map[string]any{"what": "the parser does not finish", "files": d.files})
							os.Exit(ch.Write())
						}
					}
				}
			}()
			for d := range work {
				mu.Lock()
				began, cur = time.Now(), d
				mu.Unlock()
				why := judge(d, dir)
				mu.Lock()
				began = time.Time{}
				mu.Unlock()
				n++
				if !d.trivial {
					keys = append(keys, vlib.Hash(d.key))
				}
				if n%5000 == 1 {
					ch.Sample(map[string]any{"case": d.key, "files": d.files})
				}
				if why != "" && judge(d, dir) != "" {
					if ch.Violation(d.key, map[string]any{"what": why, "files": d.files}) {
						fmt.Printf("  %s\n", strings.ReplaceAll(why, "\n", "\n  "))
					}
				}
			}
			close(stop)
			ch.EvalN(n, keys)
		}()
	}
	gen(func(d doc) bool {
		if ch.Enough() || ch.Expired() {
			ch.NotExhaustive()
			return false
		}
		work <- d
		return true
	})
	close(work)
	wg.Wait()
}

// product calls f with every combination of choices.
func product(sizes []int, f func(ix []int) bool) bool {
	ix := make([]int, len(sizes))
	for {
		if !f(ix) {
			return false
		}
		k := len(ix) - 1
		for k >= 0 {
			ix[k]++
			if ix[k] < sizes[k] {
				break
			}
			ix[k] = 0
			k--
		}
		if k < 0 {
			return true
		}
	}
}

func same(n, of int) []int {
	s := make([]int, of)
	for i := range s {
		s[i] = n
	}
	return s
}

func reversed(f *spec.File) *spec.File {
	g := *f
	g.Tasks = nil
	for i := len(f.Tasks) - 1; i >= 0; i-- {
		g.Tasks = append(g.Tasks, f.Tasks[i])
	}
	g.Includes = nil
	for i := len(f.Includes) - 1; i >= 0; i-- {
		g.Includes = append(g.Includes, f.Includes[i])
	}
	return &g
}
