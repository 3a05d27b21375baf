// Command views decides P24 and P25: the picker and the parallel views.
package main

import (
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/zzverif/bb"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
)

func main() {
	// Pasting would read the clipboard; no such key is sent.
	ch := vlib.New(os.Args[1], "model_checking")
	switch os.Args[1] {
	case "P24":
		p24(ch)
	case "P25":
		p25run(ch)
	}
	rc := ch.Write()
	bb.Cleanup()
	os.Exit(rc)
}

var ansiSeq = regexp.MustCompile("\x1b\\[[0-9;:]*m|\x1b\\]8;[^\x1b\x07]*(\x1b\\\\|\x07)")

func plain(s string) string { return ansiSeq.ReplaceAllString(s, "") }

// key is a named message.
type key struct {
	name string
	msg  tea.Msg
	pty  string // what a terminal sends for it, empty if nothing does
}

func runes(s string) key {
	return key{s, tea.KeyPressMsg{Code: []rune(s)[0], Text: s}, s}
}

var (
	kUp    = key{"up", tea.KeyPressMsg{Code: tea.KeyUp}, "\x1b[A"}
	kDown  = key{"down", tea.KeyPressMsg{Code: tea.KeyDown}, "\x1b[B"}
	kLeft  = key{"left", tea.KeyPressMsg{Code: tea.KeyLeft}, "\x1b[D"}
	kRight = key{"right", tea.KeyPressMsg{Code: tea.KeyRight}, "\x1b[C"}
	kHome  = key{"home", tea.KeyPressMsg{Code: tea.KeyHome}, "\x1b[H"}
	kEnd   = key{"end", tea.KeyPressMsg{Code: tea.KeyEnd}, "\x1b[F"}
	kBack  = key{"backspace", tea.KeyPressMsg{Code: tea.KeyBackspace}, "\x7f"}
	kDel   = key{"delete", tea.KeyPressMsg{Code: tea.KeyDelete}, "\x1b[3~"}
	kEnter = key{"enter", tea.KeyPressMsg{Code: tea.KeyEnter}, "\r"}
	kEsc   = key{"esc", tea.KeyPressMsg{Code: tea.KeyEscape}, "\x1b"}
	kTab   = key{"tab", tea.KeyPressMsg{Code: tea.KeyTab}, "\t"}
	kSTab  = key{"shift+tab", tea.KeyPressMsg{Code: tea.KeyTab, Mod: tea.ModShift}, "\x1b[Z"}
	kPgUp  = key{"pgup", tea.KeyPressMsg{Code: tea.KeyPgUp}, "\x1b[5~"}
	kPgDn  = key{"pgdown", tea.KeyPressMsg{Code: tea.KeyPgDown}, "\x1b[6~"}
)

func ctrl(r rune) key {
	return key{"ctrl+" + string(r), tea.KeyPressMsg{Code: r, Mod: tea.ModCtrl}, string(r - 'a' + 1)}
}

func size(w, h int) key {
	return key{"size " + itoa(w) + "x" + itoa(h), tea.WindowSizeMsg{Width: w, Height: h}, ""}
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

func quits(cmd tea.Cmd, wait time.Duration) bool {
	if cmd == nil {
		return false
	}
	// A blinking cursor's command sleeps.
	got := make(chan bool, 1)
	go func() {
		_, ok := cmd().(tea.QuitMsg)
		got <- ok
	}()
	select {
	case ok := <-got:
		return ok
	case <-time.After(wait):
		return false
	}
}

func names(ks []key) string {
	var s []string
	for _, k := range ks {
		s = append(s, k.name)
	}
	return strings.Join(s, " ")
}

func parallel[T any](items []T, f func(T)) {
	var wg sync.WaitGroup
	c := make(chan T)
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range c {
				f(it)
			}
		}()
	}
	for _, it := range items {
		c <- it
	}
	close(c)
	wg.Wait()
}

// bfs explores breadth first; expand judges a history and returns its state
// key and whether to go on from it. States seen before are not expanded.
func bfs[K any](ch *vlib.Check, alphabet []K, depth int, maxStates int, expand func([]K) (string, bool)) (complete bool) {
	seen := map[string]bool{}
	frontier := [][]K{{}}
	k, ok := expand(nil)
	seen[k] = true
	ch.States(1, 0)
	if !ok {
		return true
	}
	var mu sync.Mutex
	for d := 1; d <= depth && len(frontier) > 0; d++ {
		var next [][]K
		parallel(frontier, func(h []K) {
			for _, a := range alphabet {
				if ch.Enough() || ch.Expired() {
					return
				}
				hh := append(append(make([]K, 0, len(h)+1), h...), a)
				k, ok := expand(hh)
				mu.Lock()
				fresh := !seen[k]
				if fresh {
					seen[k] = true
				}
				if fresh && ok && len(seen) <= maxStates {
					next = append(next, hh)
				}
				mu.Unlock()
				ch.States(0, 1)
				if fresh {
					ch.States(1, 0)
				}
			}
		})
		frontier = next
	}
	return len(frontier) == 0 && len(seen) <= maxStates
}
