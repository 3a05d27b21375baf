package pty

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/charmbracelet/x/ansi"
)

// Screen is a terminal's screen, for programs that move the cursor.
type Screen struct {
	W, H     int
	cells    [][]rune
	x, y     int
	sx, sy   int
	top, bot int
	wrap     bool
	last     rune
	other    [][]rune // the main screen while the alternate one is shown
	ox, oy   int
	Alt      bool
	Unknown  map[string]int
}

// NewScreen is an empty screen.
func NewScreen(w, h int) *Screen {
	s := &Screen{W: w, H: h, bot: h - 1, Unknown: map[string]int{}}
	s.cells = s.blank()
	return s
}

func (s *Screen) blank() [][]rune {
	c := make([][]rune, s.H)
	for i := range c {
		c[i] = s.row()
	}
	return c
}

func (s *Screen) row() []rune {
	r := make([]rune, s.W)
	for i := range r {
		r[i] = ' '
	}
	return r
}

// Lines is the text on the screen.
func (s *Screen) Lines() []string {
	out := make([]string, s.H)
	for i, r := range s.cells {
		var b strings.Builder
		for _, c := range r {
			if c != 0 {
				b.WriteRune(c)
			}
		}
		out[i] = b.String()
	}
	return out
}

func (s *Screen) up(n int) {
	for ; n > 0; n-- {
		copy(s.cells[s.top:s.bot], s.cells[s.top+1:s.bot+1])
		s.cells[s.bot] = s.row()
	}
}

func (s *Screen) down(n int) {
	for ; n > 0; n-- {
		copy(s.cells[s.top+1:s.bot+1], s.cells[s.top:s.bot])
		s.cells[s.top] = s.row()
	}
}

func (s *Screen) lf() {
	s.wrap = false
	if s.y == s.bot {
		s.up(1)
	} else if s.y < s.H-1 {
		s.y++
	}
}

func (s *Screen) put(r rune) {
	w := ansi.StringWidth(string(r))
	if w == 0 {
		return
	}
	if s.wrap || s.x+w > s.W {
		s.x = 0
		s.lf()
	}
	s.wrap = false
	s.cells[s.y][s.x] = r
	if w == 2 && s.x+1 < s.W {
		s.cells[s.y][s.x+1] = 0
	}
	s.x += w
	if s.x >= s.W {
		s.x = s.W - 1
		s.wrap = true
	}
	s.last = r
}

// Write shows a program's output.
func (s *Screen) Write(out string) {
	for i := 0; i < len(out); {
		c := out[i]
		switch {
		case c == 0x1b:
			n := s.escape(out[i:])
			if n == 0 {
				return // not complete yet
			}
			i += n
			continue
		case c == '\r':
			s.x, s.wrap = 0, false
		case c == '\n', c == '\v', c == '\f':
			s.lf()
		case c == '\b':
			s.wrap = false
			s.x = max(0, s.x-1)
		case c == '\t':
			s.x = min(s.W-1, (s.x/8+1)*8)
		case c < 0x20 || c == 0x7f:
		default:
			r, n := utf8.DecodeRuneInString(out[i:])
			s.put(r)
			i += n
			continue
		}
		i++
	}
}

func (s *Screen) escape(t string) int {
	if len(t) < 2 {
		return 0
	}
	switch t[1] {
	case '[':
		j := 2
		for j < len(t) && t[j] >= 0x20 && t[j] < 0x40 {
			j++
		}
		if j == len(t) {
			return 0
		}
		s.csi(t[2:j], t[j])
		return j + 1
	case ']', 'P', '_', '^', 'X':
		for j := 2; j < len(t); j++ {
			if t[j] == 7 {
				return j + 1
			}
			if t[j] == 0x1b && j+1 < len(t) && t[j+1] == '\\' {
				return j + 2
			}
		}
		return 0
	case 'M':
		if s.y == s.top {
			s.down(1)
		} else if s.y > 0 {
			s.y--
		}
	case 'D':
		s.lf()
	case 'E':
		s.x = 0
		s.lf()
	case '7':
		s.sx, s.sy = s.x, s.y
	case '8':
		s.x, s.y = s.sx, s.sy
	case '(', ')':
		if len(t) < 3 {
			return 0
		}
		return 3
	}
	return 2
}

func (s *Screen) csi(params string, final byte) {
	if strings.HasPrefix(params, "?") {
		for _, p := range strings.Split(params[1:], ";") {
			if p == "1049" || p == "47" || p == "1047" {
				s.alt(final == 'h')
			}
		}
		return
	}
	if params != "" && (params[0] == '>' || params[0] == '=' || params[0] == '<' || strings.ContainsAny(params, " $!'\"")) {
		return
	}
	var ns []int
	for _, p := range strings.Split(params, ";") {
		n, _ := strconv.Atoi(p)
		ns = append(ns, n)
	}
	arg := func(i, def int) int {
		if i < len(ns) && ns[i] > 0 {
			return ns[i]
		}
		return def
	}
	clear := func(y, from, to int) {
		for x := max(0, from); x < to && x < s.W; x++ {
			s.cells[y][x] = ' '
		}
	}
	keepWrap := s.wrap
	s.wrap = false
	switch final {
	case 'A':
		s.y = max(0, s.y-arg(0, 1))
	case 'B', 'e':
		s.y = min(s.H-1, s.y+arg(0, 1))
	case 'C', 'a':
		s.x = min(s.W-1, s.x+arg(0, 1))
	case 'D':
		s.x = max(0, s.x-arg(0, 1))
	case 'E':
		s.x, s.y = 0, min(s.H-1, s.y+arg(0, 1))
	case 'F':
		s.x, s.y = 0, max(0, s.y-arg(0, 1))
	case 'G', '`':
		s.x = min(s.W-1, arg(0, 1)-1)
	case 'd':
		s.y = min(s.H-1, arg(0, 1)-1)
	case 'H', 'f':
		s.y, s.x = min(s.H-1, arg(0, 1)-1), min(s.W-1, arg(1, 1)-1)
	case 'I':
		for range arg(0, 1) {
			s.x = min(s.W-1, (s.x/8+1)*8)
		}
	case 'Z':
		for range arg(0, 1) {
			if s.x > 0 {
				s.x = (s.x - 1) / 8 * 8
			}
		}
	case 'J':
		switch arg(0, 0) {
		case 0:
			clear(s.y, s.x, s.W)
			for y := s.y + 1; y < s.H; y++ {
				clear(y, 0, s.W)
			}
		case 1:
			clear(s.y, 0, s.x+1)
			for y := 0; y < s.y; y++ {
				clear(y, 0, s.W)
			}
		default:
			for y := range s.H {
				clear(y, 0, s.W)
			}
		}
	case 'K':
		switch arg(0, 0) {
		case 0:
			clear(s.y, s.x, s.W)
		case 1:
			clear(s.y, 0, s.x+1)
		default:
			clear(s.y, 0, s.W)
		}
	case 'X':
		clear(s.y, s.x, s.x+arg(0, 1))
	case '@':
		n := min(arg(0, 1), s.W-s.x)
		copy(s.cells[s.y][s.x+n:], s.cells[s.y][s.x:s.W-n])
		clear(s.y, s.x, s.x+n)
	case 'P':
		n := min(arg(0, 1), s.W-s.x)
		copy(s.cells[s.y][s.x:], s.cells[s.y][s.x+n:])
		clear(s.y, s.W-n, s.W)
	case 'L', 'M':
		top := s.top
		if s.y >= s.top && s.y <= s.bot {
			s.top = s.y
			n := min(arg(0, 1), s.bot-s.y+1)
			if final == 'L' {
				s.down(n)
			} else {
				s.up(n)
			}
		}
		s.top = top
	case 'S':
		s.up(min(arg(0, 1), s.H))
	case 'T':
		s.down(min(arg(0, 1), s.H))
	case 'b':
		s.wrap = keepWrap
		for range arg(0, 1) {
			s.put(s.last)
		}
	case 'r':
		s.top, s.bot = arg(0, 1)-1, min(s.H, arg(1, s.H))-1
		s.x, s.y = 0, 0
	case 's':
		s.sx, s.sy = s.x, s.y
	case 'u':
		s.x, s.y = s.sx, s.sy
	case 'm':
		s.wrap = keepWrap
	case 'h', 'l', 'n', 'c', 't', 'q', 'p':
		s.wrap = keepWrap
	default:
		s.Unknown[params+string(final)]++
	}
}

func (s *Screen) alt(on bool) {
	if on == s.Alt {
		return
	}
	if on {
		s.other, s.ox, s.oy = s.cells, s.x, s.y
		s.cells = s.blank()
	} else {
		s.cells, s.x, s.y = s.other, s.ox, s.oy
	}
	s.Alt = on
	s.wrap = false
}
