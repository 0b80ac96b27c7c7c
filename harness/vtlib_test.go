package verifmon

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/mattn/go-runewidth"
)

// openPTY opens a pseudo terminal of the given size.
func openPTY(rows, cols int) (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(req uintptr, arg unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), req, uintptr(arg)); e != 0 {
			return e
		}
		return nil
	}
	var n uint32
	if err = ioctl(syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return nil, nil, err
	}
	var unlock int32
	if err = ioctl(syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		return nil, nil, err
	}
	ws := [4]uint16{uint16(rows), uint16(cols), 0, 0}
	if err = ioctl(syscall.TIOCSWINSZ, unsafe.Pointer(&ws)); err != nil {
		return nil, nil, err
	}
	slave, err = os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	return master, slave, err
}

type vtCell struct {
	r  rune
	fg string // the SGR attributes in force
}

// screen is a terminal emulator good enough for a full-screen program.
type screen struct {
	mu         sync.Mutex
	rows, cols int
	cell       [][]vtCell
	y, x       int
	sgr        string
	pend       []byte
	last       time.Time
	raw        bytes.Buffer // everything received
	closed     bool
}

func newScreen(rows, cols int) *screen {
	s := &screen{rows: rows, cols: cols, last: time.Now()}
	s.clear()
	return s
}

func (s *screen) clear() {
	s.cell = make([][]vtCell, s.rows)
	for i := range s.cell {
		s.cell[i] = make([]vtCell, s.cols)
		for j := range s.cell[i] {
			s.cell[i][j].r = ' '
		}
	}
}

// pump reads the master until it is closed.
func (s *screen) pump(f *os.File) {
	buf := make([]byte, 1<<16)
	for {
		n, err := f.Read(buf)
		if n > 0 {
			s.mu.Lock()
			s.raw.Write(buf[:n])
			if s.raw.Len() > 8<<20 {
				s.raw.Next(s.raw.Len() - 1<<20)
			}
			s.pend = append(s.pend, buf[:n]...)
			s.feed()
			s.last = time.Now()
			s.mu.Unlock()
		}
		if err != nil {
			s.mu.Lock()
			s.closed = true
			s.mu.Unlock()
			return
		}
	}
}

func (s *screen) feed() {
	b := s.pend
	for len(b) > 0 {
		switch c := b[0]; {
		case c == 0x1b:
			n, ok := s.escape(b)
			if !ok {
				s.pend = append([]byte{}, b...)
				return
			}
			b = b[n:]
		case c == '\r':
			s.x = 0
			b = b[1:]
		case c == '\n':
			if s.y < s.rows-1 {
				s.y++
			}
			b = b[1:]
		case c == '\b':
			if s.x > 0 {
				s.x--
			}
			b = b[1:]
		case c < 32 || c == 127:
			b = b[1:]
		default:
			if !utf8.FullRune(b) {
				s.pend = append([]byte{}, b...)
				return
			}
			r, n := utf8.DecodeRune(b)
			b = b[n:]
			w := runewidth.RuneWidth(r)
			if w == 0 {
				continue
			}
			if s.y >= 0 && s.y < s.rows && s.x >= 0 && s.x < s.cols {
				s.cell[s.y][s.x] = vtCell{r, s.sgr}
				if w == 2 && s.x+1 < s.cols {
					s.cell[s.y][s.x+1] = vtCell{0, s.sgr}
				}
			}
			s.x += w
		}
	}
	s.pend = nil
}

func (s *screen) escape(b []byte) (int, bool) {
	if len(b) < 2 {
		return 0, false
	}
	switch b[1] {
	case '[':
		i := 2
		for i < len(b) && (b[i] < 0x40 || b[i] > 0x7e) {
			i++
		}
		if i >= len(b) {
			return 0, false
		}
		args := string(b[2:i])
		p := func(k, def int) int {
			f := strings.Split(args, ";")
			if k < len(f) {
				if v, err := strconv.Atoi(f[k]); err == nil {
					return v
				}
			}
			return def
		}
		switch b[i] {
		case 'H', 'f':
			s.y, s.x = p(0, 1)-1, p(1, 1)-1
		case 'A':
			s.y -= p(0, 1)
		case 'B':
			s.y += p(0, 1)
		case 'C':
			s.x += p(0, 1)
		case 'D':
			s.x -= p(0, 1)
		case 'G':
			s.x = p(0, 1) - 1
		case 'd':
			s.y = p(0, 1) - 1
		case 'J':
			s.clear()
		case 'K':
			if s.y >= 0 && s.y < s.rows {
				for x := s.x; x >= 0 && x < s.cols; x++ {
					s.cell[s.y][x] = vtCell{r: ' '}
				}
			}
		case 'm':
			if args == "" || args == "0" {
				s.sgr = ""
			} else {
				s.sgr += ";" + args
			}
		}
		return i + 1, true
	case ']':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 {
				return i + 1, true
			}
			if b[i] == 0x1b && i+1 < len(b) {
				return i + 2, true
			}
		}
		return 0, false
	case '(', ')':
		if len(b) < 3 {
			return 0, false
		}
		return 3, true
	default:
		return 2, true
	}
}

// lines returns the text of the screen.
func (s *screen) lines() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := make([]string, s.rows)
	for i := range s.cell {
		var b strings.Builder
		for _, c := range s.cell[i] {
			if c.r != 0 {
				b.WriteRune(c.r)
			}
		}
		out[i] = strings.TrimRight(b.String(), " ")
	}
	return out
}

// text is the screen with runs of blanks collapsed.
func (s *screen) text() string {
	l := s.lines()
	for i := range l {
		l[i] = strings.Join(strings.Fields(l[i]), " ")
	}
	return strings.Join(l, "\n")
}

// panel returns the lines inside the box whose title is given, blanks
// collapsed.
func (s *screen) panel(title string) ([]string, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	want := []rune(title)
	for y := range s.cell {
		for x := 0; x+len(want) < s.cols; x++ {
			ok := true
			for k, r := range want {
				if s.cell[y][x+k].r != r {
					ok = false
					break
				}
			}
			if !ok || x == 0 {
				continue
			}
			l := x
			for l >= 0 && !strings.ContainsRune("┌╭", s.cell[y][l].r) {
				l--
			}
			r := x
			for r < s.cols && !strings.ContainsRune("┐╮", s.cell[y][r].r) {
				r++
			}
			if l < 0 || r >= s.cols {
				continue
			}
			var out []string
			for yy := y + 1; yy < s.rows && !strings.ContainsRune("└╰", s.cell[yy][l].r); yy++ {
				var b strings.Builder
				for xx := l + 1; xx < r; xx++ {
					if c := s.cell[yy][xx].r; c != 0 {
						b.WriteRune(c)
					}
				}
				out = append(out, strings.Join(strings.Fields(b.String()), " "))
			}
			return out, true
		}
	}
	return nil, false
}

// grid returns the cells inside the box whose title is given.
func (s *screen) grid(title string) [][]vtCell {
	s.mu.Lock()
	defer s.mu.Unlock()
	want := []rune(title)
	for y := range s.cell {
	next:
		for x := 1; x+len(want) < s.cols; x++ {
			for k, r := range want {
				if s.cell[y][x+k].r != r {
					continue next
				}
			}
			l, r := x, x
			for l >= 0 && !strings.ContainsRune("┌╭", s.cell[y][l].r) {
				l--
			}
			for r < s.cols && !strings.ContainsRune("┐╮", s.cell[y][r].r) {
				r++
			}
			if l < 0 || r >= s.cols {
				continue
			}
			var out [][]vtCell
			for yy := y + 1; yy < s.rows && !strings.ContainsRune("└╰", s.cell[yy][l].r); yy++ {
				out = append(out, append([]vtCell(nil), s.cell[yy][l+1:r]...))
			}
			return out
		}
	}
	return nil
}

// colour is the number of the foreground colour in force (bright ones count as
// their base), -1 if it is the default.
func (c vtCell) colour() int {
	col := -1
	f := strings.Split(c.fg, ";")
	for i := 0; i < len(f); i++ {
		v, err := strconv.Atoi(f[i])
		switch {
		case err != nil:
		case v == 39:
			col = -1
		case v >= 30 && v <= 37:
			col = v - 30
		case v >= 90 && v <= 97:
			col = v - 90
		case (v == 38 || v == 48) && i+2 < len(f) && f[i+1] == "5":
			if n, err := strconv.Atoi(f[i+2]); err == nil && v == 38 {
				col = n
				if n < 16 {
					col = n % 8
				}
			}
			i += 2
		case (v == 38 || v == 48) && i+4 < len(f) && f[i+1] == "2":
			if v == 38 {
				r, _ := strconv.Atoi(f[i+2])
				g, _ := strconv.Atoi(f[i+3])
				b, _ := strconv.Atoi(f[i+4])
				col = 1000 + r<<16 + g<<8 + b
			}
			i += 4
		}
	}
	return col
}

// quietFor waits until nothing has been received for d, at most limit.
func (s *screen) quietFor(d, limit time.Duration) {
	end := time.Now().Add(limit)
	for time.Now().Before(end) {
		s.mu.Lock()
		q := time.Since(s.last)
		s.mu.Unlock()
		if q >= d {
			return
		}
		time.Sleep(d - q + time.Millisecond)
	}
}

func (s *screen) received() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.raw.String()
}

// boldAt says whether the first occurrence of the text is bold from a position on.
func (s *screen) boldAt(text string, at int) (bold, found bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	want := []rune(text)
	for y := range s.cell {
	next:
		for x := 0; x+len(want) <= s.cols; x++ {
			for k, r := range want {
				if s.cell[y][x+k].r != r {
					continue next
				}
			}
			for _, a := range strings.Split(s.cell[y][x+at].fg, ";") {
				bold = bold || a == "1"
			}
			return bold, true
		}
	}
	return false, false
}

// eventually polls ok until it holds or the limit passes.
func eventually(limit time.Duration, ok func() bool) bool {
	end := time.Now().Add(limit)
	for {
		if ok() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(20 * time.Millisecond)
	}
}

var _ = fmt.Sprint
