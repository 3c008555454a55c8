package ref

import (
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Cell is one character cell of a terminal. A cell that was never written, or
// that was erased, holds a space.
type Cell struct {
	R rune
	A Attr
}

// VT is a reference terminal: an xterm-like subset sufficient for the output
// anansi generates. Writing in the last column leaves the cursor there with a
// pending wrap; erasing paints the current background color (BCE); a cut
// escape sequence is aborted by the next ESC.
type VT struct {
	Modes map[string]bool // private modes set and reset, if to be accepted

	W, H    int
	Cells   []Cell
	X, Y    int // 1-based
	Pending bool
	Attr    Attr
	Visible bool

	// Immediate makes the cursor wrap at once instead (no pending state).
	Immediate bool
	// NoBCE makes erasing paint the default background.
	NoBCE bool
	// Puts counts the cells written.
	Puts int
	// Scrolled counts the scrolls.
	Scrolled int
	// Bad collects input the reference terminal does not understand.
	Bad []string

	st  uint8 // parser: 0 ground, 1 after ESC, 2 in CSI, 3 in UTF-8 rune
	arg []byte
}

// NewVT returns a blank terminal.
func NewVT(w, hh int) *VT {
	t := &VT{W: w, H: hh, X: 1, Y: 1, Visible: true, Cells: make([]Cell, w*hh)}
	for i := range t.Cells {
		t.Cells[i].R = ' '
	}
	return t
}

// Clone returns a deep copy.
func (t *VT) Clone() *VT {
	u := *t
	u.Cells = append([]Cell(nil), t.Cells...)
	u.arg = append([]byte(nil), t.arg...)
	u.Bad = append([]string(nil), t.Bad...)
	return &u
}

// CopyFrom makes t a deep copy of u, reusing t's storage.
func (t *VT) CopyFrom(u *VT) {
	cells, arg, bad := t.Cells, t.arg, t.Bad
	*t = *u
	t.Cells = append(cells[:0], u.Cells...)
	t.arg = append(arg[:0], u.arg...)
	t.Bad = append(bad[:0], u.Bad...)
}

// At returns the cell at column x of row y, 1-based.
func (t *VT) At(x, y int) *Cell { return &t.Cells[(y-1)*t.W+x-1] }

// Resize changes the size as a terminal window resize does: content is kept
// anchored top left, the cursor is clamped.
func (t *VT) Resize(w, hh int) {
	u := NewVT(w, hh)
	for y := 1; y <= hh && y <= t.H; y++ {
		for x := 1; x <= w && x <= t.W; x++ {
			*u.At(x, y) = *t.At(x, y)
		}
	}
	t.W, t.H, t.Cells = w, hh, u.Cells
	t.Pending = false
	t.moveTo(t.X, t.Y)
}

// Write feeds bytes.
func (t *VT) Write(p []byte) (int, error) {
	for _, b := range p {
		t.feed(b)
	}
	return len(p), nil
}

// Ground is true if no escape sequence or rune is incomplete.
func (t *VT) Ground() bool { return t.st == 0 }

func (t *VT) bad(format string, args ...interface{}) {
	if len(t.Bad) < 8 {
		t.Bad = append(t.Bad, fmt.Sprintf(format, args...))
	}
}

func (t *VT) feed(b byte) {
	if b == 0x1b {
		if t.st == 3 {
			t.bad("cut rune % x", t.arg)
			t.put(utf8.RuneError)
		}
		t.st, t.arg = 1, t.arg[:0]
		return
	}
	switch t.st {
	case 1:
		if b == '[' {
			t.st = 2
			return
		}
		t.bad("ESC %q", b)
		t.st = 0
	case 2:
		if b >= 0x40 && b <= 0x7e {
			t.st = 0
			t.csi(b, string(t.arg))
			return
		}
		if b < 0x20 || b > 0x3f {
			t.bad("%q within CSI", b)
			t.st = 0
			return
		}
		t.arg = append(t.arg, b)
	case 3:
		if b&0xc0 != 0x80 {
			t.bad("cut rune % x", t.arg)
			t.st = 0
			t.put(utf8.RuneError)
			t.feed(b)
			return
		}
		t.arg = append(t.arg, b)
		if utf8.FullRune(t.arg) {
			r, _ := utf8.DecodeRune(t.arg)
			t.st = 0
			t.put(r)
		}
	default:
		switch {
		case b == '\r':
			t.Pending = false
			t.X = 1
		case b == '\n':
			t.Pending = false
			t.linefeed()
		case b < 0x20 || b == 0x7f:
			t.bad("control %q", b)
		case b < 0x80:
			t.put(rune(b))
		default:
			t.arg = append(t.arg[:0], b)
			t.st = 3
			if b&0xc0 != 0xc0 {
				t.bad("byte %x", b)
				t.st = 0
			}
		}
	}
}

func (t *VT) linefeed() {
	if t.Y < t.H {
		t.Y++
		return
	}
	t.Scrolled++
	copy(t.Cells, t.Cells[t.W:])
	t.erase(1, t.H, t.W, t.H)
}

func (t *VT) put(r rune) {
	if t.Pending {
		t.Pending = false
		t.X = 1
		t.linefeed()
	}
	t.Puts++
	*t.At(t.X, t.Y) = Cell{r, t.Attr}
	if t.X < t.W {
		t.X++
	} else if t.Immediate {
		t.X = 1
		t.linefeed()
	} else {
		t.Pending = true
	}
}

// erase clears the cells from (x0,y0) to (x1,y1) inclusive, in reading order.
func (t *VT) erase(x0, y0, x1, y1 int) {
	var c Cell
	c.R = ' '
	if !t.NoBCE {
		c.A.BG = t.Attr.BG
	}
	for i, j := (y0-1)*t.W+x0-1, (y1-1)*t.W+x1-1; i <= j; i++ {
		t.Cells[i] = c
	}
}

func (t *VT) moveTo(x, y int) {
	t.Pending = false
	if x < 1 {
		x = 1
	}
	if x > t.W {
		x = t.W
	}
	if y < 1 {
		y = 1
	}
	if y > t.H {
		y = t.H
	}
	t.X, t.Y = x, y
}

func (t *VT) csi(fin byte, arg string) {
	nums := func(def int, max int) (ns []int) {
		if arg != "" {
			for _, p := range strings.Split(arg, ";") {
				n, err := strconv.Atoi(p)
				if p == "" {
					n, err = def, nil
				}
				if err != nil || n < 0 {
					t.bad("CSI %q %q", arg, fin)
					return nil
				}
				ns = append(ns, n)
			}
		}
		for len(ns) < max {
			ns = append(ns, def)
		}
		if len(ns) > max {
			t.bad("CSI %q %q", arg, fin)
		}
		return ns
	}
	switch fin {
	case 'A', 'B', 'C', 'D':
		ns := nums(1, 1)
		if ns == nil {
			return
		}
		n := ns[0]
		if n == 0 {
			n = 1
		}
		switch fin {
		case 'A':
			t.moveTo(t.X, t.Y-n)
		case 'B':
			t.moveTo(t.X, t.Y+n)
		case 'C':
			t.moveTo(t.X+n, t.Y)
		case 'D':
			t.moveTo(t.X-n, t.Y)
		}
	case 'H':
		if ns := nums(1, 2); ns != nil {
			t.moveTo(ns[1], ns[0])
		}
	case 'J', 'K':
		ns := nums(0, 1)
		if ns == nil {
			return
		}
		x0, y0, x1, y1 := 1, 1, t.W, t.H
		if fin == 'K' {
			y0, y1 = t.Y, t.Y
		}
		switch ns[0] {
		case 0:
			x0, y0 = t.X, t.Y
		case 1:
			x1, y1 = t.X, t.Y
		case 2:
		default:
			t.bad("CSI %q %q", arg, fin)
			return
		}
		t.erase(x0, y0, x1, y1)
	case 'm':
		if i := t.Attr.ApplySGR(arg); i >= 0 {
			t.bad("SGR %q", arg)
		}
	case 'h', 'l':
		if t.Modes != nil && strings.HasPrefix(arg, "?") && arg != "?25" {
			for _, m := range strings.Split(arg[1:], ";") {
				t.Modes[m] = fin == 'h'
			}
			return
		}
		if arg != "?25" {
			t.bad("CSI %q %q", arg, fin)
			return
		}
		t.Visible = fin == 'h'
	case 'p':
		if t.Modes == nil || arg != "!" {
			t.bad("CSI %q %q", arg, fin)
			return
		}
		t.Attr, t.Visible = Attr{}, true // DECSTR
	default:
		t.bad("CSI %q %q", arg, fin)
	}
}

// Key appends the complete state of the terminal.
func (t *VT) Key(b []byte) []byte {
	for i := range t.Cells {
		b = t.Cells[i].Key(b)
	}
	b = append(b, byte(t.X), byte(t.Y), b2b(t.Pending), b2b(t.Visible), t.st)
	b = t.Attr.Key(b)
	if t.st == 0 {
		return b
	}
	return append(b, t.arg...)
}

// Key appends the cell.
func (c *Cell) Key(b []byte) []byte {
	b = binary.AppendVarint(b, int64(c.R))
	return c.A.Key(b)
}

// Key appends the attribute.
func (a *Attr) Key(b []byte) []byte {
	return append(b, b2b(a.Bold)|b2b(a.Dim)<<1|b2b(a.Italic)<<2|b2b(a.Under)<<3|b2b(a.Neg)<<4|b2b(a.Conceal)<<5,
		a.FG.Kind, a.FG.R, a.FG.G, a.FG.B, a.BG.Kind, a.BG.R, a.BG.G, a.BG.B)
}

func (a Attr) String() string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i, f := range []bool{a.Bold, a.Dim, a.Italic, a.Under, a.Neg, a.Conceal} {
		if f {
			sb.WriteByte("bdiunc"[i])
		}
	}
	if a.FG.Kind != 0 {
		fmt.Fprintf(&sb, " fg%v", a.FG)
	}
	if a.BG.Kind != 0 {
		fmt.Fprintf(&sb, " bg%v", a.BG)
	}
	sb.WriteByte('}')
	return sb.String()
}

func b2b(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func (t *VT) String() string {
	var sb strings.Builder
	for y := 1; y <= t.H; y++ {
		for x := 1; x <= t.W; x++ {
			c := t.At(x, y)
			if c.R == ' ' {
				sb.WriteByte('.')
			} else {
				sb.WriteRune(c.R)
			}
			if c.A != (Attr{}) {
				fmt.Fprintf(&sb, "%v", c.A)
			}
		}
		sb.WriteByte('\n')
	}
	fmt.Fprintf(&sb, "@%d,%d pending=%v vis=%v attr=%v bad=%q scrolled=%d", t.X, t.Y, t.Pending, t.Visible, t.Attr, t.Bad, t.Scrolled)
	return sb.String()
}

// MoveTo moves the cursor, clamped to the screen.
func (t *VT) MoveTo(x, y int) { t.moveTo(x, y) }

// Abort ends any incomplete sequence, as the ESC of a following sequence does.
func (t *VT) Abort() {
	if t.st == 3 {
		t.put(utf8.RuneError)
	}
	t.st, t.arg = 0, t.arg[:0]
}

// Same reports whether two terminals are in the same state.
func (t *VT) Same(u *VT) bool {
	if t.W != u.W || t.H != u.H || t.X != u.X || t.Y != u.Y || t.Pending != u.Pending || t.Visible != u.Visible ||
		t.Attr != u.Attr || t.st != u.st || t.st != 0 && string(t.arg) != string(u.arg) {
		return false
	}
	for i := range t.Cells {
		if t.Cells[i] != u.Cells[i] {
			return false
		}
	}
	return true
}
