package checks

import (
	"fmt"
	"image"
	"io"
	"strings"
	"sync"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C10", checkDiffer) }

// onlyWriter hides every method but Write.
type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

type acell struct {
	r rune
	a ansi.SGRAttr
}

// sameLook compares what a cell shows: of a blank only what is visible.
func sameLook(r rune, a ref.Attr, tc ref.Cell) bool {
	if r == 0 {
		r = ' '
	}
	if r != tc.R {
		return false
	}
	b := tc.A
	if r == ' ' {
		a.Bold, a.Dim, a.Italic, a.Conceal, a.FG = false, false, false, false, ref.Color{}
		b.Bold, b.Dim, b.Italic, b.Conceal, b.FG = false, false, false, false, ref.Color{}
	}
	return a == b
}

// showDiff compares the terminal with a grid and the user cursor wanted on it.
func showDiff(t *ref.VT, g anansi.Grid, uc anansi.Cursor) string {
	if len(t.Bad) > 0 {
		return fmt.Sprintf("the terminal got %q", t.Bad)
	}
	if t.Scrolled > 0 {
		return "the terminal scrolled"
	}
	if !t.Ground() {
		return "output ends inside a sequence"
	}
	if d := cellDiff(t, g); d != "" {
		return d
	}
	if !uc.Visible || !uc.Point.Valid() {
		if t.Visible {
			return "the cursor shows"
		}
		return ""
	}
	if !t.Visible {
		return "the cursor is hidden"
	}
	p := uc.Point
	if p.X > t.W {
		p.X = t.W
	}
	if p.Y > t.H {
		p.Y = t.H
	}
	if t.X != p.X || t.Y != p.Y || t.Pending {
		return fmt.Sprintf("the cursor is at %d,%d (pending %v), not %v", t.X, t.Y, t.Pending, p)
	}
	if t.Attr != fromAnsiAttr(uc.Attr) {
		return fmt.Sprintf("the cursor attribute is %v, not %v", t.Attr, uc.Attr)
	}
	return ""
}

func cellDiff(t *ref.VT, g anansi.Grid) string {
	if g.Rect.Dx() != t.W || g.Rect.Dy() != t.H {
		return fmt.Sprintf("grid %v on a %dx%d terminal", g.Rect, t.W, t.H)
	}
	for y := 1; y <= t.H; y++ {
		for x := 1; x <= t.W; x++ {
			i, _ := g.CellOffset(mkPt(x, y))
			if tc := t.At(x, y); !sameLook(g.Rune[i], fromAnsiAttr(g.Attr[i]), *tc) {
				return fmt.Sprintf("cell %d,%d shows %q %v, the screen has %q %v", x, y, tc.R, tc.A, g.Rune[i], g.Attr[i])
			}
		}
	}
	return ""
}

func changedCells(a, b anansi.Grid) (n int) {
	norm := func(r rune) rune {
		if r == 0 {
			return ' '
		}
		return r
	}
	for i := range a.Rune {
		if norm(a.Rune[i]) != norm(b.Rune[i]) || a.Attr[i] != b.Attr[i] {
			n++
		}
	}
	return n
}

type difCfg struct {
	w, h  int
	alpha []acell
	curs  []anansi.Cursor
	depth int // frames after the first
	cells int // if > 0, only that many cells (spread over the screen) vary
}

func cellPattern(w, hh, cells int) (idx []int) {
	n := w * hh
	if cells <= 0 || cells >= n {
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
		return idx
	}
	for k := 0; k < cells; k++ {
		idx = append(idx, k*(n-1)/(cells-1))
	}
	return idx
}

func garbage(w, hh int) *ref.VT {
	t := ref.NewVT(w, hh)
	for i := range t.Cells {
		t.Cells[i] = ref.Cell{R: rune('P' + i%7), A: ref.Attr{Under: i%2 == 0}}
	}
	return t
}

type difNode struct {
	real anansi.Screen
	t    *ref.VT
	path []int32
}

// checkDiffer explores frames: starting from a terminal showing anything, each
// sequence of screen contents and user cursors is flushed, and the reference
// terminal must show it. States are what the differ knows of the terminal.
func checkDiffer(c *h.C) {
	red, bgBlue := ansi.SGRRed.FG(), ansi.SGRBlue.BG()
	hid := anansi.Cursor{}
	at := func(x, y int, a ansi.SGRAttr) anansi.Cursor {
		return anansi.Cursor{Point: mkPt(x, y), Attr: a, Visible: true}
	}
	two := []acell{{}, {'a', 0}}
	three := []acell{{}, {'a', 0}, {'b', red}}
	five := []acell{{}, {'a', 0}, {'b', red}, {0, bgBlue}, {'é', bgBlue | ansi.SGRAttrBold}}
	cfgs := []difCfg{
		{w: 2, h: 1, alpha: five, depth: 3, curs: []anansi.Cursor{hid, at(1, 1, 0), at(2, 1, bgBlue)}},
		{w: 1, h: 2, alpha: five, depth: 3, curs: []anansi.Cursor{hid, at(1, 1, 0), at(1, 2, red)}},
		{w: 1, h: 1, alpha: five, depth: 3, curs: []anansi.Cursor{hid, at(1, 1, bgBlue)}},
		{w: 2, h: 2, alpha: five[:c.Pick(4, 5)], depth: 2, curs: []anansi.Cursor{hid, at(1, 1, 0), at(2, 1, red), at(1, 2, bgBlue), at(2, 2, 0)}},
		{w: 3, h: 1, alpha: five, depth: 2, curs: []anansi.Cursor{hid, at(1, 1, 0), at(3, 1, red)}},
		{w: 4, h: 3, alpha: two, cells: c.Pick(7, 9), depth: 1, curs: []anansi.Cursor{hid, at(4, 3, 0), at(2, 2, red)}},
		{w: 12, h: 11, alpha: three, cells: c.Pick(4, 6), depth: 1, curs: []anansi.Cursor{hid, at(12, 11, 0), at(1, 11, 0)}},
		{w: 3, h: 4, alpha: three, cells: c.Pick(4, 6), depth: 2, curs: []anansi.Cursor{hid, at(3, 2, 0), at(1, 4, red)}},
	}
	for _, cf := range cfgs {
		if c.Expired() {
			return
		}
		exploreFrames(c, cf)
	}
	checkDifferHistories(c)
	checkLargeFrames(c, func(w io.Writer, prior anansi.Screen, g anansi.Grid, uc anansi.Cursor) (anansi.Screen, error) {
		var sd anansi.ScreenDiffer
		sd.Real = prior
		sd.Grid = g
		sd.UserCursor = uc
		_, err := sd.WriteTo(w)
		return sd.Real, err
	}, true)
}

func exploreFrames(c *h.C, cf difCfg) {
	idx := cellPattern(cf.w, cf.h, cf.cells)
	ngrid := 1
	for range idx {
		ngrid *= len(cf.alpha)
	}
	nframe := ngrid * len(cf.curs)
	name := fmt.Sprintf("%dx%d, %d cell values on %d cells, %d cursors", cf.w, cf.h, len(cf.alpha), len(idx), len(cf.curs))
	fill := func(g anansi.Grid, f int) {
		v := f / len(cf.curs)
		for i := range g.Rune {
			g.Rune[i], g.Attr[i] = 0, 0
		}
		for _, i := range idx {
			cell := cf.alpha[v%len(cf.alpha)]
			v /= len(cf.alpha)
			g.Rune[i], g.Attr[i] = cell.r, cell.a
		}
	}
	frameName := func(f int) string {
		v := f / len(cf.curs)
		var ss []string
		for _, i := range idx {
			cell := cf.alpha[v%len(cf.alpha)]
			v /= len(cf.alpha)
			ss = append(ss, fmt.Sprintf("%d:%q/%v", i, cell.r, cell.a))
		}
		return fmt.Sprintf("[%s cursor %v]", strings.Join(ss, " "), cf.curs[f%len(cf.curs)])
	}

	seen := map[string]bool{}
	var mu sync.Mutex
	var frontier []*difNode
	t0 := garbage(cf.w, cf.h)
	t0.MoveTo(cf.w, cf.h)
	frontier = []*difNode{{t: t0}}
	states := 0
	for level := 0; level <= cf.depth && !c.Expired(); level++ {
		var next []*difNode
		c.Parallel(len(frontier), func(ni int) {
			n := frontier[ni]
			t := &ref.VT{}
			var out []byte
			for f := 0; f < nframe && !c.Expired(); f++ {
				uc := cf.curs[f%len(cf.curs)]
				var sd anansi.ScreenDiffer
				sd.Grid.Resize(image.Pt(cf.w, cf.h))
				sd.Real = n.real
				sd.Real.Grid = cloneGrid(n.real.Grid)
				fill(sd.Grid, f)
				sd.UserCursor = uc
				t.CopyFrom(n.t)
				t.Puts = 0
				rec := recWriter{t, out[:0]}
				c.Transitions(1)
				desc := func() string {
					s := name + ":"
					for _, pf := range n.path {
						s += " " + frameName(int(pf))
					}
					return s + " then " + frameName(f) + fmt.Sprintf("\noutput %q\nfrom\n%v\nto\n%v", rec.b, n.t, t)
				}
				sig := fmt.Sprintf("frame:%dx%d:%d:%v:%d", cf.w, cf.h, len(cf.alpha), n.path, f)
				var err error
				var m int64
				if !c.Guard("panic-"+sig, desc, func() { m, err = sd.WriteTo(&rec) }) {
					continue
				}
				out = rec.b
				if err != nil || int(m) != len(rec.b) {
					c.Violate(sig, "WriteTo = %v, %v after %d bytes: %s", m, err, len(rec.b), desc())
					continue
				}
				if d := showDiff(t, sd.Grid, uc); d != "" {
					c.Violate(sig, "%s\n%s", d, desc())
					continue
				}
				if len(n.real.Rune) > 0 {
					if ch := changedCells(n.real.Grid, sd.Grid); t.Puts > ch {
						c.Violate("redraw-"+sig, "%d cells drawn though %d changed: %s", t.Puts, ch, desc())
					}
				}
				if d := cellDiff(t, sd.Real.Grid); d != "" {
					c.Violate("real-"+sig, "what is believed to show: %s\n%s", d, desc())
					continue
				}
				c.Traces(1)
				if level == cf.depth {
					continue
				}
				key := string(t.Key([]byte(fmt.Sprintf("%s %+v", name, sd.Real.Cursor))))
				mu.Lock()
				if !seen[key] {
					seen[key] = true
					states++
					next = append(next, &difNode{sd.Real, t.Clone(), append(n.path[:len(n.path):len(n.path)], int32(f))})
				}
				mu.Unlock()
				c.StateS(key)
			}
		})
		frontier = next
	}
	c.Sample("%s: %d frames, %d states, %d frames deep", name, nframe, states, cf.depth+1)
}

type recWriter struct {
	t *ref.VT
	b []byte
}

func (r *recWriter) Write(p []byte) (int, error) {
	r.b = append(r.b, p...)
	return r.t.Write(p)
}

// checkDifferHistories explores histories that mix frames with invalidation,
// window resizes, and the different ways to write content and to flush.
func checkDifferHistories(c *h.C) {
	type st struct {
		sd   anansi.ScreenDiffer
		t    *ref.VT
		dirt bool // the terminal was written to by somebody else
	}
	type op struct {
		name string
		f    func(s *st) string
	}
	put := func(s string) op {
		return op{fmt.Sprintf("Clear, To(1,1), write %q", s), func(x *st) string {
			x.sd.Clear()
			x.sd.To(mkPt(1, 1))
			x.sd.WriteString(s)
			return ""
		}}
	}
	check := func(x *st) string {
		x.dirt = false
		d := showDiff(x.t, x.sd.VirtualScreen.Grid, x.sd.UserCursor)
		x.t.Puts = 0
		return d
	}
	size := func(w, hh int) op {
		return op{fmt.Sprintf("resize %dx%d", w, hh), func(x *st) string {
			// a full screen application redraws after a resize
			x.t.Resize(w, hh)
			x.sd.Resize(image.Pt(w, hh))
			x.sd.Clear()
			return ""
		}}
	}
	ops := []op{
		put("ab"),
		put("\x1b[41ma\x1b[mb"),
		put("\x1b[31ma b"),
		{"Clear", func(x *st) string { x.sd.Clear(); return "" }},
		{"overwrite corner", func(x *st) string {
			g := x.sd.Grid
			g.Rune[len(g.Rune)-1], g.Attr[len(g.Attr)-1] = 'z', ansi.SGRGreen.BG()
			return ""
		}},
		{"user cursor 2,1", func(x *st) string {
			x.sd.UserCursor = anansi.Cursor{Point: mkPt(2, 1), Visible: true}
			return ""
		}},
		{"user cursor beyond", func(x *st) string {
			x.sd.UserCursor = anansi.Cursor{Point: mkPt(9, 9), Visible: true, Attr: ansi.SGRBlue.BG()}
			return ""
		}},
		{"user cursor hidden", func(x *st) string { x.sd.UserCursor = anansi.Cursor{Point: mkPt(1, 1)}; return "" }},
		{"foreign output, Invalidate", func(x *st) string {
			g := garbage(x.t.W, x.t.H)
			copy(x.t.Cells, g.Cells)
			x.t.MoveTo(x.t.W, x.t.H-1)
			x.sd.Invalidate()
			return ""
		}},
		size(3, 2),
		size(2, 3),
		size(4, 1),
		{"flush", func(x *st) string {
			n, err := x.sd.WriteTo(x.t)
			if err != nil {
				return fmt.Sprintf("WriteTo = %d, %v", n, err)
			}
			return check(x)
		}},
		{"flush via Buffer", func(x *st) string {
			var b anansi.Buffer
			if _, err := x.sd.WriteTo(&b); err != nil {
				return fmt.Sprint("WriteTo(Buffer): ", err)
			}
			if _, err := b.WriteTo(x.t); err != nil {
				return fmt.Sprint("Buffer.WriteTo: ", err)
			}
			return check(x)
		}},
		{"write cut ESC", func(x *st) string { x.sd.To(mkPt(1, 1)); x.sd.WriteString("c\x1b["); return "" }},
	}
	depth := c.Pick(5, 6)
	c.Bound("history_operations", len(ops))
	c.Bound("history_depth", depth)
	run := func(w []int) {
		x := st{t: garbage(3, 2)}
		x.t.MoveTo(2, 2)
		x.sd.Resize(image.Pt(3, 2))
		var names []string
		desc := func() string {
			names = names[:0]
			for _, o := range w {
				names = append(names, ops[o].name)
			}
			return strings.Join(names, "; ")
		}
		w = append(w[:len(w):len(w)], 12)
		c.Guard("hist-panic:"+fmt.Sprint(w), desc, func() {
			for i, o := range w {
				c.Transitions(1)
				if d := ops[o].f(&x); d != "" {
					c.Violate("hist:"+fmt.Sprint(w[:i+1]), "%s\n%s (step %d)\n%v", desc(), d, i+1, x.t)
					return
				}
			}
			c.Traces(1)
			c.State(x.t.Key([]byte(fmt.Sprintf("h%+v", x.sd.Real.Cursor))))
		})
	}
	c.Words(len(ops), 1, depth, run)
}
