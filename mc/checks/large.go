package checks

import (
	"fmt"
	"image"
	"io"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

// Passes over large values: the other passes of these checks enumerate
// everything up to small sizes; these enumerate every combination of a few
// values around the sizes (digits, bytes, words) at which code may change
// course.

var bigCoords = []int{1, 2, 9, 10, 11, 79, 80, 81, 99, 100, 101, 127, 128, 129, 132, 223, 224, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024}

// checkLargeRects compares rectangles of any coordinates with arithmetic.
func checkLargeRects(c *h.C) {
	vals := []int{-65537, -300, -1, 0, 1, 2, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 1 << 20, 1<<31 - 1, 1 << 31}
	if !c.Thorough() {
		vals = []int{-300, 0, 1, 127, 128, 256, 257, 32768, 65536, 1 << 31}
	}
	type span struct{ a, b int }
	var spans []span
	for _, a := range vals {
		for _, b := range vals {
			spans = append(spans, span{a, b})
		}
	}
	c.Bound("large_coordinates", fmt.Sprint(vals))
	empty := func(s span) bool { return s.a >= s.b }
	and := func(s, o span) span { return span{imax(s.a, o.a), imin(s.b, o.b)} }
	or := func(s, o span) span { return span{imin(s.a, o.a), imax(s.b, o.b)} }
	// the other axis is one of these pairs, so that both decide
	others := [][2]span{{{3, 300}, {2, 200}}, {{1, 2}, {2, 3}}, {{5, 5}, {1, 9}}}
	c.Parallel(len(spans), func(i int) {
		sa := spans[i]
		for _, sb := range spans {
			for oi, o := range others {
				for flip := 0; flip < 2; flip++ {
					mk := func(x, y span) ansi.Rectangle {
						if flip == 1 {
							x, y = y, x
						}
						return mkRect(x.a, y.a, x.b, y.b)
					}
					a, b := mk(sa, o[0]), mk(sb, o[1])
					aEmpty, bEmpty := empty(sa) || empty(o[0]), empty(sb) || empty(o[1])
					bad := func(what string, got interface{}) {
						c.Violate(fmt.Sprintf("large:%v:%v:%s", a, b, what), "rectangles %v and %v: %s = %v", a, b, what, got)
					}
					is, io := and(sa, sb), and(o[0], o[1])
					iEmpty := aEmpty || bEmpty || empty(is) || empty(io)
					same := func(got, want ansi.Rectangle, wantEmpty bool) bool {
						if wantEmpty {
							return got.Empty()
						}
						return got == want
					}
					if got := a.Intersect(b); !same(got, mk(is, io), iEmpty) {
						bad("Intersect", got)
					}
					if got := a.Overlaps(b); got != !iEmpty {
						bad("Overlaps", got)
					}
					if got := a.In(b); got != (aEmpty || !bEmpty && is == sa && io == o[0]) {
						bad("In", got)
					}
					if got := a.Eq(b); got != (aEmpty && bEmpty || a == b) {
						bad("Eq", got)
					}
					if got := a.Empty(); got != aEmpty {
						bad("Empty", got)
					}
					want := mk(or(sa, sb), or(o[0], o[1]))
					if aEmpty {
						want = b
					} else if bEmpty {
						want = a
					}
					if got := a.Union(b); !same(got, want, aEmpty && bEmpty) {
						bad("Union", got)
					}
					for _, p := range [][2]int{{sb.a, o[0].a}, {sb.b - 1, o[0].b - 1}, {sb.b, o[1].a}} {
						x, y := p[0], p[1]
						if flip == 1 {
							x, y = y, x
						}
						in := a.Min.X <= x && x < a.Max.X && a.Min.Y <= y && y < a.Max.Y
						if got := mkPt(x, y).In(a); got != in {
							bad(fmt.Sprintf("Contains(%d,%d)", x, y), got)
						}
					}
					d := image.Pt(sb.a, sb.b)
					if got := a.Add(d); got != mkRect(a.Min.X+d.X, a.Min.Y+d.Y, a.Max.X+d.X, a.Max.Y+d.Y) {
						bad("Add", got)
					}
					if got := a.Sub(d); got != mkRect(a.Min.X-d.X, a.Min.Y-d.Y, a.Max.X-d.X, a.Max.Y-d.Y) {
						bad("Sub", got)
					}
					if got := a.Size(); got != image.Pt(a.Max.X-a.Min.X, a.Max.Y-a.Min.Y) {
						bad("Size", got)
					}
					p, q := a.Min, b.Max
					if p.Valid() {
						if got := p.ToImage(); got != image.Pt(p.X-1, p.Y-1) {
							bad("ToImage", got)
						}
					}
					if got := p.Diff(q); got != image.Pt(p.X-q.X, p.Y-q.Y) {
						bad("Diff", got)
					}
					if oi == 0 {
						if got := a.Canon(); got != mkRect(imin(a.Min.X, a.Max.X), imin(a.Min.Y, a.Max.Y), imax(a.Min.X, a.Max.X), imax(a.Min.Y, a.Max.Y)) {
							bad("Canon", got)
						}
						if w, ht := a.Max.X-a.Min.X, a.Max.Y-a.Min.Y; w >= 0 && ht >= 0 {
							for _, n := range []int{-1000, -1, 1, 100, 128} {
								if got := a.Inset(n); w >= 2*n && ht >= 2*n && got != mkRect(a.Min.X+n, a.Min.Y+n, a.Max.X-n, a.Max.Y-n) {
									bad(fmt.Sprintf("Inset(%d)", n), got)
								}
							}
						}
					}
				}
			}
		}
		c.Transitions(len(spans) * len(others) * 2)
		c.Traces(len(spans) * len(others) * 2)
	})
	c.StateS("large rectangles")
}

// checkLargeMoves compares absolute moves on a large terminal with where its
// cursor ends up.
func checkLargeMoves(c *h.C) {
	const W, H = 1024, 1024
	c.Bound("large_moves", fmt.Sprintf("from and to every position with coordinates among %v", bigCoords))
	n := len(bigCoords)
	big := ref.NewVT(W, H)
	c.Parallel(n*n, func(job int) {
		var tty ref.VT = *big // shares the cells, which moves leave alone
		x0, y0 := bigCoords[job/n], bigCoords[job%n]
		var out []byte
		for _, x1 := range bigCoords {
			for _, y1 := range bigCoords {
				for known := 0; known < 2; known++ {
					var cur anansi.Cursor
					tty.MoveTo(x0, y0)
					if known == 1 {
						cur.Point = mkPt(x0, y0)
					}
					seq := cur.To(mkPt(x1, y1))
					out = seq.AppendTo(out[:0])
					tty.Write(out)
					if tty.X != x1 || tty.Y != y1 || cur.Point != mkPt(x1, y1) || len(tty.Bad) > 0 {
						c.Violate(fmt.Sprintf("large-move:%d,%d->%d,%d:%d", x0, y0, x1, y1, known),
							"To(%d,%d) from %d,%d (known: %d) emits %q: terminal at %d,%d tracked %v", x1, y1, x0, y0, known, out, tty.X, tty.Y, cur.Point)
						tty.Bad = nil
					}
				}
			}
		}
		c.Transitions(2 * n * n)
		c.Traces(2 * n * n)
	})
	// the same through a virtual cursor, which also flushes
	c.Parallel(n*n, func(job int) {
		var tty ref.VT = *big
		var vc anansi.VirtualCursor
		x0, y0 := bigCoords[job/n], bigCoords[job%n]
		for i, x1 := range bigCoords {
			y1 := bigCoords[(i*5+job)%n]
			vc.To(mkPt(x0, y0))
			vc.WriteTo(&tty)
			vc.To(mkPt(x1, y1))
			vc.WriteTo(&tty)
			if tty.X != x1 || tty.Y != y1 || vc.Cursor.Point != mkPt(x1, y1) || len(tty.Bad) > 0 {
				c.Violate(fmt.Sprintf("large-vmove:%d,%d->%d,%d", x0, y0, x1, y1), "To(%d,%d) flushed, To(%d,%d) flushed: terminal at %d,%d, tracked %v", x0, y0, x1, y1, tty.X, tty.Y, vc.Cursor.Point)
				tty.Bad = nil
			}
			// and relative motions the caller writes itself
			for _, k := range []int{9, 10, 99, 100, 127, 128, 255, 256} {
				for dir := 0; dir < 4; dir++ {
					fin := "ABCD"[dir]
					x, y := x1+[]int{0, 0, k, -k}[dir], y1+[]int{-k, k, 0, 0}[dir]
					if x < 1 || x >= W || y < 1 || y > H {
						continue
					}
					fmt.Fprintf(&vc, "\x1b[%d%c", k, fin)
					vc.WriteTo(&tty)
					if tty.X != x || tty.Y != y || vc.Cursor.Point != mkPt(x, y) {
						c.Violate(fmt.Sprintf("large-rel:%d%c", k, fin), "after To(%d,%d) and ESC [ %d %c the terminal is at %d,%d, tracked %v", x1, y1, k, fin, tty.X, tty.Y, vc.Cursor.Point)
					}
					vc.To(mkPt(x1, y1))
					vc.WriteTo(&tty)
					c.Transitions(1)
				}
			}
		}
	})
	c.StateS("large moves")
}

// bigScreens are sizes, and the coordinates to visit on them.
type bigScreen struct {
	w, h   int
	xs, ys []int
}

func bigScreens(wide bool) (bs []bigScreen) {
	pick := func(n int) (vs []int) {
		for _, v := range bigCoords {
			if v < n {
				vs = append(vs, v)
			}
		}
		return append(vs, n)
	}
	bs = append(bs, bigScreen{300, 3, pick(300), []int{1, 2, 3}}, bigScreen{3, 300, []int{1, 2, 3}, pick(300)})
	if wide {
		bs = append(bs, bigScreen{130, 102, []int{1, 99, 100, 128, 130}, []int{1, 80, 99, 100, 101, 102}}, bigScreen{1100, 2, pick(1100), []int{1, 2}})
	}
	return bs
}

var bigAttrs = []ansi.SGRAttr{0, ansi.SGRRed.FG(), ansi.SGRBlue.BG(), ansi.SGRAttrBold | ansi.SGRGreen.BG(), ansi.RGB(1, 2, 3).FG() | ansi.SGRAttrUnderscore, 0, 0}

func bigFill(g anansi.Grid, seed int) {
	for i := range g.Rune {
		g.Rune[i] = rune('a' + (i*5+i/97+seed)%23)
		g.Attr[i] = bigAttrs[(i/3+seed)%len(bigAttrs)]
	}
}

// checkLargeScreens applies every operation at each of some positions of
// large screens.
func checkLargeScreens(c *h.C) {
	for _, b := range bigScreens(c.Thorough()) {
		b := b
		var g anansi.Grid
		g.Resize(image.Pt(b.w, b.h))
		bigFill(g, 0)
		base := ref.NewVT(b.w, b.h)
		base.Immediate, base.NoBCE = true, true
		base.Visible = false
		for i := range g.Rune {
			base.Cells[i] = ref.Cell{R: g.Rune[i], A: fromAnsiAttr(g.Attr[i])}
		}
		var ops []string
		for _, k := range []int{1, 9, 10, 80, 99, 100, 101, 127, 128, 255, 256, 257, 1000} {
			for _, fin := range "ABCD" {
				ops = append(ops, fmt.Sprintf("\x1b[%d%c", k, fin))
			}
			for _, j := range []int{1, 2, 99, 128, 256} {
				ops = append(ops, fmt.Sprintf("\x1b[%d;%dH", k, j), fmt.Sprintf("\x1b[%d;%dH", j, k))
			}
		}
		ops = append(ops, "\x1b[J", "\x1b[1J", "\x1b[2J", "\x1b[K", "\x1b[1K", "\x1b[2K", "\r", "\n", "é", "\x1b[H",
			"\x1b[38;2;1;20;255;48;5;208mA", "\x1b[0;1;4;7;38;5;255;48;2;100;128;255mB")
		for _, n := range []int{64, 129, 257, 599} {
			ops = append(ops, strings.Repeat("0123456789é", n/11+1)[:n-n%11])
		}
		c.Count("large_screen_operations", len(ops))
		attrs := fromAttrs(g)
		c.Parallel(len(b.xs)*len(b.ys), func(job int) {
			x, y := b.xs[job%len(b.xs)], b.ys[job/len(b.xs)]
			t := &ref.VT{}
			var vs anansi.VirtualScreen
			for _, op := range ops {
				t.CopyFrom(base)
				fmt.Fprintf(t, "\x1b[0;32m")
				t.MoveTo(x, y)
				t.Write([]byte(op))
				if t.Scrolled > 0 {
					continue
				}
				vs.Grid = g
				vs.Grid.Rune = append(vs.Rune[:0:0], g.Rune...)
				vs.Grid.Attr = append(vs.Attr[:0:0], g.Attr...)
				vs.Cursor = anansi.Cursor{}
				desc := func() string { return fmt.Sprintf("%dx%d: at %d,%d write %q", b.w, b.h, x, y, op) }
				c.Transitions(1)
				if !c.Guard("large-screen-panic:"+desc(), desc, func() {
					vs.WriteString("\x1b[0;32m")
					vs.To(mkPt(x, y))
					vs.WriteString(op)
				}) {
					continue
				}
				bad := ""
				if vs.Cursor.X != t.X || vs.Cursor.Y != t.Y || fromAnsiAttr(vs.Cursor.Attr) != t.Attr {
					bad = fmt.Sprintf("cursor %v, want %d,%d %v", vs.Cursor, t.X, t.Y, t.Attr)
				}
				for i := 0; i < len(vs.Rune) && bad == ""; i++ {
					r, want := vs.Rune[i], t.Cells[i]
					if r == 0 {
						r = ' '
					}
					a := attrs[i]
					if vs.Attr[i] != g.Attr[i] {
						a = fromAnsiAttr(vs.Attr[i])
					}
					if r != want.R || a != want.A {
						bad = fmt.Sprintf("cell %d,%d is %q %v, want %q %v", i%b.w+1, i/b.w+1, r, vs.Attr[i], want.R, want.A)
					}
				}
				if bad != "" {
					c.Violate("large-screen:"+desc(), "%s: %s", desc(), bad)
					continue
				}
				c.Traces(1)
			}
			c.StateS(fmt.Sprint("large", b.w, b.h, x, y))
		})
	}
}

func fromAttrs(g anansi.Grid) (as []ref.Attr) {
	for _, a := range g.Attr {
		as = append(as, fromAnsiAttr(a))
	}
	return as
}

// bigChange changes some cells of g.
type bigChange struct {
	name string
	f    func(g anansi.Grid)
}

func bigChanges(b bigScreen) (chs []bigChange) {
	set := func(g anansi.Grid, x, y, k int) {
		i, ok := g.CellOffset(mkPt(x, y))
		if ok {
			g.Rune[i] = rune('A' + k)
			g.Attr[i] = bigAttrs[k%len(bigAttrs)]
		}
	}
	type pt struct{ x, y int }
	var pts []pt
	for _, y := range b.ys {
		for _, x := range b.xs {
			pts = append(pts, pt{x, y})
		}
	}
	for i, p := range pts {
		for j, q := range pts[i:] {
			p, q, k := p, q, j%5
			chs = append(chs, bigChange{fmt.Sprintf("cells %v and %v", p, q), func(g anansi.Grid) {
				set(g, p.x, p.y, k)
				set(g, q.x, q.y, k+i%2)
			}})
		}
	}
	for _, y := range b.ys {
		for _, x0 := range b.xs {
			for _, x1 := range b.xs {
				y, x0, x1 := y, x0, x1
				if x0 < x1 {
					chs = append(chs, bigChange{fmt.Sprintf("cells %d to %d of row %d", x0, x1, y), func(g anansi.Grid) {
						for x := x0; x <= x1; x++ {
							set(g, x, y, 1+x/40%3)
						}
					}})
				}
			}
		}
	}
	chs = append(chs, bigChange{"nothing", func(g anansi.Grid) {}},
		bigChange{"everything", func(g anansi.Grid) { bigFill(g, 1) }},
		bigChange{"cleared", func(g anansi.Grid) { g.Clear() }})
	return chs
}

// checkLargeFrames shows screens that differ at every pair of some positions
// and on every run between them, through render, on a terminal that shows
// a full screen.
func checkLargeFrames(c *h.C, render func(w io.Writer, prior anansi.Screen, g anansi.Grid, uc anansi.Cursor) (anansi.Screen, error), cursor bool) {
	for _, b := range bigScreens(c.Thorough()) {
		b := b
		var g0 anansi.Grid
		g0.Resize(image.Pt(b.w, b.h))
		bigFill(g0, 0)
		t0 := garbage(b.w, b.h)
		prior, err := render(t0, anansi.Screen{}, g0, anansi.Cursor{})
		d := ""
		if d = cellDiff(t0, g0); err != nil || d != "" {
			c.Violate(fmt.Sprintf("large-first:%dx%d", b.w, b.h), "%dx%d: %s, %v", b.w, b.h, d, err)
			continue
		}
		attrs := fromAttrs(g0)
		chs := bigChanges(b)
		c.Count("large_changes", len(chs))
		ncur := 1
		if cursor {
			ncur = c.Pick(2, 5)
		}
		c.Parallel(len(chs), func(ci int) {
			t := &ref.VT{}
			for k := 0; k < ncur && !c.Expired(); k++ {
				var uc anansi.Cursor
				if k > 0 {
					uc = anansi.Cursor{Point: mkPt(b.xs[(ci*7+k)%len(b.xs)], b.ys[(ci*5+k*3)%len(b.ys)]), Visible: true, Attr: bigAttrs[(ci+k)%len(bigAttrs)]}
				}
				g := cloneGrid(g0)
				chs[ci].f(g)
				pr := prior
				pr.Grid = cloneGrid(prior.Grid)
				t.CopyFrom(t0)
				t.Puts = 0
				desc := func() string { return fmt.Sprintf("%dx%d: %s, cursor %v", b.w, b.h, chs[ci].name, uc) }
				sig := "large-frame:" + desc()
				c.Transitions(1)
				rec := recWriter{t: t}
				if !c.Guard("panic-"+sig, desc, func() { _, err = render(&rec, pr, g, uc) }) {
					continue
				}
				if err != nil {
					c.Violate(sig, "%s: %v", desc(), err)
					continue
				}
				bad := ""
				for i := 0; i < len(g.Rune) && bad == ""; i++ {
					a := attrs[i]
					if g.Attr[i] != g0.Attr[i] {
						a = fromAnsiAttr(g.Attr[i])
					}
					if !sameLook(g.Rune[i], a, t.Cells[i]) {
						bad = fmt.Sprintf("cell %d,%d shows %q %v, the screen has %q %v", i%b.w+1, i/b.w+1, t.Cells[i].R, t.Cells[i].A, g.Rune[i], g.Attr[i])
					}
				}
				if bad == "" && len(t.Bad)+t.Scrolled > 0 {
					bad = fmt.Sprintf("the terminal got %q, scrolled %d", t.Bad, t.Scrolled)
				}
				if bad == "" && cursor {
					var one anansi.Grid
					one.Resize(image.Pt(1, 1))
					if k > 0 && (!t.Visible || t.X != uc.X || t.Y != uc.Y || t.Attr != fromAnsiAttr(uc.Attr)) {
						bad = fmt.Sprintf("the cursor is at %d,%d %v visible %v", t.X, t.Y, t.Attr, t.Visible)
					} else if k == 0 && t.Visible {
						bad = "the cursor shows"
					}
				}
				if bad == "" {
					if ch := changedCells(g0, g); t.Puts > ch {
						bad = fmt.Sprintf("%d cells drawn though %d changed", t.Puts, ch)
					}
				}
				if bad != "" {
					c.Violate(sig, "%s: %s\noutput %.300q", desc(), bad, rec.b)
					continue
				}
				c.Traces(1)
			}
			c.StateS(fmt.Sprint("large", b.w, b.h, ci))
		})
	}
}

// checkLargeDraws draws between parts of large grids.
func checkLargeDraws(c *h.C) {
	for _, b := range bigScreens(c.Thorough()) {
		b := b
		if b.w > 1000 {
			continue
		}
		// spans of the long axis
		long, other := b.xs, b.ys
		if b.h > b.w {
			long, other = b.ys, b.xs
		}
		_ = other
		var spans [][2]int
		for i, a := range long {
			for _, z := range long[i:] {
				if i%2 == 0 || c.Thorough() {
					spans = append(spans, [2]int{a, z + 1})
				}
			}
		}
		c.Count("large_regions", len(spans))
		c.Parallel(len(spans), func(si int) {
			ss := spans[si]
			for _, lo := range long {
				ds := [2]int{lo, long[len(long)-1] + 1}
				mk := func(s [2]int, short0, short1 int) ansi.Rectangle {
					if b.h > b.w {
						return mkRect(short0, s[0], short1, s[1])
					}
					return mkRect(s[0], short0, s[1], short1)
				}
				var dst, src anansi.Grid
				dst.Resize(image.Pt(b.w, b.h))
				src.Resize(image.Pt(b.w, b.h))
				bigFill(dst, 3)
				bigFill(src, 7)
				want := cloneGrid(dst)
				dr, sr := mk(ds, 2, 4), mk(ss, 1, 3)
				for y := 0; sr.Min.Y+y < sr.Max.Y && dr.Min.Y+y < dr.Max.Y; y++ {
					for x := 0; sr.Min.X+x < sr.Max.X && dr.Min.X+x < dr.Max.X; x++ {
						di := (dr.Min.Y+y-1)*b.w + dr.Min.X + x - 1
						si := (sr.Min.Y+y-1)*b.w + sr.Min.X + x - 1
						want.Rune[di], want.Attr[di] = src.Rune[si], src.Attr[si]
					}
				}
				desc := fmt.Sprintf("DrawGrid to %v from %v of %dx%d", dr, sr, b.w, b.h)
				c.Transitions(1)
				if !c.Guard("large-draw-panic:"+desc, func() string { return desc }, func() { anansi.DrawGrid(dst.SubRect(dr), src.SubRect(sr)) }) {
					continue
				}
				for i := range want.Rune {
					if dst.Rune[i] != want.Rune[i] || dst.Attr[i] != want.Attr[i] {
						c.Violate("large-draw:"+desc, "%s: cell %d,%d is %q %v, want %q %v", desc, i%b.w+1, i/b.w+1, dst.Rune[i], dst.Attr[i], want.Rune[i], want.Attr[i])
						break
					}
				}
				c.Traces(1)
			}
			c.StateS(fmt.Sprint("large", b.w, b.h, si))
		})
	}
}

// bigText is a long input, and where it may be cut in an interesting way.
type bigText struct {
	s    string
	cuts []int
}

// bigTexts are inputs with runs, strings and parameter lists around the sizes
// at which buffers get grown.
func bigTexts(c *h.C) (ts []bigText) {
	sizes := []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4096, 4097}
	if c.Thorough() {
		sizes = append(sizes, 511, 512, 513, 1024, 2047, 2049, 4095, 8191, 8193)
	}
	c.Bound("large_texts", fmt.Sprintf("9 kinds of %v bytes", sizes))
	fill := func(unit string, n int) string { return strings.Repeat(unit, n/len(unit)+1)[:n/len(unit)*len(unit)] }
	for _, n := range sizes {
		for _, s := range []string{
			fill("abc", n),
			fill("é日😀", n),
			"\x1b]0;" + fill("title ", n) + "\x07z",
			"\x1bP" + fill("qé", n) + "\x1b\\z",
			"\x1b[" + fill("1;23;", n) + "mz",
			"\x1b[" + fill("0", n) + "7Az",
			fill("\x1b[A\x1b[31mx", n) + "\x1bM",
			fill("\r\n", n) + "\x1b[2",
			"a\x1b[3mé" + fill("-", n) + "\x1b[0;38;5;17m日\x1b]x\x1b\\",
		} {
			cuts := []int{1, 2, 3, 5, len(s) / 2, len(s) - 3, len(s) - 2, len(s) - 1}
			for _, k := range []int{64, 127, 128, 129, 256, 4095, 4096, 4097} {
				if k > 5 && k < len(s)-3 {
					cuts = append(cuts, k)
				}
			}
			ts = append(ts, bigText{s, cuts})
		}
	}
	return ts
}

// checkLargeBuffers writes, processes and flushes long texts in pieces.
func checkLargeBuffers(c *h.C) {
	texts := bigTexts(c)
	modes := []string{"nothing", "Discard", "WriteTo", "WriteTo that blocks", "WriteTo that blocks late", "Reset"}
	c.Parallel(len(texts), func(ti int) {
		text := texts[ti]
		for _, cut := range text.cuts {
			for mode := range modes {
				s := text.s
				name := fmt.Sprintf("%.40q… of %d bytes cut at %d, in between %s", s, len(s), cut, modes[mode])
				sig := "large-buf:" + name
				c.Transitions(1)
				c.Guard("panic-"+sig, func() string { return name }, func() {
					var b anansi.Buffer
					var rec tokRec
					var sk byteSink
					b.WriteString(s[:cut])
					b.Process(&rec)
					toks, rest := ref.Tokenize(s[:cut], false)
					held := s[:cut]
					sent := ""
					switch mode {
					case 1:
						b.Discard()
						held = rest
					case 2, 3, 4:
						k := len(held) - len(rest)
						if len(rest) > 0 && mode == 2 {
							break // would send what is not processed yet
						}
						sk.mode, sk.k = 2, k
						if mode == 3 {
							sk.k = k / 2
						} else if mode == 2 {
							sk.mode = 0
						}
						n, _ := b.WriteTo(&sk)
						if int(n) != len(sk.b) || int(n) > k || mode != 3 && int(n) != k {
							c.Violate(sig, "%s: WriteTo returns %d, wrote %d, of %d", name, n, len(sk.b), k)
							return
						}
						sent, held = held[:n], held[n:]
					case 5:
						if len(rest) > 0 {
							break
						}
						b.Reset()
						held = ""
					}
					for i := cut; i < len(s); i += 1000 {
						b.Write([]byte(s[i:imin(i+1000, len(s))]))
						held += s[i:imin(i+1000, len(s))]
						if i%3 == 0 {
							b.Process(&rec)
						}
					}
					b.Process(&rec)
					more, _ := ref.Tokenize(rest+s[cut:], false)
					if g, w := normTok(rec.toks), normTok(append(toks, more...)); g != w {
						c.Violate(sig, "%s: processed %.300s\nwant %.300s", name, g, w)
						return
					}
					if string(sk.b) != sent || string(b.Bytes()) != held || b.Len() != len(held) {
						c.Violate(sig, "%s: wrote %d bytes, want %d; holds %d bytes, want %d", name, len(sk.b), len(sent), b.Len(), len(held))
						return
					}
					sk.mode = 0
					if n, err := b.WriteTo(&sk); int(n) != len(held) || err != nil || string(sk.b) != sent+held || b.Len() != 0 {
						c.Violate(sig, "%s: the last WriteTo returns %d, %v for %d bytes; all wrote %d", name, n, err, len(held), len(sk.b))
						return
					}
					c.Traces(1)
				})
			}
		}
		c.StateS(fmt.Sprint("large text", ti))
	})
}

// checkLargeInput reads and decodes large amounts of input.
func checkLargeInput(c *h.C) {
	sizes := []int{127, 128, 129, 255, 256, 1000, 4095, 4096, 4097, 20000, 65000}
	c.Bound("large_reads", fmt.Sprint(sizes))
	type job struct{ kind, min, k1, k2, dec int }
	var jobs []job
	for kind := range feedKinds {
		for _, min := range []int{0, 1, 1000} {
			for _, k1 := range sizes {
				for _, k2 := range []int{1, 129, 4000, 20000} {
					if kind >= 3 && (k1 > 3000 || k2 > 4000) {
						continue // more than terminals hold
					}
					for dec := 0; dec < 3; dec++ {
						jobs = append(jobs, job{kind, min, k1, k2, dec})
					}
				}
			}
		}
	}
	run := func(j job) {
		f := newFeed(j.kind)
		defer f.cls()
		in := &anansi.Input{File: f.file, MinReadSize: j.min}
		name := fmt.Sprintf("%s, MinReadSize=%d: %d bytes arrive, are read, %s decoded; %d bytes arrive", f.kind, j.min, j.k1, []string{"none", "half", "all"}[j.dec], j.k2)
		sig := "large-input:" + name
		if err := in.Enter(nil); err != nil {
			panic(err)
		}
		defer in.Exit(nil)
		sent, next := 0, 0
		gen := func(k int) []byte {
			b := make([]byte, k)
			for i := range b {
				b[i] = byte('!' + (sent+i)%89)
			}
			sent += k
			return b
		}
		decode := func(n int) bool {
			for ; next < n; next++ {
				if e, a, ok := in.Decode(); !ok || int(e) != '!'+next%89 || a != nil {
					c.Violate(sig, "%s: byte %d decodes as %v %q %v", name, next, e, a, ok)
					return false
				}
			}
			return true
		}
		c.Transitions(1)
		f.write(gen(j.k1), j.k1)
		if n, err := in.ReadAny(); n != j.k1 || err != nil {
			c.Violate(sig, "%s: the first ReadAny returns %d, %v", name, n, err)
			return
		}
		if !decode([]int{0, j.k1 / 2, j.k1}[j.dec]) {
			return
		}
		f.write(gen(j.k2), j.k2)
		if j.dec != 1 {
			if n, err := in.ReadAny(); n != j.k2 || err != nil {
				c.Violate(sig, "%s: the second ReadAny returns %d, %v", name, n, err)
				return
			}
		} else {
			for got := 0; got < j.k2; {
				n, err := in.ReadMore()
				if n <= 0 || err != nil {
					c.Violate(sig, "%s: ReadMore returns %d, %v after %d", name, n, err, got)
					return
				}
				got += n
			}
		}
		if decode(sent) {
			if e, a, ok := in.Decode(); ok {
				c.Violate(sig, "%s: after all bytes, %v %q", name, e, a)
				return
			}
			c.Traces(1)
		}
		c.StateS("large " + f.kind)
	}
	c.Parallel(len(jobs), func(i int) {
		c.Guard(fmt.Sprint("large-panic:", jobs[i]), func() string { return fmt.Sprintf("%+v", jobs[i]) }, func() { run(jobs[i]) })
	})
}

// checkLargeLines runs every two frames of some long edit lines.
func checkLargeLines(c *h.C) {
	sizes := []int{126, 127, 128, 129, 254, 255, 256, 257, 300}
	widths := []int{1, 10, 100, 127, 128, 129, 255, 256, 257, 400}
	if !c.Thorough() {
		sizes, widths = []int{127, 128, 255, 256, 300}, []int{1, 100, 128, 256, 400}
	}
	c.Bound("long_lines", fmt.Sprintf("of %v runes, in boxes %v wide, two frames", sizes, widths))
	keys := []editKey{{in: "a", ins: 'a'}, {in: "𝄞", ins: '𝄞'}, {in: "\x7f", del: true}, {in: "\x1b[C", move: 1}, {in: "\x1b[D", move: -1}}
	for _, n := range []int{99, 100, 127, 128, 255, 256, 1000} {
		keys = append(keys, editKey{in: fmt.Sprintf("\x1b[%dC", n), move: n}, editKey{in: fmt.Sprintf("\x1b[%dD", n), move: -n})
	}
	inputs := [][]editKey{nil, {{in: "\r", end: platform.EditLineDone}}}
	for _, k := range keys {
		inputs = append(inputs, []editKey{k}, []editKey{k, {in: "é", ins: 'é'}}, []editKey{k, {in: "\x7f", del: true}})
	}
	var many, dels []editKey
	for i := 0; i < 300; i++ {
		many = append(many, keys[i%2])
		dels = append(dels, keys[2])
	}
	inputs = append(inputs, many, dels, append(many[:130:130], keys[2]), dels[:130])
	bounds := ansi.Rect(1, 1, 411, 4)
	boxMin := ansi.Pt(3, 2)
	c.Parallel(len(sizes)*len(inputs), func(job int) {
		p, err := platform.New(nil, nil, platform.Config{})
		if err != nil {
			c.Violate("new", "platform.New fails: %v", err)
			return
		}
		var es platform.Events
		var sc anansi.TermScreen
		n, first := sizes[job%len(sizes)], inputs[job/len(sizes)]
		text := string([]rune(strings.Repeat("abé𝄞0123456789 ", n/15+1))[:n])
		frame := func(from editState, in []editKey, w int) (editState, bool) {
			c.Transitions(1)
			to, bad := editFrame(c, from, in, w, p, &es, &sc, bounds, boxMin)
			if bad != "" {
				var s string
				for _, k := range in {
					s += k.in
				}
				what := fmt.Sprintf("line of %d runes with cursor %d viewed from %d in a box %d wide, given %.60q", n, from.cur, from.view, w, s)
				c.Violate("long "+what, "%s: %s", what, bad)
			}
			return to, bad == ""
		}
		for _, cur := range []int{0, 1, 100, n - 1, n} {
			for _, w := range widths {
				to, ok := frame(editState{refLine: refLine{text: text, cur: cur}}, first, w)
				if !ok || to.state != platform.EditLineReady {
					continue
				}
				for i, in := range inputs {
					if i%2 == job%2 || c.Thorough() {
						frame(to, in, w)
					}
				}
				c.Traces(1)
			}
			if c.Expired() {
				return
			}
		}
		c.StateS(fmt.Sprint("long line", job))
	})
}

// checkLargeBitmaps draws parts of large bitmaps to parts of large grids.
func checkLargeBitmaps(c *h.C) {
	dots := [4][2]rune{{0x01, 0x08}, {0x02, 0x10}, {0x04, 0x20}, {0x40, 0x80}}
	vals := []int{0, 1, 2, 99, 127, 128, 199, 255, 256, 257, 400, 513, 599}
	type job struct {
		tall   bool
		a0, a1 int // along the long axis
	}
	var jobs []job
	for _, a0 := range vals {
		for _, a1 := range append(vals[1:len(vals):len(vals)], 600) {
			if a1 > a0 {
				jobs = append(jobs, job{false, a0, a1}, job{true, a0, a1})
			}
		}
	}
	c.Bound("large_bitmaps", fmt.Sprintf("600 bits wide or tall, regions between %v", vals))
	c.Parallel(len(jobs), func(ji int) {
		j := jobs[ji]
		w, hh := 600, 9
		gw, gh := 300, 4
		region := image.Rect(j.a0, 1, j.a1, 8)
		if j.tall {
			w, hh, gw, gh = hh, w, 6, 160
			region = image.Rect(1, j.a0, 8, j.a1)
		}
		bit := func(x, y int) bool { return (x*7+y*5+x*y)%3 == 0 }
		in := func(x, y int) bool { return image.Pt(x, y).In(region) && bit(x, y) }
		name := fmt.Sprintf("%v of a bitmap of %dx%d bits", region, w, hh)
		c.Guard("large-bitmap-panic:"+name, func() string { return name }, func() {
			var bi anansi.Bitmap
			bi.Resize(image.Pt(w, hh))
			for y := 0; y < hh; y++ {
				for x := 0; x < w; x++ {
					if bit(x, y) {
						bi.Set(image.Pt(x, y), true)
					}
				}
			}
			sub := bi.SubRect(region)
			for _, at := range [][2]int{{1, 1}, {2, 2}, {imin(gw, 128), imin(gh, 101)}} {
				dst := newGrid(gw, gh, 1)
				want := cloneGrid(dst)
				for y := 0; y < (region.Dy()+3)/4 && at[1]+y <= gh; y++ {
					for x := 0; x < (region.Dx()+1)/2 && at[0]+x <= gw; x++ {
						r := rune(0x2800)
						for dy := 0; dy < 4; dy++ {
							for dx := 0; dx < 2; dx++ {
								if in(region.Min.X+2*x+dx, region.Min.Y+4*y+dy) {
									r |= dots[dy][dx]
								}
							}
						}
						i := (at[1]+y-1)*gw + at[0] + x - 1
						want.Rune[i], want.Attr[i] = r, 0
					}
				}
				anansi.DrawBitmap(dst.SubAt(mkPt(at[0], at[1])), sub)
				c.Transitions(1)
				for i := range want.Rune {
					if dst.Rune[i] != want.Rune[i] || dst.Attr[i] != want.Attr[i] {
						c.Violate(fmt.Sprintf("large-bitmap:%s:%v", name, at), "%s, drawn at %v of a %dx%d grid: cell %d,%d is %q %v, want %q %v", name, at, gw, gh, i%gw+1, i/gw+1, dst.Rune[i], dst.Attr[i], want.Rune[i], want.Attr[i])
						break
					}
				}
			}
			c.Traces(1)
			c.StateS(name)
		})
	})
}
