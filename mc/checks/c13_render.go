package checks

import (
	"fmt"
	"image"
	"io"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C13", checkRender) }

// checkRender explores every pair of small grids (what is shown, what is to be
// shown) under every style, and bitmaps, rendered in one go.
func checkRender(c *h.C) {
	checkRenderGrids(c)
	checkScreenUpdates(c)
	checkRenderBitmaps(c)
	checkLargeFrames(c, func(w io.Writer, prior anansi.Screen, g anansi.Grid, _ anansi.Cursor) (anansi.Screen, error) {
		_, sc, err := anansi.WriteGrid(w, g, prior)
		if len(prior.Rune) == 0 {
			sc.Grid = g
		}
		return sc, err
	}, false)
}

// styledLook is what a cell styled so shows on a terminal.
func styledLook(r rune, a ansi.SGRAttr) (rune, ref.Attr) {
	if r == 0 && a == 0 {
		return ' ', ref.Attr{}
	}
	if r == 0 {
		r = ' '
	}
	return r, fromAnsiAttr(a)
}

func checkRenderGrids(c *h.C) {
	type shape struct{ w, h int }
	shapes := []shape{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {2, 2}}
	if c.Thorough() {
		shapes = append(shapes, shape{4, 1}, shape{1, 4})
	}
	alpha := []acell{{}, {'a', 0}, {'b', ansi.SGRRed.FG()}, {0, ansi.SGRBlue.BG()}, {' ', ansi.SGRGreen.BG()}, {'b', ansi.SGRGreen.BG()}}
	rs := refStyles()
	rs = append(rs, refStyle{"FillRuneStyle(space)", anansi.FillRuneStyle(' '), func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
		if r == 0 {
			r = ' '
		}
		return r, a
	}})
	combos := [][]int{nil}
	for i := range rs {
		combos = append(combos, []int{i})
	}
	for i := range rs {
		for j := range rs {
			combos = append(combos, []int{i, j})
		}
	}
	c.Bound("style_combinations", len(combos))
	c.Bound("cell_values", len(alpha))
	for _, sh := range shapes {
		n := sh.w * sh.h
		k := len(alpha)
		if n >= 4 {
			k = c.Pick(3, 5)
		}
		ng := 1
		for i := 0; i < n; i++ {
			ng *= k
		}
		mk := func(v int) anansi.Grid {
			var g anansi.Grid
			g.Resize(image.Pt(sh.w, sh.h))
			for i := range g.Rune {
				g.Rune[i], g.Attr[i] = alpha[v%k].r, alpha[v%k].a
				v /= k
			}
			return g
		}
		apply := func(ci int, g anansi.Grid) anansi.Grid {
			st := cloneGrid(g)
			for i := range st.Rune {
				r, a := st.Rune[i], st.Attr[i]
				for _, si := range combos[ci] {
					r, a = rs[si].f(0, r, 0, a)
				}
				st.Rune[i], st.Attr[i] = r, a
			}
			return st
		}
		c.Parallel(ng*len(combos), func(job int) {
			ci, v1 := job%len(combos), job/len(combos)
			if len(combos[ci]) > 1 && n > 2 && !c.Thorough() {
				return
			}
			var styles []anansi.Style
			var names []string
			for _, si := range combos[ci] {
				styles = append(styles, rs[si].style)
				names = append(names, rs[si].name)
			}
			g1 := mk(v1)
			want1 := apply(ci, g1)
			check := func(sig, what string, t *ref.VT, sc anansi.Screen, want anansi.Grid) bool {
				bad := ""
				for y := 1; y <= sh.h && bad == ""; y++ {
					for x := 1; x <= sh.w; x++ {
						i := (y-1)*sh.w + x - 1
						r, a := styledLook(want.Rune[i], want.Attr[i])
						if !sameLook(r, a, *t.At(x, y)) {
							bad = fmt.Sprintf("cell %d,%d shows %q %v, want %q %v", x, y, t.At(x, y).R, t.At(x, y).A, r, a)
							break
						}
					}
				}
				if bad == "" && len(t.Bad)+t.Scrolled > 0 {
					bad = fmt.Sprintf("terminal got %q, scrolled %d", t.Bad, t.Scrolled)
				}
				if bad == "" && sc.Cursor.Point.Valid() && (t.X != sc.Cursor.X || t.Y != sc.Cursor.Y || t.Pending) {
					bad = fmt.Sprintf("terminal cursor at %d,%d, said to be at %v", t.X, t.Y, sc.Cursor.Point)
				}
				if bad == "" && sc.Cursor.Attr != 0 && fromAnsiAttr(sc.Cursor.Attr) != t.Attr {
					bad = fmt.Sprintf("terminal rendition %v, said to be %v", t.Attr, sc.Cursor.Attr)
				}
				if bad != "" {
					c.Violate(sig, "%s: %s\n%v", what, bad, t)
					return false
				}
				return true
			}
			// full, on a terminal showing anything
			t1 := garbage(sh.w, sh.h)
			t1.MoveTo(sh.w, 1)
			rec := recWriter{t: t1}
			sig := fmt.Sprintf("full:%v:%d:%v", sh, v1, combos[ci])
			what := fmt.Sprintf("WriteGrid of%s with styles %v", gridString(g1), names)
			var m int
			var sc1 anansi.Screen
			var err error
			c.Transitions(1)
			if !c.Guard("panic-"+sig, func() string { return what }, func() {
				m, sc1, err = anansi.WriteGrid(&rec, g1, anansi.Screen{}, styles...)
			}) {
				return
			}
			if err != nil || m != len(rec.b) {
				c.Violate("ret-"+sig, "%s = %d, %v for %d bytes", what, m, err, len(rec.b))
			}
			if !check(sig, what+fmt.Sprintf(" wrote %q", rec.b), t1, sc1, want1) {
				return
			}
			c.StateS(string(t1.Key(nil)))
			// then each other grid, differentially; prior is what shows
			for _, si := range combos[ci] {
				if strings.HasPrefix(rs[si].name, "TransparentRunes") || strings.HasPrefix(rs[si].name, "TransparentAttr") {
					return // styles that combine with a prior cell are for drawing
				}
			}
			shown := cloneGrid(want1)
			for i, r := range shown.Rune {
				if r == 0 {
					shown.Rune[i] = ' '
				}
			}
			// it may be all of its storage, or a part of a larger screen
			larger := anansi.Grid{}
			larger.Resize(image.Pt(sh.w+1, sh.h+1))
			sub := larger.SubSize(image.Pt(sh.w, sh.h))
			for y := 0; y < sh.h; y++ {
				copy(sub.Rune[y*sub.Stride:], shown.Rune[y*sh.w:(y+1)*sh.w])
				copy(sub.Attr[y*sub.Stride:], shown.Attr[y*sh.w:(y+1)*sh.w])
			}
			for v := 0; v < 2*ng && !c.Expired(); v++ {
				v2 := v / 2
				g2 := mk(v2)
				want2 := apply(ci, g2)
				t2 := t1.Clone()
				prior := sc1
				prior.Grid = cloneGrid(shown)
				if v%2 == 1 {
					// around which there is, as it happens, what gets drawn
					prior.Grid = cloneGrid(sub)
					for i := range prior.Rune {
						if i%sub.Stride >= sh.w || i/sub.Stride >= sh.h {
							prior.Rune[i], prior.Attr[i] = want2.Rune[i%n], want2.Attr[i%n]
						}
					}
				}
				sig := fmt.Sprintf("diff:%v:%d:%d.%d:%v", sh, v1, v2, v%2, combos[ci])
				what := fmt.Sprintf("%s, then WriteGrid of%s", what, gridString(g2))
				rec := recWriter{t: t2}
				var sc2 anansi.Screen
				c.Transitions(1)
				if !c.Guard("panic-"+sig, func() string { return what }, func() {
					m, sc2, err = anansi.WriteGrid(&rec, g2, prior, styles...)
				}) {
					continue
				}
				if err != nil || m != len(rec.b) {
					c.Violate("ret-"+sig, "%s = %d, %v for %d bytes", what, m, err, len(rec.b))
				}
				if check(sig, what+fmt.Sprintf(" wrote %q", rec.b), t2, sc2, want2) {
					c.Traces(1)
				}
			}
		})
	}
}

// checkScreenUpdates chains Screen.Update through every pair of screens.
func checkScreenUpdates(c *h.C) {
	const w, hh = 2, 2
	alpha := []acell{{}, {'a', 0}, {'b', ansi.SGRRed.FG() | ansi.SGRBlue.BG()}}
	curs := []anansi.Cursor{
		{},
		{Point: mkPt(1, 1), Visible: true},
		{Point: mkPt(2, 2), Visible: true, Attr: ansi.SGRGreen.BG()},
		{Point: mkPt(1, 2), Visible: false},
	}
	ng := 81 * len(curs)
	mk := func(v int) (sc anansi.Screen) {
		sc.Grid.Resize(image.Pt(w, hh))
		sc.Cursor = curs[v%len(curs)]
		v /= len(curs)
		for i := range sc.Rune {
			sc.Rune[i], sc.Attr[i] = alpha[v%3].r, alpha[v%3].a
			v /= 3
		}
		return sc
	}
	c.Parallel(ng, func(v1 int) {
		sc1 := mk(v1)
		t := garbage(w, hh)
		var last anansi.Screen
		var err error
		var m int
		for _, v2 := range []int{v1, -1} {
			if v2 >= 0 {
				rec := recWriter{t: t}
				m, last, err = sc1.Update(&rec, anansi.Screen{})
				if err != nil || m != len(rec.b) {
					c.Violate(fmt.Sprintf("update:%d", v1), "Update = %d, %v for %d bytes", m, err, len(rec.b))
				}
				if d := showDiff(t, sc1.Grid, sc1.Cursor); d != "" {
					c.Violate(fmt.Sprintf("update:%d", v1), "Update to%s %v: %s\n%v", gridString(sc1.Grid), sc1.Cursor, d, t)
					return
				}
				continue
			}
			for v2 := 0; v2 < ng; v2++ {
				sc2 := mk(v2)
				t2 := t.Clone()
				prior := last
				prior.Grid = cloneGrid(last.Grid)
				rec := recWriter{t: t2}
				m, got, err := sc2.Update(&rec, prior)
				c.Transitions(1)
				sig := fmt.Sprintf("update:%d:%d", v1, v2)
				what := fmt.Sprintf("Update to%s %v, then to%s %v", gridString(sc1.Grid), sc1.Cursor, gridString(sc2.Grid), sc2.Cursor)
				if err != nil || m != len(rec.b) {
					c.Violate(sig, "%s = %d, %v for %d bytes", what, m, err, len(rec.b))
				}
				if d := showDiff(t2, sc2.Grid, sc2.Cursor); d != "" {
					c.Violate(sig, "%s: %s\n%v", what, d, t2)
				} else if !got.Grid.Eq(sc2.Grid, ' ') {
					c.Violate(sig, "%s: returned state has%s", what, gridString(got.Grid))
				}
				if gridString(mk(v2).Grid) != gridString(sc2.Grid) {
					c.Violate("mod-"+sig, "%s changed the screen", what)
				}
				c.Traces(1)
			}
		}
		c.StateS(string(t.Key(nil)))
	})
}

func checkRenderBitmaps(c *h.C) {
	red, bg := ansi.SGRRed.FG(), ansi.SGRBlue.BG()
	byCol := anansi.StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
		if r&0x10 != 0 {
			return r, red
		}
		if r&0x20 != 0 {
			return r, bg | ansi.SGRAttrBold
		}
		return r, a
	})
	byColRef := func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
		return byCol(ansi.ZP, pr, r, pa, a)
	}
	rs := append(refStyles(), refStyle{"by content", byCol, byColRef})
	sizes := [][2]int{{2, 4}, {4, 4}, {2, 8}, {4, 8}, {3, 5}, {5, 9}}
	for _, sz := range sizes {
		w, hh := sz[0], sz[1]
		type region struct{ x0, y0, x1, y1 int }
		var regs []region
		for x0 := 0; x0 < w; x0++ {
			for y0 := 0; y0 < hh; y0++ {
				for x1 := x0 + 1; x1 <= w; x1++ {
					for y1 := y0 + 1; y1 <= hh; y1++ {
						regs = append(regs, region{x0, y0, x1, y1})
					}
				}
			}
		}
		c.Parallel(len(regs), func(ri int) {
			r := regs[ri]
			for seed := 0; seed < 4; seed++ {
				var bi anansi.Bitmap
				bi.Resize(image.Pt(w, hh))
				for y := 0; y < hh; y++ {
					for x := 0; x < w; x++ {
						bi.Set(image.Pt(x, y), (x*5+y*3+x*y+seed)%(2+seed) == 0 && y != 6)
					}
				}
				sub := bi.SubRect(image.Rect(r.x0, r.y0, r.x1, r.y1))
				cols, rows := (r.x1-r.x0+1)/2, (r.y1-r.y0+3)/4
				for si := -1; si < len(rs)*(len(rs)+1); si++ {
					var combo []int
					var styles []anansi.Style
					var names []string
					if si >= 0 {
						combo = append(combo, si%len(rs))
						if si >= len(rs) {
							combo = append(combo, si/len(rs)-1)
						}
					}
					for _, i := range combo {
						styles = append(styles, rs[i].style)
						names = append(names, rs[i].name)
					}
					for _, buffered := range []bool{false, true} {
						t := ref.NewVT(cols, rows)
						rec := recWriter{t: t}
						sig := fmt.Sprintf("bitmap:%v:%v:%d:%v:%v", sz, r, seed, combo, buffered)
						what := fmt.Sprintf("WriteBitmap of %v region %+v contents %d styles %v", sz, r, seed, names)
						c.Transitions(1)
						var n int
						var err error
						if !c.Guard("panic-"+sig, func() string { return what }, func() {
							if buffered {
								var b anansi.Buffer
								n, err = anansi.WriteBitmap(&b, sub, styles...)
								b.WriteTo(&rec)
							} else {
								n, err = anansi.WriteBitmap(&rec, sub, styles...)
							}
						}) {
							continue
						}
						if err != nil || n != len(rec.b) {
							c.Violate("ret-"+sig, "%s = %d, %v for %d bytes", what, n, err, len(rec.b))
						}
						bad := ""
						if t.Scrolled > 0 || len(t.Bad) > 0 || !t.Ground() {
							bad = fmt.Sprintf("terminal scrolled %d, got %q", t.Scrolled, t.Bad)
						}
						for y := 0; y < rows && bad == ""; y++ {
							for x := 0; x < cols && bad == ""; x++ {
								br, ba := sub.Rune(image.Pt(r.x0+2*x, r.y0+4*y)), ansi.SGRAttr(0)
								for _, i := range combo {
									br, ba = rs[i].f(0, br, 0, ba)
								}
								if br == 0 {
									br, ba = ' ', 0
								}
								wr, wa := styledLook(br, ba)
								if tc := t.At(x+1, y+1); !sameLook(wr, wa, *tc) {
									bad = fmt.Sprintf("cell %d,%d shows %q %v, want %q %v", x+1, y+1, tc.R, tc.A, wr, wa)
								}
							}
						}
						if bad != "" {
							c.Violate(sig, "%s wrote %q: %s", what, rec.b, bad)
							continue
						}
						c.Traces(1)
					}
				}
				c.StateS(fmt.Sprint(sz, r, seed))
			}
		})
	}
	c.Sample("%s", strings.Join([]string{"WriteBitmap of a 5x9 bitmap, region (1,2)-(4,9), styled by content"}, ""))
}
