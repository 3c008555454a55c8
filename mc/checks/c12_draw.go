package checks

import (
	"fmt"
	"image"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() { h.Register("C12", checkDraw) }

// styleCall is one invocation of a Style.
type styleCall struct {
	p     ansi.Point
	pr, r rune
	pa, a ansi.SGRAttr
}

// refStyle is a style and its documented meaning.
type refStyle struct {
	name  string
	style anansi.Style
	f     func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr)
}

const fgBits = ansi.SGRAttrFGMask | ansi.SGRAttrMask

func refStyles() []refStyle {
	red := ansi.SGRRed.FG() | ansi.SGRAttrBold
	transp := func(mask ansi.SGRAttr) func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
		return func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if a&mask == 0 {
				a = a&^mask | pa&mask
			}
			return r, a
		}
	}
	return []refStyle{
		{"TransparentRunes", anansi.TransparentRunes, func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if r == 0 {
				r = pr
			}
			return r, a
		}},
		{"TransparentAttrBG", anansi.TransparentAttrBG, transp(ansi.SGRAttrBGMask)},
		{"TransparentAttrFG", anansi.TransparentAttrFG, transp(fgBits)},
		{"TransparentAttrBGFG", anansi.TransparentAttrBGFG, transp(fgBits | ansi.SGRAttrBGMask)},
		{"ZeroRuneStyle(b)", anansi.ZeroRuneStyle('b'), func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if r == 'b' {
				return 0, 0
			}
			return r, a
		}},
		{"TransparentBrailleRunes", anansi.TransparentBrailleRunes, func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if r == 0x2800 {
				return 0, 0
			}
			return r, a
		}},
		{"FillRuneStyle(.)", anansi.FillRuneStyle('.'), func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if r == 0 {
				r = '.'
			}
			return r, a
		}},
		{"DefaultRuneStyle(_)", anansi.DefaultRuneStyle('_'), func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if r == 0 && a != 0 {
				r = '_'
			}
			return r, a
		}},
		{"AttrStyle(bold red)", anansi.AttrStyle(red), func(pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if r != 0 {
				a = red
			}
			return r, a
		}},
	}
}

// checkDraw compares drawing grids and bitmaps, with every style and every
// pair of sub regions, to a cell by cell reference.
func checkDraw(c *h.C) {
	checkStyles(c)
	checkDrawGrids(c)
	checkBitmaps(c)
	checkGridHistories(c)
	checkLargeDraws(c)
	checkLargeBitmaps(c)
}

func checkStyles(c *h.C) {
	red, blue, bg, bg2 := ansi.SGRRed.FG(), ansi.SGRBlue.FG(), ansi.SGRGreen.BG(), ansi.RGB(9, 8, 7).BG()
	runes := []rune{0, 'a', 'b', ' ', 0x2800, 0x28ff}
	attrs := []ansi.SGRAttr{0, red, blue | ansi.SGRAttrBold, bg, bg2 | red, ansi.SGRAttrItalic, ansi.SGRAttrClear | bg}
	rs := refStyles()
	n := len(rs)
	max := c.Pick(3, 4)
	c.Bound("styles_combined", max)
	c.Words(n, 0, max, func(w []int) {
		var flat []anansi.Style
		var names []string
		for _, i := range w {
			flat = append(flat, rs[i].style)
			names = append(names, rs[i].name)
		}
		forms := map[string]anansi.Style{"flat": anansi.Styles(flat...)}
		if len(w) > 1 {
			forms["nested left"] = anansi.Styles(anansi.Styles(flat[:len(flat)-1]...), flat[len(flat)-1])
			forms["nested right"] = anansi.Styles(flat[0], anansi.NoopStyle, anansi.Styles(flat[1:]...))
			// combining a combination further must not change it
			left := anansi.Styles(flat[:len(flat)-1]...)
			keep := anansi.Styles(left, flat[len(flat)-1])
			anansi.Styles(left, anansi.ZeroRuneStyle('a'))
			forms["shared prefix"] = keep
		}
		for form, st := range forms {
			if st == nil {
				c.Violate(fmt.Sprintf("style:nil:%v", w), "Styles(%s) is nil", strings.Join(names, ", "))
				continue
			}
			for _, pr := range runes {
				for _, r := range runes {
					for _, pa := range attrs {
						for _, a := range attrs {
							wr, wa := r, a
							if len(w) == 0 {
								wa = 0
							}
							for _, i := range w {
								wr, wa = rs[i].f(pr, wr, pa, wa)
							}
							gr, ga := st.Style(mkPt(2, 3), pr, r, pa, a)
							if gr != wr || ga != wa {
								c.Violate(fmt.Sprintf("style:%v:%s", w, form), "Styles(%s) (%s) of prior %q %v, drawn %q %v = %q %v, want %q %v",
									strings.Join(names, ", "), form, pr, pa, r, a, gr, ga, wr, wa)
							}
						}
					}
				}
			}
			c.Transitions(len(runes) * len(runes) * len(attrs) * len(attrs))
		}
		c.Traces(1)
	})
}

type rectSpec struct{ w, h, x0, y0, x1, y1 int }

func (s rectSpec) String() string {
	return fmt.Sprintf("(%d,%d)-(%d,%d) of %dx%d", s.x0, s.y0, s.x1, s.y1, s.w, s.h)
}

func (s rectSpec) rect() ansi.Rectangle { return mkRect(s.x0, s.y0, s.x1, s.y1) }

func subSpecs(w, hh int) (rs []rectSpec) {
	for x0 := 1; x0 <= w; x0++ {
		for y0 := 1; y0 <= hh; y0++ {
			for x1 := x0; x1 <= w+1; x1++ {
				for y1 := y0; y1 <= hh+1; y1++ {
					rs = append(rs, rectSpec{w, hh, x0, y0, x1, y1})
				}
			}
		}
	}
	return rs
}

func newGrid(w, hh, seed int) anansi.Grid {
	attrs := []ansi.SGRAttr{0, ansi.SGRRed.FG(), ansi.SGRBlue.BG(), ansi.SGRAttrBold | ansi.SGRGreen.BG(), ansi.RGB(1, 2, 3).FG() | ansi.SGRAttrNegative}
	var g anansi.Grid
	g.Resize(image.Pt(w, hh))
	for i := range g.Rune {
		k := i*3 + seed*5
		switch k % 4 {
		case 0:
			g.Rune[i] = 0
		case 1:
			g.Rune[i] = 'b'
		default:
			g.Rune[i] = rune('c' + k%17)
		}
		g.Attr[i] = attrs[(i*2+seed)%len(attrs)]
	}
	return g
}

func gridString(g anansi.Grid) string {
	var sb strings.Builder
	for i := range g.Rune {
		if g.Stride > 0 && i > 0 && i%g.Stride == 0 {
			sb.WriteByte('/')
		}
		fmt.Fprintf(&sb, " %q%v", g.Rune[i], g.Attr[i])
	}
	return sb.String()
}

func checkDrawGrids(c *h.C) {
	sizes := [][2]int{{1, 1}, {2, 1}, {1, 3}, {2, 2}, {3, 2}}
	if c.Thorough() {
		sizes = append(sizes, [2]int{3, 3}, [2]int{4, 2})
	}
	var specs []rectSpec
	for _, s := range sizes {
		specs = append(specs, subSpecs(s[0], s[1])...)
	}
	c.Bound("grid_regions", len(specs))
	rs := refStyles()
	type combo []int
	combos := []combo{nil}
	for i := range rs {
		combos = append(combos, combo{i})
		for j := range rs {
			if c.Thorough() || j == 0 || i == 0 {
				combos = append(combos, combo{i, j})
			}
		}
	}
	c.Parallel(len(specs), func(di int) {
		ds := specs[di]
		for _, ss := range specs {
			for seed := 0; seed < 3; seed++ {
				for ci := -1; ci < len(combos); ci++ {
					if c.Expired() {
						return
					}
					dst, src := newGrid(ds.w, ds.h, seed), newGrid(ss.w, ss.h, seed+2)
					want, src0 := cloneGrid(dst), cloneGrid(src)
					var calls, wantCalls []styleCall
					var styles []anansi.Style
					if ci < 0 { // a recording style
						styles = append(styles, anansi.StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
							if p.Valid() {
								calls = append(calls, styleCall{p, pr, r, pa, a})
							}
							return r, a
						}))
					} else {
						for _, i := range combos[ci] {
							styles = append(styles, rs[i].style)
						}
					}
					for y := 0; ss.y0+y < ss.y1 && ds.y0+y < ds.y1; y++ {
						for x := 0; ss.x0+x < ss.x1 && ds.x0+x < ds.x1; x++ {
							di := (ds.y0+y-1)*ds.w + ds.x0 + x - 1
							si := (ss.y0+y-1)*ss.w + ss.x0 + x - 1
							r, a := src.Rune[si], src.Attr[si]
							if ci < 0 {
								wantCalls = append(wantCalls, styleCall{mkPt(ds.x0+x, ds.y0+y), want.Rune[di], r, want.Attr[di], a})
							} else {
								for _, i := range combos[ci] {
									r, a = rs[i].f(dst.Rune[di], r, dst.Attr[di], a)
								}
							}
							if r != 0 || len(styles) == 0 {
								want.Rune[di], want.Attr[di] = r, a
							}
						}
					}
					desc := func() string {
						var names []string
						if ci < 0 {
							names = append(names, "recording")
						} else {
							for _, i := range combos[ci] {
								names = append(names, rs[i].name)
							}
						}
						return fmt.Sprintf("DrawGrid to %v from %v with styles %v, contents %d", ds, ss, names, seed)
					}
					sig := fmt.Sprintf("draw:%v:%v:%d:%d", ds, ss, seed, ci)
					c.Transitions(1)
					if !c.Guard("panic-"+sig, desc, func() { anansi.DrawGrid(dst.SubRect(ds.rect()), src.SubRect(ss.rect()), styles...) }) {
						continue
					}
					if g, w := gridString(dst), gridString(want); g != w {
						c.Violate(sig, "%s gives %s, want %s", desc(), g, w)
					}
					if gridString(src) != gridString(src0) {
						c.Violate("src-"+sig, "%s changed its source", desc())
					}
					if ci < 0 {
						seen := map[styleCall]int{}
						for _, k := range calls {
							seen[k]++
						}
						for _, k := range wantCalls {
							seen[k]--
						}
						for k, n := range seen {
							if n != 0 {
								c.Violate("calls-"+sig, "%s: style called %+d times with %+v", desc(), n, k)
								break
							}
						}
					}
					c.Traces(1)
				}
			}
			c.StateS(fmt.Sprint(ds, ss))
		}
	})
}

func checkBitmaps(c *h.C) {
	dots := [4][2]rune{{0x01, 0x08}, {0x02, 0x10}, {0x04, 0x20}, {0x40, 0x80}}
	cell := func(bits func(x, y int) bool, x0, y0 int) rune {
		r := rune(0x2800)
		for y := 0; y < 4; y++ {
			for x := 0; x < 2; x++ {
				if bits(x0+x, y0+y) {
					r |= dots[y][x]
				}
			}
		}
		return r
	}
	// every bit pattern of one braille cell
	for v := 0; v < 256; v++ {
		var bi anansi.Bitmap
		bi.Resize(image.Pt(2, 4))
		want := rune(0x2800)
		for i := 0; i < 8; i++ {
			if v>>uint(i)&1 != 0 {
				bi.Set(image.Pt(i%2, i/2), true)
				want |= dots[i/2][i%2]
			}
		}
		if got := bi.Rune(image.ZP); got != want {
			c.Violate(fmt.Sprintf("braille:%d", v), "bits %08b (row by row from the lowest) show as %U, want %U", v, got, want)
		}
		c.Transitions(1)
	}
	sizes := [][2]int{{1, 1}, {2, 4}, {3, 5}, {5, 3}, {4, 9}}
	if c.Thorough() {
		sizes = append(sizes, [2]int{6, 4}, [2]int{5, 9}, [2]int{7, 2})
	}
	type job struct {
		w, h           int
		x0, y0, x1, y1 int
	}
	var jobs []job
	for _, s := range sizes {
		w, hh := s[0], s[1]
		for x0 := 0; x0 < w; x0++ {
			for y0 := 0; y0 < hh; y0++ {
				for x1 := x0; x1 <= w+1; x1++ {
					for y1 := y0; y1 <= hh+1; y1++ {
						jobs = append(jobs, job{w, hh, x0, y0, x1, y1})
					}
				}
			}
		}
	}
	c.Bound("bitmap_regions", len(jobs))
	dsts := append(subSpecs(2, 2), subSpecs(3, 2)...)
	c.Parallel(len(jobs), func(ji int) {
		j := jobs[ji]
		for seed := 0; seed < 3; seed++ {
			bit := func(x, y int) bool { return x < j.w && y < j.h && (x*7+y*5+seed*3+x*y)%(2+seed) == 0 }
			var lines []string
			for y := 0; y < j.h; y++ {
				var sb strings.Builder
				for x := 0; x < j.w; x++ {
					if bit(x, y) {
						sb.WriteString("##")
					} else {
						sb.WriteString("# ")
					}
				}
				lines = append(lines, sb.String())
			}
			var bi anansi.Bitmap
			sig := fmt.Sprintf("bitmap:%v:%d", j, seed)
			desc := func() string { return fmt.Sprintf("bitmap %q region %+v", lines, j) }
			c.Guard("panic-"+sig, desc, func() {
				bi.Load(anansi.MustParseBitmap("##", lines...))
				sub := bi.SubRect(image.Rectangle{Min: image.Pt(j.x0, j.y0), Max: image.Pt(j.x1, j.y1)})
				x1, y1 := imin(j.x1, j.w), imin(j.y1, j.h)
				if sub.Rect != (image.Rectangle{Min: image.Pt(j.x0, j.y0), Max: image.Pt(x1, y1)}) {
					c.Violate("sub-"+sig, "%s: sub-bitmap covers %v", desc(), sub.Rect)
				}
				in := func(x, y int) bool { return x >= j.x0 && y >= j.y0 && x < x1 && y < y1 && bit(x, y) }
				for y := -1; y <= j.h; y++ {
					for x := -1; x <= j.w; x++ {
						if got, want := sub.Get(image.Pt(x, y)), in(x, y); got != want {
							c.Violate("get-"+sig, "%s: Get(%d,%d) = %v", desc(), x, y, got)
						}
						if x >= j.x0 && y >= j.y0 && x < x1 && y < y1 {
							if got, want := sub.Rune(image.Pt(x, y)), cell(in, x, y); got != want {
								c.Violate("rune-"+sig, "%s: Rune(%d,%d) = %U, want %U", desc(), x, y, got, want)
							}
						}
					}
				}
				rw, rh := (x1-j.x0+1)/2, (y1-j.y0+3)/4
				if sz := sub.RuneSize(); sz != image.Pt(rw, rh) {
					c.Violate("runesize-"+sig, "%s: RuneSize %v, want %dx%d", desc(), sz, rw, rh)
				}
				// drawn to grids
				for _, ds := range dsts {
					for si, st := range [][]anansi.Style{{}, {anansi.TransparentBrailleRunes, anansi.TransparentAttrBGFG}} {
						dst := newGrid(ds.w, ds.h, seed)
						want := cloneGrid(dst)
						for y := 0; y < rh && x1 > j.x0 && ds.y0+y < ds.y1; y++ {
							for x := 0; x < rw && ds.x0+x < ds.x1; x++ {
								i := (ds.y0+y-1)*ds.w + ds.x0 + x - 1
								r := cell(in, j.x0+2*x, j.y0+4*y)
								if si == 0 {
									want.Rune[i], want.Attr[i] = r, 0
								} else if r != 0x2800 {
									want.Rune[i] = r
								}
							}
						}
						anansi.DrawBitmap(dst.SubRect(ds.rect()), sub, st...)
						c.Transitions(1)
						if g, w := gridString(dst), gridString(want); g != w {
							c.Violate(fmt.Sprintf("draw-%s:%v:%d", sig, ds, si), "%s drawn to %v (style %d) gives %s, want %s", desc(), ds, si, g, w)
						}
					}
				}
				// setting outside of the region has no effect, inside it has one
				for y := -1; y <= j.h; y++ {
					for x := -1; x <= j.w; x++ {
						old := append([]bool(nil), bi.Bit...)
						sub.Set(image.Pt(x, y), !sub.Get(image.Pt(x, y)))
						n := 0
						for i := range old {
							if old[i] != bi.Bit[i] {
								n++
								if i != y*j.w+x {
									n += 2
								}
							}
						}
						want := 0
						if x >= j.x0 && y >= j.y0 && x < x1 && y < y1 {
							want = 1
						}
						if n != want {
							c.Violate("set-"+sig, "%s: Set(%d,%d) changed other bits or not its own", desc(), x, y)
						}
						copy(bi.Bit, old)
					}
				}
				c.Traces(1)
				c.StateS(sig)
			})
		}
	})
	// every length of bit data for every stride
	for stride := 1; stride <= 5; stride++ {
		for n := 0; n <= 16; n++ {
			stride, n := stride, n
			sig := fmt.Sprintf("load:%d:%d", stride, n)
			data := make([]bool, n, n+8)
			for i := range data {
				data[i] = i%3 != 1
			}
			tail := data[n : n+8]
			for i := range tail {
				tail[i] = true
			}
			c.Guard("panic-"+sig, func() string { return fmt.Sprintf("Load(%d, %d bits)", stride, n) }, func() {
				var bi anansi.Bitmap
				bi.Load(stride, data)
				rows := (n + stride - 1) / stride
				if bi.Rect != image.Rect(0, 0, stride, rows) {
					c.Violate(sig, "Load(%d, %d bits) gives %v", stride, n, bi.Rect)
					return
				}
				for y := 0; y < rows; y++ {
					for x := 0; x < stride; x++ {
						i := y*stride + x
						if got := bi.Get(image.Pt(x, y)); got != (i < n && i%3 != 1) {
							c.Violate(sig, "Load(%d, %d bits): bit %d,%d is %v", stride, n, x, y, got)
						}
					}
				}
			})
			c.Transitions(1)
		}
	}
}

// checkGridHistories explores histories of resizing and taking sub-grids: a
// sub-grid must stay within the cells of the grid it was taken from.
func checkGridHistories(c *h.C) {
	type op struct {
		name string
		f    func(g anansi.Grid) anansi.Grid
	}
	var ops []op
	for _, s := range [][2]int{{1, 1}, {2, 1}, {3, 3}, {4, 2}, {0, 2}, {2, 0}, {0, 0}} {
		s := s
		ops = append(ops, op{fmt.Sprintf("Resize %dx%d", s[0], s[1]), func(g anansi.Grid) anansi.Grid {
			g.Resize(image.Pt(s[0], s[1]))
			return g
		}})
	}
	for _, p := range [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 3}} {
		p := p
		ops = append(ops, op{fmt.Sprintf("SubAt %d,%d", p[0], p[1]), func(g anansi.Grid) anansi.Grid { return g.SubAt(mkPt(p[0], p[1])) }})
	}
	for _, s := range [][2]int{{1, 1}, {2, 1}, {1, 2}, {9, 9}, {0, 1}} {
		s := s
		ops = append(ops, op{fmt.Sprintf("SubSize %dx%d", s[0], s[1]), func(g anansi.Grid) anansi.Grid { return g.SubSize(image.Pt(s[0], s[1])) }})
	}
	ops = append(ops, op{"Full", func(g anansi.Grid) anansi.Grid { return g.Full() }})
	depth := c.Pick(5, 6)
	c.Bound("grid_operations", len(ops))
	c.Bound("grid_history", depth)
	c.Words(len(ops), 1, depth, func(w []int) {
		desc := func() string {
			var ss []string
			for _, o := range w {
				ss = append(ss, ops[o].name)
			}
			return "grid: Resize 3x2; " + strings.Join(ss, "; ")
		}
		c.Guard("panic-grid:"+fmt.Sprint(w), desc, func() {
			var g anansi.Grid
			g.Resize(image.Pt(3, 2))
			sub := false // a proper sub-grid was taken
			for i, o := range w {
				was := g.Rect
				g = ops[o].f(g)
				c.Transitions(1)
				r := g.Rect
				bad := func(format string, args ...interface{}) {
					c.Violate(fmt.Sprintf("grid:%v", w[:i+1]), "%s\nstep %d: %s; bounds %v stride %d cells %d", desc(), i+1, fmt.Sprintf(format, args...), r, g.Stride, len(g.Rune))
				}
				if len(g.Rune) != len(g.Attr) {
					bad("%d runes, %d attributes", len(g.Rune), len(g.Attr))
					return
				}
				name := ops[o].name
				switch {
				case strings.HasPrefix(name, "Resize"):
					var x, y int
					fmt.Sscanf(name, "Resize %dx%d", &x, &y)
					if !sub && r.Size() != image.Pt(x, y) {
						bad("size %v", r.Size())
						return
					}
				case strings.HasPrefix(name, "Sub"):
					if r != (ansi.Rectangle{}) && (r.Min.X < was.Min.X || r.Min.Y < was.Min.Y || r.Max.X > was.Max.X || r.Max.Y > was.Max.Y) {
						bad("sub-grid of %v", was)
						return
					}
					sub = g.Full().Rect != r
				default:
					sub = false
				}
				if len(g.Rune) == 0 && r.Empty() {
					return // nothing to see
				}
				// within the full grid, every cell at its own place
				seen := map[int]bool{}
				for y := r.Min.Y; y < r.Max.Y; y++ {
					for x := r.Min.X; x < r.Max.X; x++ {
						k, ok := g.CellOffset(mkPt(x, y))
						if !ok || k < 0 || k >= len(g.Rune) || k%g.Stride != x-1 || seen[k] {
							bad("cell %d,%d is at %d %v", x, y, k, ok)
							return
						}
						seen[k] = true
					}
				}
				for _, p := range []ansi.Point{mkPt(r.Min.X-1, r.Min.Y), mkPt(r.Max.X, r.Min.Y), mkPt(r.Min.X, r.Max.Y)} {
					if _, ok := g.CellOffset(p); ok {
						bad("cell %v is said to be within", p)
						return
					}
				}
				// clearing touches exactly those cells
				for k := range g.Rune {
					g.Rune[k], g.Attr[k] = 'x', 1
				}
				g.Clear()
				for k := range g.Rune {
					if (g.Rune[k] == 0) != seen[k] || (g.Attr[k] == 0) != seen[k] {
						bad("after Clear, offset %d holds %q", k, g.Rune[k])
						return
					}
				}
			}
			c.Traces(1)
			c.StateS(fmt.Sprint(g.Rect, g.Stride, len(g.Rune)))
		})
	})
}
