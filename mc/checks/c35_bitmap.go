package checks

import (
	"fmt"
	"image"
	"unicode/utf8"

	"github.com/jcorbin/anansi"

	"verif.local/mc/h"
)

func init() { h.Register("C35", checkBitmap) }

// refBits are the dots of a bitmap.
type refBits struct {
	size image.Point
	on   map[image.Point]bool
}

// refParse reads the drawing of a bitmap: cells of as many runes as set has,
// those that are set are dots.
func refParse(set string, lines []string) (w int, dots []bool, ok bool) {
	n := utf8.RuneCountInString(set)
	if n < 1 || n > 2 {
		return 0, nil, false
	}
	for i, line := range lines {
		rs := []rune(line)
		if len(rs)%n != 0 {
			return 0, nil, false
		}
		if i == 0 {
			w = len(rs) / n
		} else if len(rs)/n != w {
			return 0, nil, false
		}
		for ; len(rs) > 0; rs = rs[n:] {
			dots = append(dots, string(rs[:n]) == string([]rune(set)))
		}
	}
	return w, dots, true
}

// checkBitmap decides C35.
func checkBitmap(c *h.C) {
	sets := []string{"", "#", "é", "##", "# ", ".é", "##.", "\xff", "#\xff"}
	syms := []string{"#", ".", "é", " ", "\xff"}
	nlines, length := 3, c.Pick(3, 4)
	c.Bound("drawings", fmt.Sprintf("up to %d lines of up to %d of %q, for %q as dot", nlines, length, syms, sets))
	var all []string
	var gen func(s string, n int)
	gen = func(s string, n int) {
		all = append(all, s)
		if n > 0 {
			for _, x := range syms {
				gen(s+x, n-1)
			}
		}
	}
	gen("", length)
	short := all
	if len(all) > 160 {
		short = nil
		for _, s := range all {
			if len([]rune(s)) <= 3 {
				short = append(short, s)
			}
		}
	}
	c.Parallel(len(all)*len(sets), func(job int) {
		set, first := sets[job%len(sets)], all[job/len(sets)]
		try := func(lines ...string) {
			var w int
			var got []bool
			var err error
			if !c.Guard("parse:panic", func() string { return fmt.Sprintf("ParseBitmap(%q, %q)", set, lines) }, func() {
				w, got, err = anansi.ParseBitmap(set, lines...)
			}) {
				return
			}
			c.Transitions(1)
			ww, want, ok := refParse(set, lines)
			if (err == nil) != ok || ok && (w != ww || fmt.Sprint(got) != fmt.Sprint(want)) {
				c.Violate("parse", "ParseBitmap(%q, %q) is %v %v %v, want %v %v, success %v", set, lines, w, got, err, ww, want, ok)
			}
			// the infallible version
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				w2, got2 := anansi.MustParseBitmap(set, lines...)
				if w2 != w || fmt.Sprint(got2) != fmt.Sprint(got) {
					c.Violate("mustparse", "MustParseBitmap(%q, %q) is %v %v, ParseBitmap %v %v", set, lines, w2, got2, w, got)
				}
				return false
			}()
			if panicked != !ok {
				c.Violate("mustparse", "MustParseBitmap(%q, %q) panics: %v", set, lines, panicked)
			}
		}
		try(first)
		for _, second := range all {
			try(first, second)
			if len([]rune(first)) > 2 || len([]rune(second)) > 2 {
				continue
			}
			for _, third := range short {
				try(first, second, third)
			}
		}
		c.StateS(fmt.Sprint("drawing", job))
		c.Traces(1)
	})

	// loading
	max := c.Pick(9, 12)
	c.Bound("bits_loaded", max)
	c.Parallel(max+1, func(n int) {
		for stride := 0; stride <= 5; stride++ {
			if stride == 0 && n > 0 {
				continue
			}
			for bits := 0; bits < 1<<uint(n); bits++ {
				back := make([]bool, n+8)
				for i := range back {
					back[i] = i >= n || bits&(1<<uint(i)) != 0
				}
				data := back[:n]
				var bi anansi.Bitmap
				bi.Resize(image.Pt(2, 3))
				bi.Set(image.Pt(1, 1), true)
				bi.Load(stride, data)
				want := refBits{on: map[image.Point]bool{}}
				if stride > 0 {
					want.size = image.Pt(stride, (n+stride-1)/stride)
				}
				for i := 0; i < n; i++ {
					if data[i] {
						want.on[image.Pt(i%stride, i/stride)] = true
					}
				}
				c.Transitions(1)
				if s := want.is(bi, image.Rectangle{Max: want.size}); s != "" {
					c.Violate("load", "%s\nLoad(%d, %v)", s, stride, data)
				}
				for i := n; i < len(back); i++ {
					if !back[i] {
						c.Violate("load:beyond", "Load(%d, %v) writes beyond the data", stride, data)
					}
				}
			}
		}
	})

	// sub-bitmaps of sub-bitmaps, and what is set through them
	sizes := []image.Point{{0, 0}, {1, 1}, {3, 5}, {5, 2}, {2, 9}}
	var rects []image.Rectangle
	for _, x := range []int{-1, 0, 1, 2, 4} {
		for _, y := range []int{-1, 0, 1, 3} {
			for _, dx := range []int{0, 1, 3, 6} {
				for _, dy := range []int{0, 1, 4, 9} {
					rects = append(rects, image.Rect(x, y, x+dx, y+dy))
				}
			}
		}
	}
	c.Bound("rectangles", len(rects))
	c.Parallel(len(sizes)*len(rects), func(job int) {
		size, r1 := sizes[job/len(rects)], rects[job%len(rects)]
		for _, r2 := range rects {
			for how := 0; how < 3; how++ {
				c.Guard("sub:panic", func() string { return fmt.Sprintf("%v sub %v sub %v how %d", size, r1, r2, how) }, func() {
					subs(c, size, r1, r2, how)
				})
			}
		}
		c.StateS(fmt.Sprint("rect", job))
		c.Traces(1)
	})
}

// is compares a bitmap of bounds r.
func (rb refBits) is(bi anansi.Bitmap, r image.Rectangle) string {
	if bi.Rect != r && !(bi.Rect.Empty() && r.Empty()) {
		return fmt.Sprintf("bounds are %v, want %v", bi.Rect, r)
	}
	if sz, w := bi.RuneSize(), image.Pt((r.Dx()+1)/2, (r.Dy()+3)/4); sz != w && !r.Empty() {
		return fmt.Sprintf("size in runes is %v, want %v", sz, w)
	}
	get := func(p image.Point) bool { return p.In(r) && rb.on[p] }
	for y := r.Min.Y - 2; y < r.Max.Y+2; y++ {
		for x := r.Min.X - 2; x < r.Max.X+2; x++ {
			p := image.Pt(x, y)
			if g := bi.Get(p); g != get(p) {
				return fmt.Sprintf("dot %v is %v", p, g)
			}
			if !p.In(r) {
				continue
			}
			want := rune(0x2800)
			for i, d := range []image.Point{{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 1}, {1, 2}, {0, 3}, {1, 3}} {
				if get(p.Add(d)) {
					want |= 1 << uint(i)
				}
			}
			if g := bi.Rune(p); g != want {
				return fmt.Sprintf("rune at %v is %q, want %q", p, g, want)
			}
		}
	}
	return ""
}

func subs(c *h.C, size image.Point, r1, r2 image.Rectangle, how int) {
	var bi anansi.Bitmap
	bi.Resize(size)
	rb := refBits{size, map[image.Point]bool{}}
	full := image.Rectangle{Max: size}
	take := func(b anansi.Bitmap, bounds, r image.Rectangle) (anansi.Bitmap, image.Rectangle) {
		switch how {
		case 0:
			b = b.SubRect(r)
		case 1:
			b, r = b.SubAt(r.Min), image.Rectangle{Min: r.Min, Max: bounds.Max}
		case 2:
			b, r = b.SubSize(r.Size()), image.Rectangle{Min: bounds.Min, Max: bounds.Min.Add(r.Size())}
		}
		if !r.Min.In(bounds) {
			return b, image.Rectangle{}
		}
		return b, r.Intersect(bounds)
	}
	b1, w1 := take(bi, full, r1)
	b2, w2 := take(b1, w1, r2)
	// set a pattern through each of them, also outside
	for i, b := range []anansi.Bitmap{bi, b1, b2} {
		w := []image.Rectangle{full, w1, w2}[i]
		for y := -1; y < size.Y+2; y++ {
			for x := -1; x < size.X+2; x++ {
				if (x+2*y+i)%3 != 0 {
					continue
				}
				p := image.Pt(x, y)
				v := (x+y+i)%2 == 0
				b.Set(p, v)
				if p.In(w) {
					rb.on[p] = v
				}
			}
		}
		c.Transitions(1)
		for k, o := range []anansi.Bitmap{bi, b1, b2} {
			if s := rb.is(o, []image.Rectangle{full, w1, w2}[k]); s != "" {
				c.Violate("sub", "%s\nof bitmap %d: %v, sub %v, sub %v (by %d), after setting through bitmap %d", s, k, size, r1, r2, how, i)
				return
			}
		}
	}
}
