package checks

import (
	"fmt"
	"image"

	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() { h.Register("C06", checkGeometry) }

const geoLo, geoHi = -6, 12 // universe of points, per axis

// cellSet is the set of integer points of the universe a rectangle covers, by
// rows; it is the model every operation is compared to.
type cellSet [geoHi - geoLo]uint32

func cellsOf(x0, y0, x1, y1 int) (s cellSet) {
	for y := geoLo; y < geoHi; y++ {
		for x := geoLo; x < geoHi; x++ {
			if x0 <= x && x < x1 && y0 <= y && y < y1 {
				s[y-geoLo] |= 1 << uint(x-geoLo)
			}
		}
	}
	return s
}

func rectCells(r ansi.Rectangle) cellSet { return cellsOf(r.Min.X, r.Min.Y, r.Max.X, r.Max.Y) }

func (s cellSet) and(o cellSet) (r cellSet) {
	for i := range s {
		r[i] = s[i] & o[i]
	}
	return r
}

func (s cellSet) or(o cellSet) (r cellSet) {
	for i := range s {
		r[i] = s[i] | o[i]
	}
	return r
}

func (s cellSet) empty() bool { return s == cellSet{} }

func (s cellSet) has(x, y int) bool {
	return x >= geoLo && x < geoHi && y >= geoLo && y < geoHi && s[y-geoLo]&(1<<uint(x-geoLo)) != 0
}

// hull is the smallest rectangle covering s.
func (s cellSet) hull() (r cellSet) {
	x0, y0, x1, y1 := 1000, 1000, -1000, -1000
	for y := geoLo; y < geoHi; y++ {
		for x := geoLo; x < geoHi; x++ {
			if s.has(x, y) {
				if x < x0 {
					x0 = x
				}
				if y < y0 {
					y0 = y
				}
				if x+1 > x1 {
					x1 = x + 1
				}
				if y+1 > y1 {
					y1 = y + 1
				}
			}
		}
	}
	return cellsOf(x0, y0, x1, y1)
}

func mkPt(x, y int) (p ansi.Point) { p.X, p.Y = x, y; return p }

func mkRect(x0, y0, x1, y1 int) ansi.Rectangle {
	return ansi.Rectangle{Min: mkPt(x0, y0), Max: mkPt(x1, y1)}
}

func checkGeometry(c *h.C) {
	lo, hi := c.Pick(0, -1), c.Pick(4, 5)
	c.Bound("coordinates", fmt.Sprintf("%d..%d", lo, hi))
	type rc struct {
		r ansi.Rectangle
		s cellSet
	}
	var rs []rc
	for x0 := lo; x0 <= hi; x0++ {
		for y0 := lo; y0 <= hi; y0++ {
			for x1 := lo; x1 <= hi; x1++ {
				for y1 := lo; y1 <= hi; y1++ {
					r := mkRect(x0, y0, x1, y1)
					rs = append(rs, rc{r, rectCells(r)})
				}
			}
		}
	}
	c.Bound("rectangles", len(rs))
	for _, a := range rs {
		a := a
		r, s := a.r, a.s
		c.StateS(r.String())
		c.Transitions(1)
		bad := func(what string, got interface{}) {
			c.Violate(fmt.Sprintf("rect:%v:%s", r, what), "rectangle %v: %s = %v", r, what, got)
		}
		if r.Empty() != s.empty() {
			bad("Empty", r.Empty())
		}
		w, ht := r.Max.X-r.Min.X, r.Max.Y-r.Min.Y
		if r.Dx() != w || r.Dy() != ht || r.Size() != image.Pt(w, ht) {
			bad("Size", r.Size())
		}
		for y := geoLo; y < geoHi; y++ {
			for x := geoLo; x < geoHi; x++ {
				if p := mkPt(x, y); p.In(r) != s.has(x, y) {
					bad(fmt.Sprintf("Contains(%d,%d)", x, y), p.In(r))
				}
			}
		}
		for dx := -3; dx <= 3; dx++ {
			for dy := -3; dy <= 3; dy++ {
				d := image.Pt(dx, dy)
				want := cellsOf(r.Min.X+dx, r.Min.Y+dy, r.Max.X+dx, r.Max.Y+dy)
				if got := r.Add(d); rectCells(got) != want || got.Size() != r.Size() {
					bad(fmt.Sprintf("Add%v", d), got)
				}
				if got := r.Sub(image.Pt(-dx, -dy)); rectCells(got) != want || got.Size() != r.Size() {
					bad(fmt.Sprintf("Sub%v", d), got)
				}
			}
		}
		if cr := r.Canon(); cr.Min.X > cr.Max.X || cr.Min.Y > cr.Max.Y ||
			rectCells(cr) != cellsOf(imin(r.Min.X, r.Max.X), imin(r.Min.Y, r.Max.Y), imax(r.Min.X, r.Max.X), imax(r.Min.Y, r.Max.Y)) {
			bad("Canon", cr)
		}
		if w >= 0 && ht >= 0 {
			for n := -2; n <= 3; n++ {
				got := r.Inset(n)
				if w >= 2*n && ht >= 2*n {
					if rectCells(got) != cellsOf(r.Min.X+n, r.Min.Y+n, r.Max.X-n, r.Max.Y-n) {
						bad(fmt.Sprintf("Inset(%d)", n), got)
					}
				} else if !got.Empty() || got.Min.X < r.Min.X || got.Min.Y < r.Min.Y || got.Max.X > r.Max.X || got.Max.Y > r.Max.Y {
					bad(fmt.Sprintf("Inset(%d)", n), got)
				}
			}
		}
		valid := r.Min.X >= 1 && r.Min.Y >= 1 && r.Max.X >= 1 && r.Max.Y >= 1
		var ir image.Rectangle
		if e := h.Panics(func() { ir = r.ToImage() }); (e == nil) != valid {
			bad("ToImage panic", e)
		} else if valid && w >= 0 && ht >= 0 {
			if ir != image.Rect(r.Min.X-1, r.Min.Y-1, r.Max.X-1, r.Max.Y-1) {
				bad("ToImage", ir)
			}
			if back := ansi.RectFromImage(ir); back != r {
				bad("RectFromImage(ToImage)", back)
			}
		}
		var nr ansi.Rectangle
		if e := h.Panics(func() { nr = ansi.Rect(r.Min.X, r.Min.Y, r.Max.X, r.Max.Y) }); (e == nil) != valid {
			bad("Rect panic", e)
		} else if valid && nr != r.Canon() {
			bad("Rect", nr)
		}
		imr := image.Rectangle{Min: r.Min.Point, Max: r.Max.Point}
		if e := h.Panics(func() { nr = ansi.RectFromImage(imr) }); (e == nil) != (imr.Min.X >= 0 && imr.Min.Y >= 0 && imr.Max.X >= 0 && imr.Max.Y >= 0) {
			bad("RectFromImage panic", e)
		} else if e == nil && nr != r.Add(image.Pt(1, 1)) {
			bad("RectFromImage", nr)
		}
		c.Traces(1)
	}
	c.Parallel(len(rs), func(i int) {
		a := rs[i]
		for _, b := range rs {
			and := a.s.and(b.s)
			bad := func(what string, got interface{}) {
				c.Violate(fmt.Sprintf("pair:%v:%v:%s", a.r, b.r, what), "rectangles %v and %v: %s = %v", a.r, b.r, what, got)
			}
			if got := a.r.Intersect(b.r); rectCells(got) != and {
				bad("Intersect", got)
			}
			if got := a.r.Overlaps(b.r); got != !and.empty() {
				bad("Overlaps", got)
			}
			if got := a.r.In(b.r); got != (and == a.s) {
				bad("In", got)
			}
			if got := a.r.Eq(b.r); got != (a.s == b.s) {
				bad("Eq", got)
			}
			if got := a.r.Union(b.r); rectCells(got) != a.s.or(b.s).hull() {
				bad("Union", got)
			}
		}
		c.Transitions(len(rs))
		c.Traces(len(rs))
	})

	// points
	for x := -3; x <= 5; x++ {
		for y := -3; y <= 5; y++ {
			p := mkPt(x, y)
			bad := func(what string, got interface{}) {
				c.Violate(fmt.Sprintf("point:%d,%d:%s", x, y, what), "point (%d,%d): %s = %v", x, y, what, got)
			}
			c.StateS(p.String())
			valid := x >= 1 && y >= 1
			if p.Valid() != valid {
				bad("Valid", p.Valid())
			}
			var q ansi.Point
			if e := h.Panics(func() { q = ansi.Pt(x, y) }); (e == nil) != valid || e == nil && q != p {
				bad("Pt", q)
			}
			var ip image.Point
			if e := h.Panics(func() { ip = p.ToImage() }); (e == nil) != valid || e == nil && ip != image.Pt(x-1, y-1) {
				bad("ToImage", ip)
			}
			if e := h.Panics(func() { q = ansi.PtFromImage(image.Pt(x, y)) }); (e == nil) != (x >= 0 && y >= 0) || e == nil && q != mkPt(x+1, y+1) {
				bad("PtFromImage", q)
			}
			for k := -3; k <= 3; k++ {
				if got := p.Mul(k); got != mkPt(x*k, y*k) {
					bad(fmt.Sprintf("Mul(%d)", k), got)
				}
				if k != 0 {
					if got := p.Div(k); got != mkPt(x/k, y/k) {
						bad(fmt.Sprintf("Div(%d)", k), got)
					}
				}
			}
			for dx := -3; dx <= 3; dx++ {
				for dy := -3; dy <= 3; dy++ {
					c.Transitions(1)
					d := image.Pt(dx, dy)
					q := mkPt(dx, dy)
					if got := p.Add(d); got != mkPt(x+dx, y+dy) {
						bad(fmt.Sprintf("Add%v", d), got)
					}
					if got := p.Sub(d); got != mkPt(x-dx, y-dy) {
						bad(fmt.Sprintf("Sub%v", d), got)
					}
					if got := p.Diff(q); got != image.Pt(x-dx, y-dy) {
						bad(fmt.Sprintf("Diff%v", d), got)
					}
					if got := p.Eq(q); got != (x == dx && y == dy) {
						bad(fmt.Sprintf("Eq%v", d), got)
					}
				}
			}
		}
	}
	checkLargeRects(c)
	c.Sample("(1,1)-(3,2) against (2,0)-(0,4): Intersect, Union, In, Overlaps, Eq")
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
