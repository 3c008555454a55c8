package checks

import (
	"fmt"
	"strings"

	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() { h.Register("C07", checkColor) }

func refDist(a, b ansi.SGRColor) int {
	ar, ag, ab := a.RGB()
	br, bg, bb := b.RGB()
	dr, dg, db := int(ar)-int(br), int(ag)-int(bg), int(ab)-int(bb)
	return dr*dr + dg*dg + db*db
}

func checkColor(c *h.C) {
	// the 8-bit palette: cube and grays are fixed by convention
	lv := []int{0, 95, 135, 175, 215, 255}
	for i := 16; i < 256; i++ {
		var r, g, b int
		if i < 232 {
			r, g, b = lv[(i-16)/36], lv[(i-16)/6%6], lv[(i-16)%6]
		} else {
			r = 8 + 10*(i-232)
			g, b = r, r
		}
		cr, cg, cb := ansi.SGRColor(i).RGB()
		if int(cr) != r || int(cg) != g || int(cb) != b {
			c.Violate(fmt.Sprintf("palette8:%d", i), "8-bit color %d is (%d,%d,%d), want (%d,%d,%d)", i, cr, cg, cb, r, g, b)
		}
		c.Transitions(1)
	}

	pals := map[string]ansi.Palette{
		"Palette3": ansi.Palette3, "Palette4": ansi.Palette4, "Palette8": ansi.Palette8,
		"Palette8Colors": ansi.Palette(ansi.Palette8Colors[:]),
		"VGA":            ansi.Palette(ansi.VGAPalette), "CMD": ansi.Palette(ansi.CMDPalette),
		"XTerm": ansi.Palette(ansi.XTermPalette), "MIRC": ansi.Palette(ansi.MIRCPalette),
		"tiny":   {ansi.RGB(10, 10, 10), ansi.RGB(12, 10, 10), ansi.RGB(10, 11, 10), ansi.RGB(9, 10, 12)},
		"single": {ansi.RGB(1, 2, 3)},
	}
	for i, p := range []ansi.Palette{ansi.Palette3, ansi.Palette4, ansi.Palette8} {
		if n := []int{8, 16, 256}[i]; len(p) != n {
			c.Violate(fmt.Sprintf("palsize:%d", n), "palette has %d colors, want %d", len(p), n)
		}
		for j, col := range p {
			if col != ansi.SGRColor(j) {
				c.Violate(fmt.Sprintf("palorder:%d", j), "palette color %d is %v", j, col)
			}
		}
	}
	var targets []ansi.SGRColor
	for i := 0; i < 256; i++ {
		targets = append(targets, ansi.SGRColor(i))
	}
	d := c.Pick(1, 2)
	for i := 0; i < 256; i++ {
		r, g, b := ansi.SGRColor(i).RGB()
		for dr := -d; dr <= d; dr++ {
			for dg := -d; dg <= d; dg++ {
				for db := -d; db <= d; db++ {
					targets = append(targets, ansi.RGB(uint8(int(r)+dr), uint8(int(g)+dg), uint8(int(b)+db)))
				}
			}
		}
	}
	step := c.Pick(17, 4)
	for r := 0; r < 256; r += step {
		for g := 0; g < 256; g += step {
			for b := 0; b < 256; b += step {
				targets = append(targets, ansi.RGB(uint8(r), uint8(g), uint8(b)))
			}
		}
	}
	for x := 0; x < 16*16*16; x++ { // dense neighborhood for the tiny palette
		targets = append(targets, ansi.RGB(uint8(4+x%16), uint8(4+x/16%16), uint8(4+x/256)))
	}
	c.Bound("target_colors", len(targets))
	for name, p := range pals {
		name, p := name, p
		const chunk = 512
		c.Parallel((len(targets)+chunk-1)/chunk, func(ci int) {
			for i := ci * chunk; i < len(targets) && i < (ci+1)*chunk; i++ {
				col := targets[i]
				c.StateH(uint64(col))
				best := 1 << 30
				for _, pc := range p {
					if d := refDist(col, pc); d < best {
						best = d
					}
				}
				idx := p.Index(col)
				if idx < 0 || idx >= len(p) || refDist(col, p[idx]) != best {
					c.Violate(fmt.Sprintf("nearest:%s:%v", name, col), "palette %s: Index(%v) = %d at squared distance %d, closest is %d", name, col, idx, refDist(col, p[idx]), best)
				} else if got := p.Convert(col); got != p[idx] {
					c.Violate(fmt.Sprintf("convert:%s:%v", name, col), "palette %s: Convert(%v) = %v, Index says %v", name, col, got, p[idx])
				}
				c.Transitions(1)
			}
		})
	}
	if got := (ansi.Palette{}).Convert(ansi.RGB(9, 9, 9)); got != ansi.SGRBlack {
		c.Violate("emptypalette", "empty palette converts to %v", got)
	}

	// conversions between generations of color
	for _, col := range targets {
		r, g, b := col.RGB()
		up := col.To24Bit()
		ur, ug, ub := up.RGB()
		if ur != r || ug != g || ub != b || up != ansi.RGB(r, g, b) || up.To24Bit() != up || ansi.ColorModel24.Convert(col) != up {
			c.Violate(fmt.Sprintf("to24:%v", col), "To24Bit(%v) = %v", col, up)
		}
		if ansi.ColorModelID.Convert(col) != col {
			c.Violate(fmt.Sprintf("id:%v", col), "identity model changes %v", col)
		}
		if enc := up.FG().ControlString(); !strings.HasPrefix(enc, "\x1b[38;2;") {
			c.Violate(fmt.Sprintf("to24enc:%v", col), "24-bit %v encodes as %q", up, enc)
		}
		r16, g16, b16, a16 := col.RGBA()
		if r16 != uint32(r)*0x101 || g16 != uint32(g)*0x101 || b16 != uint32(b)*0x101 || a16 != 0xffff {
			c.Violate(fmt.Sprintf("rgba:%v", col), "RGBA(%v) = %x %x %x %x", col, r16, g16, b16, a16)
		}
		if back := ansi.RGBA(r16, g16, b16, a16); back != up {
			c.Violate(fmt.Sprintf("rgba:%v", col), "RGBA(%v) does not convert back: %v", col, back)
		}
		if got := ansi.RGBA(r16+0x10000, g16, b16, 0); got != ansi.RGB(255, g, b) {
			c.Violate(fmt.Sprintf("clip:%v", col), "out of range component is not clipped: %v", got)
		}
		canon := ansi.SGRColorCanon.Convert(col)
		if refDist(canon, col) != 0 {
			c.Violate(fmt.Sprintf("canon:%v", col), "canonical alias of %v is %v, a different color", col, canon)
		}
		if canon == col && col > 255 {
			for i := 0; i < 256; i++ {
				if refDist(ansi.SGRColor(i), col) == 0 {
					c.Violate(fmt.Sprintf("canon:%v", col), "%v is not recognized as palette color %d", col, i)
				}
			}
		} else if canon > 255 && canon != col {
			c.Violate(fmt.Sprintf("canon:%v", col), "canonical alias of %v is %v", col, canon)
		}
		for name, th := range map[string]ansi.ColorTheme{"vga": ansi.VGAPalette, "xterm": ansi.XTermPalette, "none": nil} {
			want := col
			if col < 256 && int(col) < len(th) {
				want = th[col]
			}
			if got := th.Convert(col); refDist(got, want) != 0 {
				c.Violate(fmt.Sprintf("theme:%s:%v", name, col), "theme %s converts %v to %v, want %v", name, col, got, want)
			}
		}
		c.Transitions(1)
	}

	// combining models: every history of combinations, sharing operands
	fn := func(k uint32) ansi.ColorModel {
		return ansi.ColorModelFunc(func(c ansi.SGRColor) ansi.SGRColor { return ansi.SGRColor((uint32(c)*7 + k) & 0xffffff) })
	}
	prims := []ansi.ColorModel{fn(1), fn(2), fn(3), nil}
	steps := []struct{ x, y, z int }{} // combine slots (negative: primitive)
	for _, x := range []int{-1, -2, -4, 0, 1, 2} {
		for _, y := range []int{-1, -3, -4, 0, 1, 2} {
			steps = append(steps, struct{ x, y, z int }{x, y, 99})
			if x == 0 && (y < -1 || y == 1) {
				steps = append(steps, struct{ x, y, z int }{x, y, -2})
			}
		}
	}
	depth := c.Pick(4, 5)
	c.Bound("combination_history", depth)
	c.Words(len(steps), depth, depth, func(w []int) {
		type node struct {
			m   ansi.ColorModel
			fns []int
		}
		get := func(nodes []node, i int) (node, bool) {
			if i < 0 {
				if i == -4 {
					return node{}, true
				}
				return node{prims[-i-1], []int{-i}}, true
			}
			if i >= len(nodes) {
				return node{}, false
			}
			return nodes[len(nodes)-1-i], true
		}
		var nodes []node
		for _, si := range w {
			st := steps[si]
			a, ok1 := get(nodes, st.x)
			b, ok2 := get(nodes, st.y)
			if !ok1 || !ok2 {
				return
			}
			ms := []ansi.ColorModel{a.m, b.m}
			fns := append(append([]int(nil), a.fns...), b.fns...)
			if st.z != 99 {
				z, _ := get(nodes, st.z)
				ms, fns = append(ms, z.m), append(fns, z.fns...)
			}
			nodes = append(nodes, node{ansi.ColorModels(ms...), fns})
		}
		for i, n := range nodes {
			var want uint32 = 5
			for _, f := range n.fns {
				want = (want*7 + uint32(f)) & 0xffffff
			}
			got := uint32(5)
			if n.m != nil {
				got = uint32(n.m.Convert(5))
			} else if len(n.fns) > 0 {
				got = 0xffffffff
			}
			if got != want {
				c.Violate(fmt.Sprintf("models:%v:%d", w, i), "history %v: combined model %d no longer applies %v in order", w, i, n.fns)
			}
		}
		c.Transitions(len(nodes))
		c.Traces(1)
	})
	c.Sample("ColorModels(m2, d) and ColorModels(m2, e) from a shared m2")
}
