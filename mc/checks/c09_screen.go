package checks

import (
	"fmt"
	"image"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C09", checkScreen) }

// rawOp is an operation that writes s.
type rawOp struct {
	op int
	s  string
}

type scrOp struct {
	name  string
	impl  func(vs *anansi.VirtualScreen)
	model func(t *ref.VT)
}

// scrOps are the operations on a screen whose bounds start at column ox+1 and
// row oy+1.
func scrOps(w, hh, ox, oy int) (ops []scrOp, raws []rawOp) {
	add := func(name string, impl func(vs *anansi.VirtualScreen), model func(t *ref.VT)) {
		ops = append(ops, scrOp{name, impl, model})
	}
	raw := func(s string) {
		raws = append(raws, rawOp{len(ops), s})
		add(fmt.Sprintf("%q", s), func(vs *anansi.VirtualScreen) { vs.WriteString(s) },
			func(t *ref.VT) { t.Write([]byte(s)) })
	}
	add("Write(a)", func(vs *anansi.VirtualScreen) { vs.Write([]byte("a")) }, func(t *ref.VT) { t.Write([]byte("a")) })
	add("WriteRune(é)", func(vs *anansi.VirtualScreen) { vs.WriteRune('é') }, func(t *ref.VT) { t.Write([]byte("é")) })
	add("WriteByte(CR)", func(vs *anansi.VirtualScreen) { vs.WriteByte('\r') }, func(t *ref.VT) { t.Write([]byte("\r")) })
	raw("\n")
	raw("\x1b[J")
	raw("\x1b[0J")
	raw("\x1b[1J")
	raw("\x1b[2J")
	raw("\x1b[K")
	raw("\x1b[0K")
	raw("\x1b[1K")
	raw("\x1b[2K")
	raw("\x1b[A")
	raw("\x1b[2B")
	raw("\x1b[C")
	raw("\x1b[2D")
	cup := func(x, y int) {
		add(fmt.Sprintf("CUP %d,%d", x, y),
			func(vs *anansi.VirtualScreen) { vs.WriteSeq(ansi.CUP.WithPoint(mkPt(x+ox, y+oy))) },
			func(t *ref.VT) { t.MoveTo(x, y) })
	}
	for y := 1; y <= hh; y++ {
		for x := 1; x <= w; x++ {
			cup(x, y)
		}
	}
	cup(w+2, hh+1)
	add("To(beyond)", func(vs *anansi.VirtualScreen) { vs.To(mkPt(w+ox+1, oy+1)) },
		func(t *ref.VT) { t.MoveTo(w, 1) })
	if ox > 0 || oy > 0 {
		add("CUP 1,1 absolute", func(vs *anansi.VirtualScreen) { vs.WriteString("\x1b[1;1H") },
			func(t *ref.VT) { t.MoveTo(1, 1) })
	} else {
		raw("\x1b[H")
	}
	raw("\x1b[m")
	raw("\x1b[31m")
	add("WriteSGR(0)", func(vs *anansi.VirtualScreen) { vs.WriteSGR(0) }, func(t *ref.VT) { t.Attr = ref.Attr{} })
	add("WriteSGR(bold+red)", func(vs *anansi.VirtualScreen) { vs.WriteSGR(ansi.SGRAttrBold | ansi.SGRRed.FG()) },
		func(t *ref.VT) { t.Attr = ref.Attr{Bold: true, FG: ref.Color{Kind: 1, R: 1}} })
	raw("\x1b[?25l")
	raw("\x1b[?25h")
	// a sequence cut short by what the screen itself emits next
	add("write ESC [ 3, WriteSGR(italic), WriteSGR(bold), write ESC [ K a", func(vs *anansi.VirtualScreen) {
		vs.WriteString("\x1b[3")
		vs.WriteSGR(ansi.SGRAttrItalic)
		vs.WriteSGR(ansi.SGRAttrBold)
		vs.WriteString("\x1b[Ka")
	}, func(t *ref.VT) { t.Attr = ref.Attr{Bold: true}; t.Write([]byte("\x1b[Ka")) })
	return ops, raws
}

// scrSeqs are inputs, cut arbitrarily, that must leave the screen alone.
var scrIgnored = []string{"\x1b]0;t\x07", "\x1b]2;t\x1b\\", "\x1bPx\x1b\\", "\x1b[?1049h", "\x1b[3J", "\x1b[9z", "\x07"}

type scrNode struct {
	g    anansi.Grid
	cur  anansi.Cursor
	t    *ref.VT
	path []int16
}

func cloneGrid(g anansi.Grid) anansi.Grid {
	g.Rune = append([]rune(nil), g.Rune...)
	g.Attr = append([]ansi.SGRAttr(nil), g.Attr...)
	return g
}

// checkScreen explores the reachable states of the screen emulation to a
// fixed point and compares each with the reference terminal; on sub-screens
// it also checks that nothing outside their rectangle changes.
func checkScreen(c *h.C) {
	type cfg struct {
		fw, fh         int // full size
		x0, y0, x1, y1 int // sub rectangle, 0 for none
		depth          int // 0: to a fixed point
	}
	cfgs := []cfg{
		{fw: 2, fh: 2, depth: 0},
		{fw: 3, fh: 1, depth: 0},
		{fw: 1, fh: 3, depth: 0},
		{fw: 3, fh: 2, depth: c.Pick(7, 9)},
		{fw: 4, fh: 3, depth: c.Pick(5, 7)},
		{fw: 4, fh: 4, x0: 2, y0: 2, x1: 4, y1: 4, depth: 0},
		{fw: 4, fh: 3, x0: 3, y0: 1, x1: 5, y1: 3, depth: c.Pick(7, 10)},
		{fw: 3, fh: 3, x0: 1, y0: 2, x1: 3, y1: 4, depth: c.Pick(7, 10)},
		{fw: 3, fh: 2, x0: 2, y0: 1, x1: 9, y1: 9, depth: c.Pick(7, 10)},
		{fw: 5, fh: 4, x0: 2, y0: 2, x1: 5, y1: 4, depth: c.Pick(5, 7)},
	}
	c.Bound("configurations", fmt.Sprintf("%+v (full size, sub rectangle, depth; depth 0 is to the fixed point)", cfgs))
	c.Assume("runes are single width; histories that would scroll are out of scope")

	checkLargeScreens(c)
	for ci, cf := range cfgs {
		if c.Expired() {
			return
		}
		w, hh, ox, oy := cf.fw, cf.fh, 0, 0
		sub := cf.x1 > 0
		if sub {
			ox, oy = cf.x0-1, cf.y0-1
			if cf.x1 > cf.fw+1 {
				cf.x1 = cf.fw + 1
			}
			if cf.y1 > cf.fh+1 {
				cf.y1 = cf.fh + 1
			}
			w, hh = cf.x1-cf.x0, cf.y1-cf.y0
		}
		ops, raws := scrOps(w, hh, ox, oy)

		var sc anansi.Screen
		sc.Resize(image.Pt(cf.fw, cf.fh))
		if sub {
			for i := range sc.Rune {
				sc.Rune[i], sc.Attr[i] = rune('A'+i), ansi.SGRGreen.FG()
			}
			full := sc.Full()
			ok := c.Guard(fmt.Sprintf("subscreen:%d", ci), func() string { return fmt.Sprint(cfgs[ci]) }, func() {
				q := cfgs[ci]
				sc = full.SubRect(mkRect(q.x0, q.y0, q.x1, q.y1))
			})
			if !ok {
				continue
			}
			for y := cf.y0; y < cf.y1; y++ {
				for x := cf.x0; x < cf.x1; x++ {
					i, _ := full.CellOffset(mkPt(x, y))
					sc.Rune[i], sc.Attr[i] = 0, 0
				}
			}
		}
		t0 := ref.NewVT(w, hh)
		t0.Immediate, t0.NoBCE = true, true
		t0.Visible = false

		desc := func(n *scrNode, op string) string {
			var ss []string
			for _, o := range n.path {
				ss = append(ss, ops[o].name)
			}
			if op != "" {
				ss = append(ss, op)
			}
			return fmt.Sprintf("cfg%d: %s", ci, strings.Join(ss, ", "))
		}
		// compare returns "" if the screen shows what the terminal does
		compare := func(vs *anansi.VirtualScreen, t *ref.VT, outside anansi.Grid) string {
			cur := vs.Cursor
			if cur.Point == (ansi.Point{}) { // not placed yet
				cur.Point = mkPt(1+ox, 1+oy)
			}
			if cur.X != t.X+ox || cur.Y != t.Y+oy {
				return fmt.Sprintf("cursor %v, want %d,%d", cur.Point, t.X+ox, t.Y+oy)
			}
			if fromAnsiAttr(cur.Attr) != t.Attr {
				return fmt.Sprintf("cursor attr %v, want %v", cur.Attr, t.Attr)
			}
			if cur.Visible != t.Visible {
				return fmt.Sprintf("visible %v, want %v", cur.Visible, t.Visible)
			}
			for y := 1; y <= cf.fh; y++ {
				for x := 1; x <= cf.fw; x++ {
					i := (y-1)*cf.fw + x - 1
					r, a := vs.Rune[i], vs.Attr[i]
					if x <= ox || y <= oy || x > ox+w || y > oy+hh {
						if r != outside.Rune[i] || a != outside.Attr[i] {
							return fmt.Sprintf("cell %d,%d outside the sub-screen changed to %q %v", x, y, r, a)
						}
						continue
					}
					if r == 0 {
						r = ' '
					}
					if tc := t.At(x-ox, y-oy); r != tc.R || fromAnsiAttr(a) != tc.A {
						return fmt.Sprintf("cell %d,%d is %q %v, want %q %v", x, y, r, a, tc.R, tc.A)
					}
				}
			}
			return ""
		}
		seen := map[string]bool{}
		root := &scrNode{g: sc.Grid, cur: sc.Cursor, t: t0}
		frontier := []*scrNode{root}
		level := 0
		for ; len(frontier) > 0 && (cf.depth == 0 || level < cf.depth) && !c.Expired(); level++ {
			nexts := make([][]*scrNode, len(frontier))
			keys := make([][]string, len(frontier))
			c.Parallel(len(frontier), func(fi int) {
				n := frontier[fi]
				for oi, op := range ops {
					t := n.t.Clone()
					op.model(t)
					if t.Scrolled > 0 {
						continue
					}
					var vs anansi.VirtualScreen
					vs.Grid, vs.Cursor = cloneGrid(n.g), n.cur
					c.Transitions(1)
					if !c.Guard("screen-panic:"+desc(n, op.name), func() string { return desc(n, op.name) }, func() { op.impl(&vs) }) {
						continue
					}
					if d := compare(&vs, t, n.g); d != "" {
						c.Violate("screen:"+desc(n, op.name), "%s\n%s\nwant\n%v", desc(n, op.name), d, t)
						continue
					}
					key := fmt.Sprint(ci, vs.Cursor) + string(t.Key(nil))
					nexts[fi] = append(nexts[fi], &scrNode{vs.Grid, vs.Cursor, t, append(n.path[:len(n.path):len(n.path)], int16(oi))})
					keys[fi] = append(keys[fi], key)
				}
				// the same bytes, cut anywhere, have the same effect
				for _, ro := range raws {
					t := n.t.Clone()
					ops[ro.op].model(t)
					if t.Scrolled > 0 {
						continue
					}
					for cut := 0; cut < len(ro.s); cut++ {
						var vs anansi.VirtualScreen
						vs.Grid, vs.Cursor = cloneGrid(n.g), n.cur
						name := fmt.Sprintf("%q cut at %d", ro.s, cut)
						c.Transitions(1)
						if !c.Guard("screen-panic:"+desc(n, name), func() string { return desc(n, name) }, func() {
							if cut == 0 {
								for i := range ro.s {
									vs.WriteByte(ro.s[i])
								}
								return
							}
							vs.Write([]byte(ro.s[:cut]))
							vs.WriteString(ro.s[cut:])
						}) {
							continue
						}
						if d := compare(&vs, t, n.g); d != "" {
							c.Violate("screen-cut:"+desc(n, name), "%s\n%s\nwant\n%v", desc(n, name), d, t)
						}
					}
				}
				for _, s := range scrIgnored {
					for cut := 1; cut < len(s) && len(n.path) > 0; cut++ {
						var vs anansi.VirtualScreen
						vs.Grid, vs.Cursor = cloneGrid(n.g), n.cur
						vs.WriteString(s[:cut])
						vs.WriteString(s[cut:])
						c.Transitions(1)
						if d := compare(&vs, n.t, n.g); d != "" {
							c.Violate("screen-ignored:"+desc(n, fmt.Sprintf("%q cut at %d", s, cut)), "%s then %q cut at %d\n%s", desc(n, ""), s, cut, d)
						}
					}
					var vs anansi.VirtualScreen
					vs.Grid, vs.Cursor = cloneGrid(n.g), n.cur
					c.Transitions(1)
					if !c.Guard("screen-panic:"+desc(n, s), func() string { return desc(n, s) }, func() { vs.WriteString(s) }) {
						continue
					}
					if len(n.path) > 0 {
						if d := compare(&vs, n.t, n.g); d != "" {
							c.Violate("screen-ignored:"+desc(n, fmt.Sprintf("%q", s)), "%s then %q\n%s", desc(n, ""), s, d)
						}
					}
				}
			})
			var next []*scrNode
			for fi := range nexts {
				for k, n := range nexts[fi] {
					if key := keys[fi][k]; !seen[key] {
						seen[key] = true
						c.StateS(key)
						c.Traces(1)
						next = append(next, n)
					}
				}
			}
			frontier = next
		}
		c.Sample("%+v: %d states, %d levels, fixed point %v", cfgs[ci], len(seen), level, len(frontier) == 0)
	}
}
