package checks

import (
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C08", checkCursor) }

type curOp struct {
	name  string
	impl  func(vc *anansi.VirtualCursor)
	model func(t *ref.VT)
	esc   bool // starts with an escape sequence whatever the state
	kind  int  // 1 flush, 2 reset, 3 hard failure after k bytes, 4 EWOULDBLOCK after k bytes
	k     int
}

func curOps() (ops []curOp) {
	to := func(x, y int) {
		ops = append(ops, curOp{name: fmt.Sprintf("To(%d,%d)", x, y), esc: true,
			impl:  func(vc *anansi.VirtualCursor) { vc.To(mkPt(x, y)) },
			model: func(t *ref.VT) { t.MoveTo(x, y) }})
	}
	sgr := func(a ref.Attr) {
		ops = append(ops, curOp{name: fmt.Sprintf("WriteSGR(%v)", toAnsiAttr(a)), esc: true,
			impl:  func(vc *anansi.VirtualCursor) { vc.WriteSGR(toAnsiAttr(a)) },
			model: func(t *ref.VT) { t.Attr = a }})
	}
	raw := func(how, s string) {
		var f func(vc *anansi.VirtualCursor)
		switch how {
		case "Write":
			f = func(vc *anansi.VirtualCursor) { vc.Write([]byte(s)) }
		case "WriteString":
			f = func(vc *anansi.VirtualCursor) { vc.WriteString(s) }
		case "WriteRune":
			f = func(vc *anansi.VirtualCursor) { vc.WriteRune([]rune(s)[0]) }
		case "WriteByte":
			f = func(vc *anansi.VirtualCursor) { vc.WriteByte(s[0]) }
		}
		ops = append(ops, curOp{name: fmt.Sprintf("%s(%q)", how, s), esc: s[0] == 0x1b, impl: f,
			model: func(t *ref.VT) { t.Write([]byte(s)) }})
	}
	red := ref.Color{Kind: 1, R: 1}
	to(1, 1)
	to(5, 4)
	to(6, 4)
	to(5, 5)
	to(5, 2)
	to(1, 5)
	to(2, 4)
	sgr(ref.Attr{})
	sgr(ref.Attr{FG: red})
	sgr(ref.Attr{Bold: true, BG: ref.Color{Kind: 2, R: 1, G: 2, B: 3}})
	ops = append(ops,
		curOp{name: "Show", esc: true, impl: (*anansi.VirtualCursor).Show, model: func(t *ref.VT) { t.Visible = true }},
		curOp{name: "Hide", esc: true, impl: (*anansi.VirtualCursor).Hide, model: func(t *ref.VT) { t.Visible = false }},
		curOp{name: "Apply(visible 3,4 green)", esc: true,
			impl: func(vc *anansi.VirtualCursor) {
				vc.Apply(anansi.Cursor{Point: mkPt(3, 4), Attr: ansi.SGRGreen.FG(), Visible: true})
			},
			model: func(t *ref.VT) {
				t.MoveTo(3, 4)
				t.Attr = ref.Attr{FG: ref.Color{Kind: 1, R: 2}}
				t.Visible = true
			}},
		curOp{name: "Apply(invisible)", esc: true,
			impl:  func(vc *anansi.VirtualCursor) { vc.Apply(anansi.Cursor{Point: mkPt(3, 4)}) },
			model: func(t *ref.VT) { t.Visible = false }},
	)
	raw("WriteString", "a")
	raw("WriteRune", "é")
	raw("WriteByte", "\r")
	raw("Write", "\n")
	raw("WriteString", "\x1b[2C")
	raw("Write", "\x1b[A")
	raw("WriteString", "\x1b[4D")
	raw("WriteString", "\x1b[3;2H")
	raw("WriteString", "\x1b[m")
	raw("Write", "\x1b[31m")
	raw("WriteString", "\x1b[0;44mb")
	raw("WriteString", "\x1b[?25l")
	raw("WriteString", "\x1b[?25h")
	ops = append(ops,
		curOp{name: "WriteESC(CUD)", esc: true, impl: func(vc *anansi.VirtualCursor) { vc.WriteESC(ansi.CUD) },
			model: func(t *ref.VT) { t.MoveTo(t.X, t.Y+1) }},
		curOp{name: "WriteSeq(CUP 2;6, CUU 2)", esc: true,
			impl: func(vc *anansi.VirtualCursor) {
				vc.WriteSeq(ansi.CUP.WithPoint(mkPt(2, 6)), ansi.CUU.WithInts(2))
			},
			model: func(t *ref.VT) { t.MoveTo(2, 4) }},
		// a sequence cut short by what the cursor itself emits next
		curOp{name: "WriteString(ESC [ 3), Show, Hide, To(2,4), WriteString(ESC [ m)", esc: true,
			impl: func(vc *anansi.VirtualCursor) {
				vc.WriteString("\x1b[3")
				vc.Show()
				vc.Hide()
				vc.To(mkPt(2, 4))
				vc.WriteString("\x1b[m")
			},
			model: func(t *ref.VT) { t.MoveTo(2, 4); t.Attr = ref.Attr{}; t.Visible = false }},
		curOp{name: "WriteString(ESC [ 1), WriteSGR(bold), WriteSGR(under), Hide, WriteString(ESC [ H)", esc: true,
			impl: func(vc *anansi.VirtualCursor) {
				vc.WriteString("\x1b[1")
				vc.WriteSGR(ansi.SGRAttrBold)
				vc.WriteSGR(ansi.SGRAttrUnderscore)
				vc.Hide()
				vc.WriteString("\x1b[H")
			},
			model: func(t *ref.VT) { t.MoveTo(1, 1); t.Attr = ref.Attr{Under: true}; t.Visible = false }},
		curOp{name: "Flush", kind: 1},
		curOp{name: "Reset", kind: 2},
		curOp{name: "Fail@0", kind: 3, k: 0},
		curOp{name: "Fail@3", kind: 3, k: 3},
		curOp{name: "Block@0", kind: 4, k: 0},
		curOp{name: "Block@2", kind: 4, k: 2},
		curOp{name: "Block@7", kind: 4, k: 7},
	)
	return ops
}

// checkCursor explores every history of cursor operations, writes, flushes,
// discards and failed flushes, and compares what the terminal ends up with to
// what the caller asked for.
func checkCursor(c *h.C) {
	const W, H = 10, 7
	ops := curOps()
	depth := c.Pick(4, 5)
	c.Bound("operations", len(ops))
	c.Bound("history_depth", depth)
	c.Bound("terminal", fmt.Sprintf("%dx%d", W, H))
	c.Assume("runes are single width; the caller keeps the cursor off the last column and does not scroll")

	starts := []func() *ref.VT{
		func() *ref.VT { return ref.NewVT(W, H) },
		func() *ref.VT {
			t := ref.NewVT(W, H)
			t.MoveTo(7, 4)
			t.Attr = ref.Attr{Under: true, BG: ref.Color{Kind: 1, R: 3}}
			t.Visible = false
			return t
		},
	}

	// the last start has a cursor whose state is known
	starts = append(starts, starts[1])
	var known []int
	for i, op := range ops {
		switch op.name {
		case "To(5,4)", "WriteSGR(fg:red)", "Show", "Flush":
			known = append(known, i)
		}
	}
	if len(known) != 4 {
		panic("preamble")
	}

	var start0 []*ref.VT
	for _, f := range starts {
		start0 = append(start0, f())
	}
	pool := sync.Pool{New: func() interface{} { return new([3]ref.VT) }}

	run := func(start int, w []int) {
		sc := pool.Get().(*[3]ref.VT)
		defer pool.Put(sc)
		tty, want, flushed := &sc[0], &sc[1], &sc[2]
		tty.CopyFrom(start0[start])
		want.CopyFrom(start0[start])
		flushed.CopyFrom(start0[start])
		lost := false
		if start == 2 {
			w = append(known[:len(known):len(known)], w...)
		}
		var vc anansi.VirtualCursor
		desync := false
		desc := func() string {
			var ss []string
			for _, o := range w {
				ss = append(ss, ops[o].name)
			}
			return fmt.Sprintf("start %d: %s", start, strings.Join(ss, ", "))
		}
		ok := true
		fail := func(format string, args ...interface{}) {
			ok = false
			c.Violate("cursor:"+desc(), "%s\n%s", desc(), fmt.Sprintf(format, args...))
		}
		flush := func(i int, mode, k int) bool {
			var n int64
			var err error
			s := &sink{vt: tty, mode: mode, k: k}
			n, err = vc.WriteTo(s)
			if int(n) != s.n {
				fail("step %d: WriteTo returned %d, wrote %d", i, n, s.n)
				return false
			}
			switch {
			case err == nil:
				if !tty.Ground() {
					fail("step %d: output ends inside a sequence", i)
					return false
				}
				if !tty.Same(want) || len(tty.Bad) > 0 {
					fail("step %d: terminal\n%v\nexpected\n%v", i, tty, want)
					return false
				}
				if p := vc.Cursor.Point; p.Valid() && (p.X != tty.X || p.Y != tty.Y) {
					fail("step %d: tracked position %v, terminal at %d,%d", i, p, tty.X, tty.Y)
					return false
				}
				if vc.Cursor != vc.Real {
					fail("step %d: after a flush Real=%v Cursor=%v", i, vc.Real, vc.Cursor)
					return false
				}
				flushed.CopyFrom(want)
				lost = false
			case mode == 1:
				if err != errSink {
					fail("step %d: error %v instead of the writer's", i, err)
					return false
				}
				tty.Abort()
				tty.Bad = nil
				want.CopyFrom(tty)
				flushed.CopyFrom(tty)
				lost = false
				desync = true
			case mode == 2:
				lost = true
			default:
				fail("step %d: flush failed: %v", i, err)
				return false
			}
			return true
		}
		for i, o := range w {
			op := ops[o]
			if desync && !op.esc {
				return // text right after a cut sequence: nothing to expect
			}
			c.Transitions(1)
			switch op.kind {
			case 1:
				if !flush(i, 0, 0) {
					return
				}
			case 2:
				vc.Reset()
				if lost {
					tty.Abort()
					tty.Bad = nil
					flushed.CopyFrom(tty)
					lost = false
					desync = true
				}
				want.CopyFrom(flushed)
			case 3:
				if !flush(i, 1, op.k) {
					return
				}
			case 4:
				if !flush(i, 2, op.k) {
					return
				}
			default:
				desync = false
				op.impl(&vc)
				op.model(want)
				// keep off the right and bottom edges, which a cursor that
				// knows no screen size cannot track
				if want.Pending || want.X >= W-1 || want.Y >= H || want.Scrolled > 0 {
					return
				}
			}
		}
		if desync {
			return
		}
		if !flush(len(w), 0, 0) || !ok {
			return
		}
		c.State(tty.Key([]byte(fmt.Sprint(vc.Cursor))))
		c.Traces(1)
	}
	c.Words(len(ops), 1, depth, func(w []int) {
		for s := range starts {
			c.Guard("cursor-panic:"+fmt.Sprint(w), func() string { return fmt.Sprint(w) }, func() { run(s, w) })
		}
	})

	checkCursorMoves(c)
	checkLargeMoves(c)
}

// checkCursorMoves compares every absolute move between any two positions of
// a terminal with where the terminal's cursor ends up.
func checkCursorMoves(c *h.C) {
	const W, H = 14, 13
	n := 0
	for x0 := 0; x0 <= W; x0++ {
		for y0 := 0; y0 <= H; y0++ {
			if (x0 == 0) != (y0 == 0) {
				continue
			}
			for x1 := 1; x1 <= W; x1++ {
				for y1 := 1; y1 <= H; y1++ {
					var cur anansi.Cursor
					tty := ref.NewVT(W, H)
					tty.MoveTo(6, 7)
					if x0 > 0 {
						cur.Point = mkPt(x0, y0)
						tty.MoveTo(x0, y0)
					}
					seq := cur.To(mkPt(x1, y1))
					io.WriteString(tty, string(seq.AppendTo(nil)))
					if tty.X != x1 || tty.Y != y1 || cur.Point != mkPt(x1, y1) || len(tty.Bad) > 0 {
						c.Violate(fmt.Sprintf("move:%d,%d->%d,%d", x0, y0, x1, y1),
							"To(%d,%d) from %d,%d emits %q: terminal at %d,%d tracked %v", x1, y1, x0, y0, seq, tty.X, tty.Y, cur.Point)
					}
					n++
				}
			}
		}
	}
	c.Transitions(n)
	c.Count("single_moves", n)
	c.Sample("To(x1,y1) from every (x0,y0) of %dx%d", W, H)
}
