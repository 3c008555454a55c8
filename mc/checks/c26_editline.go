package checks

import (
	"fmt"
	"image"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() { h.Register("C26", checkEditLine) }

// editKey is some input, and what it means to a line.
type editKey struct {
	in   string
	ins  rune // inserted
	del  bool // deletes the rune before the cursor
	move int  // of the cursor
	end  platform.EditLineState
	left bool // it's nothing to the line, and to be left for others
	free bool // may be left, or not
	last bool // only at the end of input
}

// refLine is an edit line as described: text and the cursor within it.
type refLine struct {
	text  string
	cur   int
	state platform.EditLineState
}

func (l refLine) apply(k editKey) refLine {
	if l.state != platform.EditLineReady {
		return l
	}
	rs := []rune(l.text)
	switch {
	case k.ins != 0:
		rs = append(rs[:l.cur:l.cur], append([]rune{k.ins}, rs[l.cur:]...)...)
		l.cur++
	case k.del:
		if l.cur > 0 {
			rs = append(rs[:l.cur-1:l.cur-1], rs[l.cur:]...)
			l.cur--
		}
	case k.move != 0:
		if l.cur += k.move; l.cur > len(rs) {
			l.cur = len(rs)
		} else if l.cur < 0 {
			l.cur = 0
		}
	default:
		l.state = k.end
	}
	l.text = string(rs)
	return l
}

// editState is a state of the explored system.
type editState struct {
	refLine
	view int
}

// checkEditLine explores the states that an edit line gets to.
func checkEditLine(c *h.C) {
	maxLen := 5
	keys := []editKey{
		{in: "a", ins: 'a'}, {in: "é", ins: 'é'}, {in: "𝄞", ins: '𝄞'},
		{in: "\x7f", del: true},
		{in: "\x1b[C", move: 1}, {in: "\x1b[D", move: -1}, {in: "\x1b[2C", move: 2}, {in: "\x1b[2D", move: -2}, {in: "\x1b[80C", move: 80}, {in: "\x1b[80D", move: -80},
		{in: "\r", end: platform.EditLineDone},
		{in: "\x1b", end: platform.EditLineCanceled, last: true},
		{in: "\x01", left: true}, {in: "\x1b[<0;2;1M", left: true}, {in: "\x1b[2~", left: true}, {in: "\x1ba", left: true},
		{in: "\x1b[A", free: true}, {in: "\x1b[B", free: true},
	}
	// inputs of a frame
	type frameKeys []editKey
	inputs := []frameKeys{nil}
	for _, k := range keys {
		inputs = append(inputs, frameKeys{k})
		if k.last {
			continue
		}
		for _, l := range keys {
			inputs = append(inputs, frameKeys{k, l})
			if c.Thorough() && !l.last && (k.ins == 'a' || k.del || k.move < 0 || k.end != 0) {
				for _, m := range keys {
					inputs = append(inputs, frameKeys{k, l, m})
				}
			}
		}
	}
	maxW := c.Pick(4, 5)
	c.Bound("line_length", maxLen)
	c.Bound("box_width", fmt.Sprintf("0..%d, changing from frame to frame", maxW))
	c.Bound("frame_inputs", len(inputs))
	bounds := ansi.Rect(1, 1, 9, 4)
	boxMin := ansi.Pt(3, 2)

	initial := []editState{{}}
	for _, s := range []string{"a", "a\u00e9", "é a", "–b𝄞a", "abcdef"} { // text given by the program
		if utf8.RuneCountInString(s) <= maxLen {
			initial = append(initial, editState{refLine: refLine{text: s}}, editState{refLine: refLine{text: s, cur: utf8.RuneCountInString(s)}})
		}
	}
	type worker struct {
		p  *platform.Platform
		es platform.Events
		sc anansi.TermScreen
	}
	workers := make(chan *worker, 64)
	level := initial
	for _, s := range level {
		c.StateS(fmt.Sprint(s))
	}
	for depth := 0; len(level) > 0 && !c.Expired(); depth++ {
		nexts := make([][]editState, len(level))
		c.Parallel(len(level), func(i int) {
			var wk *worker
			select {
			case wk = <-workers:
			default:
				p, err := platform.New(nil, nil, platform.Config{})
				if err != nil {
					c.Violate("new", "platform.New fails: %v", err)
					return
				}
				wk = &worker{p: p}
			}
			defer func() { workers <- wk }()
			from := level[i]
			for _, in := range inputs {
				if len(in) > 2 && utf8.RuneCountInString(from.text) > 4 {
					continue
				}
				for w := 0; w <= maxW; w++ {
					c.Transitions(1)
					to, bad := editFrame(c, from, in, w, wk.p, &wk.es, &wk.sc, bounds, boxMin)
					if bad != "" {
						var s string
						for _, k := range in {
							s += k.in
						}
						c.Violate(fmt.Sprintf("line %q cur=%d view=%d input %q w=%d", from.text, from.cur, from.view, s, w),
							"line %q with cursor %d viewed from %d in a box %d wide, given %q: %s", from.text, from.cur, from.view, w, s, bad)
						if c.Enough() {
							return
						}
						continue
					}
					if to.state == platform.EditLineReady && utf8.RuneCountInString(to.text) <= maxLen && c.StateS(fmt.Sprint(to)) {
						nexts[i] = append(nexts[i], to)
					}
				}
			}
		})
		level = nil
		for _, ns := range nexts {
			level = append(level, ns...)
		}
	}
	checkLargeLines(c)
	c.Sample("line %q, box 3 wide, Left: cursor before the last rune", "abab")
}

// editFrame runs one frame of a line from a given state.
func editFrame(c *h.C, from editState, in []editKey, w int, p *platform.Platform, es *platform.Events, sc *anansi.TermScreen, bounds ansi.Rectangle, boxMin ansi.Point) (to editState, bad string) {
	// expect
	line := from.refLine
	var evs []platform.EventType // expected to be left
	var raw string
	var free []bool
	es.Clear()
	for _, k := range in {
		raw += k.in
		n0 := len(es.Type)
		es.DecodeBytes([]byte(k.in))
		for _, t := range es.Type[n0:] {
			if line.state == platform.EditLineReady && !k.left {
				t = platform.EventNone
			}
			evs = append(evs, t)
			free = append(free, k.free)
		}
		if !k.left && !k.free {
			line = line.apply(k)
		}
	}

	// run
	edl := platform.EditLine{Buf: append(make([]byte, 0, len(from.text)+3), from.text...), Cur: from.cur, View: from.view, State: from.state}
	edl.Box = ansi.Rectangle{Min: boxMin, Max: boxMin.Add(image.Pt(w, 1))}
	sc.Resize(bounds.Size())
	sc.Clear()
	for i := range sc.Rune {
		sc.Rune[i] = '#'
	}
	sc.To(ansi.Pt(1, 1))
	sc.UserCursor.Visible = false
	sc.UserCursor.Point = ansi.Pt(1, 1)
	ctx := p.Context()
	ctx.Input, ctx.Output = es, sc
	what := ""
	if !c.Guard("panic", func() string { return fmt.Sprintf("line %+v, input %q, box %d wide", from, raw, w) }, func() { edl.Update(&ctx) }) {
		return from, "panics"
	}

	// what became of the line
	if string(edl.Buf) != line.text {
		return to, fmt.Sprintf("text becomes %q, want %q", edl.Buf, line.text)
	}
	if edl.State != line.state || edl.Active() != (line.state == platform.EditLineReady) || edl.Done() != (line.state == platform.EditLineDone) || edl.Canceled() != (line.state == platform.EditLineCanceled) {
		return to, fmt.Sprintf("state becomes %v (active %v, done %v, canceled %v), want %v", edl.State, edl.Active(), edl.Done(), edl.Canceled(), line.state)
	}
	for i := range evs {
		if es.Type[i] != evs[i] && !free[i] {
			return to, fmt.Sprintf("event %d is left as of type %v, want %v", i, es.Type[i], evs[i])
		}
	}
	to = editState{refLine: line, view: edl.View}
	if line.state != platform.EditLineReady {
		// what's after a reset
		edl.Reset()
		if len(edl.Buf) != 0 || edl.Cur != 0 || !edl.Active() {
			return to, fmt.Sprintf("after Reset it has text %q, cursor %d, state %v", edl.Buf, edl.Cur, edl.State)
		}
	}

	// what's shown of it
	rs := []rune(line.text)
	at := -1
	if line.state == platform.EditLineReady {
		if edl.Cur != line.cur {
			return to, fmt.Sprintf("cursor becomes %d, want %d", edl.Cur, line.cur)
		}
		if w > 0 {
			uc := sc.UserCursor
			if !uc.Visible {
				return to, "the cursor is not shown"
			}
			at = uc.X - boxMin.X
			if at < 0 || at >= w || uc.Y != boxMin.Y {
				return to, fmt.Sprintf("the cursor is shown at %v, outside of the box %v", uc.Point, edl.Box)
			}
		}
	} else if sc.UserCursor.Visible {
		what = "the cursor is shown, though the line is no more"
	}
	first := line.cur - at // shown at the left of the box
	if at >= 0 {
		if first < 0 || len(rs) < w && first != 0 {
			return to, fmt.Sprintf("the line is shown from %d", first)
		}
		if shown := len(rs) - first; len(rs) >= w && shown < w-1 {
			return to, fmt.Sprintf("only %d runes are shown", shown)
		}
	}
	for y := bounds.Min.Y; y < bounds.Max.Y; y++ {
		for x := bounds.Min.X; x < bounds.Max.X; x++ {
			i, _ := sc.CellOffset(ansi.Pt(x, y))
			want := '#'
			if j := x - boxMin.X; at >= 0 && y == boxMin.Y && j >= 0 && j < w {
				if first+j < len(rs) {
					want = rs[first+j]
				} else if sc.Rune[i] == ' ' && first+j == len(rs) {
					want = ' '
				}
			}
			if sc.Rune[i] != want {
				return to, fmt.Sprintf("cell %d,%d is %q, want %q; box %v, cursor at %d,%d", x, y, sc.Rune[i], want, edl.Box, boxMin.X+at, boxMin.Y)
			}
		}
	}
	return to, what
}
