package checks

import (
	"fmt"
	"image"
	"strings"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() { h.Register("C27", checkLogView) }

// logViewState is what a log view is like between frames: what's logged, and
// how it's viewed.
type logViewState struct {
	lines    int  // that were logged
	gone     int  // of which were read away
	partial  bool // the last one has no end yet
	fresh    bool // the log was read from since
	expanded bool
	line     int // as of LogViewState
	top      int // of the reference: 0 to follow, or the first one shown
}

type refLogView struct {
	expanded bool
	top      int
}

// window returns the lines to be shown out of n on a screen of a height.
func (v *refLogView) window(n, view, height int) (start, end int) {
	shown := 1
	if v.expanded && height > 1 {
		shown = view
		if shown > n {
			shown = n
		}
		if shown > height-1 {
			shown = height - 1
		}
	}
	last := n - shown + 1
	if v.top == 0 {
		return last, n
	}
	if v.top > last {
		v.top = last
	}
	return v.top, v.top + shown - 1
}

// rows returns the first row taken, the last one being the last of the screen.
func (v refLogView) rows(n, view, height int) (y int) {
	start, end := v.window(n, view, height)
	y = height - (end - start)
	if v.expanded && height > 1 {
		y--
	}
	return y
}

// logLine returns the text of line i, of various lengths.
func logLine(i int) string {
	if i == 8 || i == 100 {
		return strings.Repeat("0123456789é", 40)
	}
	switch i % 4 {
	case 0:
		return fmt.Sprintf("%d é–𝄞 long", i)
	case 1:
		return fmt.Sprintf("%d", i)
	case 2:
		return fmt.Sprintf("%d λine", i)
	default:
		return ""
	}
}

// cut returns s as shown within a width.
func cut(s string, w int) string {
	if utf8.RuneCountInString(s) > w {
		return string([]rune(s)[:w-1]) + "…"
	}
	return s
}

type logViewAct struct {
	x, y  int // of the mouse, y from the bottom
	what  string
	code  int // of the mouse
	times int
}

func checkLogView(c *h.C) {
	maxLines := c.Pick(12, 24)
	views := []int{1, 2, 3}
	sizes := []image.Point{{1, 1}, {1, 4}, {3, 2}, {6, 1}, {6, 2}, {6, 3}, {6, 4}, {7, 5}, {12, 3}, {12, 6}, {14, 5}}
	if c.Thorough() {
		views = []int{0, 1, 2, 3, 5}
		sizes = append(sizes, image.Pt(6, 12), image.Pt(11, 13), image.Pt(10, 7))
	}
	c.Bound("lines", maxLines)
	c.Bound("view_lines", fmt.Sprint(views))
	c.Bound("sizes", fmt.Sprint(sizes))
	type job struct {
		view  int
		size  image.Point
		lines int // from which on
		max   int
	}
	var jobs []job
	for _, v := range views {
		for _, sz := range sizes {
			jobs = append(jobs, job{v, sz, 0, maxLines})
		}
	}
	for _, j := range []job{{10, image.Pt(20, 6), 97, 101}, {3, image.Pt(257, 4), 98, 100}, {12, image.Pt(16, 14), 254, 257}, {20, image.Pt(129, 3), 6, 12}} {
		if c.Thorough() {
			j.max += 4
		}
		jobs = append(jobs, j)
	}
	c.Bound("long_logs", "of 97 to 101 and of 254 to 257 lines, of which one of 440 runes on screens 129 and 257 wide")
	c.Parallel(len(jobs), func(j int) { exploreLogView(c, jobs[j].view, jobs[j].size, jobs[j].lines, jobs[j].max) })
	c.Sample("10 lines viewed 3 at a time, wheel up twice, wheel down twice: follows again")
}

func exploreLogView(c *h.C, view int, size image.Point, lines, maxLines int) {
	p, err := platform.New(nil, nil, platform.Config{})
	if err != nil {
		c.Violate("new", "platform.New fails: %v", err)
		return
	}
	// mouse actions
	acts := [][]logViewAct{nil}
	for y := 1; y <= size.Y; y++ {
		for _, x := range []int{1, size.X/2 + 1, size.X} {
			if lines > 0 && x != size.X/2+1 {
				continue
			}
			for _, a := range []logViewAct{
				{x, y, "press", 0, 1}, {x, y, "press", 0, 2}, {x, y, "right press", 2, 1}, {x, y, "move", 35, 1},
				{x, y, "wheel up", 64, 1}, {x, y, "wheel down", 65, 1}, {x, y, "wheel up", 64, 2}, {x, y, "wheel down", 65, 4}, {x, y, "wheel up", 64, 20},
			} {
				acts = append(acts, []logViewAct{a})
				if (x == 1 || lines > 0) && a.code == 0 && a.times == 1 {
					acts = append(acts, []logViewAct{a, {1, size.Y, "wheel up", 64, 1}}, []logViewAct{{1, size.Y, "wheel up", 64, 1}, a}, []logViewAct{a, {1, size.Y, "wheel down", 65, 1}, {1, size.Y, "right press", 2, 1}})
				}
			}
		}
	}
	var es platform.Events
	var sc anansi.TermScreen
	level := []logViewState{{lines: lines}, {lines: lines, expanded: true}}
	seen := func(s logViewState) bool { return !c.StateS(fmt.Sprint(view, size, s)) }
	for len(level) > 0 && !c.Expired() {
		var next []logViewState
		for _, from := range level {
			var sink platform.LogSink
			for i := 1; i <= from.lines; i++ {
				sink.Write([]byte(logLine(i)))
				if !from.partial || i < from.lines {
					sink.Write([]byte("\n"))
				}
			}
			for i := 1; i <= from.gone; i++ {
				var buf [64]byte
				sink.Read(buf[:len(logLine(i))+1])
			}
			for _, act := range acts {
				c.Transitions(1)
				to, bad := logViewFrame(c, p, &sink, &es, &sc, from, act, view, size)
				if from.fresh && len(act) > 0 && bad != "panics" {
					continue // as if scrolled before or after that
				}
				if bad != "" {
					c.Violate(fmt.Sprint(view, size, from, act), "log view %v on a screen of %v showing up to %d lines, with mouse %+v: %s", from, size, view, act, bad)
					if c.Enough() {
						return
					}
					continue
				}
				if !seen(to) {
					next = append(next, to)
				}
			}
			// what happens between frames
			if from.fresh {
				continue
			}
			if to := from; from.partial {
				if to.partial = false; !seen(to) {
					next = append(next, to)
				}
			} else if from.lines < maxLines {
				if to.lines++; !seen(to) {
					next = append(next, to)
				}
				if to.partial = true; logLine(to.lines) != "" && !seen(to) {
					next = append(next, to)
				}
			}
			if to := from; to.lines-to.gone > 1 && to.gone < 5 && (lines == 0 || to.gone < 1 && to.lines == maxLines) {
				to.gone++
				if to.fresh = true; !seen(to) {
					next = append(next, to)
				}
			}
		}
		level = next
	}
}

func logViewFrame(c *h.C, p *platform.Platform, sink *platform.LogSink, es *platform.Events, sc *anansi.TermScreen, from logViewState, acts []logViewAct, view int, size image.Point) (to logViewState, bad string) {
	es.Clear()
	var raw strings.Builder
	for _, a := range acts {
		for i := 0; i < a.times; i++ {
			fmt.Fprintf(&raw, "\x1b[<%d;%d;%dM", a.code, a.x, a.y)
		}
	}
	es.DecodeBytes([]byte(raw.String()))
	lv := platform.NewLogView(sink)
	lv.LogViewState = platform.LogViewState{ViewLines: view, Expanded: from.expanded, Line: from.line}
	sc.Resize(size)
	sc.Clear()
	for i := range sc.Rune {
		sc.Rune[i] = '#'
	}
	sc.To(ansi.Pt(1, 1))
	ctx := p.Context()
	ctx.Input, ctx.Output = es, sc
	if !c.Guard(fmt.Sprint("panic", size), func() string { return fmt.Sprintf("log view %+v size %v mouse %+v", from, size, acts) }, func() {
		if err := lv.Update(&ctx); err != nil {
			bad = fmt.Sprintf("Update fails: %v", err)
		}
	}) {
		return to, "panics"
	}
	if bad != "" {
		return to, bad
	}

	// expect
	n := from.lines - from.gone
	if view == 0 {
		view = 10
	}
	ref := refLogView{expanded: from.expanded, top: from.top}
	consumed := make(map[int]bool)
	if n > 0 {
		presses := 0
		y := ref.rows(n, view, size.Y)
		id := 0
		for _, a := range acts {
			for i := 0; i < a.times; i++ {
				if a.code == 0 && a.y == y {
					presses++
					consumed[id] = true
				}
				id++
			}
		}
		if presses%2 == 1 {
			ref.expanded = !ref.expanded
		}
		y = ref.rows(n, view, size.Y)
		delta := 0
		id = 0
		for _, a := range acts {
			for i := 0; i < a.times; i++ {
				if a.y >= y && (a.code == 64 || a.code == 65) {
					delta += 2*(a.code-64) - 1
					consumed[id] = true
				}
				id++
			}
		}
		if delta != 0 {
			start, end := ref.window(n, view, size.Y)
			if ref.top = start + delta; ref.top >= n-(end-start) {
				ref.top = 0
			} else if ref.top < 1 {
				ref.top = 1
			}
		}
	}
	want := make([]rune, size.X*size.Y)
	for i := range want {
		want[i] = '#'
	}
	draw := func(y int, s string) {
		for x, r := range []rune(s) {
			want[(y-1)*size.X+x] = r
		}
	}
	if n > 0 {
		y := ref.rows(n, view, size.Y)
		start, end := ref.window(n, view, size.Y)
		if ref.expanded && size.Y > 1 {
			draw(y, cut(fmt.Sprintf("Logs (%d-%d/%d):", start, end, n), size.X))
			y++
		}
		for i := start; i <= end; i++ {
			draw(y, cut(logLine(from.gone+i), size.X))
			y++
		}
	}

	// compare
	for id, kind := range es.Type {
		if consumed[id] != (kind == platform.EventNone) {
			return to, fmt.Sprintf("event %d is left as of type %v, want it taken: %v", id, kind, consumed[id])
		}
	}
	if lv.Expanded != ref.expanded {
		return to, fmt.Sprintf("it is expanded: %v, want %v", lv.Expanded, ref.expanded)
	}
	if got := string(sc.Rune); got != string(want) {
		return to, fmt.Sprintf("screen shows %q, want %q", got, string(want))
	}
	for i, a := range sc.Attr {
		if a != 0 {
			return to, fmt.Sprintf("cell %d has attributes %v", i, a)
		}
	}
	to = from
	to.fresh = false
	to.expanded, to.line, to.top = lv.Expanded, lv.Line, ref.top
	return to, ""
}
