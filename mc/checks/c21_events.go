package checks

import (
	"fmt"
	"image"
	"io"
	"log"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C21", checkEvents) }

// refEvent is an event as its bytes denote it.
type refEvent struct {
	kind       platform.EventType
	id         rune
	arg        string
	code, x, y int // of mouse events
}

// refEvents decodes a queue of events, s being all there is.
func refEvents(s string) (evs []refEvent) {
	toks, _ := ref.Tokenize(s, true)
	for _, t := range toks {
		evs = append(evs, tokEvent(t))
	}
	return evs
}

func tokEvent(t ref.Token) refEvent {
	if !t.IsE {
		return refEvent{kind: platform.EventRune, id: t.R}
	}
	ev := refEvent{kind: platform.EventEscape, id: t.ID, arg: t.Arg}
	if t.ID < 0xEF00 { // strings are known by the rune of their introducer
		ev.kind = platform.EventRune
	}
	fin := byte(t.ID)
	if t.ID == rune(ansi.CSI('M')) || t.ID == rune(ansi.CSI('m')) {
		fin = 'M'
		if t.ID == rune(ansi.CSI('m')) {
			fin = 'm'
		}
		if strings.HasPrefix(t.Arg, "<") {
			if st, x, y, ok := refMouse(fin, t.Arg); ok {
				ev.kind, ev.code, ev.x, ev.y = platform.EventMouse, st, x, y
			}
		}
	}
	return ev
}

// button is the number of the button of a mouse report: 1..3, 0 for none, 4
// and 5 for the wheel.
func (ev *refEvent) button() int {
	b := (ev.code&3 + 1) % 4
	if ev.code&64 != 0 {
		b += 3
	}
	return b
}

func (ev *refEvent) press() bool { return ev.code&(32|128) == 0 }

func (ev *refEvent) in(r ansi.Rectangle) bool {
	return ev.x >= r.Min.X && ev.x < r.Max.X && ev.y >= r.Min.Y && ev.y < r.Max.Y
}

func showRefEvents(evs []refEvent) string {
	var sb strings.Builder
	for _, ev := range evs {
		switch ev.kind {
		case platform.EventNone:
			sb.WriteString("-")
		case platform.EventMouse:
			fmt.Fprintf(&sb, "mouse(%d@%d,%d)", ev.code, ev.x, ev.y)
		case platform.EventRune:
			fmt.Fprintf(&sb, "%q%s", ev.id, ev.arg)
		default:
			fmt.Fprintf(&sb, "%04X", ev.id)
			if ev.arg != "" {
				fmt.Fprintf(&sb, "%q", ev.arg)
			}
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

func showEvents(es *platform.Events) string {
	var sb strings.Builder
	for id, kind := range es.Type {
		switch kind {
		case platform.EventNone:
			sb.WriteString("-")
		case platform.EventMouse:
			m := es.Mouse(id)
			fmt.Fprintf(&sb, "mouse(%d@%d,%d)", m.State, m.X, m.Y)
		case platform.EventRune:
			fmt.Fprintf(&sb, "%q%s", es.Rune(id), es.Escape(id).Arg)
		default:
			e := es.Escape(id)
			fmt.Fprintf(&sb, "%04X", rune(e.ID))
			if len(e.Arg) > 0 {
				fmt.Fprintf(&sb, "%q", e.Arg)
			}
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

type evQuery struct {
	name string
	real func(es *platform.Events) interface{}
	ref  func(evs []refEvent) interface{}
}

func evQueries() (qs []evQuery) {
	add := func(name string, real func(es *platform.Events) interface{}, ref func(evs []refEvent) interface{}) {
		qs = append(qs, evQuery{name, real, ref})
	}
	add("Empty", func(es *platform.Events) interface{} { return es.Empty() }, func(evs []refEvent) interface{} {
		for _, ev := range evs {
			if ev.kind != platform.EventNone {
				return false
			}
		}
		return true
	})
	for _, r := range []rune{'a', '\x03', 'é'} {
		r := r
		add(fmt.Sprintf("HasTerminal(%q)", r), func(es *platform.Events) interface{} { return es.HasTerminal(r) }, func(evs []refEvent) interface{} {
			for i, ev := range evs {
				if ev.kind == platform.EventRune && ev.id == r {
					for ; i < len(evs); i++ {
						evs[i].kind = platform.EventNone
					}
					return true
				}
			}
			return false
		})
	}
	for _, rs := range []string{"", "a", "ab", "aa", "\x03", "\x1bé", "M"} {
		rs := rs
		add(fmt.Sprintf("CountRune(%q)", rs), func(es *platform.Events) interface{} { return es.CountRune([]rune(rs)...) }, func(evs []refEvent) interface{} {
			n := 0
			for i := range evs {
				if evs[i].kind == platform.EventRune && strings.ContainsRune(rs, evs[i].id) {
					evs[i].kind = platform.EventNone
					n++
				}
			}
			return n
		})
	}
	boxes := []ansi.Rectangle{ansi.Rect(1, 1, 3, 3), ansi.Rect(2, 2, 3, 3), ansi.Rect(2, 2, 2, 2), ansi.Rect(1, 1, 200, 200)}
	for _, box := range boxes {
		box := box
		for _, b := range []int{1, 3, 4} {
			b := b
			add(fmt.Sprintf("CountPressesIn(%v,%d)", box, b), func(es *platform.Events) interface{} { return es.CountPressesIn(box, uint8(b)) }, func(evs []refEvent) interface{} {
				n := 0
				for i := range evs {
					if ev := &evs[i]; ev.kind == platform.EventMouse && ev.press() && ev.button() == b && ev.in(box) {
						ev.kind = platform.EventNone
						n++
					}
				}
				return n
			})
		}
		add(fmt.Sprintf("AnyPressesOutside(%v)", box), func(es *platform.Events) interface{} { return es.AnyPressesOutside(box) }, func(evs []refEvent) interface{} {
			for _, ev := range evs {
				if ev.kind == platform.EventMouse && ev.press() && !ev.in(box) {
					return true
				}
			}
			return false
		})
		add(fmt.Sprintf("TotalScrollIn(%v)", box), func(es *platform.Events) interface{} { return es.TotalScrollIn(box) }, func(evs []refEvent) interface{} {
			n := 0
			for i := range evs {
				if ev := &evs[i]; ev.kind == platform.EventMouse && ev.in(box) && ev.button() >= 4 && ev.button() <= 5 {
					n += 2*(ev.button()-4) - 1
					ev.kind = platform.EventNone
				}
			}
			return n
		})
	}
	add("TotalCursorMovement", func(es *platform.Events) interface{} { return es.TotalCursorMovement() }, func(evs []refEvent) interface{} {
		var d image.Point
		for i := range evs {
			ev := &evs[i]
			if ev.kind != platform.EventEscape {
				continue
			}
			var m image.Point
			switch ansi.Escape(ev.id) {
			case ansi.CSI('A'):
				m.Y = -1
			case ansi.CSI('B'):
				m.Y = 1
			case ansi.CSI('C'):
				m.X = 1
			case ansi.CSI('D'):
				m.X = -1
			default:
				continue
			}
			if n, _, ok := refNumber(ev.arg); ok {
				m = m.Mul(n)
			}
			d = d.Add(m)
			ev.kind = platform.EventNone
		}
		return d
	})
	for _, consume := range []bool{false, true} {
		consume := consume
		add(fmt.Sprintf("LastMouse(%v)", consume), func(es *platform.Events) interface{} {
			m, have := es.LastMouse(consume)
			return fmt.Sprint(int(m.State), m.X, m.Y, have)
		}, func(evs []refEvent) interface{} {
			var last refEvent
			have := false
			for i := range evs {
				if evs[i].kind == platform.EventMouse {
					last, have = evs[i], true
					if consume {
						evs[i].kind = platform.EventNone
					}
				}
			}
			return fmt.Sprint(last.code, last.x, last.y, have)
		})
	}
	return qs
}

var evSymbols = []string{
	"a", "b", "\x03", "é", "\x1b[A", "\x1b[2B", "\x1b[C", "\x1b[10D", "\x1b[E", "\x1b[5~", "\x1bOA",
	"\x1b[<0;1;1M", "\x1b[<0;1;1m", "\x1b[<0;2;2M", "\x1b[<2;3;3M", "\x1b[<64;2;2M", "\x1b[<65;1;3M", "\x1b[<35;2;1M", "\x1b[<16;2;2M",
	"\x1b[<0;1M", "\x1b[M", "\x1b[3m", "\x1b]0;x\a", "\x1b[\x18", "\x1b\x18", "\xff", "\x1b",
}

// checkEvents queries every small queue of events in every way.
func checkEvents(c *h.C) {
	log.SetOutput(io.Discard)
	qs := evQueries()
	n, nq := c.Pick(3, 4), 2
	c.Bound("events", n)
	c.Bound("event alphabet", fmt.Sprintf("%q", evSymbols))
	c.Bound("queries", nq)
	var names []string
	for _, q := range qs {
		names = append(names, q.name)
	}
	c.Bound("query alphabet", names)
	one := func(word []int) {
		s := ""
		for _, i := range word {
			s += evSymbols[i]
		}
		if c1InEscape(s) || delInESC(s) {
			return
		}
		base := refEvents(s)
		c.StateS(showRefEvents(base))
		deep := nq
		if len(word) > 3 {
			deep = 1
		}
		var es platform.Events
		var rec func(path []int)
		rec = func(path []int) {
			c.Transitions(1)
			evs := append([]refEvent(nil), base...)
			es.Clear()
			es.DecodeBytes([]byte(s))
			if g, w := showEvents(&es), showRefEvents(evs); g != w {
				c.Violate(fmt.Sprintf("events:%q", s), "%q decodes to events %s\nwant %s", s, g, w)
				return
			}
			for i, q := range path {
				g, w := qs[q].real(&es), qs[q].ref(evs)
				if i < len(path)-1 {
					continue
				}
				name := fmt.Sprintf("%q", s)
				for _, q := range path {
					name += ", " + qs[q].name
				}
				if g != w {
					c.Violate("query:"+name, "%s returns %v, want %v", name, g, w)
				} else if g, w := showEvents(&es), showRefEvents(evs); g != w {
					c.Violate("left:"+name, "%s leaves events %s\nwant %s", name, g, w)
				}
			}
			if len(path) < deep {
				for q := range qs {
					rec(append(path[:len(path):len(path)], q))
				}
			}
			c.Traces(1)
		}
		c.Guard(fmt.Sprintf("panic:%q", s), func() string { return fmt.Sprintf("events %q", s) }, func() { rec(nil) })
		if len(word) > nq && len(word) < 100 {
			return
		}
		// as input that arrives in up to two reads
		cuts := 0
		for cut := 0; cut < len(s); cut++ {
			if cuts++; len(word) >= 100 && cuts > 100 && cut != len(s)/2 && cut < len(s)-20 {
				continue
			}
			cut := cut
			name := fmt.Sprintf("%q@%d", s, cut)
			p := inPipes.Get().(*inPipe)
			if c.Guard("panic:"+name, func() string { return name }, func() {
				in := &anansi.Input{File: p.r}
				var es platform.Events
				var ri refInput
				var want []refEvent
				for _, chunk := range []string{s[:cut], s[cut:]} {
					if chunk == "" {
						continue
					}
					if _, err := syscall.Write(p.w, []byte(chunk)); err != nil {
						panic(err)
					}
					if n, err := in.ReadAny(); n != len(chunk) || err != nil {
						c.Violate("read:"+name, "%s: ReadAny returns %d, %v", name, n, err)
						return
					}
					es.DecodeInput(in)
					for _, t := range ri.arrive(chunk, false) {
						want = append(want, tokEvent(t))
					}
					if g, w := showEvents(&es), showRefEvents(want); g != w {
						c.Violate("input:"+name, "%s: input decodes to events %s\nwant %s", name, g, w)
						return
					}
				}
			}) {
				inPipes.Put(p)
			}
			c.Transitions(2)
			c.Traces(1)
		}
	}
	c.Words(len(evSymbols), 0, n, one)
	// long queues
	var long [][]int
	for _, k := range []int{127, 128, 129, 255, 256, 257, 1000} {
		for step := 1; step <= c.Pick(4, 26); step++ {
			word := make([]int, k)
			for i := range word {
				word[i] = i * step % (len(evSymbols) - 4) // all but the cut off ones
			}
			long = append(long, word)
		}
	}
	c.Bound("long_queues", "of 127 to 1000 events")
	c.Parallel(len(long), func(i int) { one(long[i]) })
}
