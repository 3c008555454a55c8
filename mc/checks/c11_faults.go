package checks

import (
	"errors"
	"fmt"
	"image"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C11", checkDifferFaults) }

// checkDifferFaults cuts the output of a screen differ at every byte, in every
// way a writer can fail, possibly twice, with every operation in between, and
// requires that the terminal shows the screen once flushing works again.
func checkDifferFaults(c *h.C) {
	red, bgBlue := ansi.SGRRed.FG(), ansi.SGRBlue.BG()
	type frame struct {
		name string
		uc   anansi.Cursor
		draw func(sd *anansi.ScreenDiffer)
	}
	at := func(x, y int, a ansi.SGRAttr) anansi.Cursor {
		return anansi.Cursor{Point: mkPt(x, y), Attr: a, Visible: true}
	}
	write := func(s string) func(sd *anansi.ScreenDiffer) {
		return func(sd *anansi.ScreenDiffer) {
			sd.Clear()
			sd.To(mkPt(1, 1))
			sd.WriteString(s)
		}
	}
	frames := []frame{
		{"blank", anansi.Cursor{}, write("")},
		{"ab/é", at(1, 1, 0), write("ab\r\né")},
		{"red blue", at(2, 2, bgBlue), write("\x1b[31ma\x1b[0;44mb\r\n \x1b[1;32mz")},
		{"corners", anansi.Cursor{}, func(sd *anansi.ScreenDiffer) {
			sd.Clear()
			g := sd.Grid
			g.Rune[0], g.Attr[0] = 'x', red
			g.Rune[len(g.Rune)-1], g.Attr[len(g.Attr)-1] = 'y', bgBlue|ansi.SGRAttrUnderscore
		}},
	}
	nf := c.Pick(3, 4)
	frames = frames[len(frames)-nf:]
	type mid struct {
		name string
		f    func(sd *anansi.ScreenDiffer, t *ref.VT)
	}
	mids := []mid{
		{"nothing", func(sd *anansi.ScreenDiffer, t *ref.VT) {}},
		{"Invalidate", func(sd *anansi.ScreenDiffer, t *ref.VT) { sd.Invalidate() }},
		{"resize 3x2", func(sd *anansi.ScreenDiffer, t *ref.VT) {
			t.Resize(3, 2)
			sd.Resize(image.Pt(3, 2))
		}},
		{"resize 1x2", func(sd *anansi.ScreenDiffer, t *ref.VT) {
			t.Resize(1, 2)
			sd.Resize(image.Pt(1, 2))
		}},
		{"write", func(sd *anansi.ScreenDiffer, t *ref.VT) {
			sd.To(mkPt(1, 2))
			sd.WriteString("q\x1b[4mw\x1b[")
		}},
	}
	modes := []string{"", "fails", "blocks", "short"}
	const w, hh = 2, 2

	// full runs one history. The lengths of what is written are only known by
	// running it, so it reports how many bytes the two faulty flushes tried.
	type fault struct{ mode, k int }
	run := func(fr [4]int, md [3]int, fa [2]fault) (tried [2]int) {
		desc := func() string {
			var sb strings.Builder
			fmt.Fprintf(&sb, "%dx%d: flush %q", w, hh, frames[fr[0]].name)
			for i := range fa {
				fmt.Fprintf(&sb, "; %s, draw %q; flush %s after %d bytes", mids[md[i]].name, frames[fr[i+1]].name, modes[fa[i].mode], fa[i].k)
			}
			fmt.Fprintf(&sb, "; %s, draw %q; flush", mids[md[2]].name, frames[fr[3]].name)
			return sb.String()
		}
		sig := fmt.Sprintf("fault:%v%v%v", fr, md, fa)
		c.Guard("panic-"+sig, desc, func() {
			t := garbage(w, hh)
			var sd anansi.ScreenDiffer
			sd.Resize(image.Pt(w, hh))
			draw := func(i int) {
				frames[fr[i]].draw(&sd)
				sd.UserCursor = frames[fr[i]].uc
			}
			draw(0)
			if _, err := sd.WriteTo(&sink{vt: t}); err != nil {
				c.Violate(sig, "first flush: %v: %s", err, desc())
				return
			}
			hard := false
			// the frame whose output is only partly written
			var pending *anansi.Grid
			var pendUC anansi.Cursor
			for i, f := range fa {
				mids[md[i]].f(&sd, t)
				draw(i + 1)
				if pending == nil {
					g := cloneGrid(sd.Grid)
					pending, pendUC = &g, sd.UserCursor
				}
				sk := &sink{vt: t, mode: f.mode, k: f.k}
				n, err := sd.WriteTo(sk)
				tried[i] = sk.tried
				c.Transitions(1)
				if int(n) != sk.n {
					c.Violate("count-"+sig, "flush %d reported %d bytes, %d were written: %s", i+1, n, sk.n, desc())
				}
				if sk.failed {
					switch {
					case f.mode == 1 && err != errSink, f.mode == 2 && !errors.Is(err, syscall.EWOULDBLOCK), err == nil:
						c.Violate("err-"+sig, "flush %d returned %v: %s", i+1, err, desc())
					}
					if f.mode != 2 {
						hard = true
						pending = nil
					}
				} else {
					if err != nil {
						c.Violate("err-"+sig, "flush %d returned %v: %s", i+1, err, desc())
						return
					}
					// now what was begun is shown
					if d := cellDiff(t, *pending); md[i] < 2 && (!hard || f.mode == 0) && d != "" {
						c.Violate("resume-"+sig, "%s: after flush %d: %s\n%v", desc(), i+1, d, t)
						return
					}
					_ = pendUC
					pending = nil
				}
			}
			mids[md[2]].f(&sd, t)
			draw(3)
			for i := 0; i < 2; i++ { // the first may finish an interrupted flush
				sk := &sink{vt: t}
				n, err := sd.WriteTo(sk)
				if err != nil || int(n) != sk.n {
					c.Violate("err-"+sig, "final flush %d returned %d, %v for %d bytes: %s", i+1, n, err, sk.n, desc())
					return
				}
			}
			if hard {
				t.Bad = nil // a rune may be cut for good
			}
			if md[1] > 1 || md[2] > 1 {
				t.Scrolled = 0 // output for the old size
			}
			if d := showDiff(t, sd.Grid, sd.UserCursor); d != "" {
				c.Violate(sig, "%s: %s\n%v", desc(), d, t)
				return
			}
			c.Traces(1)
			c.State(t.Key([]byte(fmt.Sprintf("%v%+v", md, sd.Real.Cursor))))
		})
		return tried
	}

	nfr := nf * nf * nf * nf
	pairs := c.Thorough()
	c.Bound("frames", nf)
	c.Bound("operations_between", len(mids))
	c.Bound("fault_points", "every byte of two consecutive flushes, each failing, blocking or writing short")
	c.Parallel(nfr*len(mids), func(i int) {
		m0 := i % len(mids)
		v := i / len(mids)
		var fr [4]int
		for j := range fr {
			fr[j] = v % nf
			v /= nf
		}
		for mode := 1; mode <= 3; mode++ {
			// one fault, everything around it
			for k := 0; ; k++ {
				more := false
				for m1 := range mids {
					if c.Expired() {
						return
					}
					tr := run(fr, [3]int{m0, m1, 0}, [2]fault{{mode, k}, {0, 0}})
					more = more || k+1 < tr[0]
					if m0 > 1 && !pairs {
						continue
					}
					if m1 > 1 && !pairs {
						continue
					}
					for mode2 := 1; mode2 <= 3; mode2++ {
						m2s := []int{m1}
						if pairs {
							m2s = []int{0, m0}
						}
						for _, m2 := range m2s {
							step := 1
							for k2 := 0; ; k2 += step {
								tr := run(fr, [3]int{m0, m1, m2}, [2]fault{{mode, k}, {mode2, k2}})
								if k2+1 >= tr[1] || c.Expired() {
									break
								}
							}
						}
					}
				}
				if !more {
					break
				}
			}
		}
	})
}
