package checks

import (
	"errors"
	"fmt"
	"image"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() { h.Register("C22", checkFrames) }

// checkFrames explores what may happen before and within each frame of a
// platform run loop.
func checkFrames(c *h.C) {
	depth := c.Pick(2, 3)
	arrivals := [][]string{ // chunks of input; all but the first arrive while the prior is being read
		nil, {"a"}, {"bé"}, {"\x1b[A"}, {"x\x1b["}, {"B"}, {"\x0c"}, {"a", "b"}, {"a", "\x1b["}, {"\x1b[<0;2;1M", "c", "d"}, {""},
	}
	others := []string{"nothing", "resize", "resize lower", "client fails", "SIGTERM", "run again"}
	sizes := []image.Point{{6, 3}, {9, 2}}
	c.Bound("frames", depth)
	c.Bound("arrivals", fmt.Sprintf("%q", arrivals))
	c.Bound("occurrences", others)
	errClient := errors.New("client failed")
	c.Explore(3, func(ch *h.Choose) {
		d, err := newDriver(sizes[0].X, sizes[0].Y)
		if err != nil {
			c.Violate("new", "platform.New fails: %v", err)
			return
		}
		defer d.close()
		var log strings.Builder
		failed := false
		bad := func(format string, args ...interface{}) {
			if !failed {
				failed = true
				c.Violate(fmt.Sprint("frames:", ch.Path()), "%s\n%s", log.String(), fmt.Sprintf(format, args...))
			}
		}
		var ri refInput
		var want []refEvent // events of the coming frame
		var lastSize image.Point
		size := sizes[0]
		var shown anansi.Grid // copy of what the last frame drew
		var uc anansi.Cursor
		drawn := false
		frame, runs := 0, 1
		expectErr := false
		wantErr := error(nil)
		arrive := func(s string) {
			for _, t := range ri.arrive(s, false) {
				want = append(want, tokEvent(t))
			}
		}
		check := func() {
			if vt := d.shown(); drawn && !failed {
				if diff := showDiff(vt, shown, uc); diff != "" {
					bad("frame %d is not shown: %s", frame, diff)
				}
			}
			drawn = false
		}
		// prepare decides what happens until the next frame
		prepare := func() (again bool) {
			want = nil
			for i, s := range arrivals[ch.N(len(arrivals))] {
				fmt.Fprintf(&log, " %q arrives", s)
				if i == 0 {
					d.input(s)
					arrive(s)
					d.read = nil
				} else {
					log.WriteString(" meanwhile")
					s, prior := s, d.read
					d.read = func() {
						if prior != nil {
							prior()
							// one at a time
							d.read = func() { d.input(s); arrive(s) }
							return
						}
						d.input(s)
						arrive(s)
					}
				}
			}
			switch o := others[ch.N(len(others))]; o {
			case "nothing":
			case "resize":
				log.WriteString(" resized")
				size = sizes[0].Add(sizes[1]).Sub(size)
				d.resize(size.X, size.Y)
				drawn = false // what is flushed next is for the prior size
			case "resize lower": // or higher, as wide as before
				log.WriteString(" other height")
				size.Y = sizes[0].Y + sizes[1].Y - size.Y
				d.resize(size.X, size.Y)
				drawn = false
			case "client fails":
				log.WriteString(" client fails")
				wantErr = errClient
			case "SIGTERM":
				log.WriteString(" SIGTERM")
				d.stop(syscall.SIGTERM)
				expectErr = true
			case "run again":
				if frame > 0 {
					log.WriteString(" run again")
					again = true
				}
			}
			return again
		}
		done := errors.New("done")
		again := errors.New("again")
		cl := &client{}
		cl.update = func(ctx *platform.Context) error {
			c.Transitions(1)
			if frame > 0 {
				check()
			}
			frame++
			fmt.Fprintf(&log, "; frame %d:", frame)
			if g, w := showEvents(ctx.Input), showRefEvents(want); g != w && !failed {
				// Ctrl-L is struck out
				w = strings.Replace(w, `'\f'`, "-", -1)
				if g != w {
					bad("events are %s, want %s", g, w)
				}
			}
			ctrlL := strings.Contains(showRefEvents(want), `'\f'`)
			if sz := ctx.Output.Bounds().Size(); sz != size {
				bad("screen size is %v, want %v", sz, size)
			}
			if w := ctrlL || size != lastSize; ctx.Redraw != w {
				bad("Redraw is %v, want %v", ctx.Redraw, w)
			}
			lastSize = size
			if !ctx.Time.Equal(ctx.Platform.Time) || !d.now.IsZero() && frame > 1 && runs == 1 && !ctx.Time.Equal(d.now) {
				bad("frame time is %v, platform time is %v, want %v", ctx.Time, ctx.Platform.Time, d.now)
			}
			if wantErr != nil {
				return wantErr
			}
			if frame > depth {
				return done
			}
			// draw something
			fmt.Fprintf(ctx.Output, "%d\r\n%v", frame, len(want))
			ctx.Output.WriteSGR(ansi.SGRRed.FG())
			ctx.Output.To(ansi.Pt(size.X, size.Y))
			ctx.Output.WriteString(string('a' + rune(frame)))
			ctx.Output.UserCursor.Visible = frame%2 == 0
			ctx.Output.UserCursor.Point = ansi.Pt(1+frame%size.X, 1+frame%2)
			shown.Resize(size)
			copy(shown.Rune, ctx.Output.Grid.Rune)
			copy(shown.Attr, ctx.Output.Grid.Attr)
			uc = ctx.Output.UserCursor
			drawn = true
			if prepare() {
				return again
			}
			d.now = time.Now()
			d.tick()
			return nil
		}
		d.term.Input.SetRecording(d)
		err = d.run(func(p *platform.Platform) error {
			prepare()
			for {
				err := p.Run(cl)
				if err != again {
					return err
				}
				runs++
				drawn = false // nothing is flushed on errors
			}
		})
		switch {
		case expectErr:
			if err == nil || err == done || !strings.Contains(err.Error(), syscall.SIGTERM.String()) && wantErr == nil {
				bad("Run returns %v on SIGTERM", err)
			}
		case wantErr != nil:
			if err != wantErr {
				bad("Run returns %v, want %v", err, wantErr)
			}
		case err != done:
			bad("Run returns %v", err)
		}
		vt := d.shown()
		if len(vt.Bad) > 0 {
			bad("the terminal got %q", vt.Bad)
		}
		for m, set := range vt.Modes {
			if set {
				bad("mode %s is left set", m)
			}
		}
		if t, err := d.pty.get(); err != nil || t != d.pty.initial {
			bad("terminal attributes are not restored")
		}
		c.StateS(log.String())
		c.Traces(1)
	})
}
