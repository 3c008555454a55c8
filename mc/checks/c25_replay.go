package checks

import (
	"errors"
	"fmt"
	"image"
	"os"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() { h.Register("C25", checkSession) }

// recClient is a client whose state is what it saw.
type recClient struct {
	Seen string

	update func(cl *recClient, ctx *platform.Context) error
}

func (cl *recClient) Update(ctx *platform.Context) error { return cl.update(cl, ctx) }

// recFrame is what a client sees in a frame.
type recFrame struct {
	events  string
	size    image.Point
	redraw  bool
	visible bool   // is the HUD
	before  string // state of the client
}

func (f recFrame) String() string {
	return fmt.Sprintf("{%s%v redraw=%v hud=%v after %q}", f.events, f.size, f.redraw, f.visible, f.before)
}

func (f recFrame) empty() bool { return strings.Trim(f.events, "- ") == "" }

// replayControl is what the user does while watching a replay: input after
// successive frames, and what the next frame is to be.
type replayControl struct {
	name  string
	steps []replayStep
}

type replayStep struct {
	input string
	then  byte // 'n': next of the recording, 'p': paused, 'l': live, 'e': none
}

var replayControls = []replayControl{
	{"none", nil},
	{"pause", []replayStep{{" ", 'p'}, {"", 'p'}, {" ", 'n'}}},
	{"step", []replayStep{{" ", 'p'}, {".", 'n'}, {"", 'p'}, {".", 'n'}, {" ", 'n'}}},
	{"pause twice at once", []replayStep{{"  ", 'n'}}},
	{"stop", []replayStep{{"\x03", 'l'}, {"q", 'l'}}},
	{"resize, stop", []replayStep{{"resize", 'n'}, {"\x03", 'l'}, {"q", 'l'}}},
	{"stop while paused", []replayStep{{" ", 'p'}, {"\x03", 'l'}, {"q", 'l'}}},
	{"SIGTERM", []replayStep{{"SIGTERM", 'e'}}},
	{"SIGTERM while paused", []replayStep{{" ", 'p'}, {"SIGTERM", 'e'}}},
	{"input", []replayStep{{"\x1b[<0;1;1Mw", 'n'}}},
	{"Ctrl-L", []replayStep{{"\x0c", 'n'}}},
}

// checkSession explores sessions: what is recorded, what happens meanwhile, and
// how it is replayed.
func checkSession(c *h.C) {
	depth := c.Pick(3, 4)
	occurrences := []string{"nothing", "a", "x\x1b[", "A", "\xe2\x82", "\xac", "\x1b[<0;2;1M", "y\x0cz", "\x0b", "signal only", "resize", "resize and b"}
	starts := []string{"\x12", "s\x12t"}
	stops := []string{"A\x12", "u\x12\x0cv"}
	sizes := []image.Point{{60, 3}, {70, 4}}
	c.Bound("recorded frames", depth)
	c.Bound("occurrences before each", fmt.Sprintf("%q", occurrences))
	c.Bound("input that starts and stops recording", fmt.Sprintf("%q %q", starts, stops))
	c.Bound("what the user does while replaying", len(replayControls))
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "replay")
	if err == nil {
		err = os.Chdir(dir) // recordings are made here
	}
	if err != nil {
		panic(err)
	}

	sampled := false
	session := func(ch *h.Choose, first int) {
		d, err := newDriver(sizes[0].X, sizes[0].Y)
		if err != nil {
			c.Violate("new", "platform.New fails: %v", err)
			return
		}
		defer d.close()
		var log strings.Builder
		failed := false
		bad := func(format string, args ...interface{}) {
			if !failed {
				failed = true
				c.Violate(fmt.Sprint("replay:", first, ch.Path()), "%s\n%s", log.String(), fmt.Sprintf(format, args...))
			}
		}
		size := sizes[0]
		read, ctrlL := false, false // what was input for the next frame
		input := func(s string) {
			fmt.Fprintf(&log, " %q", s)
			d.input(s)
			read, ctrlL = true, strings.Contains(s, "\x0c")
		}
		resize := func() {
			log.WriteString(" resize")
			size = sizes[0].Add(sizes[1]).Sub(size)
			d.resize(size.X, size.Y)
		}
		see := func(cl *recClient, ctx *platform.Context) recFrame {
			c.Transitions(1)
			f := recFrame{showEvents(ctx.Input), ctx.Output.Bounds().Size(), ctx.Redraw, ctx.HUD.Visible, cl.Seen}
			if !f.empty() {
				cl.Seen += f.events + ";"
			}
			fmt.Fprintf(&log, "\n frame %v", f)
			d.pty.drain()
			d.tick()
			return f
		}
		done := errors.New("done")

		var recorded []recFrame // those input was read for
		var after string        // state afterwards
		k := 0
		start := starts[ch.N(len(starts))]
		record := func(cl *recClient, ctx *platform.Context) error {
			f := see(cl, ctx)
			if k > 1 && read {
				f.redraw = ctrlL
				recorded = append(recorded, f)
			}
			read, ctrlL = false, false
			switch {
			case k == 0:
				input(start)
			case k <= depth:
				i := first
				if k > 1 {
					i = ch.N(len(occurrences))
				}
				switch o := occurrences[i]; o {
				case "nothing":
				case "signal only":
					input("")
				case "resize":
					resize()
				case "resize and b":
					resize()
					input("b")
				default:
					input(o)
				}
			case k == depth+1:
				input(stops[ch.N(len(stops))])
			case k == depth+2:
				after = cl.Seen
			default:
				bad("stopping to record does not end the run")
				return done
			}
			k++
			return nil
		}

		var want []recFrame // frames still to come
		var script []replayStep
		var lastSize image.Point
		frames, at := 0, 0
		then := byte('n')
		lives := 0
		termed := false
		replay := func(cl *recClient, ctx *platform.Context) error {
			f := see(cl, ctx)
			frames++
			switch then {
			case 'p':
				if !f.empty() {
					bad("a paused frame has events %s", f.events)
				}
			case 'l':
				if f.size != size {
					bad("size after the replay was stopped is %v, want %v", f.size, size)
				}
				if w := []string{"- ", "'q' "}[lives]; f.events != w {
					bad("events after the replay was stopped are %s, want %s", f.events, w)
				}
				if lives++; lives == 2 {
					return done
				}
			case 'e':
				// may still see one frame
			default:
				if len(want) == 0 {
					bad("more frames are replayed than were recorded")
					return done
				}
				w := want[0]
				want = want[1:]
				w.redraw = w.redraw || frames > 1 && w.size != lastSize
				if f.events != w.events || f.size != w.size || f.visible != w.visible || f.before != w.before || w.redraw && !f.redraw {
					bad("replayed is %v, recorded %v", f, w)
				}
				lastSize = f.size
				if len(want) == 0 && cl.Seen != after {
					bad("state after replay is %q, was %q", cl.Seen, after)
				}
			}
			then = 'n'
			if frames >= at && at > 0 && len(script) > 0 {
				st := script[0]
				script = script[1:]
				switch st.input {
				case "":
				case "resize":
					resize()
				case "SIGTERM":
					log.WriteString(" SIGTERM")
					d.stop(syscall.SIGTERM)
					termed = true
				default:
					input(st.input)
				}
				then = st.then
			}
			return nil
		}

		err = d.run(func(p *platform.Platform) error {
			d.tick()
			if err := p.Run(&recClient{Seen: "begin;", update: record}); !platform.IsReplayDone(err) {
				bad("recording ends with %v", err)
				return nil
			}
			for i := 0; i < 2 && !failed; i++ {
				log.WriteString("\nreplay:")
				want = append([]recFrame(nil), recorded...)
				frames, at, then = 0, 0, 'n'
				if i == 1 {
					ct := replayControls[ch.N(len(replayControls))]
					script = ct.steps
					if len(script) > 0 {
						at = 1 + ch.N(len(recorded))
					}
					fmt.Fprintf(&log, " %s, from frame %d", ct.name, at)
				}
				d.tick()
				err := p.Run(&recClient{update: replay})
				if err == done {
					return nil
				}
				if termed {
					if err == nil || platform.IsReplayDone(err) {
						bad("SIGTERM while replaying: Run returns %v", err)
					}
					return nil
				}
				if !platform.IsReplayDone(err) {
					bad("replay ends with %v", err)
				}
				if len(want) > 0 {
					bad("frames %v are not replayed", want)
				}
			}
			return nil
		})
		if err != nil {
			bad("%v", err)
		}
		if c.StateS(log.String()); first == 2 && !sampled {
			sampled = true
			c.Sample("%s", log.String())
		}
	}
	c.Procs(len(occurrences), func(job int) {
		c.ExploreSeq(func(ch *h.Choose) { session(ch, job) })
	})
	os.RemoveAll(dir)
}
