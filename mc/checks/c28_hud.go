package checks

import (
	"fmt"
	"image"
	"io"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"runtime/trace"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() { h.Register("C28", checkHUD) }

// hudUI is a HUD without a terminal.
type hudUI struct {
	p      *platform.Platform
	lv     *platform.LogView
	sc     anansi.TermScreen
	es     platform.Events
	seen   []string // input that the client got
	client platform.ClientFunc
}

func newHUD(cfg platform.Config) (*hudUI, error) {
	log.SetOutput(io.Discard)
	p, err := platform.New(nil, nil, cfg)
	if err != nil {
		return nil, err
	}
	log.SetOutput(io.Discard)
	io.Copy(io.Discard, &platform.Logs)
	u := &hudUI{p: p}
	u.lv = *(**platform.LogView)(private(&p.HUD, (**platform.LogView)(nil), nil))
	u.client = func(ctx *platform.Context) error {
		u.seen = append(u.seen, showEvents(ctx.Input))
		return nil
	}
	return u, nil
}

var hudTime = time.Date(2019, 5, 6, 7, 8, 9, 123456000, time.UTC)

// frame runs one frame with some input, over a client that has drawn '.'
// everywhere.
func (u *hudUI) frame(in string, size image.Point) error {
	u.es.Clear()
	u.es.DecodeBytes([]byte(in))
	u.sc.Resize(size)
	u.sc.Clear()
	for i := range u.sc.Rune {
		u.sc.Rune[i] = '.'
	}
	u.sc.To(ansi.Pt(1, 1))
	u.p.Time = hudTime
	u.p.LastTime = hudTime
	ctx := u.p.Context()
	ctx.Input, ctx.Output = &u.es, &u.sc
	u.seen = u.seen[:0]
	return u.p.HUD.Update(&ctx, u.client)
}

// rows returns what the screen shows.
func (u *hudUI) rows() (rs [][]rune) {
	size := u.sc.Bounds().Size()
	for y := 0; y < size.Y; y++ {
		row := append([]rune(nil), u.sc.Rune[y*size.X:(y+1)*size.X]...)
		rs = append(rs, row)
	}
	return rs
}

// hudSwitches is everything that can be switched by controls.
type hudSwitches struct {
	Visible, Time, Prof, FPS, FPSControl, Paused, LogTiming, LogStalls, Timing, Stalls bool
}

func (u *hudUI) set(s hudSwitches) {
	st := &u.p.HUD.HUDState
	st.Visible, st.TimeDetail, st.ProfDetail, st.FPSDetail, st.FPSControl = s.Visible, s.Time, s.Prof, s.FPS, s.FPSControl
	st.Active = 0
	st.Mouse = platform.Mouse{}
	u.p.Paused = s.Paused
	u.p.Telemetry.TelemetryState = platform.TelemetryState{TimingEnabled: s.Timing, StallDataEnabled: s.Stalls, LogTiming: s.LogTiming, LogStallData: s.LogStalls}
}

func (u *hudUI) get() hudSwitches {
	st, ts := u.p.HUD.HUDState, u.p.Telemetry.TelemetryState
	return hudSwitches{
		Visible: st.Visible, Time: st.TimeDetail, Prof: st.ProfDetail, FPS: st.FPSDetail, FPSControl: st.FPSControl,
		Paused: u.p.Paused, LogTiming: ts.LogTiming, LogStalls: ts.LogStallData, Timing: ts.TimingEnabled, Stalls: ts.StallDataEnabled,
	}
}

func hudSwitchesOf(bits int) (s hudSwitches) {
	for i, b := range []*bool{&s.Time, &s.Prof, &s.FPS, &s.FPSControl, &s.Paused, &s.LogTiming, &s.LogStalls, &s.Timing, &s.Stalls} {
		*b = bits>>uint(i)&1 != 0
	}
	s.Visible = true
	return s
}

// hudControl is a part of the screen that does something when pressed.
type hudControl struct {
	name string
	x, y int // first cell
	w    int
	do   func(s *hudSwitches) // what it switches
	acts bool                 // it gets active
	skip bool                 // it's explored elsewhere
}

var hudHead = []struct {
	name string
	re   *regexp.Regexp
	do   func(s *hudSwitches)
}{
	{"time", regexp.MustCompile(`07:08:09\.123456`), func(s *hudSwitches) { s.Time = !s.Time }},
	{"FPS", regexp.MustCompile(`FPS:\d+/s`), func(s *hudSwitches) { s.FPS = !s.FPS }},
	{"profiles", regexp.MustCompile(`[⊙◴◷◶◵]`), func(s *hudSwitches) { s.Prof = !s.Prof }},
}

type hudRow struct {
	label string
	value func(s hudSwitches) string // nil if any
	has   func(s hudSwitches) bool   // whether it is shown
	do    func(s *hudSwitches)
	head  bool // it's a header, all of which can be pressed
	acts  bool
	skip  bool
	spin  bool // it has a spinner
}

func boolName(b bool) string { return map[bool]string{true: "true", false: "false"}[b] }

var hudRows = func() []hudRow {
	timeD := func(s hudSwitches) bool { return s.Time }
	tele := func(s hudSwitches) bool { return s.Time || s.FPS }
	prof := func(s hudSwitches) bool { return s.Prof }
	fps := func(s hudSwitches) bool { return s.FPS }
	timing := func(s hudSwitches) bool { return s.FPS && s.Timing }
	stalls := func(s hudSwitches) bool { return s.FPS && s.Stalls }
	rows := []hudRow{
		{label: "last", has: timeD, value: func(hudSwitches) string { return "07:08:09.123456" }},
		{label: "∂t", has: timeD, value: func(hudSwitches) string { return "0.0ms" }},
		{label: "paused", has: timeD, do: func(s *hudSwitches) { s.Paused = !s.Paused }, value: func(s hudSwitches) string { return map[bool]string{true: "Resume", false: "Pause"}[s.Paused] }},
		{label: "recording", has: timeD, skip: true, value: func(s hudSwitches) string { return "Start" }},
		{label: "# Telemetry:", has: tele},
		{label: "Telemetry Log", has: tele, acts: true, value: func(s hudSwitches) string { return "Go Log" }},
		{label: "Log Timing", has: tele, do: func(s *hudSwitches) { s.LogTiming = !s.LogTiming }, value: func(s hudSwitches) string { return boolName(s.LogTiming) }},
		{label: "Log Stalls", has: tele, do: func(s *hudSwitches) { s.LogStalls = !s.LogStalls }, value: func(s hudSwitches) string { return boolName(s.LogStalls) }},
		{label: "# Profiling Control:", has: prof, head: true, do: func(s *hudSwitches) { s.Prof = false }},
		{label: "All", has: prof, spin: true},
		{label: "CPU profiler", has: prof, spin: true, acts: true},
		{label: "Trace profiler", has: prof, spin: true, acts: true},
		{label: "PProf", has: prof, acts: true, value: func(s hudSwitches) string { return "Add" }},
		{label: "# Frame Control:", has: fps, head: true, do: func(s *hudSwitches) { s.FPSControl = !s.FPSControl }},
		{label: "# Frame Timing:", has: fps, head: true, do: func(s *hudSwitches) { s.Timing = !s.Timing }},
	}
	for _, l := range []string{"estimate", "actual", "∂t min", "q1", "q2", "q3", "max"} {
		rows = append(rows, hudRow{label: l, has: timing})
	}
	rows = append(rows, hudRow{label: "# Output Stalls:", has: fps, head: true, do: func(s *hudSwitches) { s.Stalls = !s.Stalls }})
	for _, l := range []string{"Stalls", "min t", "max t", "∑ t", "% t"} {
		rows = append(rows, hudRow{label: l, has: stalls})
	}
	return rows
}()

const hudValueWidth = 16

// controls finds what can be pressed on the screen that shows a state, or
// tells what's missing.
func (u *hudUI) controls(s hudSwitches) (cs []hudControl, bad string) {
	rows := u.rows()
	w := len(rows[0])
	head := string(rows[0])
	for _, hc := range hudHead {
		loc := hc.re.FindStringIndex(head)
		if loc == nil {
			return nil, fmt.Sprintf("the first row %q has no %s", head, hc.name)
		}
		x := utf8.RuneCountInString(head[:loc[0]])
		cs = append(cs, hudControl{name: hc.name, x: x + 1, y: 1, w: utf8.RuneCountInString(head[loc[0]:loc[1]]), do: hc.do})
	}
	y := 2
	for _, r := range hudRows {
		if !r.has(s) {
			continue
		}
		if y > len(rows) {
			return nil, "too many rows"
		}
		row := string(rows[y-1])
		text := strings.Trim(row, ".")
		value := ""
		if w > hudValueWidth {
			value = strings.Trim(string(rows[y-1][w-hudValueWidth:]), ".")
		}
		if !strings.HasPrefix(text, r.label) || r.value != nil && !strings.Contains(value, r.value(s)) {
			return nil, fmt.Sprintf("row %d is %q, want %q", y, text, r.label)
		}
		cn := hudControl{name: r.label, y: y, do: r.do, acts: r.acts, skip: r.skip}
		if r.head {
			cn.x = utf8.RuneCountInString(row[:strings.Index(row, r.label)]) + 1
		} else {
			cn.x = w - hudValueWidth + 1
			if (r.do != nil || r.acts) && (!strings.HasPrefix(value, "[ ") || !strings.HasSuffix(value, " ]") || utf8.RuneCountInString(value) != hudValueWidth) {
				return nil, fmt.Sprintf("row %d has no button of width %d: %q", y, hudValueWidth, row)
			}
		}
		cn.w = w - cn.x + 1
		if r.spin {
			cs = append(cs, hudControl{name: r.label + " spinner", x: utf8.RuneCountInString(row[:strings.Index(row, r.label)]+r.label) + 1, y: y, w: 1, skip: true})
		}
		if cn.do != nil || cn.acts || cn.skip || r.label == "All" {
			cs = append(cs, cn)
		}
		y++
	}
	for ; y <= len(rows); y++ {
		if strings.Trim(string(rows[y-1]), ".") != "" {
			return nil, fmt.Sprintf("row %d is %q, want none", y, string(rows[y-1]))
		}
	}
	return cs, ""
}

func checkHUD(c *h.C) {
	const big = 512
	size := image.Pt(96, 34)
	editDepth := c.Pick(5, 6)
	profDepth := c.Pick(2, 3)
	var jobs []func()
	c.Bound("switches", "all combinations")
	c.Bound("presses", "every cell of a screen of 96x34")
	c.Bound("edit_depth", editDepth)
	c.Bound("profile_depth", profDepth)
	step := c.Pick(8, 4)
	for from := 0; from < big; from += step {
		from := from
		jobs = append(jobs, func() {
			for bits := from; bits < from+step; bits++ {
				if c.Expired() || c.Enough() {
					return
				}
				hudPresses(c, hudSwitchesOf(bits), size)
			}
		})
	}
	maxW, maxH := c.Pick(60, 100), c.Pick(12, 36)
	c.Bound("sizes", fmt.Sprintf("all up to %dx%d", maxW, maxH))
	for w := 0; w <= maxW; w++ {
		w := w
		jobs = append(jobs, func() { hudSizes(c, w, maxH) })
	}
	for i := range hudEditActs {
		for j := range hudEditActs {
			fixed := []int{i, j}
			jobs = append(jobs, func() {
				c.ExploreSeq(func(ch *h.Choose) { hudEdits(c, ch, fixed, editDepth) })
			})
		}
	}
	for i := range hudProfActs {
		fixed := []int{i}
		jobs = append(jobs, func() {
			c.ExploreSeq(func(ch *h.Choose) { hudProfiles(c, ch, fixed, profDepth) })
		})
	}
	work := os.Getenv("VERIF_WORK")
	c.Procs(len(jobs), func(job int) {
		dir, err := os.MkdirTemp(work, "hud")
		if err == nil {
			err = os.Chdir(dir)
		}
		if err != nil {
			panic(err)
		}
		jobs[job]()
		pprof.StopCPUProfile()
		trace.Stop()
		os.Chdir("/")
		os.RemoveAll(dir)
	})
}

// hudPresses presses every cell in a given state.
func hudPresses(c *h.C, s hudSwitches, size image.Point) {
	u, err := newHUD(platform.Config{})
	if err != nil {
		c.Violate("new", "platform.New fails: %v", err)
		return
	}
	bad := func(what, format string, args ...interface{}) {
		c.Violate(fmt.Sprint(what, s), "HUD %+v, %s: %s", s, what, fmt.Sprintf(format, args...))
	}
	c.StateS(fmt.Sprint(s))

	// hidden, the screen is all the client's
	hidden := s
	hidden.Visible = false
	for _, in := range []string{"", "\x1b[<0;90;1M", "a", "\x0b\x0b"} {
		u.set(hidden)
		c.Transitions(1)
		if err := u.frame(in, size); err != nil {
			bad("hidden", "Update fails: %v", err)
		}
		if got := strings.Trim(string(u.sc.Rune), "."); got != "" || u.get() != hidden {
			bad("hidden", "given %q it shows %q, and becomes %+v", in, got, u.get())
		}
	}
	// Ctrl-K toggles, and is not for the client
	for _, vis := range []bool{false, true} {
		from, to := s, s
		from.Visible, to.Visible = vis, !vis
		u.set(from)
		c.Transitions(1)
		if err := u.frame("a\x0bb", size); err != nil {
			bad("Ctrl-K", "Update fails: %v", err)
		}
		if want := "['a' - 'b' ]"; u.get() != to || fmt.Sprint(u.seen) != want {
			bad("Ctrl-K", "becomes %+v, and the client got %v, want %v", u.get(), u.seen, want)
		}
		if shown := strings.Trim(string(u.sc.Rune), ".") != ""; shown == vis {
			bad("Ctrl-K", "is shown: %v", shown)
		}
	}

	u.set(s)
	c.Transitions(1)
	if err := u.frame("", size); err != nil {
		bad("shown", "Update fails: %v", err)
		return
	}
	cs, what := u.controls(s)
	if what != "" {
		bad("shown", "%s", what)
		return
	}
	if u.get() != s {
		bad("shown", "becomes %+v", u.get())
	}
	at := make(map[image.Point]*hudControl)
	for i := range cs {
		for x := cs[i].x; x < cs[i].x+cs[i].w; x++ {
			at[image.Pt(x, cs[i].y)] = &cs[i]
		}
	}
	for y := 1; y <= size.Y; y++ {
		for x := 1; x <= size.X; x++ {
			cn := at[image.Pt(x, y)]
			if cn != nil && cn.skip {
				continue
			}
			presses := []string{"press"}
			if cn != nil {
				presses = append(presses, "right press", "release", "wheel", "press twice", "move")
			}
			for _, what := range presses {
				var in string
				switch what {
				case "press":
					in = fmt.Sprintf("\x1b[<0;%d;%dM", x, y)
				case "right press":
					in = fmt.Sprintf("\x1b[<2;%d;%dM", x, y)
				case "release":
					in = fmt.Sprintf("\x1b[<0;%d;%dm", x, y)
				case "wheel":
					in = fmt.Sprintf("\x1b[<64;%d;%dM", x, y)
				case "move":
					in = fmt.Sprintf("\x1b[<35;%d;%dM", x, y)
				case "press twice":
					in = strings.Repeat(fmt.Sprintf("\x1b[<0;%d;%dM", x, y), 2)
				}
				u.set(s)
				u.es.Clear()
				u.es.DecodeBytes([]byte(in))
				seen := showEvents(&u.es)
				c.Transitions(1)
				if !c.Guard("panic"+what, func() string { return fmt.Sprintf("HUD %+v %s at %d,%d", s, what, x, y) }, func() {
					err = u.frame(in, size)
				}) {
					return
				}
				want, acts, taken := s, false, false
				if cn != nil && (what == "press" || what == "press twice" && cn.name == "# Profiling Control:" && false) {
					acts, taken = cn.acts, true
					if cn.do != nil {
						cn.do(&want)
					}
				} else if what == "press twice" && cn != nil {
					taken = true
				}
				active := u.p.HUD.Active != 0
				left := u.es.Type[0]
				switch got := u.get(); {
				case err != nil:
					bad(what, "at %d,%d makes Update fail: %v", x, y, err)
				case len(u.seen) != 1 || u.seen[0] != seen:
					bad(what, "at %d,%d is seen by the client as %q, want %q", x, y, u.seen, seen)
				case got != want:
					bad(what, "at %d,%d (%s) makes it %+v", x, y, cn.String(), got)
				case active != acts:
					bad(what, "at %d,%d (%s) makes something active: %v", x, y, cn.String(), active)
				case taken != (left == platform.EventNone):
					bad(what, "at %d,%d (%s) leaves the event as of type %v", x, y, cn.String(), left)
				}
				if what == "press" && cn != nil && cn.do != nil && c.Violations() == 0 {
					// and that is shown next
					if err := u.frame("", size); err != nil {
						bad(what, "Update after that fails: %v", err)
					} else if _, m := u.controls(want); m != "" {
						bad(what, "at %d,%d (%s): %s", x, y, cn.name, m)
					}
				}
				if c.Violations() > 20 {
					return
				}
			}
		}
	}
}

func (cn *hudControl) String() string {
	if cn == nil {
		return "nothing"
	}
	return cn.name
}

// hudSizes tries screens of all sizes.
func hudSizes(c *h.C, w, maxH int) {
	u, err := newHUD(platform.Config{})
	if err != nil {
		c.Violate("new", "platform.New fails: %v", err)
		return
	}
	for hgt := 0; hgt <= maxH; hgt++ {
		for bits := 0; bits < 8; bits++ {
			for act := 0; act <= 7; act++ {
				if c.Expired() || c.Enough() {
					return
				}
				s := hudSwitchesOf(bits | bits<<4&0x180 | 0x100)
				for _, in := range []string{"", "\x1b[<35;1;1M", fmt.Sprintf("\x1b[<0;%d;%dM", w, hgt), fmt.Sprintf("\x1b[<0;%d;%dM", w-8, 9), "abcdefghijklmnopqrstuvwxyz"} {
					u.set(s)
					u.p.HUD.Active = platform.UIID(act)
					c.Transitions(1)
					done := make(chan struct{})
					go func() {
						defer close(done)
						c.Guard(fmt.Sprint("size", w, hgt), func() string { return fmt.Sprintf("HUD %+v of size %dx%d, input %q", s, w, hgt, in) }, func() {
							if err := u.frame(in, image.Pt(w, hgt)); err != nil {
								c.Violate(fmt.Sprint("size", w, hgt), "HUD %+v of size %dx%d fails: %v", s, w, hgt, err)
							}
						})
					}()
					select {
					case <-done:
					case <-time.After(20 * time.Second):
						c.Violate(fmt.Sprint("hang", w, hgt), "HUD %+v of size %dx%d does not return, input %q", s, w, hgt, in)
						return
					}
				}
			}
		}
	}
}

// hudEditActs are the actions of a user who has files created.
var hudEditActs = []string{"Telemetry Log", "heap profiler", "allocs profiler", "time", "FPS", "profiles", "nowhere", "x", "\x7f", "\r", "\x1b", "\x0b"}

// hudEdits lets a user edit names of files.
func hudEdits(c *h.C, ch *h.Choose, fixed []int, depth int) {
	size := image.Pt(96, 34)
	files, err := filepath.Glob("*")
	if err != nil {
		panic(err)
	}
	for _, f := range files {
		os.Remove(f)
	}
	u, err := newHUD(platform.Config{})
	if err != nil {
		c.Violate("new", "platform.New fails: %v", err)
		return
	}
	var done []string
	failed := false
	bad := func(format string, args ...interface{}) {
		if !failed {
			failed = true
			c.Violate(fmt.Sprint("edit", done), "HUD after %q: %s", done, fmt.Sprintf(format, args...))
		}
	}
	frame := func(in string) {
		c.Transitions(1)
		c.Guard("edit panic", func() string { return fmt.Sprintf("HUD after %q", done) }, func() {
			if err := u.frame(in, size); err != nil {
				bad("Update fails: %v", err)
			}
		})
	}
	// where finds the value of a row, or the control of the first row
	where := func(name string) (x, y int, text string, ok bool) {
		rows := u.rows()
		for _, hc := range hudHead {
			if hc.name == name {
				head := string(rows[0])
				if loc := hc.re.FindStringIndex(head); loc != nil {
					return utf8.RuneCountInString(head[:loc[0]]) + 1, 1, "", true
				}
				return 0, 0, "", false
			}
		}
		if name == "nowhere" {
			return 2, size.Y - 1, "", true
		}
		for i, row := range rows {
			if strings.HasPrefix(strings.Trim(string(row), "."), name) {
				return size.X - 8, i + 1, string(row[size.X-hudValueWidth:]), true
			}
		}
		return 0, 0, "", false
	}
	press := func(x, y int) { frame(fmt.Sprintf("\x1b[<0;%d;%dM", x, y)) }
	u.p.HUD.Visible, u.p.HUD.ProfDetail, u.p.HUD.TimeDetail = true, true, true
	frame("")
	// add two profiles that can do without any file
	targets := []string{"Telemetry Log", "heap profiler", "allocs profiler"}
	for _, t := range targets[1:] {
		name := strings.Fields(t)[0]
		x, y, _, ok := where("PProf")
		if !ok {
			bad("there is no PProf")
			return
		}
		press(x, y)
		frame("")
		rows := u.rows()
		found := false
		for i := y; i < len(rows); i++ {
			if strings.HasPrefix(string(rows[i-1][size.X-hudValueWidth:]), name+" ") {
				press(size.X-hudValueWidth+1, i)
				found = true
				break
			}
		}
		if !found {
			bad("there is no profile %s to be added", name)
			return
		}
		frame("")
		if _, _, _, ok := where(t); !ok {
			bad("profile %s was not added", name)
			return
		}
	}
	// the reference
	names := make(map[string]string)
	dflt := map[string]string{"Telemetry Log": "telemetry.log", "heap profiler": "prof.heap", "allocs profiler": "prof.allocs"}
	created := make(map[string]bool)
	editing := ""
	var line refLine
	visible, timeD, fpsD, profD := true, true, false, true
	for i := 0; i < depth && !failed; i++ {
		var k int
		if i < len(fixed) {
			k = fixed[i]
		} else {
			k = ch.N(len(hudEditActs))
		}
		act := hudEditActs[k]
		shown := func(t string) bool {
			if !visible {
				return false
			}
			if t == "Telemetry Log" {
				return timeD || fpsD
			}
			return profD
		}
		create := func() {
			if line.text == "" {
				line.text = dflt[editing]
			}
			names[editing] = line.text
			created[line.text] = true
			editing = ""
		}
		if len([]rune(act)) > 1 { // a press
			if act != "nowhere" && !shown(act) && dflt[act] != "" || !visible {
				return // cannot be
			}
			x, y, _, ok := where(act)
			if !ok {
				bad("%s is not shown", act)
				return
			}
			done = append(done, act)
			press(x, y)
			if dflt[act] != "" {
				if editing == act {
					if line.text == "" {
						create()
					}
				} else {
					editing = act
					line = refLine{text: names[act]}
				}
			} else {
				editing = ""
			}
			switch act {
			case "time":
				timeD = !timeD
			case "FPS":
				fpsD = !fpsD
			case "profiles":
				profD = !profD
			}
		} else {
			done = append(done, act)
			frame(act)
			if act == "\x0b" {
				visible = !visible
				editing = ""
			} else if editing != "" {
				switch act {
				case "\r":
					create()
				case "\x1b":
					editing = ""
				case "\x7f":
					line = line.apply(editKey{del: true})
				default:
					line = line.apply(editKey{ins: []rune(act)[0]})
				}
			}
		}
		// see what is shown next
		frame("")
		for _, t := range targets {
			_, _, text, ok := where(t)
			if ok != shown(t) {
				bad("%s is shown: %v", t, ok)
			}
			if !ok {
				continue
			}
			if editing == t {
				want := line.text
				if want == "" {
					want = dflt[t]
				}
				if !strings.HasPrefix(text, want) || strings.HasPrefix(text, "[") {
					bad("%s shows %q, want %q being edited", t, text, want)
				}
			} else {
				want := names[t]
				if want == "" {
					if want = "Choose File"; t == "Telemetry Log" {
						want = "Go Log"
					}
				}
				if !strings.HasPrefix(text, "[ ") || strings.TrimSpace(strings.Trim(text, "[]")) != cut(want, hudValueWidth-4) {
					bad("%s shows %q, want a button with %q", t, text, want)
				}
			}
		}
		files, err := filepath.Glob("*")
		if err != nil {
			panic(err)
		}
		if len(files) != len(created) {
			bad("there are files %q, want %v", files, created)
		}
		for _, f := range files {
			if !created[f] {
				bad("there are files %q, want %v", files, created)
			}
		}
		c.StateS(fmt.Sprint(editing, line, names, visible, timeD, fpsD, profD))
	}
}

// hudProfActs are profilers to be toggled.
var hudProfActs = []string{"CPU profiler", "Trace profiler", "heap profiler", "All"}

// hudProfiles lets a user start and stop profilers.
func hudProfiles(c *h.C, ch *h.Choose, fixed []int, depth int) {
	size := image.Pt(96, 34)
	files, err := filepath.Glob("*")
	if err != nil {
		panic(err)
	}
	for _, f := range files {
		os.Remove(f)
	}
	u, err := newHUD(platform.Config{MemProfileName: "prof.mem"})
	if err != nil {
		c.Violate("new", "platform.New fails: %v", err)
		return
	}
	var done []string
	failed := false
	bad := func(format string, args ...interface{}) {
		if !failed {
			failed = true
			c.Violate(fmt.Sprint("profile", done), "HUD after %q: %s", done, fmt.Sprintf(format, args...))
		}
	}
	frame := func(in string) {
		c.Transitions(1)
		c.Guard("profile panic", func() string { return fmt.Sprintf("HUD after %q", done) }, func() {
			if err := u.frame(in, size); err != nil {
				bad("Update fails: %v", err)
			}
		})
	}
	// spinner finds where a profiler is shown to be active
	spinner := func(name string) (x, y int, active, ok bool) {
		for i, row := range u.rows() {
			if strings.HasPrefix(strings.Trim(string(row), "."), name) {
				x := strings.Index(string(row), name)
				x = utf8.RuneCountInString(string(row)[:x] + name)
				return x + 1, i + 1, row[x] != '⊙', true
			}
		}
		return 0, 0, false, false
	}
	u.p.HUD.Visible, u.p.HUD.ProfDetail = true, true
	active := make(map[string]bool)
	check := func() {
		frame("")
		any := false
		for _, name := range hudProfActs[:3] {
			any = any || active[name]
			if _, _, is, ok := spinner(name); !ok || is != active[name] {
				bad("%s is shown: %v, as active: %v, want %v", name, ok, is, active[name])
			}
		}
		if _, _, is, ok := spinner("All"); !ok || is != any {
			bad("all are shown: %v, as active: %v, want %v", ok, is, any)
		}
		if is := !strings.ContainsRune(string(u.rows()[0]), '⊙'); is != any {
			bad("the first row shows activity: %v, want %v", is, any)
		}
	}
	written := map[string][2]string{
		"CPU profiler": {"prof.cpu", "\x1f\x8b"}, "Trace profiler": {"prof.trace", "go 1."}, "heap profiler": {"prof.mem", "heap profile: "},
	}
	stopped := func(name string) {
		active[name] = false
		b, err := os.ReadFile(written[name][0])
		if err != nil || !strings.HasPrefix(string(b), written[name][1]) {
			bad("%s leaves %q, %v in %s", name, b[:len(b)&63], err, written[name][0])
		}
	}
	act := func(name string) {
		done = append(done, name)
		x, y, _, ok := spinner(name)
		if !ok {
			bad("%s is not shown", name)
			return
		}
		frame(fmt.Sprintf("\x1b[<0;%d;%dM", x, y))
		names := []string{name}
		if name == "All" {
			names = hudProfActs[:3]
		}
		any := false
		for _, n := range names {
			any = any || active[n]
		}
		for _, n := range names {
			if any && active[n] {
				stopped(n)
			} else if !any {
				active[n] = true
			}
		}
		check()
	}
	check()
	for i := 0; i < depth && !failed; i++ {
		var k int
		if i < len(fixed) {
			k = fixed[i]
		} else {
			k = ch.N(len(hudProfActs))
		}
		act(hudProfActs[k])
	}
	c.StateS(fmt.Sprint(done))
	for _, name := range hudProfActs[:3] {
		if active[name] {
			act(name)
		}
	}
}
