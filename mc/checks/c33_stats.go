package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() { h.Register("C33", checkStats) }

// refStats is what is to be measured.
type refStats struct {
	fps, period int

	timing, logging bool
	frames          []time.Time // of the current period
	deltas          []time.Duration
	last            time.Time // of the frame before; zero if not measured
	first           bool      // the first frame of the current period has none
	stats           platform.TimingStats
	min2            time.Duration // also allowed
	quart2          [3]time.Duration

	stallOn bool
	stalls  []time.Duration
	sstats  platform.StallsStats
	logged  [][]time.Duration // of complete periods

	rates []float64
	prior time.Time
}

func (rs *refStats) reset() {
	rs.frames, rs.deltas, rs.last, rs.stats = nil, nil, time.Time{}, platform.TimingStats{}
}

func (rs *refStats) setTiming(on bool) {
	if rs.timing && !on && !rs.logging {
		rs.reset()
	}
	rs.timing = on
}

func (rs *refStats) setStalls(on bool) {
	rs.stallOn, rs.stalls = on, nil
	if !on {
		rs.sstats = platform.StallsStats{}
	}
}

func (rs *refStats) stall(d time.Duration) bool {
	if !rs.stallOn || len(rs.stalls) == rs.period {
		return false
	}
	rs.stalls = append(rs.stalls, d)
	return true
}

func (rs *refStats) frame(t time.Time) {
	rate := 0.0
	if !rs.prior.IsZero() {
		rate = float64(time.Second) / float64(t.Sub(rs.prior))
	}
	rs.prior = t
	rs.rates = append(rs.rates, rate)
	if !rs.timing && !rs.logging {
		return
	}
	if rs.frames = append(rs.frames, t); rs.last.IsZero() {
		rs.first = true
	} else {
		rs.deltas = append(rs.deltas, t.Sub(rs.last))
	}
	rs.last = t
	if len(rs.frames) < rs.period {
		return
	}
	st := platform.TimingStats{Time: t}
	quart := func(ds []time.Duration) (q [3]time.Duration) {
		ds = append([]time.Duration(nil), ds...)
		sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
		if len(ds) > 0 {
			for k := range q {
				q[k] = ds[(k+1)*(len(ds)/4)]
			}
		}
		return q
	}
	for i, d := range rs.deltas {
		st.Elapsed += d
		if i == 0 || d < st.Min {
			st.Min = d
		}
		if d > st.Max {
			st.Max = d
		}
	}
	rs.min2 = st.Min
	q := quart(rs.deltas)
	rs.quart2 = q
	if rs.first {
		// the time ahead of the first frame may be left out, or counted as none
		rs.min2 = 0
		rs.quart2 = quart(append([]time.Duration{0}, rs.deltas...))
	}
	st.Q1, st.Q2, st.Q3 = q[0], q[1], q[2]
	st.FPS = float64(rs.period) / st.Elapsed.Seconds()
	rs.stats = st
	rs.frames, rs.deltas, rs.first = nil, nil, false

	if rs.stallOn {
		ss := platform.StallsStats{Time: t, N: len(rs.stalls)}
		for i, d := range rs.stalls {
			ss.Sum += d
			if i == 0 || d < ss.Min {
				ss.Min = d
			}
			if d > ss.Max {
				ss.Max = d
			}
		}
		if !rs.sstats.Time.IsZero() {
			ss.Pct = float64(ss.Sum) / float64(t.Sub(rs.sstats.Time))
		}
		rs.sstats = ss
		rs.logged = append(rs.logged, rs.stalls)
		rs.stalls = nil
	}
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b))
}

func (rs *refStats) estimate() float64 {
	sum := 0.0
	for i := len(rs.rates) - 1; i >= 0 && i >= len(rs.rates)-rs.fps; i-- {
		sum += rs.rates[i]
	}
	return sum / float64(rs.fps)
}

// is compares with what is reported.
func (rs *refStats) is(p *platform.Platform) string {
	g, w := p.Timing.Stats, rs.stats
	if !g.Time.Equal(w.Time) || g.Time.IsZero() != w.Time.IsZero() {
		return fmt.Sprintf("Timing.Stats are of %v, want %v", g.Time, w.Time)
	}
	if w.Time.IsZero() {
		if g != w {
			return fmt.Sprintf("Timing.Stats are %+v, want none", g)
		}
	} else {
		if g.Elapsed != w.Elapsed || g.Max != w.Max || g.Min != w.Min && g.Min != rs.min2 || rs.stats.Elapsed > 0 && !near(g.FPS, w.FPS) {
			return fmt.Sprintf("Timing.Stats are %+v, want %+v", g, w)
		}
		if q := [3]time.Duration{g.Q1, g.Q2, g.Q3}; q != [3]time.Duration{w.Q1, w.Q2, w.Q3} && q != rs.quart2 {
			return fmt.Sprintf("Timing.Stats are %+v, want %+v", g, w)
		}
	}
	if g, w := p.FPSEstimate.Value, rs.estimate(); !near(g, w) {
		return fmt.Sprintf("FPSEstimate is %v, want %v", g, w)
	}
	want := rs.estimate()
	if rs.timing || rs.logging {
		if want = rs.stats.FPS; rs.stats.Elapsed == 0 {
			want = p.Telemetry.FPS()
		}
	}
	if g := p.Telemetry.FPS(); !near(g, want) {
		return fmt.Sprintf("FPS is %v, want %v", g, want)
	}
	gs, ws := p.Stalls.Stats, rs.sstats
	if !gs.Time.Equal(ws.Time) || gs.N != ws.N || gs.Min != ws.Min || gs.Max != ws.Max || gs.Sum != ws.Sum || !near(gs.Pct, ws.Pct) {
		return fmt.Sprintf("Stalls.Stats are %+v, want %+v", gs, ws)
	}
	return ""
}

// checkStats decides C33.
func checkStats(c *h.C) {
	depth := c.Pick(4, 5)
	actions := []string{"nothing", "timing on", "timing off", "stalls on", "stalls off", "a stall", "two stalls", "run again"}
	deltas := []time.Duration{100 * time.Microsecond, 250 * time.Microsecond, time.Millisecond}
	rates := []int{1, 8, 12} // have periods of 1, 2 and 3
	cfgs := []platform.Config{{}, {StartTiming: true}, {LogTiming: true}}
	c.Bound("frames", depth)
	c.Bound("actions", actions)
	c.Bound("frame_rates", rates)
	c.Bound("times_between_frames", fmt.Sprint(deltas))
	errDone, errAgain := errors.New("done"), errors.New("again")
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "stats")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)

	// one runs a platform for n frames; next gives the time to the next frame
	// and what happens before it
	one := func(sig func() string, fps int, cfg platform.Config, file string, n int, next func(frame int) (time.Duration, string)) {
		var opts []platform.Option
		rs := &refStats{fps: 60, period: 15}
		if fps > 0 {
			opts = append(opts, platform.FrameRate(fps))
			if rs.fps, rs.period = fps, fps/4; rs.period == 0 {
				rs.period = 1
			}
		}
		rs.timing, rs.logging = cfg.StartTiming || cfg.LogTiming, cfg.LogTiming
		cfg.TelemetryLogFileName = file
		opts = append(opts, cfg)
		d, err := newDriver(6, 2, opts...)
		if err != nil {
			c.Violate("new", "platform.New fails: %v", err)
			return
		}
		defer d.close()
		d.p.Telemetry.LogStallData = true
		var log strings.Builder
		fmt.Fprintf(&log, "FrameRate %d, %+v", fps, cfg)
		failed := false
		bad := func(format string, args ...interface{}) {
			if !failed {
				failed = true
				c.Violate(sig(), "%s\n%s", log.String(), fmt.Sprintf(format, args...))
			}
		}
		frame, serial := 0, time.Duration(0)
		stall := func(k int) {
			serial++
			v := time.Duration(k)*time.Millisecond + serial*time.Microsecond
			if rs.stall(v) {
				// as if the last flush had stalled
				blocks := (*[]time.Duration)(private(&d.term.Output, (*[]time.Duration)(nil), nil))
				*blocks = append(*blocks, v)
				fmt.Fprintf(&log, " of %v", v)
			}
		}
		cl := &client{}
		cl.update = func(ctx *platform.Context) error {
			c.Transitions(1)
			frame++
			rs.frame(ctx.Platform.Time)
			fmt.Fprintf(&log, "; frame %d", frame)
			if s := rs.is(ctx.Platform); s != "" {
				bad("%s", s)
			}
			if frame >= n || failed {
				return errDone
			}
			delta, action := next(frame)
			d.now = ctx.Platform.Time.Add(delta)
			fmt.Fprintf(&log, ": %s", action)
			switch action {
			case "timing on", "timing off":
				ctx.SetTimingEnabled(action == "timing on")
				rs.setTiming(action == "timing on")
			case "stalls on", "stalls off":
				ctx.SetStallTracking(action == "stalls on")
				rs.setStalls(action == "stalls on")
			case "a stall":
				stall(3)
			case "two stalls":
				stall(1)
				stall(5)
			case "run again":
				return errAgain
			}
			if s := rs.is2(ctx.Platform); s != "" {
				bad("%s", s)
			}
			fmt.Fprintf(&log, ", %v later", delta)
			select {
			case d.ticks <- d.now:
			default:
			}
			return nil
		}
		err = d.run(func(p *platform.Platform) error {
			for {
				err := p.Run(cl)
				if err != errAgain {
					return err
				}
				for !time.Now().After(d.now) { // time goes on
				}
			}
		})
		if err != errDone {
			bad("Run returns %v", err)
		}
		if file != "" && !failed {
			if s := rs.file(file); s != "" {
				bad("%s", s)
			}
		}
		c.StateS(log.String())
		c.Traces(1)
	}

	path := func(what string, ch *h.Choose) func() string {
		return func() string { return fmt.Sprint(what, ":", ch.Path()) }
	}
	c.Explore(3, func(ch *h.Choose) {
		fps, cfg := rates[ch.N(len(rates))], cfgs[ch.N(len(cfgs))]
		one(path("actions", ch), fps, cfg, "", depth, func(frame int) (time.Duration, string) {
			return deltas[ch.N(2)*2], actions[ch.N(len(actions))]
		})
	})
	// times alone
	long := c.Pick(7, 9)
	c.Bound("frames_without_actions", long)
	c.Explore(2, func(ch *h.Choose) {
		fps := []int{16, 20, 3, 24}[ch.N(4)]
		one(path("times", ch), fps, cfgs[1], "", long, func(frame int) (time.Duration, string) {
			return deltas[ch.N(3)], "nothing"
		})
	})
	// the default rate
	c.Explore(1, func(ch *h.Choose) {
		which, other := 1+ch.N(65), deltas[2*ch.N(2)]
		stalled := 1 + ch.N(31)
		one(path("default", ch), 0, cfgs[1+ch.N(2)], "", 66, func(frame int) (time.Duration, string) {
			delta := deltas[1] + time.Duration(frame*7%32)*time.Microsecond
			if frame == which {
				delta = other
			}
			switch frame {
			case 1:
				return delta, "stalls on"
			case stalled, stalled + 14:
				return delta, "a stall"
			}
			return delta, "nothing"
		})
	})
	// what is logged
	var files int32
	c.Explore(1, func(ch *h.Choose) {
		file := filepath.Join(dir, fmt.Sprint(atomic.AddInt32(&files, 1)))
		defer os.Remove(file)
		one(path("file", ch), []int{8, 12, 1}[ch.N(3)], cfgs[2], file, 6, func(frame int) (time.Duration, string) {
			if frame == 1 {
				return deltas[0], "stalls on"
			}
			return deltas[0], []string{"nothing", "a stall", "two stalls", "stalls on"}[ch.N(4)]
		})
	})
}

// is2 is like is, after something was switched in between frames.
func (rs *refStats) is2(p *platform.Platform) string {
	if p.TimingEnabled != rs.timing || p.StallDataEnabled != rs.stallOn {
		return fmt.Sprintf("TimingEnabled is %v, StallDataEnabled is %v, want %v, %v", p.TimingEnabled, p.StallDataEnabled, rs.timing, rs.stallOn)
	}
	return rs.is(p)
}

// file judges the stalls that were logged: every period's at most once and in
// order, and those of the last one are.
func (rs *refStats) file(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		return err.Error()
	}
	var periods, lines [][]time.Duration
	for _, ds := range rs.logged {
		if len(ds) > 0 { // none need not be logged
			periods = append(periods, ds)
		}
	}
	for _, line := range bytes.Split(b, []byte("\n")) {
		var v struct {
			Name   string
			Stalls []time.Duration
		}
		if len(line) == 0 {
			continue
		}
		if err := json.Unmarshal(line, &v); err != nil {
			return fmt.Sprintf("%v: logged %q", err, line)
		}
		if v.Name == "stalls" && len(v.Stalls) > 0 {
			lines = append(lines, v.Stalls)
		}
	}
	at := 0
	for _, ds := range lines { // no two are the same
		for at < len(periods) && fmt.Sprint(periods[at]) != fmt.Sprint(ds) {
			at++
		}
		if at++; at > len(periods) {
			return fmt.Sprintf("logged stalls of %v, those of each period are %v: %s", ds, periods, b)
		}
	}
	if k := len(rs.logged) - 1; k >= 0 && len(rs.logged[k]) > 0 && at < len(periods) {
		return fmt.Sprintf("stalls of the last period are not logged, those of each period are %v: %s", periods, b)
	}
	return ""
}
