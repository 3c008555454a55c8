package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
	log "verif.local/mc/vlog"
	"verif.local/mc/vs"
)

func init() { h.Register("C24", checkTelemetry) }

// telScenario is a program that runs a platform.
type telScenario struct {
	fps    int
	runs   []int // frames of each run
	tel    byte  // '-': none, 'o': a file, 'b': a file that cannot be written
	log    byte
	nested bool // the platform is left, and entered again, after the first frame
	bound  int
	coarse bool
	delays bool // the bound is one on delays
}

func (sc telScenario) String() string {
	s := fmt.Sprintf("fps %d, frames %v, telemetry %c, log %c", sc.fps, sc.runs, sc.tel, sc.log)
	if sc.nested {
		s += ", nested RunWithout"
	}
	if sc.coarse {
		s += ", coarse"
	}
	return s
}

func (sc telScenario) path(kind byte, name string) string {
	switch kind {
	case 'o':
		return filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprint(name, os.Getpid()))
	case 'b':
		return "/dev/full"
	}
	return ""
}

type telRun struct {
	sc       telScenario
	times    []time.Time // of frames
	sets     [][]time.Duration
	logged   []string // by the client
	bad      string
	mustFail int // frames at the time of failing, that was to be noticed
	telPath  string
	logPath  string
	before   []byte // logged before the file was set
}

func (tr *telRun) fail(format string, args ...interface{}) {
	if tr.bad == "" {
		tr.bad = fmt.Sprintf(format, args...)
	}
}

// frame notes a frame, and which timing data it makes complete.
func (tr *telRun) frame(t time.Time) {
	tr.times = append(tr.times, t)
	period := tr.sc.fps / 4
	if period < 1 {
		period = 1
	}
	if n := len(tr.times); n%period == 0 {
		var ds []time.Duration
		for i := n - period; i < n; i++ {
			var d time.Duration
			if i > 0 {
				d = tr.times[i].Sub(tr.times[i-1])
			}
			ds = append(ds, d)
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
		tr.sets = append(tr.sets, ds)
	}
}

type telLine struct {
	T    int64
	Name string
	Data json.RawMessage
}

// timing checks what has been published; all is true if the last data must be.
func (tr *telRun) timing(content string, all bool) {
	k := 0
	match := func(ds []time.Duration) {
		for ; k < len(tr.sets); k++ {
			if fmt.Sprint(tr.sets[k]) == fmt.Sprint(ds) {
				k++
				return
			}
		}
		tr.fail("timing data %v, after %d frames; frames have %v", ds, len(tr.times), tr.sets)
	}
	if content != "" && !strings.HasSuffix(content, "\n") {
		tr.fail("unterminated line in %q", content)
	}
	for _, line := range strings.Split(strings.TrimSuffix(content, "\n"), "\n") {
		if tr.sc.tel == '-' {
			if s := strings.TrimPrefix(line, "timing data: ["); s != line {
				var ds []time.Duration
				for _, f := range strings.Fields(strings.TrimSuffix(s, "]")) {
					d, err := time.ParseDuration(f)
					if err != nil {
						tr.fail("log line %q", line)
					}
					ds = append(ds, d)
				}
				match(ds)
			}
			continue
		}
		if line == "" {
			continue
		}
		var tl telLine
		if err := json.Unmarshal([]byte(line), &tl); err != nil {
			tr.fail("telemetry line %q: %v", line, err)
			return
		}
		known := false
		for _, t := range tr.times {
			known = known || t.UnixNano() == tl.T
		}
		if !known {
			tr.fail("telemetry line %q has the time of no frame", line)
		}
		switch tl.Name {
		case "timing":
			var ds []time.Duration
			if err := json.Unmarshal(tl.Data, &ds); err != nil {
				tr.fail("telemetry line %q: %v", line, err)
			}
			match(ds)
		case "rusage_delta":
			var drs []struct{ Dt, Utime, Stime int64 }
			if err := json.Unmarshal(tl.Data, &drs); err != nil {
				tr.fail("telemetry line %q: %v", line, err)
			}
			for _, dr := range drs {
				known = false
				for _, a := range tr.times {
					for _, b := range tr.times {
						known = known || a.Sub(b) == time.Duration(dr.Dt)
					}
				}
				if !known || dr.Utime < 0 || dr.Stime < 0 {
					tr.fail("telemetry line %q: not the difference of two frames", line)
				}
			}
		default:
			tr.fail("telemetry line %q", line)
		}
	}
	if all && k < len(tr.sets) {
		tr.fail("the last of the timing data %v is missing after %d frames: %q", tr.sets, len(tr.times), content)
	}
}

func readFile(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// quiet is called when everybody waits for the next frame.
func (tr *telRun) quiet(frames int) {
	if frames == 0 {
		return
	}
	switch tr.sc.tel {
	case 'o':
		tr.timing(readFile(tr.telPath), true)
	case 'b':
		if len(tr.sets) > 0 && tr.mustFail == 0 {
			tr.mustFail = len(tr.times)
		}
	default:
		b, _ := platform.Logs.Contents()
		tr.timing(string(b), true)
	}
	switch tr.sc.log {
	case 'o':
		s := readFile(tr.logPath)
		for _, l := range tr.logged {
			if !strings.Contains(s, l) {
				tr.fail("%q is not in the log file: %q", l, s)
			}
		}
	case 'b':
		if tr.mustFail == 0 {
			tr.mustFail = len(tr.times)
		}
	}
}

var errTelDone = errors.New("done")

func runTelemetry(c *h.C, sc telScenario, ch *h.Choose) {
	tr := &telRun{sc: sc, telPath: sc.path(sc.tel, "tel"), logPath: sc.path(sc.log, "log")}
	*(*[unsafe.Sizeof(platform.Logs)]byte)(unsafe.Pointer(&platform.Logs)) = [unsafe.Sizeof(platform.Logs)]byte{}
	log.SetOutput(&platform.Logs)
	vs.Coarse, vs.Delays = sc.coarse, sc.delays
	var d *driver
	res := vs.Run(ch.N, sc.bound, func() {
		var err error
		d, err = newDriver(6, 2,
			platform.FrameRate(sc.fps),
			platform.Config{LogTiming: true, TelemetryLogFileName: tr.telPath, LogFileName: tr.logPath})
		if err != nil {
			panic(err)
		}
		tr.before, _ = platform.Logs.Contents()
		for _, frames := range sc.runs {
			n := 0
			tr.mustFail = 0
			var start time.Time
			ticked := 0
			var by chan time.Time
			over := false
			err := d.run(func(p *platform.Platform) error {
				by = d.ticks
				return p.Run(&client{func(ctx *platform.Context) error {
					n++
					if n == 1 {
						start = ctx.Time
						vs.GoNamed("ticker", func() {
							for {
								vs.Await("tick", func() bool { return over || by != nil && len(by) == 0 })
								if over {
									return
								}
								if vs.Quiet() {
									tr.quiet(n)
								}
								ticked++
								start = start.Add(time.Duration(600-100*(ticked%3)+ticked) * time.Millisecond)
								by <- start
							}
						})
					}
					tr.frame(ctx.Time)
					if tr.mustFail > 0 && len(tr.times) > tr.mustFail+1 {
						tr.fail("frame %d happens, though writing failed in %d", len(tr.times), tr.mustFail)
					}
					ctx.Output.WriteString(fmt.Sprint(n))
					l := fmt.Sprintf("frame %d\n", len(tr.times))
					log.Print(l)
					tr.logged = append(tr.logged, l)
					d.pty.drain()
					if sc.nested && n == 1 {
						err := d.term.RunWithout(func(*anansi.Term) error {
							by = nil
							return nil
						})
						if err != nil {
							return err
						}
						// the ticker was restarted
						by = d.replaceTicker()
					}
					if n == frames {
						return errTelDone
					}
					return nil
				}})
			})
			over = true
			if err == nil {
				tr.fail("RunWith returns no error")
			}
			if err != errTelDone && sc.tel != 'b' && sc.log != 'b' {
				tr.fail("RunWith returns %v", err)
			}
			if err != errTelDone {
				break
			}
		}
		// everything is written by now
		b, _ := platform.Logs.Contents()
		switch sc.tel {
		case 'o':
			tr.timing(readFile(tr.telPath), true)
		case '-':
			tr.timing(string(b), true)
		}
		s := string(b)
		for _, l := range tr.logged {
			i := strings.Index(s, l)
			if i < 0 {
				tr.fail("%q is not logged once in order: %q", l, b)
				break
			}
			s = s[i+len(l):]
		}
		if strings.Contains(s, "frame ") {
			tr.fail("lines are logged more than once: %q", b)
		}
		if err := platform.Logs.SetFile(nil); err != nil && sc.log != 'b' {
			tr.fail("Logs.SetFile: %v", err)
		}
		if sc.log == 'o' {
			b, _ := platform.Logs.Contents()
			if s := readFile(tr.logPath); s != string(b[len(tr.before):]) {
				tr.fail("the log file has %q, the log %q", s, b)
			}
		}
	})
	c.Transitions(res.Steps)
	switch {
	case res.Panic != "":
		tr.bad = res.Panic
	case res.Deadlock:
		tr.bad = "deadlock: " + strings.Join(res.Left, ", ")
	case len(res.Left) > 0:
		tr.bad = "left running: " + strings.Join(res.Left, ", ")
	case res.Endless:
		tr.bad = "does not end"
	}
	if tr.bad != "" {
		c.Violate("telemetry:"+sc.String(), "%v, schedule %v\n%s", sc, ch.Path(), tr.bad)
	}
	if d != nil {
		if tr.telPath != "" {
			closeFile(d.p, tr.telPath)
		}
		d.close()
	}
}

// closeFile closes a file of the platform.
func closeFile(p *platform.Platform, name string) {
	f := (**os.File)(private(p, (**os.File)(nil), func(p unsafe.Pointer) bool {
		f := *(**os.File)(p)
		return f != nil && f.Name() == name
	}))
	(*f).Close()
}

func checkTelemetry(c *h.C) {
	more := c.Pick(0, 1)
	var scs []telScenario
	for _, files := range []string{"--", "o-", "-o", "oo", "b-", "-b", "bo", "ob", "bb"} {
		for _, runs := range [][]int{{1}, {2}, {1, 1}, {3}, {2, 1}, {4}} {
			for _, fps := range []int{4, 8} {
				if more == 0 && (fps == 8) != (runs[0]%2 == 0) {
					continue
				}
				n := runs[0]
				if len(runs) > 1 {
					n += 1 + runs[1]
				}
				sc := telScenario{fps: fps, runs: runs, tel: files[0], log: files[1]}
				add := func(bound int, coarse, delays bool) {
					sc.bound, sc.coarse, sc.delays = bound, coarse, delays
					scs = append(scs, sc)
					if runs[0] == 2 {
						sc.nested = true
						scs = append(scs, sc)
						sc.nested = false
					}
				}
				add(1, false, true)
				add(2, true, true)
				if more > 0 && n <= 2 {
					add(3, true, true)
				}
				if n <= 1 || n == 2 && more > 0 && files[1] == '-' {
					add(2, false, true)
				}
				if files[1] == '-' && n <= 2 {
					add(1, false, false)
					if n <= 2 {
						add(2, true, false)
					}
				}
			}
		}
	}
	c.Bound("scenarios", len(scs))
	c.Procs(len(scs), func(job int) {
		sc := scs[job]
		c.StateS(sc.String())
		if job%20 == 3 {
			c.Sample("%v", sc)
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			t := time.Now()
			defer func() { fmt.Fprintln(os.Stderr, time.Since(t), sc, sc.bound, sc.delays) }()
		}
		viols := c.Violations()
		c.ExploreSeq(func(ch *h.Choose) {
			if c.Violations() > viols {
				return
			}
			runTelemetry(c, sc, ch)
		})
	})
}
