package checks

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/pprof"
	"runtime/trace"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() { h.Register("C34", checkConfig) }

var cfgFiles = []string{"log", "cpu", "trace", "mem", "telemetry"}

const (
	cfgLog = iota
	cfgCPU
	cfgTrace
	cfgMem
	cfgTele
)

func cfgName(cfg *platform.Config, k int) *string {
	return []*string{&cfg.LogFileName, &cfg.CPUProfileName, &cfg.TraceFileName, &cfg.MemProfileName, &cfg.TelemetryLogFileName}[k]
}

var cfgFlags = []string{"logfile", "cpuprofile", "tracefile", "memprofile", "", "timing", "timing.log"}

// cfgJob is a way to configure and run a platform.
type cfgJob struct {
	mask     int    // of files
	how      string // they are asked for
	bad      int    // which one can't be created, or -1
	badKind  string
	conflict string // a profiler that runs already
	life     string
	timing   int
}

func (j cfgJob) String() string {
	var files []string
	for k, name := range cfgFiles {
		if j.mask&(1<<uint(k)) != 0 {
			files = append(files, name)
		}
	}
	s := fmt.Sprintf("files %v by %s, timing %d", files, j.how, j.timing)
	if j.bad >= 0 {
		s += fmt.Sprintf(", %s is %s", cfgFiles[j.bad], j.badKind)
	}
	if j.conflict != "" {
		s += ", " + j.conflict + " runs already"
	}
	return s + ", " + j.life
}

func checkConfig(c *h.C) {
	var jobs []cfgJob
	hows := []string{"one Config", "two Configs", "competing Configs", "flags", "flags of the command line", "flags and a Config"}
	lives := []string{"run", "run without within", "run twice", "nested", "client fails", "without fails", "panics"}
	for mask := 0; mask < 1<<uint(len(cfgFiles)); mask++ {
		for i, how := range hows {
			if strings.Contains(how, "flags") && mask&(1<<cfgTele) != 0 {
				continue // has no flag
			}
			for timing := 0; timing < 4; timing++ {
				if mask&(1<<cfgCPU) != 0 && timing != (i+mask)%4 {
					continue
				}
				jobs = append(jobs, cfgJob{mask, how, -1, "", "", "run", timing})
			}
		}
		for _, life := range lives[1:] {
			jobs = append(jobs, cfgJob{mask, hows[0], -1, "", "", life, 0})
		}
		for k := range cfgFiles {
			if mask&(1<<uint(k)) == 0 {
				continue
			}
			for _, kind := range []string{"in no directory", "a directory"} {
				jobs = append(jobs, cfgJob{mask, hows[0], k, kind, "", "run", 0})
			}
			if k == cfgCPU || k == cfgTrace {
				jobs = append(jobs, cfgJob{mask, hows[0], -1, "", cfgFiles[k], "run", 0}, cfgJob{mask, hows[0], -1, "", cfgFiles[k], "run twice", 0}, cfgJob{mask, hows[0], -1, "", cfgFiles[k], "run without within", 0})
			}
			if k == cfgCPU || k == cfgTrace || k == cfgMem {
				jobs = append(jobs, cfgJob{mask, hows[0], k, "not seekable", "", "run", 0})
			}
		}
	}
	if c.Thorough() {
		for mask := 0; mask < 1<<uint(len(cfgFiles)); mask++ {
			for _, life := range lives[1:] {
				for _, how := range hows[1:] {
					if strings.Contains(how, "flags") && mask&(1<<cfgTele) != 0 {
						continue
					}
					for timing := 0; timing < 4; timing++ {
						jobs = append(jobs, cfgJob{mask, how, -1, "", "", life, timing})
					}
				}
			}
		}
	}
	c.Bound("configurations", len(jobs))
	c.Bound("ways", hows)
	c.Bound("lives", lives)
	dir := os.Getenv("VERIF_CFG_DIR")
	if dir == "" {
		d, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "config")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		os.Setenv("VERIF_CFG_DIR", d)
		dir = d
	}
	c.Procs(len(jobs), func(job int) {
		d, err := os.MkdirTemp(dir, "run")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		c.StateS(jobs[job].String())
		if job%200 == 7 {
			c.Sample("%v", jobs[job])
		}
		(&cfgRun{c: c, job: jobs[job], dir: d}).run()
		c.Traces(1)
	})
}

type cfgRun struct {
	c      *h.C
	job    cfgJob
	dir    string
	failed bool

	d     *driver
	names [5]string
	lines []string // logged
	round int
	where string
	fifo  io.Closer
}

func (cr *cfgRun) bad(format string, args ...interface{}) {
	if !cr.failed {
		cr.failed = true
		msg := strings.ReplaceAll(fmt.Sprintf(format, args...), cr.dir, "DIR")
		cr.c.Violate(cr.job.String(), "%v: %s%s", cr.job, cr.where, msg)
	}
}

func (cr *cfgRun) has(k int) bool { return cr.job.mask&(1<<uint(k)) != 0 }

func (cr *cfgRun) log(s string) {
	cr.lines = append(cr.lines, s)
	log.Print(s)
}

// configs makes the options, or the arguments, of a job.
func (cr *cfgRun) configs() (opts []platform.Option, args []string) {
	j := cr.job
	for k := range cfgFiles {
		if !cr.has(k) {
			continue
		}
		cr.names[k] = filepath.Join(cr.dir, cfgFiles[k]+".out")
		if k == j.bad {
			switch j.badKind {
			case "a directory":
				os.Mkdir(cr.names[k], 0755)
			case "not seekable":
				// a pipe, with somebody who reads it
				syscall.Mkfifo(cr.names[k], 0644)
				fd, err := syscall.Open(cr.names[k], syscall.O_RDWR|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
				if err != nil {
					panic(err)
				}
				cr.fifo = os.NewFile(uintptr(fd), "fifo")
			default:
				cr.names[k] = filepath.Join(cr.dir, "none", cfgFiles[k]+".out")
			}
		} else if k%2 == 1 {
			// there is a longer one
			os.WriteFile(cr.names[k], bytes.Repeat([]byte("garbage\n"), 1<<15), 0644)
		}
	}
	var cfgs [2]platform.Config
	for k, name := range cr.names {
		if name == "" {
			continue
		}
		switch j.how {
		case "two Configs", "flags and a Config":
			*cfgName(&cfgs[k%2], k) = name
		case "competing Configs":
			*cfgName(&cfgs[0], k) = name
			*cfgName(&cfgs[1], k) = filepath.Join(cr.dir, cfgFiles[k]+".other")
		default:
			*cfgName(&cfgs[0], k) = name
		}
	}
	which := 0
	if j.how == "competing Configs" || j.how == "two Configs" {
		which = 1
	}
	cfgs[which].StartTiming = j.timing&1 != 0
	cfgs[1-which].LogTiming = j.timing&2 != 0 && which == 1
	if which == 0 {
		cfgs[0].LogTiming = j.timing&2 != 0
	}
	prefix := map[string]string{"flags": "x.", "flags of the command line": "platform.", "flags and a Config": "y-"}[j.how]
	if prefix == "" {
		opts = append(opts, cfgs[0])
		if j.how != "one Config" {
			opts = append(opts, cfgs[1])
		}
		return opts, nil
	}
	for k, name := range cfgFlags {
		switch {
		case name == "timing" && cfgs[0].StartTiming, name == "timing.log" && cfgs[0].LogTiming:
			args = append(args, "-"+prefix+name)
		case k < len(cr.names) && *cfgName(&cfgs[0], k) != "":
			args = append(args, "-"+prefix+name+"="+*cfgName(&cfgs[0], k))
		}
	}
	if j.how == "flags of the command line" {
		return nil, args
	}
	// flags have the values set before as their defaults
	cfg := cfgs[1]
	fs := flag.NewFlagSet("", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	cfg.AddFlags(fs, prefix)
	if err := fs.Parse(args); err != nil {
		cr.bad("parsing %q: %v", args, err)
	}
	return []platform.Option{cfg}, nil
}

// made tells which files there are.
func (cr *cfgRun) made() (r []string) {
	all, _ := filepath.Glob(filepath.Join(cr.dir, "*"))
	for _, f := range all {
		r = append(r, filepath.Base(f))
	}
	return r
}

func (cr *cfgRun) run() {
	j := cr.job
	log.SetOutput(&platform.Logs)
	opts, args := cr.configs()
	if cr.failed {
		return
	}
	defer func() {
		pprof.StopCPUProfile()
		trace.Stop()
		if cr.fifo != nil {
			cr.fifo.Close()
		}
	}()
	cl, osArgs := flag.CommandLine, os.Args
	if j.how == "flags of the command line" {
		flag.CommandLine = flag.NewFlagSet("", flag.ContinueOnError)
		os.Args = append([]string{"program"}, args...)
	}
	var err error
	ok := cr.c.Guard("new:panic", j.String, func() {
		cr.d, err = newDriverWith(6, 2, opts...)
	})
	flag.CommandLine, os.Args = cl, osArgs
	if !ok {
		return
	}
	defer func() {
		if cr.d != nil {
			cr.d.close()
		}
	}()
	// which files are there
	var want []string
	for k, name := range cr.names {
		if name != "" && (k != j.bad || j.badKind != "in no directory") {
			want = append(want, filepath.Base(name))
		}
	}
	if j.bad >= 0 && j.badKind != "not seekable" {
		if err == nil {
			cr.bad("New succeeds")
		} else if !strings.Contains(err.Error(), cr.names[j.bad]) {
			cr.bad("New fails with %q, without the name", err)
		}
		for _, f := range cr.made() {
			if !strings.Contains(" "+strings.Join(want, " ")+" ", " "+f+" ") {
				cr.bad("there is %q", f)
			}
		}
		platform.Logs.SetFile(nil)
		return
	}
	if err != nil {
		cr.bad("New fails: %v", err)
		return
	}
	defer platform.Logs.SetFile(nil)
	if g, w := fmt.Sprint(cr.made()), fmt.Sprint(sorted(want)); g != w {
		cr.bad("files are %v, want %v", g, w)
	}
	p := cr.d.p
	for k, name := range cr.names {
		if g := *cfgName(&p.Config, k); g != name {
			cr.bad("name of the %s file is %q, want %q", cfgFiles[k], g, name)
		}
	}
	if p.TimingEnabled != (j.timing != 0) || p.Telemetry.LogTiming != (j.timing&2 != 0) {
		cr.bad("TimingEnabled is %v, LogTiming is %v", p.TimingEnabled, p.Telemetry.LogTiming)
	}
	cr.state("new", false)

	switch j.conflict {
	case "cpu":
		if err := pprof.StartCPUProfile(io.Discard); err != nil {
			panic(err)
		}
		defer pprof.StopCPUProfile()
	case "trace":
		if err := trace.Start(io.Discard); err != nil {
			panic(err)
		}
		defer trace.Stop()
	}
	rounds := 1
	if j.life == "run twice" {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		cr.enter()
	}
}

// enter runs the platform once.
func (cr *cfgRun) enter() {
	j := cr.job
	cr.round++
	cr.log(fmt.Sprintf("before run %d", cr.round))
	errClient, errWithout := errors.New("client failed"), errors.New("without failed")
	ran := false
	var err error
	var panicked interface{}
	func() {
		defer func() {
			if panicked = recover(); panicked != nil && panicked != errClient {
				cr.bad("panic: %v", panicked)
			}
		}()
		err = cr.d.p.RunWith(func(p *platform.Platform) error {
			ran = true
			cr.within()
			switch j.life {
			case "run without within":
				if err := cr.d.term.RunWithout(func(*anansi.Term) error {
					cr.state("run without", false)
					cr.complete()
					cr.log("run without")
					return nil
				}); err != nil {
					return err
				}
				cr.round++
				cr.within()
			case "without fails":
				return cr.d.term.RunWithout(func(*anansi.Term) error {
					cr.state("run without", false)
					cr.complete()
					return errWithout
				})
			case "nested":
				if err := p.RunWith(func(p *platform.Platform) error {
					cr.state("nested", true)
					return nil
				}); err != nil {
					return err
				}
				cr.state("after nested", true)
			case "client fails":
				return p.Run(platform.ClientFunc(func(*platform.Context) error { return errClient }))
			case "panics":
				panic(errClient)
			}
			return nil
		})
	}()
	cr.state("after", false)
	wantErr := map[string]error{"client fails": errClient, "without fails": errWithout}[j.life]
	switch {
	case j.badKind == "not seekable" && j.bad == cfgMem:
		// only written when leaving
		if err == nil {
			cr.bad("RunWith succeeds")
		}
		if !ran {
			cr.bad("the client does not run")
		}
	case j.conflict != "" || j.badKind == "not seekable":
		if err == nil {
			cr.bad("RunWith succeeds")
		}
		if ran {
			cr.bad("the client runs")
		}
		cr.given()
		cr.logged()
		return
	case panicked != nil && j.life == "panics":
	case err != wantErr:
		cr.bad("RunWith returns %v, want %v", err, wantErr)
	}
	cr.given()
	cr.complete()
	cr.logged()
}

func (cr *cfgRun) given() {
	vt := cr.d.shown()
	for m, set := range vt.Modes {
		if set {
			cr.bad("mode %s is left set", m)
		}
	}
	if t, err := cr.d.pty.get(); err != nil || t != cr.d.pty.initial {
		cr.bad("terminal attributes are not restored")
	}
}

func (cr *cfgRun) marker() string { return fmt.Sprintf("marker of round %d", cr.round) }

func (cr *cfgRun) within() {
	cr.state(fmt.Sprintf("round %d", cr.round), true)
	cr.log(fmt.Sprintf("round %d", cr.round))
	if trace.IsEnabled() {
		n := 2
		if cr.round == 1 {
			n = 2000 // the later ones are shorter
		}
		for i := 0; i < n; i++ {
			trace.Log(context.Background(), "round", fmt.Sprint(cr.marker(), ", ", i))
		}
	}
	if cr.has(cfgCPU) && cr.round == 1 && (cr.job.life == "run twice" || cr.job.life == "run without within") {
		// has samples, so the profile gets longer than that of the next round
		for t := time.Now(); time.Since(t) < 50*time.Millisecond; {
			_ = fmt.Sprint(t)
		}
	}
}

// state checks which profilers run.
func (cr *cfgRun) state(where string, entered bool) {
	cr.where = where + ": "
	cr.c.Transitions(1)
	on := entered && cr.has(cfgTrace) || cr.job.conflict == "trace" && cr.round > 0
	if trace.IsEnabled() != on {
		cr.bad("tracing is %v, want %v", !on, on)
	}
	if !cr.has(cfgCPU) {
		return
	}
	on = entered || cr.job.conflict == "cpu" && cr.round > 0
	err := pprof.StartCPUProfile(io.Discard)
	if err == nil {
		pprof.StopCPUProfile()
	}
	if (err != nil) != on {
		cr.bad("CPU profiling is %v, want %v", !on, on)
	}
}

// complete checks that files have what they are to have after leaving.
func (cr *cfgRun) complete() {
	for k, name := range cr.names {
		if name == "" || k == cr.job.bad {
			continue
		}
		b, err := os.ReadFile(name)
		if err != nil {
			cr.bad("%v", err)
			return
		}
		if bad := profComplete(cfgFiles[k], b, cr.marker()); bad != "" {
			cr.bad("%s", bad)
		}
	}
}

// profComplete tells what's wrong about a file that a profiler left; a trace
// has this and no other marker, if any.
func profComplete(kind string, b []byte, marker string) string {
	switch kind {
	case "cpu":
		r := bytes.NewReader(b)
		var out []byte
		z, err := gzip.NewReader(r)
		if err == nil {
			z.Multistream(false)
			out, err = io.ReadAll(z)
		}
		if err != nil || len(out) == 0 {
			return fmt.Sprintf("CPU profile of %d bytes: %v", len(b), err)
		} else if r.Len() > 0 {
			return fmt.Sprintf("CPU profile is followed by %d other bytes", r.Len())
		}
	case "trace":
		if !bytes.HasPrefix(b, []byte("go 1.")) {
			return fmt.Sprintf("trace of %d bytes has no header", len(b))
		}
		if !bytes.Contains(b, []byte(marker)) {
			return fmt.Sprintf("trace of %d bytes does not have %q", len(b), marker)
		}
		if bytes.Count(b, []byte("marker of round")) > 0 && bytes.Count(b, []byte("marker of round")) != bytes.Count(b, []byte(marker)) {
			return fmt.Sprintf("trace has more than %q", marker)
		}
	case "mem":
		s := string(b)
		if !strings.HasPrefix(s, "heap profile: ") || strings.Count(s, "heap profile: ") != 1 || strings.Count(s, "# runtime.MemStats") != 1 || strings.Contains(s, "garbage") || !strings.HasSuffix(s, "\n") || !strings.Contains(s, "# MaxRSS = ") && !strings.Contains(s, "# DebugGC = ") {
			if len(s) > 200 {
				s = s[:100] + "..." + s[len(s)-100:]
			}
			return fmt.Sprintf("memory profile of %d bytes is incomplete: %q", len(b), s)
		}
	}
	return ""
}

// logged checks that the log file has what was logged.
func (cr *cfgRun) logged() {
	if !cr.has(cfgLog) {
		return
	}
	b, err := os.ReadFile(cr.names[cfgLog])
	if err != nil {
		cr.bad("%v", err)
	}
	s := string(b)
	for _, l := range cr.lines {
		i := strings.Index(s, l+"\n")
		if i < 0 {
			cr.bad("%q is not in the log file, or out of order: %q", l, b)
			return
		}
		s = s[i+len(l):]
	}
}

func sorted(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}
