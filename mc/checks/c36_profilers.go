package checks

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/pprof"
	"runtime/trace"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() { h.Register("C36", checkProfilers) }

// profAct is something done about a profiler.
type profAct struct{ kind, what string }

var profRow = map[string]string{"cpu": "CPU profiler", "trace": "Trace profiler", "mem": "heap profiler"}

// profDefault are the names of files where none is given.
var profDefault = map[string]string{"cpu": "prof.cpu", "trace": "prof.trace", "mem": "prof.heap"}

type profJob struct {
	kinds  []string // of profilers that take part
	config bool     // they are configured, not switched on
	acts   []profAct
}

func (j profJob) String() string {
	return fmt.Sprintf("profilers %v, configured %v: %v", j.kinds, j.config, j.acts)
}

// checkProfilers decides C36.
func checkProfilers(c *h.C) {
	var jobs []profJob
	var words func(acts []profAct, n int, f func([]profAct))
	words = func(acts []profAct, n int, f func([]profAct)) {
		if n == 0 {
			f(nil)
			return
		}
		words(acts, n-1, func(as []profAct) {
			for _, a := range acts {
				f(append(as[:len(as):len(as)], a))
			}
		})
	}
	single := []string{"toggle", "file a", "file b", "file no/x", "leave", "own"}
	for _, kind := range []string{"cpu", "trace", "mem"} {
		var acts []profAct
		for _, s := range single {
			if kind != "mem" || s != "own" {
				acts = append(acts, profAct{kind, s})
			}
		}
		n := c.Pick(4, 5)
		if kind == "cpu" {
			n = c.Pick(3, 4) // stopping it takes its time
		}
		c.Bound("depth_"+kind, n)
		for _, config := range []bool{false, true} {
			words(acts, n, func(as []profAct) {
				jobs = append(jobs, profJob{[]string{kind}, config, as})
			})
		}
	}
	both := []profAct{{"trace", "toggle"}, {"trace", "file a"}, {"mem", "toggle"}, {"mem", "file b"}, {"all", "toggle"}, {"", "leave"}, {"trace", "own"}}
	n := c.Pick(2, 4)
	c.Bound("depth_together", n)
	words(both, n, func(as []profAct) {
		jobs = append(jobs, profJob{[]string{"cpu", "trace", "mem"}, false, as})
	})
	c.Bound("histories", len(jobs))
	// those that take their time are spread
	sort.SliceStable(jobs, func(i, j int) bool { return i%97 < j%97 })
	work := os.Getenv("VERIF_WORK")
	c.Procs(len(jobs), func(job int) {
		dir, err := os.MkdirTemp(work, "prof")
		if err == nil {
			err = os.Chdir(dir)
		}
		if err != nil {
			panic(err)
		}
		c.StateS(jobs[job].String())
		if job%300 == 7 {
			c.Sample("%v", jobs[job])
		}
		(&profRun{c: c, job: jobs[job]}).run()
		c.Traces(1)
		pprof.StopCPUProfile()
		trace.Stop()
		os.Chdir("/")
		os.RemoveAll(dir)
	})
}

// profModel is a profiler.
type profModel struct {
	active bool
	file   string // if any
}

type profRun struct {
	c      *h.C
	job    profJob
	failed bool
	done   []string

	d     *driver
	u     *hudUI
	fds   int // open at first
	m     map[string]*profModel
	files map[string][]byte // that there are: nil while being written
	own   string            // profiler that's used by the program itself
	round int
	logs  bytes.Buffer
}

func (pr *profRun) bad(format string, args ...interface{}) {
	if !pr.failed {
		pr.failed = true
		pr.c.Violate(fmt.Sprint(pr.job.config, pr.done), "configured %v, after %q: %s", pr.job.config, pr.done, fmt.Sprintf(format, args...))
	}
}

var profSize = image.Pt(96, 24)

func (pr *profRun) frame(in string) {
	pr.c.Transitions(1)
	pr.c.Guard("panic", func() string { return fmt.Sprintf("configured %v, after %q", pr.job.config, pr.done) }, func() {
		if err := pr.u.frame(in, profSize); err != nil {
			pr.bad("Update fails: %v", err)
		}
	})
}

// row finds the row of a profiler: where its state is shown, and its file.
func (pr *profRun) row(name string) (x, y int, active bool, file string) {
	for i, row := range pr.u.rows() {
		if strings.HasPrefix(strings.Trim(string(row), "."), name) {
			x := strings.Index(string(row), name)
			x = utf8.RuneCountInString(string(row)[:x] + name)
			return x + 1, i + 1, row[x] != '⊙', strings.Trim(string(row[profSize.X-hudValueWidth:]), "[] ")
		}
	}
	pr.bad("%q is not shown", name)
	return 1, 1, false, ""
}

func (pr *profRun) press(x, y int) { pr.frame(fmt.Sprintf("\x1b[<0;%d;%dM", x, y)) }

func openFiles() int {
	names, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(names)
}

func (pr *profRun) marker() string { return fmt.Sprintf("marker of round %d;", pr.round) }

func (pr *profRun) run() {
	log.SetOutput(io.Discard)
	pr.m = map[string]*profModel{}
	pr.files = map[string][]byte{}
	var cfg platform.Config
	for _, k := range []string{"cpu", "trace", "mem"} {
		pr.m[k] = &profModel{}
	}
	for _, k := range pr.job.kinds {
		if pr.job.config {
			name := "c." + k
			pr.m[k].file = name
			switch k {
			case "cpu":
				cfg.CPUProfileName = name
			case "trace":
				cfg.TraceFileName = name
			case "mem":
				cfg.MemProfileName = name
			}
			os.WriteFile(name, bytes.Repeat([]byte("garbage\n"), 1<<13), 0644)
		}
	}
	var err error
	pr.d, err = newDriver(profSize.X, profSize.Y, cfg)
	if err != nil {
		pr.bad("New fails: %v", err)
		return
	}
	defer pr.d.close()
	pr.u = &hudUI{p: pr.d.p, client: func(*platform.Context) error { return nil }}
	err = pr.d.run(func(p *platform.Platform) error {
		log.SetOutput(&pr.logs)
		defer log.SetOutput(io.Discard)
		for _, k := range pr.job.kinds {
			if pr.job.config {
				pr.started(k)
			}
		}
		p.HUD.Visible, p.HUD.ProfDetail = true, true
		pr.frame("")
		if m := pr.m["mem"]; m.file == "" {
			pr.add("heap")
		}
		pr.fds = openFiles()
		for _, m := range pr.m {
			if m.file != "" {
				pr.fds--
			}
		}
		pr.check()
		for _, a := range pr.job.acts {
			if pr.failed {
				break
			}
			pr.done = append(pr.done, fmt.Sprint(a.kind, " ", a.what))
			if err := pr.act(a); err != nil {
				return err
			}
			pr.check()
		}
		pr.done = append(pr.done, "end")
		pr.probe()
		return nil
	})
	if err != nil {
		pr.bad("RunWith fails: %v", err)
	}
	for k, m := range pr.m {
		if m.active {
			pr.stopped(k)
		}
	}
	pr.unchanged()
	pr.probe()
}

// add adds a profile of the runtime.
func (pr *profRun) add(name string) {
	_, y, _, _ := pr.row("PProf")
	pr.press(profSize.X-8, y)
	pr.frame("")
	rows := pr.u.rows()
	for i := y; i < len(rows); i++ {
		if strings.HasPrefix(string(rows[i-1][profSize.X-hudValueWidth:]), name+" ") {
			pr.press(profSize.X-hudValueWidth+1, i)
			pr.frame("")
			return
		}
	}
	pr.bad("there is no profile %s to be added", name)
}

// probe tells if profilers really run.
func (pr *profRun) probe() {
	if on := pr.m["trace"].active || pr.own == "trace"; trace.IsEnabled() != on {
		pr.bad("tracing is %v, want %v", !on, on)
	}
	if pr.job.kinds[0] != "cpu" || len(pr.job.kinds) > 1 {
		return
	}
	on := pr.m["cpu"].active || pr.own == "cpu"
	err := pprof.StartCPUProfile(io.Discard)
	if err == nil {
		pprof.StopCPUProfile()
	}
	if (err != nil) != on {
		pr.bad("CPU profiling is %v, want %v", !on, on)
	}
}

func (pr *profRun) started(k string) {
	m := pr.m[k]
	m.active = true
	pr.files[m.file] = nil
	if k == "trace" {
		if !trace.IsEnabled() {
			pr.bad("tracing is not active")
		}
		pr.round++
		for i := 0; i < 2000/pr.round; i++ {
			trace.Log(context.Background(), "round", fmt.Sprint(pr.marker(), i))
		}
	}
}

// stopped expects a complete profile.
func (pr *profRun) stopped(k string) {
	m := pr.m[k]
	m.active = false
	b, err := os.ReadFile(m.file)
	if err != nil {
		pr.bad("%v", err)
		return
	}
	if s := profComplete(k, b, pr.marker()); s != "" {
		pr.bad("%s: %s", m.file, s)
	}
	pr.files[m.file] = b
}

// unchanged checks that there are those files that are expected, and those
// complete are as they were.
func (pr *profRun) unchanged() {
	got, _ := filepath.Glob("*")
	var want []string
	for name := range pr.files {
		want = append(want, name)
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		pr.bad("files are %q, want %q", got, want)
	}
	for name, b := range pr.files {
		if b == nil {
			continue
		}
		if g, err := os.ReadFile(name); err != nil || !bytes.Equal(g, b) {
			pr.bad("%s of %d bytes has changed, now of %d bytes: %v", name, len(b), len(g), err)
		}
	}
}

// check compares what's shown, and the files.
func (pr *profRun) check() {
	if pr.failed {
		return
	}
	pr.frame("")
	any := false
	open := pr.fds
	for k, m := range pr.m {
		any = any || m.active
		_, _, active, file := pr.row(profRow[k])
		if active != m.active {
			pr.bad("%s is shown as active: %v, want %v", profRow[k], active, m.active)
		}
		want := m.file
		if want == "" {
			want = "Choose File"
		} else {
			open++
		}
		if file != want {
			pr.bad("file of %s is shown as %q, want %q", profRow[k], file, want)
		}
	}
	if _, _, active, _ := pr.row("All"); active != any {
		pr.bad("all are shown as active: %v, want %v", active, any)
	}
	if g := openFiles(); g > open {
		pr.bad("%d more files are open than there should be", g-open)
	}
	if on := pr.m["trace"].active || pr.own == "trace"; trace.IsEnabled() != on {
		pr.bad("tracing is %v, want %v", !on, on)
	}
	pr.unchanged()
}

// start expects a profiler to start, with some file.
func (pr *profRun) start(k string) {
	m := pr.m[k]
	if m.file == "" {
		m.file = profDefault[k]
	}
	pr.files[m.file] = nil
	if pr.own == k {
		if !strings.Contains(pr.logs.String(), "failed to ") {
			pr.bad("log is %q, does not tell that %s can't start", pr.logs.String(), k)
		}
		return
	}
	pr.started(k)
}

func (pr *profRun) act(a profAct) error {
	pr.logs.Reset()
	kinds := []string{a.kind}
	row := profRow[a.kind]
	if a.kind == "all" {
		kinds, row = []string{"cpu", "trace", "mem"}, "All"
	}
	switch {
	case a.what == "toggle":
		x, y, active, _ := pr.row(row)
		pr.press(x, y)
		for _, k := range kinds {
			if active && pr.m[k].active {
				pr.stopped(k)
			} else if !active {
				pr.start(k)
			}
		}
	case a.what == "own":
		if pr.own != "" {
			pr.own = ""
			if a.kind == "cpu" {
				pprof.StopCPUProfile()
			} else {
				trace.Stop()
			}
			break
		}
		if pr.m[a.kind].active {
			break // can't
		}
		pr.own = a.kind
		var err error
		if a.kind == "cpu" {
			err = pprof.StartCPUProfile(io.Discard)
		} else {
			err = trace.Start(io.Discard)
		}
		if err != nil {
			pr.bad("%v", err)
		}
	case a.what == "leave":
		m := map[string]profModel{}
		for k := range pr.m {
			m[k] = *pr.m[k]
		}
		err := pr.d.term.RunWithout(func(*anansi.Term) error {
			for k, m := range pr.m {
				if m.active {
					pr.stopped(k)
				}
			}
			pr.probe()
			pr.unchanged()
			return nil
		})
		if err != nil {
			for k, m := range pr.m {
				// it can be as well that one would be started again
				if k == pr.own && m.file != "" {
					pr.files[m.file] = nil
					pr.job.acts = nil
					return nil
				}
			}
			return err
		}
		pr.frame("")
		for k := range pr.m {
			_, _, active, _ := pr.row(profRow[k])
			switch {
			case active:
				if m[k].file == "" {
					pr.bad("%s is active all of a sudden", k)
					break
				}
				pr.started(k)
			case m[k].active:
				pr.bad("%s is not active after leaving and returning", k)
			}
		}
	default: // file
		name := strings.TrimPrefix(a.what, "file ")
		_, y, _, _ := pr.row(row)
		pr.press(profSize.X-8, y)
		pr.frame("\x1b[99C" + strings.Repeat("\x7f", 99))
		pr.frame(name)
		pr.frame("\r")
		m := pr.m[a.kind]
		fails := strings.Contains(name, "/")
		if fails {
			if !strings.Contains(pr.logs.String(), name) {
				pr.bad("log is %q, does not tell that %s can't be created", pr.logs.String(), name)
			}
			pr.frame("")
			if _, _, active, _ := pr.row(row); active {
				break // it may go on as before
			}
		}
		if m.active {
			if name == m.file {
				m.active = false
			} else {
				pr.stopped(a.kind)
			}
		}
		if fails {
			break
		}
		m.file = name
		pr.start(a.kind)
	}
	return nil
}
