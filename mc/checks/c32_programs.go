package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C32", checkPrograms) }

// termModes follows what a program does to the modes of its terminal.
type termModes struct {
	on   map[string]bool // private modes, and "sgr"
	rest string
	all  []byte
}

func (tm *termModes) feed(b []byte) {
	tm.all = append(tm.all, b...)
	toks, rest := ref.Tokenize(tm.rest+string(b), false)
	tm.rest = rest
	for _, t := range toks {
		switch {
		case !t.IsE:
		case (t.ID == 0xEF80|'h' || t.ID == 0xEF80|'l') && strings.HasPrefix(t.Arg, "?"):
			for _, m := range strings.Split(t.Arg[1:], ";") {
				tm.on[m] = (t.ID == 0xEF80|'h') != (m == "25" || m == "7") // those are on by default
			}
		case t.ID == 0xEF80|'m':
			var a ref.Attr
			a.ApplySGR(t.Arg)
			tm.on["sgr"] = a != ref.Attr{}
		}
	}
}

// changed lists the modes that are not as they are by default.
func (tm *termModes) changed() (r string) {
	for _, m := range []string{"7", "25", "47", "9", "1000", "1002", "1003", "1004", "1005", "1006", "1015", "1047", "1048", "1049", "2004", "sgr"} {
		if tm.on[m] {
			r += " " + m
		}
	}
	for m, on := range tm.on {
		if on && !strings.Contains(r+" ", " "+m+" ") {
			r += " " + m
		}
	}
	return r
}

// progSpec is an interactive program.
type progSpec struct {
	name  string
	cmd   string
	args  []string
	ready string   // what it shows once it is there, if anything
	ask   string   // what makes it show that
	quit  []string // input that makes it end
	stop  []string // input that makes it suspend
}

// progRun is a program running on a terminal.
type progRun struct {
	spec  *progSpec
	p     *pty
	flags int // of the file
	proc  *os.Process
	tm    termModes
	log   string // file
	tr    *tracer
	done  int32
	ended chan struct{}

	status string // how it ended
}

func (pr *progRun) poll() { pr.tm.feed(pr.p.drain()) }

// until polls until f holds, or the program is gone (false).
func (pr *progRun) until(limit time.Duration, f func() bool) bool {
	for end := time.Now().Add(limit); ; {
		pr.poll()
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		select {
		case <-pr.ended:
			pr.poll()
			return f()
		case <-time.After(200 * time.Microsecond):
		}
	}
}

func startProg(spec *progSpec, bin, dir string, tr *tracer) (*progRun, error) {
	p, err := openPty()
	if err != nil {
		return nil, err
	}
	p.setSize(30, 8)
	pr := &progRun{spec: spec, p: p, tm: termModes{on: map[string]bool{}}, ended: make(chan struct{})}
	slave := dupFile(p.slave, "slave")
	defer slave.Close()
	pr.log = filepath.Join(dir, "log")
	lf, err := os.Create(pr.log)
	if err != nil {
		p.Close()
		return nil, err
	}
	defer lf.Close()
	pr.tr = tr
	attr := &os.ProcAttr{
		Dir:   dir,
		Env:   []string{"TERM=xterm", "PATH=/usr/bin:/bin", "HOME=" + dir},
		Files: []*os.File{slave, slave, lf},
		Sys:   &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL, Ptrace: tr != nil},
	}
	pr.flags = fdFlags(p.slave)
	started := make(chan error)
	go func() {
		// the thread must live as long as the program, for Pdeathsig
		runtime.LockOSThread()
		proc, err := os.StartProcess(bin, append([]string{spec.cmd}, spec.args...), attr)
		pr.proc = proc
		started <- err
		if err != nil {
			return
		}
		if tr != nil {
			pr.status = tr.follow(proc.Pid)
		} else if ps, err := proc.Wait(); err != nil {
			panic(err)
		} else {
			pr.status = ps.String()
		}
		atomic.StoreInt32(&pr.done, 1)
		close(pr.ended)
	}()
	if err := <-started; err != nil {
		p.Close()
		return nil, err
	}
	return pr, nil
}

func (pr *progRun) exited() bool { return atomic.LoadInt32(&pr.done) != 0 }

func (pr *progRun) kill(sig syscall.Signal) {
	if !pr.exited() {
		syscall.Kill(pr.proc.Pid, sig)
	}
}

// state of the process, 'T' if stopped.
func (pr *progRun) state() byte {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pr.proc.Pid))
	if i := bytes.LastIndexByte(b, ')'); err == nil && i >= 0 && i+2 < len(b) {
		return b[i+2]
	}
	return 0
}

// taken is true once the program has read all input.
func (pr *progRun) taken() bool {
	var n int32
	ioctl(pr.p.slave, 0x541B /* FIONREAD */, unsafe.Pointer(&n))
	return n == 0
}

const (
	progInt  = "INT"
	progTerm = "TERM"
	progHup  = "HUP"
	progSize = "WINCH"
	progStop = "suspend"
)

var progSignals = map[string]syscall.Signal{progInt: syscall.SIGINT, progTerm: syscall.SIGTERM, progHup: syscall.SIGHUP}

// checkPrograms decides C32 by running the interactive commands built from the
// tree on pseudo terminals, with every sequence of occurrences up to a length,
// and every way for them to end.
func checkPrograms(c *h.C) {
	bins, err := buildFilters("demo", "lolwut", "interact", "decode")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	ctlC, ctlZ := "\x03", "\x1a"
	progs := []*progSpec{
		{name: "demo", cmd: "demo", ready: "\x1b[48;2;", quit: []string{ctlC}, stop: []string{ctlZ}},
		{name: "lolwut -i", cmd: "lolwut", args: []string{"-i"}, ready: "⠀", quit: []string{ctlC}, stop: []string{ctlZ}},
		{name: "interact echo hi", cmd: "interact", args: []string{"echo", "hi"}, ready: "echo", quit: []string{ctlC}, stop: []string{ctlZ}},
		{name: "interact echo $x", cmd: "interact", args: []string{"echo", "$x"}, ready: "echo", quit: []string{ctlC}, stop: []string{ctlZ}},
		{name: "interact", cmd: "interact", ready: "No command", quit: []string{ctlC}, stop: []string{ctlZ}},
		{name: "decode -raw", cmd: "decode", args: []string{"-raw"}, ready: "'z'", ask: "z", quit: []string{"x", ctlC, ctlC}, stop: []string{"x", ctlZ, ctlZ}},
		{name: "decode -raw -mouse -alt", cmd: "decode", args: []string{"-raw", "-mouse", "-alt"}, ready: "'z'", ask: "z", quit: []string{"x", ctlC, ctlC}, stop: []string{"x", ctlZ, ctlZ}},
		{name: "decode -mouse", cmd: "decode", args: []string{"-mouse"}, ready: "'z'", ask: "z\n"},
	}
	events := []string{"a", "\r", "\x0c", "\x1b[A", "\x1b[<0;6;1M\x1b[<0;6;1m", "\x1b[<64;2;2M", "\x1bn", progSize, progStop}
	ends := []string{"quit", progInt, progTerm, progHup}

	type job struct {
		spec *progSpec
		seq  []string
		tr   *tracer
	}
	var jobs []job
	depth := c.Pick(1, 3)
	var rec func(spec *progSpec, seq []string)
	rec = func(spec *progSpec, seq []string) {
		for _, e := range ends {
			if e == "quit" && spec.quit == nil || e == progInt && spec.cmd == "decode" {
				continue // decode takes that for ^C
			}
			jobs = append(jobs, job{spec: spec, seq: append(seq[:len(seq):len(seq)], e)})
		}
		if len(seq) < depth {
			for _, e := range events {
				if e == progStop && spec.stop == nil {
					continue
				}
				rec(spec, append(seq[:len(seq):len(seq)], e))
			}
		}
	}
	for _, spec := range progs {
		rec(spec, nil)
	}
	c.Bound("programs", len(progs))
	c.Bound("occurrences", len(events)+len(ends))
	c.Bound("sequence_length", depth+1)

	for _, spec := range progs {
		if spec.stop != nil && depth < 2 {
			// suspended again
			jobs = append(jobs, job{spec: spec, seq: []string{progStop, progStop, "quit"}}, job{spec: spec, seq: []string{progStop, progStop, progTerm}})
		}
	}

	// a signal at every system call that changes the terminal
	sigs := []syscall.Signal{syscall.SIGTERM, syscall.SIGHUP}
	if c.Thorough() {
		sigs = append(sigs, syscall.SIGINT)
	}
	nplain := len(jobs)
	cut := [][]string{{"quit"}, {progTerm}, {progStop, "quit"}}
	if c.Thorough() {
		cut = append(cut, []string{progStop, progStop, progHup}, []string{progSize, "quit"})
	}
	var bases []job
	for _, spec := range progs[:3] {
		for _, seq := range cut {
			bases = append(bases, job{spec, seq, &tracer{}})
		}
	}
	c.Bound("signals_at_system_calls", fmt.Sprint(sigs))

	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "home")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var hung, most, sent int32
	run := func(j job) {
		if atomic.LoadInt32(&hung) > 8 {
			return
		}
		cwd, err := os.MkdirTemp(dir, "run")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(cwd)
		pr, err := startProg(j.spec, bins[j.spec.cmd], cwd, j.tr)
		if err != nil {
			fmt.Fprintf(os.Stderr, "cannot start a program on a pseudo terminal: %v\n", err)
			os.Exit(2)
		}
		defer pr.p.Close()
		defer func() {
			pr.kill(syscall.SIGKILL)
			<-pr.ended
		}()
		sig := fmt.Sprintf("%s:%q", j.spec.name, j.seq)
		if j.tr != nil && j.tr.at > 0 {
			sig += fmt.Sprintf(":%v:%d:%v", j.tr.sig, j.tr.at, j.tr.entry)
		}
		interrupted := func() bool { return j.tr != nil && atomic.LoadInt32(&j.tr.sent) != 0 }
		bad := func(format string, args ...interface{}) {
			tail := pr.tm.all
			if len(tail) > 300 {
				tail = tail[len(tail)-300:]
			}
			l := ""
			if b, err := os.ReadFile(pr.log); err == nil {
				l = string(b)
				if len(l) > 1500 {
					l = l[:1500] + "..."
				}
			}
			if interrupted() && pr.exited() {
				format = fmt.Sprintf("%v comes %s %s: ", j.tr.sig, map[bool]string{true: "at", false: "after"}[j.tr.entry], strings.ReplaceAll(j.tr.what, "%", "%%")) + format
			}
			c.Violate(sig, "%s, then %q: %s\nwrote last %q\nlogged %s", j.spec.name, j.seq, fmt.Sprintf(format, args...), tail, l)
		}
		given := func() string { // the terminal is given back
			if t, _ := pr.p.get(); t != pr.p.initial {
				return "the terminal attributes are left as " + describeTermios(t)
			}
			if m := pr.tm.changed(); m != "" {
				return "modes left changed:" + m
			}
			return ""
		}
		const limit = 20 * time.Second
		late := func(what string) {
			if pr.exited() && interrupted() {
				return
			}
			atomic.AddInt32(&hung, 1)
			if pr.exited() {
				bad("it ends (%v) before %s", pr.status, what)
			} else {
				bad("%s takes too long", what)
			}
		}
		write := func(s string) bool {
			for len(s) > 0 {
				n, err := syscall.Write(pr.p.master, []byte(s))
				if n > 0 {
					s = s[n:]
				} else if err != syscall.EAGAIN && err != syscall.EINTR {
					panic(err)
				}
			}
			return pr.until(limit, pr.taken)
		}
		stops := 0
		act := func() bool {
			if j.spec.ask != "" {
				write(j.spec.ask)
			}
			if !pr.until(limit, func() bool { return bytes.Contains(pr.tm.all, []byte(j.spec.ready)) }) {
				late("it is ready")
				return false
			}
			for k, e := range j.seq {
				c.Transitions(1)
				c.Progress()
				if pr.exited() && interrupted() {
					return false
				}
				if pr.exited() {
					bad("it ends (%v) before occurrence %d", pr.status, k)
					return false
				}
				switch e {
				case progSize:
					pr.p.setSize(41, 6)
					pr.kill(syscall.SIGWINCH)
				case progStop:
					before, _ := pr.p.get()
					modes := pr.tm.changed()
					for _, s := range j.spec.stop {
						write(s)
					}
					if j.tr != nil {
						stopped := func() bool { return int(atomic.LoadInt32(&j.tr.stopped)) > stops }
						if !pr.until(limit, stopped) {
							late("suspending")
							return false
						}
						stops++
					} else if !pr.until(limit, func() bool { return pr.state() == 'T' }) {
						late("suspending")
						return false
					}
					pr.poll()
					if s := given(); s != "" {
						bad("while suspended, %s", s)
						return false
					}
					pr.kill(syscall.SIGCONT)
					if !pr.until(limit, func() bool {
						t, _ := pr.p.get()
						return t == before && pr.tm.changed() == modes
					}) {
						t, _ := pr.p.get()
						late(fmt.Sprintf("going on with the terminal as it was (it is %s, with modes%s; was %s, with modes%s)", describeTermios(t), pr.tm.changed(), describeTermios(before), modes))
						return false
					}
				case progInt, progTerm, progHup:
					pr.kill(progSignals[e])
				case "quit":
					for _, s := range j.spec.quit {
						write(s)
					}
				default:
					if !write(e) {
						late(fmt.Sprintf("reading %q", e))
						return false
					}
				}
			}
			return true
		}
		act()
		// it ends, and drains
		if !pr.until(limit, pr.exited) {
			late("ending")
			return
		}
		pr.poll()
		if s := given(); s != "" {
			bad("once it has ended (%v), %s", pr.status, s)
		} else if f := fdFlags(pr.p.slave); f != pr.flags && !strings.HasPrefix(pr.status, "signal") {
			bad("once it has ended (%v), the terminal has file flags %#x, not %#x", pr.status, f, pr.flags)
		} else if l, _ := os.ReadFile(pr.log); bytes.Contains(l, []byte("goroutine ")) {
			bad("it crashed")
		}
		if j.tr != nil {
			for n := j.tr.points; ; {
				if m := atomic.LoadInt32(&most); n <= m || atomic.CompareAndSwapInt32(&most, m, n) {
					break
				}
			}
			atomic.AddInt32(&sent, j.tr.sent)
		}
		c.StateS(sig + pr.status)
		c.Traces(1)
	}
	c.Parallel(len(bases), func(i int) { run(bases[i]) })
	for _, j := range bases {
		for _, s := range sigs {
			for at := 1; at <= int(j.tr.points)+2; at++ {
				for _, entry := range []bool{true, false} {
					jobs = append(jobs, job{j.spec, j.seq, &tracer{at: at, entry: entry, sig: s}})
				}
			}
		}
	}
	c.Parallel(len(jobs), func(i int) { run(jobs[i]) })
	c.Count("runs", nplain)
	c.Count("runs_traced", len(jobs)-nplain)
	c.Count("most_system_calls_that_change_the_terminal", int(most))
	c.Count("signals_sent_at_system_calls", int(sent))
	c.Sample("interact echo $x is clicked on its variable, suspended, continued, and ended by SIGHUP")
	c.Assume("a program has taken input once it has read it; how far it got with drawing when the next occurrence comes is up to its run")
}
