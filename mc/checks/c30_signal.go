package checks

import (
	"errors"
	"fmt"
	"log"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
)

func init() {
	h.Register("C30", checkSignal)
	if s := os.Getenv("VERIF_MUSTRUN"); s != "" {
		log.SetOutput(os.Stderr)
		anansi.MustRun(mustRunErrs()[s])
		os.Exit(77) // it returned
	}
}

// sigBarrier delivers signals, and waits until they are.
type sigBarrier struct{ sent, io, dummy chan os.Signal }

func newSigBarrier() *sigBarrier {
	sb := &sigBarrier{make(chan os.Signal, 64), make(chan os.Signal, 64), make(chan os.Signal, 1)}
	signal.Notify(sb.io, syscall.SIGIO)
	signal.Notify(sb.sent, syscall.SIGUSR1, syscall.SIGUSR2)
	return sb
}

// kill returns once every channel that is notified has the signal.
func (sb *sigBarrier) kill(sig syscall.Signal) {
	if err := syscall.Kill(os.Getpid(), sig); err != nil {
		panic(err)
	}
	for s := range sb.sent {
		if s == sig {
			break
		}
	}
	signal.Notify(sb.dummy, syscall.SIGSYS) // waits for those that are being delivered
}

// arrived waits for the signal due to input that was just written, if the file
// is set up for that.
func (sb *sigBarrier) arrived(fd int) {
	if fdFlags(fd)&syscall.O_ASYNC != 0 && fdOwner(fd) == os.Getpid() {
		select {
		case <-sb.io:
		case <-time.After(5 * time.Second): // maybe it is not owned
		}
	}
	signal.Notify(sb.dummy, syscall.SIGSYS)
}

// refSignal is what a Signal should be.
type refSignal struct {
	notify  []os.Signal
	made    bool // has a channel
	open    bool
	pending string
}

func (rs *refSignal) arrive(sig os.Signal) {
	for _, s := range rs.notify {
		if rs.open && s == sig && rs.pending == "" {
			rs.pending = sig.String()
		}
	}
}

type sigOp struct {
	name string
	do   func(rs *refSignal, s *anansi.Signal) string
}

var errNotNil = "unexpected error: "

var sigOps = []sigOp{
	{"Open", func(rs *refSignal, s *anansi.Signal) string {
		rs.made, rs.open = true, true
		if err := s.Open(); err != nil {
			return errNotNil + err.Error()
		}
		return ""
	}},
	{"Enter", func(rs *refSignal, s *anansi.Signal) string {
		rs.made, rs.open = true, true
		if err := s.Enter(nil); err != nil {
			return errNotNil + err.Error()
		}
		return ""
	}},
	{"Exit", func(rs *refSignal, s *anansi.Signal) string {
		if err := s.Exit(nil); err != nil {
			return errNotNil + err.Error()
		}
		return ""
	}},
	{"Close", func(rs *refSignal, s *anansi.Signal) string {
		rs.made, rs.open, rs.pending = false, false, ""
		if err := s.Close(); err != nil {
			return errNotNil + err.Error()
		}
		if s.C != nil {
			return "the channel is still there"
		}
		return ""
	}},
	{"Send", func(rs *refSignal, s *anansi.Signal) string {
		rs.made = true
		if rs.pending == "" {
			rs.pending = "message"
		}
		s.Send("message")
		return ""
	}},
	{"receive", func(rs *refSignal, s *anansi.Signal) string {
		want := rs.pending
		rs.pending = ""
		got := ""
		select {
		case sig := <-s.C:
			got = sig.String()
		default:
		}
		if got != want {
			return fmt.Sprintf("received %q, not %q", got, want)
		}
		return ""
	}},
	{"AsErr", func(rs *refSignal, s *anansi.Signal) string {
		want := rs.pending
		rs.pending = ""
		err := s.AsErr()
		if err == nil {
			if want != "" {
				return fmt.Sprintf("no error, %q was pending", want)
			}
			return ""
		}
		se, ok := err.(anansi.SignalError)
		if !ok {
			return fmt.Sprintf("error is a %T", err)
		}
		if want == "" || se.String() != want || err.Error() != "signal "+want {
			return fmt.Sprintf("error %q for signal %q, %q was pending", err, se.Sig, want)
		}
		if sig, ok := se.Sig.(syscall.Signal); ok && se.ExitCode() != -int(sig) && se.ExitCode() != 128+int(sig) || !ok && se.ExitCode() == 0 {
			return fmt.Sprintf("exit code %d for %v", se.ExitCode(), se)
		}
		return ""
	}},
}

func checkSignal(c *h.C) {
	depth := c.Pick(5, 6)
	nops := 2*len(sigOps) + 2
	inDepth := c.Pick(6, 7)
	tickDepth := c.Pick(5, 5)
	c.Bound("signals", fmt.Sprintf("all sequences of %d operations out of %d on two Signals for one and two signals, and delivery of these", depth, nops))
	c.Bound("input", fmt.Sprintf("all sequences of %d out of %d operations, with and without an InputSignal, on %v", inDepth, len(notifyOps), feedKinds))
	c.Bound("ticker", fmt.Sprintf("all sequences of %d out of 4 operations", tickDepth))
	nA := nops * nops
	nB := len(feedKinds) * 2 * len(notifyOps)
	nT := 16
	var sb *sigBarrier
	if os.Getenv("VERIF_PART_OUT") == "" {
		checkMustRun(c)
	}
	c.Procs(nA+nB+nT, func(job int) {
		if sb == nil {
			sb = newSigBarrier()
		}
		if job < nA {
			total := 1
			for i := 2; i < depth; i++ {
				total *= nops
			}
			for w := 0; w < total && !c.Expired(); w++ {
				ops := []int{job / nops, job % nops}
				for v, i := w, 2; i < depth; i++ {
					ops = append(ops, v%nops)
					v /= nops
				}
				signalHistory(c, sb, ops)
			}
			return
		}
		job -= nA
		if job < nB {
			no := len(notifyOps)
			total := 1
			for i := 1; i < inDepth; i++ {
				total *= no
			}
			kind := job / no / 2
			if kind >= 3 { // a terminal takes its time
				total /= no
			}
			for w := 0; w < total && !c.Expired() && c.Violations() < 3; w++ {
				ops := []int{job % no}
				for v, n := w, total; n > 1; n /= no {
					ops = append(ops, v%no)
					v /= no
				}
				notifyHistory(c, sb, kind, job/no%2 == 1, ops)
			}
			return
		}
		job -= nB
		total := 1
		for i := 0; i < tickDepth; i++ {
			total *= 4
		}
		for w := job; w < total && !c.Expired() && c.Violations() < 6; w += nT {
			var ops []int
			for v, i := w, 0; i < tickDepth; i++ {
				ops = append(ops, v%4)
				v /= 4
			}
			tickerHistory(c, ops)
		}
	})
}

func signalHistory(c *h.C, sb *sigBarrier, ops []int) {
	refs := [2]refSignal{{notify: []os.Signal{syscall.SIGUSR1}}, {notify: []os.Signal{syscall.SIGUSR1, syscall.SIGUSR2}}}
	sigs := [2]anansi.Signal{anansi.Notify(syscall.SIGUSR1), anansi.Notify(syscall.SIGUSR1, syscall.SIGUSR2)}
	var hist []string
	what := func() string { return "of two signals, for USR1, and for USR1 and USR2:\n" + strings.Join(hist, "; ") }
	type oldChan struct {
		c chan os.Signal
		n int
	}
	var olds []oldChan
	last := false // whether the last operation made the state observable
	for i := 0; i <= len(ops) && !last; i++ {
		bad := ""
		if i == len(ops) {
			// see what is pending
			hist = append(hist, "receive from both")
			last = true
			for j := range sigs {
				if s := sigOps[5].do(&refs[j], &sigs[j]); s != "" {
					bad = fmt.Sprintf("signal %d: %s", j, s)
				}
			}
		} else if op := ops[i]; op < 2*len(sigOps) {
			j, o := op%2, sigOps[op/2]
			hist = append(hist, fmt.Sprintf("%s %d", o.name, j))
			if o.name == "Close" && sigs[j].C != nil {
				olds = append(olds, oldChan{sigs[j].C, len(sigs[j].C)})
			}
			if !c.Guard("signal:panic", what, func() { bad = o.do(&refs[j], &sigs[j]) }) {
				return
			}
		} else {
			sig := syscall.SIGUSR1
			if op == 2*len(sigOps)+1 {
				sig = syscall.SIGUSR2
			}
			hist = append(hist, fmt.Sprint("deliver ", sig))
			sb.kill(sig)
			refs[0].arrive(sig)
			refs[1].arrive(sig)
		}
		c.Transitions(1)
		for j := range sigs {
			if bad == "" && (sigs[j].C != nil) != refs[j].made {
				bad = fmt.Sprintf("signal %d has a channel: %v", j, sigs[j].C != nil)
			}
			if bad == "" && len(sigs[j].C) > 0 != (refs[j].pending != "") {
				bad = fmt.Sprintf("signal %d has something pending: %v, should have: %q", j, len(sigs[j].C) > 0, refs[j].pending)
			}
		}
		for _, o := range olds {
			if len(o.c) != o.n && bad == "" {
				bad = "a channel got a signal after it was closed"
			}
		}
		if bad != "" {
			c.Violate("signal", "%s\n%s", bad, what())
			break
		}
	}
	for j := range sigs {
		if sigs[j].C != nil {
			signal.Stop(sigs[j].C)
		}
	}
	c.StateS(fmt.Sprint(ops))
	c.Traces(1)
}

var notifyOps = []string{"write", "notify 1", "notify 2", "notify none", "without", "run again", "write without"}

// notifyHistory has input arrive.
func notifyHistory(c *h.C, sb *sigBarrier, kind int, own bool, ops []int) {
	f := newFeed(kind)
	defer f.cls()
	fd := f.fd
	if fd < 0 {
		fd = int(f.file.Fd())
	}
	flags := fdFlags(fd)
	defer setFdFlags(fd, flags&^syscall.O_ASYNC)
	var is anansi.InputSignal
	term := anansi.NewTerm(f.file, nil)
	if own {
		term.AddContext(&is)
	}
	// which gets notified, -1 if unspecified
	const none, mine = 0, 3
	chans := [4]chan os.Signal{nil, make(chan os.Signal, 1), make(chan os.Signal, 1), nil}
	target := none
	var hist []string
	what := func() string {
		return fmt.Sprintf("reading from %s, with an InputSignal as a context: %v\nrun; %s", f.kind, own, strings.Join(hist, "; "))
	}
	bad := false
	violate := func(format string, args ...interface{}) {
		bad = true
		sig := "notify"
		if own {
			sig = "notify:InputSignal"
		}
		c.Violate(sig, format+"\n%s", append(args, what())...)
	}
	check := func(want int) {
		for i := 1; i < 4; i++ {
			if chans[i] == nil {
				continue
			}
			if i != want {
				if f.pty == nil && len(chans[i]) > 0 {
					violate("channel %d got a signal, though %d is notified", i, want)
				}
				continue
			}
			select {
			case s := <-chans[i]:
				if s != syscall.SIGIO {
					violate("got %v", s)
				}
			default:
				violate("input arrived, and no signal on channel %d", i)
			}
		}
	}
	drain := func() {
		for i := 1; i < 4; i++ {
			select {
			case <-chans[i]:
			default:
			}
		}
	}
	run := func(body func(term *anansi.Term) error) bool {
		return c.Guard("notify:panic", what, func() {
			if err := term.RunWith(func(term *anansi.Term) error {
				if own {
					chans[mine], target = is.C, mine
				}
				return body(term)
			}); err != nil && !bad {
				violate("run fails: %v", err)
			}
		})
	}
	i := 0
	for again := true; again && !bad; {
		again = false
		if !run(func(term *anansi.Term) error {
			for i < len(ops) && !bad {
				op := notifyOps[ops[i]]
				i++
				hist = append(hist, op)
				c.Transitions(1)
				switch op {
				case "write":
					f.write([]byte("x"), 1)
					sb.arrived(fd)
					if target != none || f.pty == nil {
						check(target)
					}
					if n, err := term.ReadAny(); n != 1 || err != nil {
						violate("reads %d bytes, %v", n, err)
					}
					for {
						if _, _, ok := term.Decode(); !ok {
							break
						}
					}
				case "notify 1", "notify 2", "notify none":
					t := map[string]int{"notify 1": 1, "notify 2": 2}[op]
					if err := term.Notify(chans[t]); err != nil {
						violate("Notify fails: %v", err)
					}
					target = t
					if f.pty != nil {
						drain()
					}
				case "without", "write without":
					if err := term.RunWithout(func(term *anansi.Term) error {
						if op == "write without" {
							f.write([]byte("y"), 1)
							sb.arrived(fd)
							var b [1]byte
							if n, err := syscall.Read(fd, b[:]); n != 1 {
								panic(fmt.Sprint("cannot read: ", err))
							}
						}
						return nil
					}); err != nil {
						violate("RunWithout fails: %v", err)
					}
					if own {
						if is.C == nil {
							violate("the InputSignal has no channel after RunWithout")
						}
						target = mine
					}
					drain() // whether there is a signal while suspended is not specified
				case "run again":
					again = true
					return nil
				}
			}
			return nil
		}) {
			return
		}
		// all is closed
		target = none
		drain()
		chans[mine] = nil
		if f.pty == nil && !bad {
			before, was := chans, fdFlags(fd)
			setFdFlags(fd, was|syscall.O_ASYNC)
			f.write([]byte("z"), 1)
			sb.arrived(fd)
			for j := 1; j < 3; j++ {
				if len(before[j]) > 0 {
					violate("channel %d got a signal after the run ended", j)
				}
			}
			setFdFlags(fd, was)
			var b [1]byte
			syscall.Read(fd, b[:])
		}
	}
	c.StateS(fmt.Sprint(kind, own, ops))
	c.Traces(1)
}

func fdOwner(fd int) int {
	r, _, _ := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETOWN, 0)
	return int(r)
}

// tickerHistory uses a ticker.
func tickerHistory(c *h.C, ops []int) {
	var t platform.Ticker
	active := false
	var hist []string
	what := func() string { return strings.Join(hist, "; ") }
	wait := func(also func()) (at time.Time, ok bool) {
		done := make(chan time.Time, 1)
		go func() { done <- t.Wait() }()
		if also != nil {
			time.Sleep(time.Millisecond)
			also()
		}
		select {
		case at = <-done:
			return at, true
		case <-time.After(10 * time.Second):
			c.Violate("ticker", "Wait does not return\n%s", what())
			return at, false
		}
	}
	for _, op := range ops {
		c.Transitions(1)
		switch op {
		case 0:
			hist = append(hist, "Enter")
			t.Enter(nil)
			active = true
		case 1:
			hist = append(hist, "Exit")
			t.Exit(nil)
			active = false
		case 2:
			hist = append(hist, "Wait")
			at, ok := wait(nil)
			if !ok {
				return
			}
			if active == at.IsZero() {
				c.Violate("ticker", "Wait returned %v, active: %v\n%s", at, active, what())
			}
		case 3:
			hist = append(hist, "Wait, then Exit meanwhile")
			was := active
			at, ok := wait(func() { t.Exit(nil) })
			if !ok {
				return
			}
			active = false
			if !was && !at.IsZero() {
				c.Violate("ticker", "Wait returned %v while not active\n%s", at, what())
			}
		}
	}
	t.Exit(nil)
	c.StateS("ticker" + fmt.Sprint(ops))
	c.Traces(1)
}

type exitError int

func (ee exitError) Error() string { return "exit error" }
func (ee exitError) ExitCode() int { return int(ee) }

func mustRunErrs() map[string]error {
	return map[string]error{
		"nil": nil, "plain": errors.New("plain"),
		"TERM": anansi.SigErr(syscall.SIGTERM), "INT": anansi.SigErr(syscall.SIGINT), "HUP": anansi.SigErr(syscall.SIGHUP),
		"exit 0": exitError(0), "exit 1": exitError(1), "exit 3": exitError(3), "exit 255": exitError(255),
	}
}

// checkMustRun runs processes that end by MustRun.
func checkMustRun(c *h.C) {
	for name, err := range mustRunErrs() {
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_MUSTRUN="+name)
		var sb strings.Builder
		cmd.Stderr = &sb
		rerr := cmd.Run()
		var code int
		if ee, ok := rerr.(*exec.ExitError); ok {
			code = ee.ExitCode()
		} else if rerr != nil {
			panic(rerr)
		}
		want := 1
		if err == nil {
			want = 77
		} else if ee, ok := err.(anansi.ExitError); ok && ee.ExitCode() != 0 {
			want = ee.ExitCode() & 0xff
		}
		if code != want || err != nil && !strings.Contains(sb.String(), err.Error()) {
			c.Violate("mustrun:"+name, "MustRun of %v ends with status %d, not %d, saying %q", err, code, want, sb.String())
		}
		c.Transitions(1)
		c.Traces(1)
	}
}
