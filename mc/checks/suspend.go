package checks

import (
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() {
	if cfg := os.Getenv("VERIF_SUSPEND"); cfg != "" {
		suspendHelper(cfg)
	}
}

// suspendHelper is the process that suspends itself: cfg names the options,
// then what to do, one character each. Its standard files are the terminal.
func suspendHelper(cfg string) {
	log.SetOutput(io.Discard)
	term := anansi.NewTerm(os.NewFile(3, "in"), os.NewFile(3, "out"))
	term.AddMode(ansi.ModeAlternateScreen)
	report, ack := os.NewFile(4, "report"), os.NewFile(5, "ack")
	say := func(s string) {
		report.WriteString(s)
		ack.Read(make([]byte, 1))
	}
	var run func(term *anansi.Term) error
	i := 0
	run = func(term *anansi.Term) error {
		for i < len(cfg) {
			o := cfg[i]
			i++
			var err error
			switch o {
			case 'r':
				err = term.SetRaw(true)
			case 'e':
				err = term.SetEcho(true)
			case 's':
				err = term.Suspend()
				say("s")
			case '(':
				err = term.RunWith(run)
			case '[':
				err = term.RunWithout(run)
			case ')', ']':
				return nil
			}
			if err != nil {
				say("E")
				return err
			}
		}
		return nil
	}
	run(term)
	os.Exit(0)
}

// checkSuspend suspends real processes, on a terminal: while stopped, the
// terminal is as it was originally; once continued, as it was before.
func checkSuspend(c *h.C) {
	repeat := c.Pick(5, 50)
	var cfgs []string
	for _, pre := range []string{"", "r", "e", "re"} {
		for _, body := range []string{"(s)", "(ss)", "((s))", "([s])", "([(s)])", "([s]s)", "(rs)", "(es)", "s(s)", "([r]s)"} {
			for i := 0; i < repeat; i++ {
				cfgs = append(cfgs, pre+body)
			}
		}
	}
	c.Bound("suspend_histories", len(cfgs)/repeat)
	var hung int32
	c.Parallel(len(cfgs), func(i int) {
		cfg := cfgs[i]
		if atomic.LoadInt32(&hung) > 4 {
			return
		}
		p, err := openPty()
		if err != nil {
			fmt.Fprintf(os.Stderr, "cannot open a pseudo terminal: %v\n", err)
			os.Exit(2)
		}
		defer p.Close()
		bad := func(format string, args ...interface{}) {
			c.Violate("suspend:"+cfg, "suspending %s: %s", cfg, fmt.Sprintf(format, args...))
		}
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		defer pr.Close()
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_SUSPEND="+cfg)
		slave := dupFile(p.slave, "slave")
		defer slave.Close()
		ackr, ackw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		defer ackw.Close()
		cmd.ExtraFiles = []*os.File{slave, pw, ackr}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			fmt.Fprintf(os.Stderr, "cannot start a process: %v\n", err)
			os.Exit(2)
		}
		pw.Close()
		ackr.Close()
		pid := cmd.Process.Pid
		defer func() {
			syscall.Kill(pid, syscall.SIGKILL)
			cmd.Wait()
		}()
		// the model
		raw, echo := false, false
		depth, active := []bool{}, false
		out := ""
		for k := 0; k < len(cfg); k++ {
			switch cfg[k] {
			case 'r':
				raw = true
			case 'e':
				echo = true
			case '(', '[':
				depth = append(depth, active)
				active = cfg[k] == '('
			case ')', ']':
				active = depth[len(depth)-1]
				depth = depth[:len(depth)-1]
			case 's':
				c.Transitions(1)
				if !waitStop(pid) {
					atomic.AddInt32(&hung, 1)
					bad("suspension %d does not stop the process", k)
					return
				}
				if t, _ := p.get(); t != p.initial {
					bad("while stopped, the terminal attributes are %s", describeTermios(t))
					return
				}
				out += string(p.drain())
				if strings.Count(out, "\x1b[?1049h") != strings.Count(out, "\x1b[?1049l") {
					bad("while stopped, modes written are %q", out)
					return
				}
				syscall.Kill(pid, syscall.SIGCONT)
				got := make(chan string, 1)
				go func() {
					var b [1]byte
					n, _ := pr.Read(b[:])
					got <- string(b[:n])
				}()
				select {
				case g := <-got:
					if g != "s" {
						bad("suspension reports %q", g)
						return
					}
				case <-time.After(20 * time.Second):
					atomic.AddInt32(&hung, 1)
					bad("the process never continues")
					return
				}
				t, _ := p.get()
				want := p.initial
				if active && raw {
					want = rawTermios(want)
				}
				if active && echo {
					want.Lflag |= syscall.ECHO
				} else if active && !raw { // not judged
					want.Lflag = want.Lflag&^syscall.ECHO | t.Lflag&syscall.ECHO
				}
				if t != want {
					bad("once continued, the terminal attributes are %s, want %s", describeTermios(t), describeTermios(want))
					return
				}
				out += string(p.drain())
				if strings.Count(out, "\x1b[?1049h")-strings.Count(out, "\x1b[?1049l") != b2i(active) {
					bad("once continued, modes written are %q", out)
					return
				}
				ackw.WriteString("\n")
			}
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			bad("the process does not end")
			return
		}
		if t, _ := p.get(); t != p.initial {
			bad("in the end, the terminal attributes are %s", describeTermios(t))
		}
		out += string(p.drain())
		if n := strings.Count(out, "\x1b[?1049h"); n == 0 || n != strings.Count(out, "\x1b[?1049l") {
			bad("in the end, modes written are %q", out)
		}
		c.Traces(1)
	})
}

func waitStop(pid int) bool {
	for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(200 * time.Microsecond) {
		var ws syscall.WaitStatus
		n, err := syscall.Wait4(pid, &ws, syscall.WUNTRACED|syscall.WNOHANG, nil)
		if n == pid {
			return ws.Stopped()
		}
		if err != nil && err != syscall.EINTR {
			return false
		}
	}
	return false
}
