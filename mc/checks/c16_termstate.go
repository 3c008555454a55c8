package checks

import (
	"errors"
	"fmt"
	"image"
	"os"
	"regexp"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() { h.Register("C16", checkTermState) }

const flagMask = syscall.O_NONBLOCK | syscall.O_ASYNC

// rawTermios is what raw mode is on top of the original attributes.
func rawTermios(t syscall.Termios) syscall.Termios {
	t.Iflag &^= syscall.BRKINT | syscall.ICRNL | syscall.INPCK | syscall.ISTRIP | syscall.IXON
	t.Oflag &^= syscall.OPOST
	t.Cflag = t.Cflag&^(syscall.CSIZE|syscall.PARENB) | syscall.CS8
	t.Lflag &^= syscall.ECHO | syscall.ICANON | syscall.IEXTEN | syscall.ISIG
	t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 1, 0
	return t
}

type termState struct {
	c    *h.C
	ch   *h.Choose
	p    *pty
	term *anansi.Term
	log  strings.Builder
	bad  string

	outer     syscall.Termios // without the terminal's context
	flags     int
	flagsUsed bool // input was used without the context
	raw, echo bool
	echoKnown bool // echo was ever asked for
	active    bool
	enters    int
	ops       int
	sigio     chan os.Signal
}

func (ts *termState) fail(format string, args ...interface{}) {
	if ts.bad == "" {
		ts.bad = fmt.Sprintf(format, args...)
	}
}

func describeTermios(t syscall.Termios) string {
	return fmt.Sprintf("i=%x o=%x c=%x l=%x min=%d time=%d", t.Iflag, t.Oflag, t.Cflag, t.Lflag, t.Cc[syscall.VMIN], t.Cc[syscall.VTIME])
}

// check compares the terminal with the model.
func (ts *termState) check(when string) {
	ts.c.Transitions(1)
	got, err := ts.p.get()
	if err != nil {
		ts.fail("%v", err)
		return
	}
	want := ts.outer
	if ts.active {
		if ts.raw {
			want = rawTermios(want)
		}
		switch {
		case ts.echo:
			want.Lflag |= syscall.ECHO
		case ts.raw || ts.echoKnown:
			want.Lflag &^= syscall.ECHO
		default: // normal mode's default is not judged
			want.Lflag = want.Lflag&^syscall.ECHO | got.Lflag&syscall.ECHO
		}
	} else if fl := fdFlags(ts.p.slave) & flagMask; fl != ts.flags && !ts.flagsUsed {
		ts.fail("%s file flags are %x, were %x originally", when, fl, ts.flags)
	}
	if got != want {
		ts.fail("%s terminal attributes are %s, want %s (raw=%v echo=%v active=%v)", when, describeTermios(got), describeTermios(want), ts.raw, ts.echo, ts.active)
	}
	if ts.active {
		if size, err := ts.term.Size(); err != nil || size != image.Pt(123, 45) {
			ts.fail("%s Size is %v, %v", when, size, err)
		}
	}
}

var errBody = errors.New("body")

// body runs within (in) or without the terminal's context.
func (ts *termState) body(in bool, depth int) error {
	if in && !ts.active {
		ts.enters++
	}
	ts.active = in
	ts.check("on entry")
	for {
		menu := []string{"", "!", "panic"}
		if ts.ops > 0 {
			menu = append(menu, "raw", "normal", "echo", "noecho")
			if depth < 4 {
				menu = append(menu, "RunWith", "RunWithout")
			}
			if in {
				menu = append(menu, "ReadAny", "Notify", "Notify(nil)", "Flush")
			} else {
				menu = append(menu, "stty")
			}
		}
		ts.ops--
		op := menu[ts.ch.N(len(menu))]
		ts.log.WriteString(" " + op)
		var err error
		if !ts.active && (op == "ReadAny" || op == "Notify") {
			ts.flagsUsed = true
		}
		switch op {
		case "":
			return nil
		case "!":
			return errBody
		case "panic":
			panic("within")
		case "raw", "normal":
			ts.raw = op == "raw"
			err = ts.term.SetRaw(ts.raw)
		case "echo", "noecho":
			ts.echo = op == "echo"
			ts.echoKnown = ts.echoKnown || ts.echo
			err = ts.term.SetEcho(ts.echo)
		case "RunWith", "RunWithout":
			if rerr, panicked := ts.call(op == "RunWith", depth+1); panicked {
				if ts.ch.N(2) == 0 {
					panic("within")
				}
			} else if rerr != nil && ts.ch.N(2) == 0 {
				return rerr
			}
		case "stty":
			ts.outer.Lflag ^= syscall.ICANON
			ts.outer.Iflag ^= syscall.IXON
			ts.p.set(ts.outer)
		case "ReadAny":
			var n int
			n, err = ts.term.ReadAny()
			if n != 0 {
				err = fmt.Errorf("read %d bytes", n)
			}
		case "Notify":
			if ts.sigio == nil {
				ts.sigio = make(chan os.Signal, 1)
			}
			err = ts.term.Notify(ts.sigio)
		case "Notify(nil)":
			err = ts.term.Notify(nil)
		case "Flush":
			var b anansi.Buffer
			b.WriteString("F")
			err = ts.term.Flush(&b)
		}
		if err != nil {
			ts.fail("%s failed: %v", op, err)
		}
		ts.check("then")
	}
}

func (ts *termState) call(with bool, depth int) (err error, panicked bool) {
	name, run := "RunWithout", ts.term.RunWithout
	if with {
		name, run = "RunWith", ts.term.RunWith
	}
	before := ts.active
	fmt.Fprintf(&ts.log, " %s{", name)
	ran := false
	var ferr error
	func() {
		defer func() {
			if e := recover(); e != nil {
				panicked = true
				if e != "within" {
					ts.fail("%s panics: %v", name, e)
				}
			}
		}()
		err = run(func(*anansi.Term) error {
			ran = true
			ferr = ts.body(with, depth)
			return ferr
		})
	}()
	ts.log.WriteString(" }")
	if !panicked && (!ran || err != ferr) {
		ts.fail("%s: ran=%v, returns %v, want %v", name, ran, err, ferr)
	}
	switch {
	case with && !before:
		ts.active = false
	case !with:
		if ts.active = before && !panicked && err == nil; ts.active {
			ts.enters++
		}
	}
	ts.check("after " + name)
	return err, panicked
}

func checkTermState(c *h.C) {
	ops := c.Pick(4, 5)
	c.Bound("operations", ops)
	c.Bound("initial_attributes", 4)
	base := func(p *pty, i int) syscall.Termios {
		t := p.initial
		switch i {
		case 1:
			t.Lflag &^= syscall.ECHO
			t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 3, 5
		case 2:
			t = rawTermios(t)
			t.Lflag |= syscall.ECHO
		case 3:
			t.Iflag |= syscall.ISTRIP | syscall.INPCK | syscall.BRKINT | syscall.IXOFF
			t.Lflag &^= syscall.ISIG
			t.Cc[syscall.VINTR] = 'x'
		}
		return t
	}
	c.Explore(4, func(ch *h.Choose) {
		p := getPty()
		defer putPty(p)
		ts := &termState{c: c, ch: ch, p: p, ops: ops}
		setFdFlags(p.slave, fdFlags(p.slave)&^flagMask)
		p.drain()
		p.set(base(p, ch.N(4)))
		p.setSize(123, 45)
		ts.outer, _ = p.get()
		if ch.N(2) == 1 { // already non-blocking, which also has Go poll it
			setFdFlags(p.slave, fdFlags(p.slave)|syscall.O_NONBLOCK)
			ts.ops--
		}
		ts.flags = fdFlags(p.slave) & flagMask
		in, out := dupFile(p.slave, "in"), dupFile(p.slave, "out")
		defer in.Close()
		defer out.Close()
		ts.term = anansi.NewTerm(in, out)
		ts.term.AddMode(ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt)
		ts.term.AddModeSeq(ansi.SoftReset)
		set, reset := string(ts.term.Mode.Set), string(ts.term.Mode.Reset)
		if ch.N(2) == 1 {
			ts.raw = true
			ts.term.SetRaw(true)
		}
		if ch.N(2) == 1 {
			ts.echo, ts.echoKnown = true, true
			ts.term.SetEcho(true)
		}
		ts.call(true, 0)
		if ts.sigio != nil {
			ts.term.Notify(nil)
		}
		wrote := strings.ReplaceAll(string(p.drain()), "F", "")
		if m, _ := regexp.MatchString(fmt.Sprintf("^(%s(%s)+){%d}$", regexp.QuoteMeta(set), regexp.QuoteMeta(reset), ts.enters), wrote); !m {
			ts.fail("modes written are %q, after %d times entering", wrote, ts.enters)
		}
		if ts.bad != "" {
			c.Violate(fmt.Sprint("tty:", ch.Path()), "%s:%s", ts.bad, ts.log.String())
		}
		c.StateS(fmt.Sprint(ts.outer, ts.raw, ts.echo, ts.flags, ts.enters))
	})
	checkTermFailure(c)
	checkSuspend(c)
	checkModeOrder(c)
}

// checkTermFailure: running on files that are no terminal fails, changes
// nothing, and does not keep the terminal from being used later.
func checkTermFailure(c *h.C) {
	c.Explore(2, func(ch *h.Choose) {
		p := getPty()
		defer putPty(p)
		setFdFlags(p.slave, fdFlags(p.slave)&^flagMask)
		p.drain()
		p.set(p.initial)
		in, out := dupFile(p.slave, "in"), dupFile(p.slave, "out")
		defer in.Close()
		defer out.Close()
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		defer pr.Close()
		defer pw.Close()
		term := anansi.NewTerm(in, out)
		term.AddModeSeq(ansi.SoftReset)
		term.SetRaw(ch.N(2) == 1)
		log := ""
		bad := func(format string, args ...interface{}) {
			c.Violate(fmt.Sprint("fail:", ch.Path()), "%s: %s", log, fmt.Sprintf(format, args...))
		}
		if anansi.IsTerminal(pr) || !anansi.IsTerminal(in) || !term.IsTerminal() {
			bad("IsTerminal is wrong")
		}
		for step := 0; step < 3; step++ {
			c.Transitions(1)
			kind := ch.N(4)
			log += []string{" terminal", " output is a pipe", " output is closed", " no files"}[kind]
			term.Input.File, term.Output.File = in, out
			switch kind {
			case 1:
				term.Output.File = pw
			case 2:
				f := dupFile(p.slave, "closed")
				f.Close()
				term.Output.File = f
			case 3:
				term.Input.File, term.Output.File = nil, nil
			}
			if want := kind == 0; term.Output.File != nil && term.IsTerminal() != want {
				bad("IsTerminal is %v", !want)
			}
			ran := false
			err := term.RunWith(func(*anansi.Term) error {
				if ran = true; kind == 0 {
					term.ReadAny()
				}
				return nil
			})
			if want := kind == 0 || kind == 3; ran != want || (err == nil) != want {
				bad("ran=%v, %v", ran, err)
			}
			if t, _ := p.get(); t != p.initial {
				bad("terminal attributes are left as %s", describeTermios(t))
			}
			if fl := fdFlags(p.slave) & flagMask; fl != 0 {
				bad("file flags are left as %x", fl)
			}
			p.drain()
		}
		c.StateS(log)
	})
}

// checkModeOrder: mode sequences are set in order, and reset in reverse order.
func checkModeOrder(c *h.C) {
	seqs := []ansi.Seq{ansi.SoftReset, ansi.ShowCursor.Set(), ansi.CUP.WithInts(100, 200), ansi.CUP.With([]byte("12;34")...), ansi.ESC('7').With()}
	modes := []ansi.Mode{ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt, ansi.ModeMouseBtnEvent}
	n := c.Pick(5, 6)
	c.Bound("mode_calls", n)
	c.Words(8, 1, n, func(word []int) {
		var mode anansi.Mode
		set, reset := "", ""
		add := func(s, r ansi.Seq) {
			set += string(s.AppendTo(nil))
			reset = string(r.AppendTo(nil)) + reset
		}
		for i, o := range word {
			switch {
			case o < 2:
				mode.AddMode(modes[o])
				add(modes[o].Set(), modes[o].Reset())
			case o == 2:
				mode.AddMode(modes...)
				for _, m := range modes {
					add(m.Set(), m.Reset())
				}
			case o < 5:
				s, r := seqs[o-2], seqs[(o+i)%len(seqs)]
				mode.AddModePair(s, r)
				add(s, r)
			case o < 7:
				mode.AddModeSeq(seqs[o-3])
				add(seqs[o-3], seqs[o-3])
			default:
				mode.AddModeSeq(seqs...)
				for _, s := range seqs {
					add(s, s)
				}
			}
			c.Transitions(1)
		}
		if string(mode.Set) != set || string(mode.Reset) != reset {
			c.Violate(fmt.Sprint("modes:", word), "calls %v: set is %q, want %q; reset is %q, want %q", word, mode.Set, set, mode.Reset, reset)
		}
		c.Traces(1)
	})
}
