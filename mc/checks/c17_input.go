package checks

import (
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi"

	"verif.local/mc/h"
)

func init() { h.Register("C17", checkInput) }

// feed is a file to read input from, along with its writing end.
type feed struct {
	kind string
	file *os.File
	fd   int // the reading end, for its flags
	w    int
	pty  *pty
	cls  func()
}

var feedKinds = []string{"pipe", "non-blocking pipe", "os.Pipe", "terminal", "opened terminal"}

func newFeed(kind int) *feed {
	f := &feed{kind: feedKinds[kind]}
	if kind >= 3 {
		p := getPty()
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(p.slave), 0x540B /* TCFLSH */, 2)
		setFdFlags(p.slave, fdFlags(p.slave)&^flagMask)
		p.set(rawTermios(p.initial))
		f.pty, f.w = p, p.master
		f.fd = p.slave
		if kind == 3 {
			f.file = dupFile(p.slave, "tty")
		} else {
			var err error
			if f.file, err = os.OpenFile(p.name, os.O_RDONLY|syscall.O_NOCTTY, 0); err != nil {
				panic(err)
			}
			f.fd = -1
		}
		f.cls = func() {
			f.file.Close()
			p.set(p.initial)
			putPty(p)
		}
		return f
	}
	if kind == 2 {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		f.file, f.fd = r, -1
		f.w, err = syscall.Dup(int(w.Fd()))
		if err != nil {
			panic(err)
		}
		w.Close()
		f.cls = func() { r.Close(); f.closeW() }
		return f
	}
	var fds [2]int
	if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
		panic(err)
	}
	if kind == 1 {
		setFdFlags(fds[0], fdFlags(fds[0])|syscall.O_NONBLOCK)
	}
	f.fd, f.w = fds[0], fds[1]
	f.file = dupFile(fds[0], "pipe")
	f.cls = func() {
		f.file.Close()
		syscall.Close(fds[0])
		f.closeW()
	}
	return f
}

func (f *feed) closeW() {
	if f.w >= 0 {
		syscall.Close(f.w)
	}
	f.w = -1
}

// write makes bytes available; total is how many then are.
func (f *feed) write(b []byte, total int) {
	for len(b) > 0 {
		n, err := syscall.Write(f.w, b)
		if err != nil && err != syscall.EINTR && err != syscall.EAGAIN {
			panic(err)
		}
		if n > 0 {
			b = b[n:]
		}
	}
	if f.pty == nil || total < 0 {
		return
	}
	// a terminal passes its input on in the background
	for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(10 * time.Microsecond) {
		var n int32
		ioctl(f.pty.slave, 0x541B /* FIONREAD */, unsafe.Pointer(&n))
		if int(n) >= total {
			return
		}
	}
	panic("terminal does not pass its input on")
}

// checkInput explores histories of reading and decoding input as it arrives
// through every kind of file.
func checkInput(c *h.C) {
	checkLargeInput(c)
	depth := c.Pick(6, 8)
	c.Bound("operations", depth)
	c.Bound("files", feedKinds)
	c.Explore(4, func(ch *h.Choose) {
		f := newFeed(ch.N(len(feedKinds)))
		defer f.cls()
		in := &anansi.Input{File: f.file, MinReadSize: []int{0, 1, 5}[ch.N(3)]}
		flags := 0
		if f.fd >= 0 {
			flags = fdFlags(f.fd)
		}
		if err := in.Enter(nil); err != nil {
			panic(err)
		}
		var log strings.Builder
		fmt.Fprintf(&log, "%s, MinReadSize=%d:", f.kind, in.MinReadSize)
		failed := false
		bad := func(format string, args ...interface{}) {
			failed = true
			c.Violate(fmt.Sprint("input:", ch.Path()), "%s\n%s", log.String(), fmt.Sprintf(format, args...))
		}
		pending, buffered := 0, 0 // bytes written but not read; read but not decoded
		next, sent := 0, 0        // decoded; written
		closed, eof := false, false
		gen := func(k int) []byte {
			b := make([]byte, k)
			for i := range b {
				b[i] = byte('!' + (sent+i)%89)
			}
			sent += k
			return b
		}
		decode := func(max int) {
			for i := 0; i < max; i++ {
				e, a, ok := in.Decode()
				if ok != (buffered > 0) {
					bad("Decode has %v, want %v with %d bytes read", ok, buffered > 0, buffered)
					return
				}
				if !ok {
					return
				}
				if want := '!' + next%89; int(e) != want || a != nil {
					bad("byte %d decodes as %v %q, want %q", next, e, a, want)
					return
				}
				next++
				buffered--
			}
		}
		got := func(what string, n int, err error, wantMin, wantMax int, wantErr error) {
			fmt.Fprintf(&log, "=%d,%v", n, err)
			if n < wantMin || n > wantMax || err != wantErr {
				bad("%s returns %d, %v, want %d..%d, %v", what, n, err, wantMin, wantMax, wantErr)
			}
			pending -= n
			buffered += n
			if eof = wantErr == io.EOF; in.AtEOF() != eof {
				bad("%s: AtEOF is %v", what, in.AtEOF())
			}
		}
		type result struct {
			n   int
			err error
		}
		readMore := func(then func()) {
			res := make(chan result, 1)
			go func() {
				n, err := in.ReadMore()
				res <- result{n, err}
			}()
			if then != nil {
				if f.fd >= 0 && f.kind != "non-blocking pipe" {
					// it is to block, not to spin
					for t0 := time.Now(); fdFlags(f.fd)&syscall.O_NONBLOCK != 0; time.Sleep(10 * time.Microsecond) {
						if time.Since(t0) > 5*time.Second {
							bad("ReadMore does not block")
							break
						}
					}
				}
				then()
			}
			select {
			case r := <-res:
				switch {
				case pending > 0:
					got("ReadMore", r.n, r.err, 1, pending, nil)
				default:
					got("ReadMore", r.n, r.err, 0, 0, io.EOF)
				}
			case <-time.After(30 * time.Second):
				bad("ReadMore hangs")
			}
		}
		for step := 0; step < depth && !failed; step++ {
			menu := []string{"ReadAny", "Exit, Enter"}
			if !closed {
				menu = append(menu, "write 1", "write 200")
				if f.pty == nil {
					menu = append(menu, "close")
				}
			}
			if pending > 0 || closed {
				menu = append(menu, "ReadMore")
			} else {
				menu = append(menu, "ReadMore, write 3")
				if f.pty == nil {
					menu = append(menu, "ReadMore, close")
				}
			}
			if buffered > 0 {
				menu = append(menu, "decode 1", "decode")
			}
			c.Transitions(1)
			op := menu[ch.N(len(menu))]
			log.WriteString("; " + op)
			switch op {
			case "ReadAny":
				n, err := in.ReadAny()
				var want error
				if closed {
					want = io.EOF
				}
				got(op, n, err, pending, pending, want)
			case "write 1", "write 200":
				n := 1
				if op == "write 200" {
					n = 200
				}
				pending += n
				f.write(gen(n), pending)
			case "close":
				closed = true
				f.closeW()
			case "ReadMore":
				readMore(nil)
			case "ReadMore, write 3":
				readMore(func() {
					pending += 3
					f.write(gen(3), -1)
				})
			case "ReadMore, close":
				readMore(func() {
					closed = true
					f.closeW()
				})
			case "decode 1":
				decode(1)
			case "decode":
				decode(1 << 20)
			case "Exit, Enter":
				if err := in.Exit(nil); err != nil {
					bad("Exit returns %v", err)
				}
				if f.fd >= 0 && fdFlags(f.fd) != flags {
					bad("Exit leaves flags %x, were %x", fdFlags(f.fd), flags)
				}
				if err := in.Enter(nil); err != nil {
					bad("Enter returns %v", err)
				}
			}
			c.StateS(fmt.Sprint(f.kind, pending, buffered, closed, eof))
		}
		// all the rest arrives
		log.WriteString("; then")
		for !failed && pending > 0 {
			readMore(nil)
		}
		if !failed && !closed && f.pty == nil {
			f.closeW()
			closed = true
			readMore(nil)
		}
		if !failed {
			decode(1 << 20)
		}
		if next != sent && !failed {
			bad("%d of %d bytes were decoded", next, sent)
		}
		if err := in.Exit(nil); err != nil && !failed {
			bad("Exit returns %v", err)
		}
		if f.fd >= 0 && fdFlags(f.fd) != flags && !failed {
			bad("flags are left as %x, were %x", fdFlags(f.fd), flags)
		}
	})
}
