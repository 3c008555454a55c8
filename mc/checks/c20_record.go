package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi"

	"verif.local/mc/h"
)

func init() { h.Register("C20", checkRecord) }

// memFile is a file in memory, reused between executions.
func newMemFile() *os.File {
	name := []byte("rec\x00")
	fd, _, e := syscall.Syscall(319 /* memfd_create */, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic(e)
	}
	return os.NewFile(fd, "rec")
}

type recFiles struct {
	*inPipe
	mem *os.File
}

var recPool = sync.Pool{New: func() interface{} {
	return &recFiles{inPipes.Get().(*inPipe), newMemFile()}
}}

// replayOf reads back a recording.
func (rf *recFiles) replayOf(b []byte) (anansi.InputReplay, error) {
	if err := rf.mem.Truncate(0); err != nil {
		panic(err)
	}
	if _, err := rf.mem.WriteAt(b, 0); err != nil {
		panic(err)
	}
	if _, err := rf.mem.Seek(0, io.SeekStart); err != nil {
		panic(err)
	}
	return anansi.ReadInputReplay(rf.mem)
}

// recDest is a recording destination that may fail.
type recDest struct {
	bytes.Buffer
	fail bool
}

var errRecDest = errors.New("recording failed")

func (rd *recDest) Write(p []byte) (int, error) {
	if rd.fail {
		return 0, errRecDest
	}
	return rd.Buffer.Write(p)
}

// recRead is what is known of a recorded read, or message
type recRead struct {
	t0, t1 time.Time
	e      error
	b      string
	m      string
}

func (rr recRead) String() string {
	if rr.m != "" {
		return fmt.Sprintf("message %q", rr.m)
	}
	return fmt.Sprintf("read %q, %v", rr.b, rr.e)
}

// apcIn tells whether s has a complete APC string.
func apcIn(s string) bool {
	for {
		i := strings.Index(s, "\x1b_")
		if i < 0 {
			return false
		}
		s = s[i+2:]
		if j := strings.IndexByte(s, 0x1b); j >= 0 && strings.HasPrefix(s[j:], "\x1b\\") {
			return true
		}
	}
}

// checkReplay compares what was recorded with what it was recorded from.
func checkReplay(rep anansi.InputReplay, want []recRead) error {
	text := func() string {
		s := "got:"
		for _, f := range rep {
			s += fmt.Sprintf("\n  M=%q E=%v B=%q T=%v", f.M, f.E, f.B, !f.T.IsZero())
		}
		s += "\nwant:"
		for _, w := range want {
			s += "\n  " + w.String()
		}
		return s
	}
	i := 0
	for _, w := range want {
		if i >= len(rep) {
			return fmt.Errorf("frames missing, %s", text())
		}
		f := rep[i]
		i++
		if w.m != "" {
			if string(f.M) != w.m || len(f.B) > 0 || f.E != nil || !f.T.IsZero() {
				return fmt.Errorf("wrong message frame %d, %s", i-1, text())
			}
			continue
		}
		if f.T.Before(w.t0) || f.T.After(w.t1) {
			return fmt.Errorf("frame %d has time %v, not within %v and %v, %s", i-1, f.T, w.t0, w.t1, text())
		}
		if (f.E == nil) != (w.e == nil) || f.E != nil && f.E.Error() != w.e.Error() {
			return fmt.Errorf("wrong error in frame %d, %s", i-1, text())
		}
		if f.M != nil {
			return fmt.Errorf("unexpected message in frame %d, %s", i-1, text())
		}
		if !strings.Contains(f.String(), fmt.Sprintf("%q", f.B)) && len(f.B) > 0 {
			return fmt.Errorf("frame %d prints as %s", i-1, f)
		}
		b := string(f.B)
		if apcIn(w.b) {
			// split around messages
			for i < len(rep) && len(b) < len(w.b) {
				f2 := rep[i]
				i++
				switch {
				case f2.M != nil && len(f2.B) == 0 && f2.E == nil && f2.T.IsZero():
					b += "\x1b_" + string(f2.M) + "\x1b\\"
				case f2.M == nil && f2.E == nil && f2.T.Equal(f.T) && len(f2.B) > 0:
					b += string(f2.B)
				default:
					return fmt.Errorf("wrong frame %d, %s", i-1, text())
				}
			}
		}
		if b != w.b {
			return fmt.Errorf("wrong input in frame %d, %s", i-1, text())
		}
	}
	if i < len(rep) {
		return fmt.Errorf("more frames than reads, %s", text())
	}
	return nil
}

var recSymbols = []string{
	"", "a", "\x1b", "[", "A", "_", "\\", "\x1b_x", "\x1b_recTime:", "é", "\xc3", "\xa9", "\x00", "\x1b[A", "\x1b]t\x07", "\x1b_y:1\x1b\\", "\x9c", "\x18", "\x1b]u\x1b\\", "\x1bPq", "\u009f",
}

// checkRecord records reads of input in every small division, with errors and
// messages in between, and compares the replay with what was read.
func checkRecord(c *h.C) {
	reads, syms := 2, c.Pick(2, 3)
	c.Bound("reads", reads)
	c.Bound("symbols", fmt.Sprintf("%q", recSymbols))
	c.Bound("symbols_per_read", syms)

	// histories: reads of whole alphabet, one symbol each
	ops := 4
	c.Bound("operations", ops)
	controls := []string{"end of input", "closed", "stop recording", "record on", "fail to record", "message", "nothing"}
	c.Bound("controls", controls)
	run := func(ch *h.Choose, ops int, pick func(ch *h.Choose) (string, int)) {
		rf := recPool.Get().(*recFiles)
		failed := false
		defer func() {
			if !failed { // i.e. nothing is left in the pipe
				recPool.Put(rf)
			}
		}()
		in := &anansi.Input{File: rf.r}
		var dest recDest
		recording := true
		in.SetRecording(&dest)
		var want []recRead
		var log, all strings.Builder
		bad := func(format string, args ...interface{}) {
			failed = true
			c.Violate(fmt.Sprint("record:", ops, ch.Path()), "%s\n%s", log.String(), fmt.Sprintf(format, args...))
		}
		closed := false
		for step := 0; step < ops; step++ {
			c.Transitions(1)
			s, ctl := pick(ch)
			more := false
			if ctl < 0 {
				more = s != "" && len(s) < 60 && ch.N(2) == 1 // ReadMore may get less of long ones
				fmt.Fprintf(&log, "%q", s)
				if s != "" && !closed && in.File == rf.r {
					if _, err := syscall.Write(rf.w, []byte(s)); err != nil {
						panic(err)
					}
				} else {
					s = ""
				}
				if closed || in.File != rf.r {
					return
				}
			} else {
				log.WriteString(controls[ctl])
				switch controls[ctl] {
				case "end of input":
					if in.File != rf.r {
						return
					}
					in.File = rf.null
					more = ch.N(2) == 1
				case "closed":
					if closed {
						return
					}
					r, w, err := os.Pipe()
					if err != nil {
						panic(err)
					}
					w.Close()
					r.Close()
					in.File = r
					closed = true
					more = true
				case "stop recording":
					if !recording {
						return
					}
					in.SetRecording(nil)
					recording = false
				case "record on":
					if recording {
						return
					}
					in.SetRecording(&dest)
					recording = true
				case "fail to record":
					if dest.fail || !recording {
						return
					}
					dest.fail = true
				case "message":
					if !recording || dest.fail {
						return
					}
					dest.WriteString("\x1b_resize:12,34\x1b\\")
					want = append(want, recRead{m: "resize:12,34"})
				case "nothing":
					if closed || in.File != rf.r {
						return
					}
					more = false
				}
				switch controls[ctl] {
				case "end of input", "closed", "nothing":
				default:
					log.WriteString("; ")
					continue
				}
			}
			if in.IsRecording(nil) != recording {
				bad("IsRecording is %v", !recording)
			}
			t0 := time.Now().Round(0)
			var n int
			var err error
			if more {
				log.WriteString(" ReadMore; ")
				n, err = in.ReadMore()
			} else {
				log.WriteString(" ReadAny; ")
				n, err = in.ReadAny()
			}
			t1 := time.Now().Round(0)
			if n != len(s) {
				bad("read %d, %v", n, err)
				return
			}
			all.WriteString(s)
			if recording && !dest.fail {
				want = append(want, recRead{t0: t0, t1: t1, e: err, b: s})
			} else if recording && err == nil {
				bad("failing to record is not reported")
				return
			}
			if dest.fail {
				dest.fail = false
			}
		}
		rep, err := rf.replayOf(dest.Bytes())
		if err != nil {
			bad("ReadInputReplay of %q fails: %v", dest.String(), err)
		} else if err := checkReplay(rep, want); err != nil {
			bad("%v\nrecorded %q", err, dest.String())
		}
		if len(rep) > 0 && len(want) > 0 {
			if d := rep.Duration(); rep[0].M == nil && rep[len(rep)-1].M == nil && d != rep[len(rep)-1].T.Sub(rep[0].T) {
				bad("Duration is %v", d)
			}
		}
		// recording doesn't disturb the input
		var toks, want2 tokRec
		for {
			e, a, ok := in.Decode()
			if !ok {
				break
			}
			toks.ProcessANSI(e, a)
		}
		in2 := &anansi.Input{File: rf.mem}
		rf.mem.Truncate(0)
		rf.mem.WriteAt([]byte(all.String()), 0)
		rf.mem.Seek(0, io.SeekStart)
		for got := 0; got < all.Len(); {
			n, err := in2.ReadMore()
			if err != nil {
				panic(err)
			}
			got += n
		}
		in2.File = rf.null
		if in.AtEOF() {
			in2.ReadMore()
		}
		for {
			e, a, ok := in2.Decode()
			if !ok {
				break
			}
			want2.ProcessANSI(e, a)
		}
		if g, w := normTok(toks.toks), normTok(want2.toks); g != w {
			bad("input %q decodes as %s, want %s", all.String(), g, w)
		}
		c.Traces(1)
		c.StateS(fmt.Sprint(want))
	}
	c.Explore(2, func(ch *h.Choose) {
		run(ch, ops, func(ch *h.Choose) (string, int) {
			i := ch.N(len(recSymbols) + len(controls) - 1) // "" is the control "nothing"
			if i < len(controls) {
				return "", i
			}
			return recSymbols[i-len(controls)+1], -1
		})
	})
	// reads of several symbols
	few := recSymbols
	if syms > 2 {
		few = []string{"", "a", "\x1b", "_", "\\", "\x1b_recTime:", "\xc3", "\x1b_y:1\x1b\\", "\x1b]u\x1b\\", "\x1b_recReadErr:"}
	}
	c.Bound("symbols_of_longer_reads", fmt.Sprintf("%q", few))
	c.Explore(2, func(ch *h.Choose) {
		run(ch, reads, func(ch *h.Choose) (string, int) {
			s := ""
			for i := 0; i < syms; i++ {
				s += few[ch.N(len(few))]
			}
			if i := strings.Index(s, "\x1b_rec"); i >= 0 && apcIn(s[i:]) {
				s = "" // the format can't tell these from its own marks
			}
			return s, -1
		})
	})
	// large reads
	texts := bigTexts(c)
	c.Explore(1, func(ch *h.Choose) {
		i := ch.N(len(texts))
		run(ch, reads+1, func(ch *h.Choose) (string, int) {
			if k := ch.N(3); k == 0 {
				return texts[i].s, -1
			} else if k == 1 {
				return texts[(i*7+4)%len(texts)].s, -1
			}
			return "", len(controls) - 2 // a message
		})
	})
}
