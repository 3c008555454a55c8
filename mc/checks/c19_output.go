package checks

import (
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() { h.Register("C19", checkOutput) }

const pipeSize = 4096

// drainPipe is a small pipe to flush to.
type drainPipe struct {
	r, w int
	file *os.File
	got  []byte
	mu   sync.Mutex
}

var outKinds = []string{"blocking", "set non-blocking", "opened non-blocking", "os.Pipe"}

func newDrain(kind int) *drainPipe {
	var p drainPipe
	var fds [2]int
	if kind == 3 {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		p.file, p.w = w, -1
		if p.r, err = syscall.Dup(int(r.Fd())); err != nil {
			panic(err)
		}
		r.Close()
	} else {
		if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
			panic(err)
		}
		p.r, p.w = fds[0], fds[1]
		if kind == 2 {
			setFdFlags(p.w, fdFlags(p.w)|syscall.O_NONBLOCK)
		}
		p.file = dupFile(p.w, "out")
		if kind == 1 {
			setFdFlags(p.w, fdFlags(p.w)|syscall.O_NONBLOCK)
		}
	}
	syscall.Syscall(syscall.SYS_FCNTL, uintptr(p.r), 1031 /* F_SETPIPE_SZ */, pipeSize)
	setFdFlags(p.r, fdFlags(p.r)|syscall.O_NONBLOCK)
	return &p
}

func (p *drainPipe) held() int {
	var n int32
	ioctl(p.r, 0x541B /* FIONREAD */, unsafe.Pointer(&n))
	return int(n)
}

// drain reads at most max of what is there.
func (p *drainPipe) drain(max int) int {
	var b [8192]byte
	if max > len(b) {
		max = len(b)
	}
	n, _ := syscall.Read(p.r, b[:max])
	if n > 0 {
		p.got = append(p.got, b[:n]...)
	}
	return n
}

func (p *drainPipe) closeR() {
	if p.r >= 0 {
		syscall.Close(p.r)
	}
	p.r = -1
}

func (p *drainPipe) close() {
	p.closeR()
	if p.w >= 0 {
		syscall.Close(p.w)
	}
	p.file.Close()
}

// checkOutput explores histories of flushing to a file that fills up, is
// drained meanwhile, or is closed.
func checkOutput(c *h.C) {
	depth := c.Pick(2, 3)
	sizes := []int{0, 3, pipeSize - 1, pipeSize, pipeSize + 1, 3*pipeSize + 7}
	tracks := []int{0, 1, 2}
	if depth > 2 {
		sizes = []int{3, pipeSize - 1, pipeSize + 1, 3*pipeSize + 7}
		tracks = tracks[1:]
	}
	c.Bound("flushes", depth)
	c.Bound("tracked stalls", tracks)
	c.Bound("files", outKinds)
	c.Bound("sizes", sizes)
	writers := []string{"Buffer", "Cursor", "Screen"}
	c.Bound("writers", writers)
	c.Explore(4, func(ch *h.Choose) {
		kind := ch.N(len(outKinds))
		p := newDrain(kind)
		defer p.close()
		out := &anansi.Output{File: p.file}
		track := tracks[ch.N(len(tracks))]
		out.TrackStalls(track)
		flags := -1
		if p.w >= 0 {
			flags = fdFlags(p.w)
		}
		wk := ch.N(len(writers))
		var log strings.Builder
		fmt.Fprintf(&log, "%s, %s, tracking %d stalls:", outKinds[kind], writers[wk], track)
		failed := false
		bad := func(format string, args ...interface{}) {
			if !failed {
				failed = true
				c.Violate(fmt.Sprint("output:", ch.Path()), "%s\n%s", log.String(), fmt.Sprintf(format, args...))
			}
		}
		var want []byte
		var buf anansi.Buffer
		var cur, cur2 anansi.VirtualCursor
		var scr, scr2 anansi.ScreenDiffer
		if wk == 2 {
			scr.Resize(image.Pt(100, 130))
			scr2.Resize(image.Pt(100, 130))
		}
		minStalls, maxStalls, sent := 0, 0, 0
		for step := 0; step < depth && !failed; step++ {
			c.Transitions(1)
			size := sizes[ch.N(len(sizes))]
			text := make([]byte, size)
			for i := range text {
				text[i] = byte('!' + (sent+i)%89)
			}
			sent += size
			var wer io.WriterTo
			var mem strings.Builder
			switch wk {
			case 0:
				buf.Write(text)
				mem.Write(text)
				wer = &buf
			case 1:
				cur.Write(text)
				cur2.Write(text)
				cur2.WriteTo(&mem)
				wer = &cur
			case 2:
				draw := func(s *anansi.ScreenDiffer) {
					s.To(ansi.Pt(1, 1))
					for len(text) > 0 {
						n := 100
						if n > len(text) {
							n = len(text)
						}
						s.Write(text[:n])
						s.WriteString("\r\n")
						text = text[n:]
					}
				}
				t := text
				draw(&scr)
				text = t
				draw(&scr2)
				scr2.WriteTo(&mem)
				wer = &scr
			}
			frame := mem.String()
			how := []string{"then drain", "then leave", "drain meanwhile", "drain slowly meanwhile", "close meanwhile", "close before"}
			room := pipeSize - p.held()
			fits := len(frame) <= room
			// the kernel keeps small writes together, and packs pages loosely:
			// only these are certain
			if !fits || p.held() > 0 && len(frame) > 0 {
				how = how[2:]
			}
			o := how[ch.N(len(how))]
			fmt.Fprintf(&log, " flush %d of which %d fit, %s;", len(frame), room, o)
			res := make(chan error, 1)
			if o == "close before" {
				p.closeR()
			}
			fits0 := fits && o != "close before"
			held0 := 0
			if p.r >= 0 {
				held0 = p.held()
			}
			go func() { res <- out.Flush(wer) }()
			var err error
			done := false
			t0 := time.Now()
			for !done {
				select {
				case err = <-res:
					done = true
					continue
				default:
				}
				if time.Since(t0) > 20*time.Second {
					bad("Flush hangs")
					return
				}
				blocked := p.r >= 0 && p.held() > 0 && (flags < 0 || fdFlags(p.w)&syscall.O_NONBLOCK == 0 || kind == 2)
				switch {
				case !blocked:
				case o == "drain meanwhile":
					p.drain(1 << 20)
				case o == "drain slowly meanwhile":
					p.drain(1500)
				case o == "close meanwhile":
					if !fits { // the rest has nowhere to go
						p.closeR()
					}
				}
				if !done {
					time.Sleep(5 * time.Microsecond)
				}
			}
			if p.w >= 0 && fdFlags(p.w) != flags {
				bad("file flags are left as %x, were %x", fdFlags(p.w), flags)
			}
			if p.r < 0 { // closed
				if len(frame) > 0 {
					if fits0 || !errors.Is(err, syscall.EPIPE) {
						bad("Flush returns %v", err)
					}
					if o == "close before" && out.Flushed != 0 {
						bad("Flushed is %d", out.Flushed)
					}
				} else if err != nil {
					bad("an empty Flush returns %v", err)
				}
				if g := string(p.got); !strings.HasPrefix(string(want)+frame, g) {
					bad("wrote something else")
				}
				return
			}
			want = append(want, frame...)
			if err != nil || out.Flushed != len(frame) {
				bad("Flush returns %v, Flushed is %d", err, out.Flushed)
			}
			if o != "then leave" {
				for p.drain(1<<20) > 0 {
				}
				if string(p.got) != string(want) {
					bad("wrote %d bytes, want %d, or not the same", len(p.got), len(want))
				}
			}
			// a stall is a write that did not fit, on a non-blocking file
			if kind == 1 && track > 0 && (!fits || held0 > 0 && len(frame) > 0) {
				if maxStalls < track {
					maxStalls++
				}
				if !fits && minStalls < track {
					minStalls++
				}
			}
			c.StateS(fmt.Sprint(kind, wk, room, len(frame), minStalls, maxStalls))
			if consume := ch.N(3); consume < 2 {
				got := out.Stalls(consume == 1)
				if len(got) < minStalls || len(got) > maxStalls || (got == nil) != (track == 0) {
					bad("Stalls are %d, want %d..%d", len(got), minStalls, maxStalls)
				}
				for _, d := range got {
					if d <= 0 || d > time.Minute {
						bad("stalled for %v", d)
					}
				}
				if minStalls, maxStalls = len(got), len(got); maxStalls == track || consume == 1 {
					minStalls, maxStalls = 0, 0
				}
			}
		}
	})
}
