package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"unsafe"

	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/h"
	log "verif.local/mc/vlog"
	"verif.local/mc/vs"
)

func init() { h.Register("C23", checkLogSink) }

// where the standard log goes at first
var stdLog = log.Writer()

// memFile is a file in memory.
type memFile struct {
	f    *os.File // closed by its user
	keep int      // to read what was written
	kind byte
	got  []byte // drained from a pipe
	w    int
}

func memfd() int {
	name := [2]byte{'x'}
	fd, _, e := syscall.Syscall(319 /* memfd_create */, uintptr(unsafe.Pointer(&name)), 1, 0)
	if e != 0 {
		panic(e)
	}
	return int(fd)
}

// newFile makes a file: one that works, one that cannot be written, or one
// that is full until drained.
func newFile(kind byte, name string) *memFile {
	m := &memFile{kind: kind}
	switch kind {
	case 'f':
		var fds [2]int
		if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
			panic(err)
		}
		syscall.Syscall(syscall.SYS_FCNTL, uintptr(fds[1]), 1031 /* F_SETPIPE_SZ */, 4096)
		syscall.SetNonblock(fds[0], true)
		m.keep = fds[0]
		m.f = os.NewFile(uintptr(fds[1]), name)
		m.w, _ = syscall.Dup(fds[1])
		syscall.SetNonblock(fds[1], true)
		syscall.Write(fds[1], make([]byte, 4096))
	case 'b':
		m.keep = memfd()
		fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			panic(err)
		}
		m.f = os.NewFile(uintptr(fd), name)
	default:
		m.keep = memfd()
		fd, err := syscall.Dup(m.keep)
		if err != nil {
			panic(err)
		}
		m.f = os.NewFile(uintptr(fd), name)
	}
	return m
}

func (m *memFile) drain() {
	if m.kind != 'f' {
		return
	}
	var b [8192]byte
	for {
		n, err := syscall.Read(m.keep, b[:])
		if n <= 0 || err != nil {
			return
		}
		m.got = append(m.got, bytes.Trim(b[:n], "\x00")...)
	}
}

func (m *memFile) content() string {
	if m.kind == 'f' {
		m.drain()
		return string(m.got)
	}
	var b [4096]byte
	n, _ := syscall.Pread(m.keep, b[:], 0)
	if n < 0 {
		n = 0
	}
	return string(b[:n])
}

func (m *memFile) size() int64 {
	if m.kind == 'f' {
		return 0
	}
	var st syscall.Stat_t
	syscall.Fstat(m.keep, &st)
	return st.Size
}

func (m *memFile) close() {
	m.f.Close()
	syscall.Close(m.keep)
	if m.kind == 'f' {
		syscall.Close(m.w)
	}
}

// written is a call of Write, from its first to its last step.
type written struct {
	s          string
	start, end int
	by         int
	at         int // place in memory
	err        error
}

// span is a call of something else.
type span struct {
	op         byte
	start, end int
	to         int // file, of SetFile
	err        error
}

const never = 1 << 30

type sinkRun struct {
	logs   *platform.LogSink
	files  []*memFile // 0 is none
	kind   byte       // of the first
	writes []*written
	spans  []*span
	bad    string
	errs   int
	reads  []reading
}

type reading struct {
	b, bCopy       []byte
	eols, eolsCopy []int
	step           int
}

func (sr *sinkRun) fail(format string, args ...interface{}) {
	if sr.bad == "" {
		sr.bad = fmt.Sprintf(format, args...)
	}
}

func (sr *sinkRun) write(by int, s string) error {
	w := &written{s: s, start: vs.Step(), end: never, by: by, at: -1}
	sr.writes = append(sr.writes, w)
	n, err := sr.logs.Write([]byte(s))
	w.end = vs.Step()
	w.err = err
	if err != nil {
		sr.errs++
	} else if n != len(s) {
		sr.fail("Write of %d bytes returns %d without an error", len(s), n)
	}
	return err
}

// Write is what the log package does.
func (sr *sinkRun) Write(p []byte) (int, error) { return len(p), sr.write(-1, string(p)) }

// dest is the file in effect during a span of steps; false if it changes.
func (sr *sinkRun) dest(start, end int) (to int, ok bool) {
	for _, sp := range sr.spans {
		if sp.to < 0 || sp.op == 'R' {
			continue
		}
		if sp.end < start {
			to = sp.to
		} else if sp.start < end {
			return 0, false
		}
	}
	return to, true
}

func (sr *sinkRun) op(o byte) {
	sp := &span{op: o, start: vs.Step(), end: never, to: -1}
	sr.spans = append(sr.spans, sp)
	switch o {
	case 'N':
		sp.err = sr.logs.Notify()
	case 'S':
		sp.err = sr.logs.Stop()
	case 'T':
		sp.err = sr.logs.Start()
	case '0', '1', '2':
		var f *os.File
		to, _ := sr.dest(sp.start, sp.start)
		switch {
		case o == '0':
			to = 0
		case o == '2' || to == 0:
			kind := sr.kind
			if len(sr.files) > 1 {
				kind = 'o'
			}
			to = len(sr.files)
			sr.files = append(sr.files, newFile(kind, fmt.Sprint("file", to)))
		}
		if sp.to = to; to > 0 {
			f = sr.files[to].f
		}
		sp.err = sr.logs.SetFile(f)
	case 'D':
		for _, f := range sr.files[1:] {
			f.drain()
		}
	case 'R':
		b, eols := sr.logs.Contents()
		var want []int
		for i, c := range b {
			if c == '\n' {
				want = append(want, i)
			}
		}
		if len(b) > 0 && b[len(b)-1] != '\n' {
			want = append(want, len(b))
		}
		if fmt.Sprint(eols) != fmt.Sprint(want) {
			sr.fail("Contents returns %q, with ends of lines at %v", b, eols)
		}
		sr.reads = append(sr.reads, reading{b, append([]byte(nil), b...), eols, append([]int(nil), eols...), vs.Step()})
	}
	sp.end = vs.Step()
	if sp.err != nil {
		sr.errs++
	}
}

// order finds the order of all writes that makes up content, keeping with the
// order in which they happened.
func (sr *sinkRun) order(content string) bool {
	n := 0
	var rec func(rest string) bool
	rec = func(rest string) bool {
		if n == len(sr.writes) {
			return rest == ""
		}
		for _, w := range sr.writes {
			if w.at >= 0 || !strings.HasPrefix(rest, w.s) {
				continue
			}
			early := false
			for _, o := range sr.writes {
				early = early || o.at < 0 && o != w && o.end < w.start
			}
			if early {
				continue
			}
			w.at = n
			n++
			if rec(rest[len(w.s):]) {
				return true
			}
			n--
			w.at = -1
		}
		return false
	}
	return rec(content)
}

// started tells whether the worker was to run at all steps of a span, if ok.
func (sr *sinkRun) started(start, end int) (on, ok bool) {
	to := 0
	for _, sp := range sr.spans {
		if sp.start >= end {
			break
		}
		change := sp.op == 'S' || sp.op == 'T' || sp.to >= 0
		if sp.end > start && change {
			return false, false
		}
		switch {
		case sp.to >= 0:
			if sp.to != to {
				on = sp.to > 0
			}
			to = sp.to
		case sp.op == 'T':
			on = to > 0
		case sp.op == 'S':
			on = false
		}
	}
	return on, true
}

func (sr *sinkRun) finish(bad bool) {
	b, _ := sr.logs.Contents()
	mem := string(b)
	if !sr.order(mem) {
		var all []string
		for _, w := range sr.writes {
			all = append(all, w.s)
		}
		sr.fail("memory has %q, want all of %q", mem, all)
		return
	}
	for _, rd := range sr.reads {
		if !bytes.Equal(rd.b, rd.bCopy) || fmt.Sprint(rd.eols) != fmt.Sprint(rd.eolsCopy) {
			sr.fail("what Contents returned changes from %q %v to %q %v", rd.bCopy, rd.eolsCopy, rd.b, rd.eols)
		}
		if !strings.HasPrefix(mem, string(rd.bCopy)) {
			sr.fail("Contents returned %q, later %q", rd.bCopy, mem)
		}
	}
	// what is in which file
	byPlace := make([]*written, len(sr.writes))
	for _, w := range sr.writes {
		byPlace[w.at] = w
	}
	contents := make([]string, len(sr.files))
	for i, f := range sr.files {
		if i > 0 {
			contents[i] = f.content()
		}
	}
	// each write goes to at most one of the files it may go to: find whether
	// the contents can be made of them in order
	var rec func(k int, rest []string) bool
	rec = func(k int, rest []string) bool {
		if k == len(byPlace) {
			for _, r := range rest {
				if r != "" {
					return false
				}
			}
			return true
		}
		w := byPlace[k]
		to, ok := sr.dest(w.start, w.end)
		for i := range sr.files {
			may := i == to && ok || !ok && (i == 0 || sr.could(i, w))
			if i > 0 && ok && i == to && sr.lossy(i) && rec(k+1, rest) { // what cannot be written may be missing
				return true
			}
			if !may {
				continue
			}
			if i == 0 {
				if rec(k+1, rest) {
					return true
				}
			} else if strings.HasPrefix(rest[i], w.s) {
				r := append([]string(nil), rest...)
				r[i] = r[i][len(w.s):]
				if rec(k+1, r) {
					return true
				}
			}
		}
		return false
	}
	if !rec(0, contents) {
		sr.fail("files have %q of %q", contents[1:], mem)
	}
	// what is written without an error while stopped is in the file, along with
	// all that was written before
	for _, w := range sr.writes {
		to, ok := sr.dest(w.start, w.end)
		if on, sok := sr.started(w.start, w.end); w.err != nil || !ok || to == 0 || on || !sok {
			continue
		}
		for _, o := range sr.writes {
			if oto, ok := sr.dest(o.start, o.end); (o == w || o.end < w.start && ok && oto == to) && !strings.Contains(contents[to], o.s) {
				sr.fail("%q was written without an error while stopped, but %q is not in the file: %q", w.s, o.s, contents[to])
			}
		}
	}
	if bad {
		need := false
		for _, w := range sr.writes {
			if to, ok := sr.dest(w.start, w.end); ok && to > 0 && sr.files[to].kind == 'b' {
				need = true
			}
		}
		if need && sr.errs == 0 {
			sr.fail("no error is returned for a file that cannot be written")
		}
	}
}

// lossy tells whether file i failed, and was replaced before all was written.
func (sr *sinkRun) lossy(i int) bool {
	if sr.files[i].kind == 'b' {
		return true
	}
	if sr.files[i].kind != 'f' {
		return false
	}
	// all is written if the last thing done to it succeeded
	for k := len(sr.spans) - 1; k >= 0; k-- {
		sp := sr.spans[k]
		if sp.to >= 0 && sp.to == i {
			break
		}
		if sp.op == 'S' || sp.to >= 0 {
			if d, ok := sr.dest(sp.start, sp.start); ok && d == i {
				return sp.err != nil || sr.stopped(sp.start)
			}
		}
	}
	return true
}

// stopped is true if the worker was not running at a step, as stopping it then
// does nothing.
func (sr *sinkRun) stopped(at int) bool {
	on, ok := sr.started(at, at)
	return !ok || !on
}

// could tells whether a write that overlaps changes of the file may go to i.
func (sr *sinkRun) could(i int, w *written) bool {
	to := 0
	for _, sp := range sr.spans {
		if sp.to < 0 || sp.start > w.end {
			continue
		}
		if sp.end < w.start {
			to = sp.to
		} else if sp.to == i {
			return true
		}
	}
	return to == i
}

type sinkScenario struct {
	first   string // before any writer starts
	ops     string
	writers []string // each writes its characters
	kind    byte
	bound   int
}

func (sc sinkScenario) String() string {
	return fmt.Sprintf("ops %s,%s writers %v files %c", sc.first, sc.ops, sc.writers, sc.kind)
}

var sinkTokens = map[byte]string{'a': "a\n", 'b': "b", 'c': "c\nC\n", 'd': "d\n", 'e': "\n", 'f': "f\nF"}

func runSink(c *h.C, sc sinkScenario, ch *h.Choose) {
	sr := &sinkRun{logs: new(platform.LogSink), files: []*memFile{nil}, kind: sc.kind}
	log.SetOutput(sr)
	res := vs.Run(ch.N, sc.bound, func() {
		for i := range sc.first {
			sr.op(sc.first[i])
		}
		left := len(sc.writers)
		for i, ws := range sc.writers {
			i, ws := i, ws
			vs.GoNamed(fmt.Sprint("writer ", i+1), func() {
				for k := range ws {
					sr.write(i+1, sinkTokens[ws[k]])
				}
				left--
			})
		}
		m := 0
		quiet := map[int]int64{} // sizes that must not change before the next notification
		checkQuiet := func() {
			for f, n := range quiet {
				if g := sr.files[f].size(); g != n {
					sr.fail("%d bytes were written to file %d before a notification", g-n, f)
				}
			}
			quiet = map[int]int64{}
		}
		for i := range sc.ops {
			o := sc.ops[i]
			if o != 'W' && o != 'R' && o != 'D' {
				checkQuiet()
			}
			before, _ := sr.dest(vs.Step(), vs.Step())
			switch o {
			case 'W':
				m++
				sr.write(0, fmt.Sprintf("m%d\n", m))
			case 'T':
				on, _ := sr.started(vs.Step(), vs.Step())
				// nobody else may be writing directly
				sr.op(o)
				if to, _ := sr.dest(vs.Step(), vs.Step()); to > 0 && !on && left == 0 {
					quiet[to] = sr.files[to].size()
				}
			default:
				sr.op(o)
			}
			if o == 'S' || o >= '0' && o <= '2' {
				if sp := sr.spans[len(sr.spans)-1]; sp.to != before {
					sr.durable(sp)
				}
			}
		}
		vs.Await("writers", func() bool { return left == 0 })
		checkQuiet()
		sr.op('S')
		sr.durable(sr.spans[len(sr.spans)-1])
		sr.op('R')
	})
	c.Transitions(res.Steps)
	switch {
	case res.Panic != "":
		sr.bad = res.Panic
	case res.Deadlock:
		sr.bad = "deadlock: " + strings.Join(res.Left, ", ")
	case len(res.Left) > 0:
		sr.bad = "left running: " + strings.Join(res.Left, ", ")
	case res.Endless:
		sr.bad = "does not end"
	default:
		sr.finish(sc.kind == 'b')
	}
	if sr.bad != "" {
		c.Violate("sink:"+sc.String(), "%v, schedule %v\n%s", sc, ch.Path(), sr.bad)
	}
	for _, f := range sr.files[1:] {
		f.close()
	}
}

// durable checks that all that was written before stopping, or changing the
// file, is in the file.
func (sr *sinkRun) durable(sp *span) {
	if sp.err != nil {
		return
	}
	for i, f := range sr.files[1:] {
		if f.kind != 'o' {
			continue
		}
		content := f.content()
		for _, w := range sr.writes {
			if w.end < sp.start {
				if to, ok := sr.dest(w.start, w.end); ok && to == i+1 && w.s != "\n" && !strings.Contains(content, w.s) {
					sr.fail("%q is not in file %d after %c: %q", w.s, i+1, sp.op, content)
				}
			}
		}
	}
}

func checkLogSink(c *h.C) {
	if stdLog != io.Writer(&platform.Logs) {
		c.Violate("log", "the standard log does not go to the log sink, but to %T", stdLog)
	}
	n := 3
	more := c.Pick(0, 1)
	bound, shallow := 1, 2
	c.Bound("operations", n+more)
	c.Bound("operation alphabet", "W: write; N: Notify; S: Stop; T: Start; 0: SetFile(nil); 1: SetFile of the same file; 2: SetFile of a new file; R: Contents; D: a full file gets room")
	c.Bound("preemptions", bound)
	c.Bound("preemptions with up to 2 operations", shallow)
	writers := [][]string{{"ab"}, {"b", "c"}}
	c.Bound("concurrent writers", fmt.Sprint(writers))
	var scs []sinkScenario
	alphabet := "WNST012R"
	var rec func(ops string, n int, f func(ops string))
	rec = func(ops string, n int, f func(ops string)) {
		f(ops)
		if n > 0 {
			for _, o := range alphabet {
				rec(ops+string(o), n-1, f)
			}
		}
	}
	rec("", n+more, func(ops string) {
		scs = append(scs, sinkScenario{"1", ops, []string{"ab"}, 'o', bound})
		if len(ops) < n {
			scs = append(scs,
				sinkScenario{"", ops, []string{"bc"}, 'o', bound},
				sinkScenario{"1", ops, []string{"b", "c"}, 'o', bound})
		}
	})
	alphabet = "WNSTD2"
	rec("", n+1, func(ops string) {
		scs = append(scs, sinkScenario{"1", ops, nil, 'b', bound}, sinkScenario{"1", ops, nil, 'f', bound})
		if len(ops) < n {
			scs = append(scs, sinkScenario{"1", ops, []string{"ab"}, 'b', bound}, sinkScenario{"1", ops, []string{"ab"}, 'f', bound})
		}
	})
	for i := range scs {
		if len(scs[i].ops) <= 2 && len(scs[i].writers) < 2 {
			scs[i].bound = shallow
		}
	}
	c.Bound("scenarios", len(scs))
	c.Procs(len(scs), func(job int) {
		sc := scs[job]
		c.StateS(sc.String())
		if job%500 == 123 {
			c.Sample("%v", sc)
		}
		viols := c.Violations()
		c.ExploreSeq(func(ch *h.Choose) {
			if c.Violations() > viols {
				return
			}
			runSink(c, sc, ch)
		})
	})
}
