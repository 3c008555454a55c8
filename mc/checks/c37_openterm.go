package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() {
	if s := os.Getenv("VERIF_OPENTERM"); s != "" {
		openTermProgram(s)
		os.Exit(0)
	}
	h.Register("C37", checkOpenTerm)
}

// otJob is how a program is started, and what it does.
type otJob struct {
	In, Out string // A and B are terminals
	Tty     string // terminal that controls it, if any
	More    int    // files that it may open, or -1
	End     string
	Async   bool
}

func (j otJob) String() string {
	s := fmt.Sprintf("standard input is %s, output is %s, controlling terminal is %q, ends by %s, async %v", j.In, j.Out, j.Tty, j.End, j.Async)
	if j.More >= 0 {
		s += fmt.Sprintf(", can open %d files", j.More)
	}
	return s
}

// otReport is what a program tells.
type otReport struct {
	Err           string
	Nil           bool // no Term
	Std           [2]bool
	IsTerm        [3]bool
	Names         [2]string
	Named         [2]bool
	Fds           [2]int // open, before and after
	Sizes         [2]image.Point
	Ran           bool // once done
	RunErr, Panic string
}

func (j otJob) is(kind string) bool { return kind == "A" || kind == "B" }

// openTermProgram is the program that's started.
func openTermProgram(s string) {
	var j otJob
	if err := json.Unmarshal([]byte(s), &j); err != nil {
		panic(err)
	}
	var rep otReport
	report := os.NewFile(3, "report")
	tell := func() {
		b, _ := json.Marshal(rep)
		report.Write(append(b, '\n'))
	}
	// so that the runtime needs no more files
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	r.Close()
	w.Close()
	os.ReadDir("/proc/self/fd")
	if j.More >= 0 {
		fd, err := syscall.Dup(3)
		if err != nil {
			panic(err)
		}
		syscall.Close(fd)
		lim := syscall.Rlimit{Cur: uint64(fd + j.More), Max: uint64(fd + j.More)}
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			panic(err)
		}
	}
	count := func() (n int) {
		for fd := 0; fd < 100; fd++ {
			if fdFlags(fd) != -1 {
				n++
			}
		}
		return n
	}
	rep.Fds[0] = count()
	term, err := anansi.OpenTerm()
	rep.Fds[1] = count()
	if err != nil {
		rep.Err = err.Error()
		rep.Nil = term == nil
		tell()
		os.Stdout.WriteString("alive")
		return
	}
	files := [2]*os.File{term.Input.File, term.Output.File}
	rep.Std = [2]bool{files[0] == os.Stdin, files[1] == os.Stdout}
	rep.IsTerm = [3]bool{anansi.IsTerminal(files[0]), anansi.IsTerminal(files[1]), term.IsTerminal()}
	for i, f := range files {
		rep.Names[i] = f.Name()
		rep.Named[i] = anansi.IsStandardTermFile(f)
	}
	if j.Async {
		c := make(chan os.Signal, 1)
		if err := term.Input.Notify(c); err != nil {
			panic(err)
		}
	}
	if err := term.SetRaw(true); err != nil {
		panic(err)
	}
	term.AddMode(ansi.ModeAlternateScreen)
	func() {
		defer func() {
			if e := recover(); e != nil {
				rep.Panic = fmt.Sprint(e)
			}
		}()
		err := term.RunWith(func(term *anansi.Term) error {
			rep.Sizes[0], _ = term.Size()
			var buf anansi.Buffer
			buf.WriteString("<hello>")
			if err := term.Flush(&buf); err != nil {
				return err
			}
			tell()
			for {
				var err error
				if j.Async {
					time.Sleep(time.Millisecond)
					_, err = term.ReadAny()
				} else {
					_, err = term.ReadMore()
				}
				for {
					e, _, ok := term.Decode()
					if !ok {
						break
					}
					fmt.Fprintf(&buf, "<%v>", e)
					if e == 'q' {
						if err := term.Flush(&buf); err != nil {
							return err
						}
						switch j.End {
						case "an error":
							return errors.New("that's it")
						case "a panic":
							panic("that's it")
						}
						return nil
					}
				}
				if err != nil {
					return err
				}
			}
		})
		if err != nil {
			rep.RunErr = err.Error()
		}
	}()
	rep.Ran = true
	tell()
}

// checkOpenTerm decides C37.
func checkOpenTerm(c *h.C) {
	kinds := []string{"A", "B", "a pipe", "a file", "null", "closed"}
	ttys := []string{"", "A", "B"}
	ends := []string{"return", "an error", "a panic"}
	var jobs []otJob
	for _, in := range kinds {
		for _, out := range kinds {
			for _, tty := range ttys {
				for more := -1; more <= 2; more++ {
					for _, end := range ends {
						if end != "return" && more >= 0 && !c.Thorough() {
							continue
						}
						for _, async := range []bool{false, true} {
							jobs = append(jobs, otJob{in, out, tty, more, end, async})
						}
					}
				}
			}
		}
	}
	c.Bound("standard files", kinds)
	c.Bound("controlling terminals", ttys)
	c.Bound("programs", len(jobs))
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "open")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		if c.Violations() >= 20 {
			return
		}
		c.StateS(j.String())
		if i%100 == 7 {
			c.Sample("%v", j)
		}
		openTerm(c, j, filepath.Join(dir, fmt.Sprint(i)))
		c.Traces(1)
	})
}

// otShown collects what is shown on a terminal.
func otShown(p *pty, got *bytes.Buffer, until string, d time.Duration) bool {
	for end := time.Now().Add(d); ; time.Sleep(time.Millisecond) {
		got.Write(p.drain())
		if strings.Contains(got.String(), until) {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

func openTerm(c *h.C, j otJob, dir string) {
	bad := func(format string, args ...interface{}) {
		c.Violate(j.String(), "%v: %s", j, fmt.Sprintf(format, args...))
	}
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	// terminals that are not used again, as they may control a session
	ptys := map[string]*pty{}
	for i, name := range []string{"A", "B"} {
		p, err := openPty()
		if err != nil {
			panic(err)
		}
		defer p.Close()
		p.setSize(uint16(40+i), uint16(20+i))
		ptys[name] = p
	}
	var closes []io.Closer
	defer func() {
		for _, f := range closes {
			f.Close()
		}
	}()
	use := func(f *os.File, err error) *os.File {
		if err != nil {
			panic(err)
		}
		closes = append(closes, f)
		return f
	}
	open := func(kind, name string) *os.File {
		switch kind {
		case "A", "B":
			// not the same open file
			return use(os.OpenFile(ptys[kind].name, os.O_RDWR|syscall.O_NOCTTY, 0))
		case "a file":
			f := use(os.Create(filepath.Join(dir, name)))
			if name == "in" {
				f.WriteString("zzzq")
				f.Seek(0, 0)
			}
			return f
		case "null":
			return use(os.OpenFile(os.DevNull, os.O_RDWR, 0))
		}
		return nil
	}
	b, _ := json.Marshal(j)
	// the standard files are given as the program's, whatever they are
	in, out := open(j.In, "in"), open(j.Out, "out")
	var outPipe *os.File
	if j.In == "a pipe" {
		r, w, err := os.Pipe()
		in = use(r, err)
		use(w, nil).WriteString("zzzq")
	}
	if j.Out == "a pipe" {
		r, w, err := os.Pipe()
		out = use(w, err)
		outPipe = use(r, nil)
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	use(rr, nil)
	// an os/exec child always has its standard files: those closed are closed by a shell
	redirect := ""
	if j.In == "closed" {
		redirect += " <&-"
	}
	if j.Out == "closed" {
		redirect += " >&-"
	}
	cmd := exec.Command(os.Args[0])
	if redirect != "" {
		cmd = exec.Command("/bin/sh", "-c", "exec \"$0\""+redirect, os.Args[0])
	}
	cmd.Env = append(os.Environ(), "VERIF_OPENTERM="+string(b), "GOMAXPROCS=2")
	if in != nil {
		cmd.Stdin = in
	}
	if out != nil {
		cmd.Stdout = out
	}
	errFile := use(os.Create(filepath.Join(dir, "err")))
	cmd.Stderr = errFile
	cmd.ExtraFiles = []*os.File{rw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if j.Tty != "" {
		// it is not the program's own to use
		ctty := use(os.OpenFile(ptys[j.Tty].name, os.O_RDWR|syscall.O_NOCTTY, 0))
		cmd.ExtraFiles = append(cmd.ExtraFiles, ctty)
		cmd.SysProcAttr.Setctty = true
		cmd.SysProcAttr.Ctty = 4
	}
	if err := cmd.Start(); err != nil {
		rw.Close()
		panic(err)
	}
	rw.Close()
	reports := make(chan otReport, 4)
	go func() {
		dec := json.NewDecoder(rr)
		for {
			var rep otReport
			if dec.Decode(&rep) != nil {
				close(reports)
				return
			}
			reports <- rep
		}
	}()
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	ended := false
	end := func() {
		if !ended {
			cmd.Process.Kill()
			<-exited
		}
	}
	defer end()
	next := func() (otReport, bool) {
		select {
		case rep, ok := <-reports:
			return rep, ok
		case <-time.After(20 * time.Second):
			return otReport{}, false
		}
	}
	wait := func() bool {
		select {
		case err := <-exited:
			ended = true
			if err != nil {
				e, _ := os.ReadFile(errFile.Name())
				if len(e) > 2000 {
					e = e[:2000]
				}
				bad("the program fails: %v\n%s", err, e)
				return false
			}
			return true
		case <-time.After(20 * time.Second):
			bad("the program does not end")
			return false
		}
	}
	c.Transitions(1)
	rep, ok := next()
	if !ok {
		if wait() {
			bad("the program tells nothing")
		}
		return
	}
	// what is to be expected
	need := 0
	where := [2]string{j.In, j.Out}
	for i, k := range where {
		if !j.is(k) {
			where[i] = j.Tty
			need++
		}
	}
	if need > 0 && (j.Tty == "" || j.More >= 0 && j.More < need) {
		if rep.Err == "" {
			bad("OpenTerm succeeds")
			return
		}
		if !rep.Nil {
			bad("OpenTerm fails, and returns a Term")
		}
		if rep.Fds[0] != rep.Fds[1] {
			bad("%d files are open before failing, %d after", rep.Fds[0], rep.Fds[1])
		}
		if !wait() {
			return
		}
		got := ""
		switch j.Out {
		case "A", "B":
			got = string(ptys[j.Out].drain())
		case "a file":
			b, _ := os.ReadFile(out.Name())
			got = string(b)
		case "a pipe":
			out.Close()
			b, _ := io.ReadAll(outPipe)
			got = string(b)
		default:
			return
		}
		if got != "alive" {
			bad("%q arrives at the standard output after OpenTerm failed", got)
		}
		return
	}
	if rep.Err != "" {
		bad("OpenTerm fails: %s", rep.Err)
		return
	}
	if rep.Fds[1] != rep.Fds[0]+need {
		bad("%d files are open before, %d after, want %d more", rep.Fds[0], rep.Fds[1], need)
	}
	for i := range where {
		std := j.is([]string{j.In, j.Out}[i])
		if rep.Std[i] != std {
			bad("file %d is the standard one: %v, want %v", i, rep.Std[i], std)
		}
		if !rep.Named[i] {
			bad("file %d, %q, is not said to be a standard terminal file", i, rep.Names[i])
		}
		if !rep.IsTerm[i] {
			bad("file %d is said not to be a terminal", i)
		}
	}
	if !rep.IsTerm[2] {
		bad("it is said not to be a terminal")
	}
	if want := (map[string]image.Point{"A": {40, 20}, "B": {41, 21}})[where[1]]; rep.Sizes[0] != want {
		bad("its size is said to be %v, want %v", rep.Sizes[0], want)
	}
	inTerm, outTerm := ptys[where[0]], ptys[where[1]]
	var got bytes.Buffer
	if !otShown(outTerm, &got, "<hello>", 10*time.Second) {
		bad("what's written does not arrive: %q", got.String())
		return
	}
	if t, _ := outTerm.get(); t.Lflag&syscall.ICANON != 0 {
		bad("the terminal is not in raw mode")
	}
	syscall.Write(inTerm.master, []byte("aq\n"))
	rep, ok = next()
	if !ok {
		bad("the program does not tell when it is done")
		return
	}
	if !wait() {
		return
	}
	if !rep.Ran || rep.RunErr != map[string]string{"an error": "that's it"}[j.End] || rep.Panic != map[string]string{"a panic": "that's it"}[j.End] {
		bad("RunWith returns %q, panics %q", rep.RunErr, rep.Panic)
	}
	otShown(outTerm, &got, "", 0)
	if s := got.String(); !strings.Contains(s, fmt.Sprintf("<%v>", ansi.Escape('a'))) || !strings.HasSuffix(s, "\x1b[?1049l") {
		bad("%q arrives at the terminal", s)
	}
	for name, p := range ptys {
		if t, err := p.get(); err != nil || t != p.initial {
			bad("attributes of terminal %s are not as they were", name)
		}
		if name != where[1] {
			if b := p.drain(); len(bytes.ReplaceAll(b, []byte("aq\r\n"), nil)) > 0 {
				bad("%q arrives at terminal %s", b, name)
			}
		}
	}
	switch j.Out {
	case "a file":
		if b, _ := os.ReadFile(out.Name()); len(b) > 0 {
			bad("%q arrives at the file", b)
		}
	case "a pipe":
		out.Close()
		if b, _ := io.ReadAll(outPipe); len(b) > 0 {
			bad("%q arrives at the pipe", b)
		}
	}
	if j.In == "a file" {
		if n, _ := in.Seek(0, io.SeekCurrent); n != 0 {
			bad("%d bytes of the file were read", n)
		}
	}
	if in != nil && j.is(j.In) {
		if fl := fdFlags(int(in.Fd())) & flagMask; fl != 0 {
			bad("the flags of the standard input are left as %x", fl)
		}
	}
}
