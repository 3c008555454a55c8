package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C31", checkFilters) }

// filterProg is a command that reads standard input and writes standard output.
type filterProg struct {
	name string
	path string
	args []string
}

func buildFilters(dirs ...string) (map[string]string, error) {
	out := os.Getenv("VERIF_WORK")
	if out == "" {
		var err error
		if out, err = os.MkdirTemp("", "filters"); err != nil {
			return nil, err
		}
	}
	r := map[string]string{}
	for _, d := range dirs {
		bin := filepath.Join(out, "filter-"+d)
		cmd := exec.Command("go", "build", "-tags", "osusergo", "-o", bin, "./cmd/"+d)
		cmd.Dir = "/repo"
		if src := os.Getenv("VERIF_REPO"); src != "" { // for mutation testing
			cmd.Dir = src
		}
		if b, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("%s: %v\n%s", d, err, b)
		}
		r[d] = bin
	}
	return r, nil
}

// filterRun is what became of a run of a filter.
type filterRun struct {
	out, log string
	err      error
	hung     bool
}

// run gives the chunks to the program, each only once it has read what came
// before.
func (p filterProg) run(chunks []string) (fr filterRun) {
	cmd := exec.Command(p.path, p.args...)
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	defer r.Close()
	defer w.Close()
	var out, log bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = r, &out, &log
	cmd.Env = []string{"TERM=xterm", "PATH=" + os.Getenv("PATH"), "HOME=/nonexistent"}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	const limit = 20 * time.Second
	guard := time.AfterFunc(limit, func() {
		fr.hung = true
		cmd.Process.Kill()
		r.SetReadDeadline(time.Now())
		w.SetWriteDeadline(time.Now())
	})
	dead := make(chan struct{})
	go func() {
		err = cmd.Wait()
		close(dead)
	}()
	fd := r.Fd()
	for i, ch := range chunks {
		if _, werr := io.WriteString(w, ch); werr != nil {
			break
		}
	drain:
		for t := 20 * time.Microsecond; i+1 < len(chunks); {
			var n int32
			syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n))) // FIONREAD
			if n == 0 {
				break
			}
			select {
			case <-dead:
				break drain
			case <-time.After(t):
			}
		}
	}
	w.Close()
	<-dead
	if !guard.Stop() {
		fr.hung = true
	}
	fr.out, fr.log, fr.err = out.String(), log.String(), err
	return fr
}

// to24 is what a color looks like in 24 bits.
func to24(c ref.Color) ref.Color {
	if c.Kind == 1 {
		r, g, b := ansi.SGRColor(c.R).RGB() // decided by C07
		return ref.Color{Kind: 2, R: r, G: g, B: b}
	}
	return c
}

// shown is what a terminal is told to do, in order: every character with the
// rendition it has, and every sequence other than SGR.
func shown(s string, conv func(ref.Color) ref.Color) (r []string) {
	toks, _ := ref.Tokenize(s, true)
	var a ref.Attr
	emit := func(s string) { r = append(r, fmt.Sprintf("%s as %+v", s, a)) }
	for _, t := range toks {
		switch {
		case !t.IsE:
			emit(fmt.Sprintf("%q", t.R))
		case t.ID == 0xEF80|'m' && t.Arg != "39":
			a.ApplySGR(t.Arg)
			a.FG, a.BG = conv(a.FG), conv(a.BG)
		default:
			emit(fmt.Sprintf("%U(%q)", t.ID, t.Arg))
		}
	}
	emit("end")
	return r
}

func diffLists(got, want []string) string {
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "(nothing)"
			if i < len(got) {
				g = got[i]
			}
			return fmt.Sprintf("item %d is %s, want %s", i, g, want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("item %d is %s, want nothing", len(want), got[len(want)])
	}
	return ""
}

// textOf is the input without its escape sequences.
func textOf(s string) string {
	toks, _ := ref.Tokenize(s, true)
	var b strings.Builder
	for _, t := range toks {
		if !t.IsE {
			b.WriteRune(t.R)
		}
	}
	return b.String()
}

// reported is what decode is to print: the text, with a mark for each sequence.
// Those for SGR sequences only have to start as given.
func reported(s string) (r []string) {
	toks, _ := ref.Tokenize(s, true)
	for _, t := range toks {
		switch {
		case !t.IsE:
			r = append(r, string(t.R))
		case t.ID == 0xEF80|'m':
			r = append(r, "[ansi:SGR ")
		case t.Arg != "":
			r = append(r, fmt.Sprintf("[ansi:%v %q]", ansi.Escape(t.ID), t.Arg))
		default:
			r = append(r, fmt.Sprintf("[ansi:%v]", ansi.Escape(t.ID)))
		}
	}
	return r
}

// matchReport compares the output of decode.
func matchReport(out string, want []string) string {
	rest := out
	for i, w := range want {
		if !strings.HasPrefix(rest, w) {
			return fmt.Sprintf("at item %d of %q: %.60q", i, want, rest)
		}
		rest = rest[len(w):]
		if w == "[ansi:SGR " {
			j := strings.IndexByte(rest, ']')
			if j < 0 {
				return fmt.Sprintf("no end of item %d of %q", i, want)
			}
			rest = rest[j+1:]
		}
	}
	if rest != "" {
		return fmt.Sprintf("%.60q after %q", rest, want)
	}
	return ""
}

// checkFilters decides C31 by running the filter commands built from the tree
// with every sequence of items, cut in every way into the chunks that a read
// returns, and across the size of a read.
func checkFilters(c *h.C) {
	bins, err := buildFilters("to24bit", "decode")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	to24bit := filterProg{"to24bit", bins["to24bit"], nil}
	strip := filterProg{"decode -strip", bins["decode"], []string{"-strip"}}
	decode := filterProg{"decode", bins["decode"], nil}

	syms := []string{
		"a", "\n", "é", "世", "😀", "\uefc4", "\uef37",
		"\x1b[31m", "\x1b[42m", "\x1b[0;1;93;104m", "\x1b[38;5;196;48;5;240m", "\x1b[38;2;1;2;3;7m", "\x1b[39m", "\x1b[m",
		"\x1b[2J", "\x1b[1;5H", "\x1b[?25l", "\x1b7", "\x1b(B", "\u009b32m", "\u009b3 q",
		"\x1b]0;t]\x07", "\x1b]2;é\x1b\\", "\x1bPq\x1b\\", "\x1b\x18", "\x1b",
	}
	same := func(c ref.Color) ref.Color { return c }
	names := map[string]int{}
	var mu sync.Mutex
	try := func(p filterProg, chunks []string) {
		in := strings.Join(chunks, "")
		if toks, rest := ref.Tokenize(in, false); len(toks) > 0 && rest != "" && p.name != "to24bit" {
			return // what comes after a sequence that does not end is not judged
		} else if rest != "" && p.name != "to24bit" {
			return
		}
		key := make([]string, len(chunks))
		for i, ch := range chunks {
			key[i] = fmt.Sprintf("%.12q", strings.TrimLeft(ch, "x"))
		}
		sig := p.name + ":" + strings.Join(key, "+")
		fr := p.run(chunks)
		c.Transitions(1)
		c.Progress()
		what := func() string {
			k := make([]string, len(chunks))
			for i, ch := range chunks {
				if len(ch) > 200 {
					k[i] = fmt.Sprintf("%d bytes ending in %q", len(ch), ch[len(ch)-40:])
				} else {
					k[i] = fmt.Sprintf("%q", ch)
				}
			}
			o := fr.out
			if len(o) > 300 {
				o = "..." + o[len(o)-300:]
			}
			return fmt.Sprintf("%s is given %s\nit wrote %q\nand logged %.300q", p.name, strings.Join(k, ", then "), o, fr.log)
		}
		switch {
		case fr.hung:
			c.Violate(sig+":hung", "did not finish\n%s", what())
			return
		case fr.err != nil:
			c.Violate(sig+":status", "%v\n%s", fr.err, what())
			return
		case !utf8.ValidString(fr.out):
			c.Violate(sig+":utf8", "the output is not valid UTF-8\n%s", what())
			return
		}
		var bad string
		switch p.name {
		case "to24bit":
			bad = diffLists(shown(fr.out, same), shown(in, to24))
		case "decode":
			bad = matchReport(fr.out, reported(in))
		default:
			if want := textOf(in); fr.out != want {
				bad = fmt.Sprintf("want %.80q", want)
				if len(want) > 300 {
					bad = fmt.Sprintf("want %q at the end", want[len(want)-40:])
				}
			}
		}
		if bad != "" {
			c.Violate(sig, "%s\n%s", bad, what())
		}
		c.StateS(sig + "|" + fr.out)
		c.Traces(1)
		mu.Lock()
		names[p.name]++
		mu.Unlock()
	}
	progs := []filterProg{to24bit, strip, decode}

	// words of items, uncut, and cut
	long, cut1, cut2 := c.Pick(2, 3), c.Pick(2, 2), c.Pick(1, 2)
	c.Bound("symbols", len(syms))
	c.Bound("items", long)
	c.Bound("items_cut_in_two_anywhere", cut1)
	c.Bound("items_cut_in_three_anywhere", cut2)
	c.Words(len(syms), 0, long, func(w []int) {
		var s string
		for _, i := range w {
			s += syms[i]
		}
		if strings.Contains(s, "\x1b\u009b") {
			return // what becomes of the ESC is not judged
		}
		for _, p := range progs {
			try(p, []string{s})
			for i := 1; i < len(s) && len(w) <= cut1; i++ {
				try(p, []string{s[:i], s[i:]})
				for j := i + 1; j < len(s) && len(w) <= cut2; j++ {
					try(p, []string{s[:i], s[i:j], s[j:]})
				}
			}
		}
	})

	// input longer than what is read at once
	reads := []int{4096, 8192}
	if c.Thorough() {
		reads = []int{512, 1024, 1536, 4096, 4608, 5632, 8192, 12288, 16384, 32768, 65536}
	}
	c.Bound("fill_up_to", reads)
	var fills []int
	for _, n := range reads {
		for k := n - 14; k <= n+1; k++ {
			fills = append(fills, k)
		}
	}
	c.Parallel(len(fills)*len(syms), func(i int) {
		s := strings.Repeat("x", fills[i/len(syms)]) + syms[i%len(syms)] + "z"
		for _, p := range progs {
			try(p, []string{s})
		}
	})
	for n, k := range names {
		c.Count("runs of "+n, k)
	}
	c.Sample("to24bit is given \"\\x1b[4\", then \"2mé\"")
	c.Sample("decode -strip is given 4090 characters and \"\\x1b[38;5;196;48;5;240m\"")
	c.Assume("the input is valid UTF-8; blinking and combinations of SGR codes that anansi does not decode are not used together with colors; a filter has read a chunk once the pipe is empty")
}
