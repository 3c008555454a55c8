package checks

import (
	"errors"
	"fmt"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C14", checkBuffer) }

// tokRec records what a Processor is passed.
type tokRec struct{ toks []ref.Token }

func (t *tokRec) ProcessANSI(e ansi.Escape, a []byte) {
	if e >= 0xEF00 && e <= 0xEFFF || a != nil || e >= 0x90 && e <= 0x9f && e.IsEscape() {
		t.toks = append(t.toks, ref.Token{ID: rune(e), Arg: string(a), IsE: true})
		return
	}
	t.toks = append(t.toks, ref.Token{R: rune(e)})
}

// normTok makes tokens comparable: an escape and a rune of the same value are
// both passed as that value.
func normTok(ts []ref.Token) string {
	var sb strings.Builder
	for _, t := range ts {
		id := t.ID
		if !t.IsE {
			id = t.R
		}
		fmt.Fprintf(&sb, "%04X", id)
		if t.Arg != "" {
			fmt.Fprintf(&sb, "%q", t.Arg)
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

type byteSink struct {
	b    []byte
	mode int // as sink
	k    int
}

func (s *byteSink) Write(p []byte) (int, error) {
	if s.mode == 0 || len(p) <= s.k {
		s.k -= len(p)
		s.b = append(s.b, p...)
		return len(p), nil
	}
	m := s.k
	s.k = 0
	s.b = append(s.b, p[:m]...)
	switch s.mode {
	case 1:
		return m, errSink
	case 2:
		return m, wouldBlock(s.k)
	}
	return m, nil
}

// checkBuffer explores histories of writing, processing, discarding and
// flushing a buffer, with write faults, against a byte string model; and
// processing of every small input under every cut.
func checkBuffer(c *h.C) {
	type op struct {
		name string
		w    string // bytes appended
		f    func(b *anansi.Buffer) int
	}
	var ops []op
	w := func(s string) {
		how := len(ops) % 3
		ops = append(ops, op{fmt.Sprintf("write %q", s), s, func(b *anansi.Buffer) int {
			switch {
			case how == 0:
				n, _ := b.Write([]byte(s))
				return n
			case len(s) == 1 && how == 1:
				b.WriteByte(s[0])
				return 1
			}
			n, _ := b.WriteString(s)
			return n
		}})
	}
	for _, s := range []string{"a", "\x1b", "[", "1;2", "m", "\xc3", "\xa9", "\x1b[2Jb", "\x1b]0;", "\a", "\x1b\\", "\x1bM"} {
		w(s)
	}
	ops = append(ops,
		op{"WriteRune(日)", "日", func(b *anansi.Buffer) int { n, _ := b.WriteRune('日'); return n }},
		op{"WriteSeq(CUP 3;2, zero, SGR 0)", "\x1b[3;2H\x1b[0m", func(b *anansi.Buffer) int {
			return b.WriteSeq(ansi.CUP.WithInts(3, 2), ansi.Seq{}, ansi.SGR.With('0'))
		}},
		op{"WriteESC(RI, CUU)", "\x1bM\x1b[A", func(b *anansi.Buffer) int { return b.WriteESC(ansi.Escape(0x8d), ansi.CUU) }},
		op{"WriteSGR(bold, zero, clear+red)", "\x1b[1m\x1b[0;31m", func(b *anansi.Buffer) int {
			return b.WriteSGR(ansi.SGRAttrBold, 0, ansi.SGRAttrClear|ansi.SGRRed.FG())
		}},
	)
	nw := len(ops)
	// the rest is numbered from nw on
	ctl := []string{"Process", "Process, Discard", "WriteTo ok", "Process, WriteTo ok", "Process, WriteTo blocks@1", "Process, WriteTo fails@2", "Process, WriteTo short@3", "Reset", "Grow"}
	depth := c.Pick(5, 6)
	c.Bound("operations", nw+len(ctl))
	c.Bound("history_depth", depth)
	c.Words(nw+len(ctl), 1, depth, func(word []int) {
		desc := func() string {
			var ss []string
			for _, o := range word {
				if o < nw {
					ss = append(ss, ops[o].name)
				} else {
					ss = append(ss, ctl[o-nw])
				}
			}
			return strings.Join(ss, "; ")
		}
		if word[len(word)-1] < nw {
			return // nothing observed after it that its prefix did not
		}
		c.Guard(fmt.Sprintf("panic:%v", word), desc, func() {
			var b anansi.Buffer
			var rec, want tokRec
			var sk byteSink
			pending, sent, off := "", "", 0
			stream := ""
			aligned := true // the unprocessed part starts at a token
			bad := func(i int, format string, args ...interface{}) {
				c.Violate(fmt.Sprintf("buf:%v", word[:i+1]), "%s\nstep %d: %s", desc(), i+1, fmt.Sprintf(format, args...))
			}
			process := func() {
				b.Process(&rec)
				if !aligned {
					rec.toks, want.toks = nil, nil
					return
				}
				toks, rest := ref.Tokenize(pending[off:], false)
				want.toks = append(want.toks, toks...)
				off = len(pending) - len(rest)
			}
			flush := func(i, mode, k int) bool {
				sk.mode, sk.k = mode, k
				was := len(sk.b)
				n, err := b.WriteTo(&sk)
				if int(n) != len(sk.b)-was {
					bad(i, "WriteTo returned %d, wrote %d", n, len(sk.b)-was)
					return false
				}
				full := mode == 0 || len(pending) <= k
				if full != (err == nil) || !full && (mode == 1 && err != errSink || mode == 2 && !errors.Is(err, syscall.EWOULDBLOCK)) {
					bad(i, "WriteTo of %d bytes returned %v", len(pending), err)
					return false
				}
				sent += pending[:n]
				pending = pending[n:]
				if off -= int(n); off < 0 {
					// bytes left before they were processed: what follows may
					// start within a sequence
					off, aligned = 0, false
				}
				return true
			}
			for i, o := range word {
				c.Transitions(1)
				if o < nw {
					if n := ops[o].f(&b); n != len(ops[o].w) {
						bad(i, "returned %d for %d bytes", n, len(ops[o].w))
						return
					}
					pending += ops[o].w
					if stream += ops[o].w; escShuffles(stream) {
						return
					}
				} else {
					switch o - nw {
					case 0:
						process()
					case 1:
						process()
						b.Discard()
						if !aligned {
							return
						}
						pending, off = pending[off:], 0
					case 2:
						if !flush(i, 0, 0) {
							return
						}
					case 3, 4, 5, 6:
						process()
						if !flush(i, []int{0, 2, 1, 3}[o-nw-3], o-nw-3) {
							return
						}
					case 7:
						b.Reset()
						pending, off, aligned = "", 0, true
					case 8:
						b.Grow(70)
					}
				}
				if b.Len() != len(pending) || string(b.Bytes()) != pending {
					bad(i, "holds %q, want %q", b.Bytes(), pending)
					return
				}
				if string(sk.b) != sent {
					bad(i, "wrote %q, want %q", sk.b, sent)
					return
				}
				if g, w := normTok(rec.toks), normTok(want.toks); g != w {
					bad(i, "processed %s\nwant %s", g, w)
					return
				}
				if len(pending) == 0 {
					aligned = true
				}
			}
			c.Traces(1)
			c.StateS(fmt.Sprintf("%q %d %v", pending, off, aligned))
		})
	})

	checkLargeBuffers(c)

	c.Assume("control characters within an ESC sequence may be moved ahead of it, where terminals act upon them")

	// Process under every cut
	n := c.Pick(4, 5)
	c.Bound("cut_length", n)
	c.Words(len(escLetters), 1, n, func(word []int) {
		s := ""
		for _, i := range word {
			s += escLetters[i]
		}
		if c1InEscape(s) {
			return
		}
		toks, rest := ref.Tokenize(s, false)
		for cut := 0; cut < len(s); cut++ {
			cut := cut
			c.Transitions(1)
			c.Guard(fmt.Sprintf("panic:%q@%d", s, cut), func() string { return fmt.Sprintf("%q cut at %d", s, cut) }, func() {
				var b anansi.Buffer
				var rec tokRec
				b.WriteString(s[:cut])
				b.Process(&rec)
				b.WriteString(s[cut:])
				b.Process(&rec)
				shuffles := escShuffles(s)
				if string(b.Bytes()) != s && !shuffles {
					c.Violate(fmt.Sprintf("bytes:%q@%d", s, cut), "processing %q, cut at %d, changed the bytes to %q", s, cut, b.Bytes())
				}
				for i := range rec.toks {
					rec.toks[i] = cleanArg(rec.toks[i])
				}
				want := make([]ref.Token, len(toks))
				for i := range toks {
					want[i] = cleanArg(toks[i])
				}
				if g, w := normTok(rec.toks), normTok(want); g != w && !delInESC(s) {
					c.Violate(fmt.Sprintf("tokens:%q@%d", s, cut), "processing %q, cut at %d, yields %s want %s", s, cut, g, w)
				}
				b.Discard()
				if string(b.Bytes()) != rest && !shuffles {
					c.Violate(fmt.Sprintf("rest:%q@%d", s, cut), "after processing %q, cut at %d, %q is left, want %q", s, cut, b.Bytes(), rest)
				}
				c.Traces(1)
			})
		}
		c.StateS(rest + normTok(toks))
	})
}

// delInESC reports whether s has a DEL within an ESC sequence. It is dropped, so
// that (only) a cut right after it lets what follows be read as the 7-bit form
// of a C1 control.
func delInESC(s string) bool {
	in := false
	for _, r := range s {
		switch {
		case r == 0x1b:
			in = true
		case r == 0x7f && in:
			return true
		case r < 0x20 && r != 0x18, r >= 0x20 && r <= 0x2f, r > 0xff:
		default:
			in = false
		}
	}
	return false
}

// escShuffles reports whether s has a character that terminals act upon within
// an ESC sequence, before the sequence: decoding moves such ahead of it.
func escShuffles(s string) bool {
	in, inter := false, false
	for _, r := range s {
		switch {
		case r == 0x1b:
			if in && inter {
				return true
			}
			in, inter = true, false
		case r == 0x18:
			in = false
		case r > 0xff, r < 0x20, r == 0x7f:
			if in {
				return true
			}
		case r >= 0x20 && r <= 0x2f:
			inter = true
		default:
			in = false
		}
	}
	return false
}
