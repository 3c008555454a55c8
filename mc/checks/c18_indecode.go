package checks

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"

	"github.com/jcorbin/anansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C18", checkInputDecode) }

// refInput is the reference for decoding input as it arrives.
type refInput struct{ rest string }

// arrive returns what can be decoded once s has arrived: sequences and runes
// wait for their end, but a lone ESC (i.e. the Escape key) does not.
func (ri *refInput) arrive(s string, eof bool) (toks []ref.Token) {
	ri.rest += s
	for {
		ts, rest := ref.Tokenize(ri.rest, eof)
		toks = append(toks, ts...)
		ri.rest = rest
		if len(rest) == 0 || rest[0] != 0x1b || len(rest) > 1 && rest[1] >= 0x40 && rest[1] <= 0x5f {
			return toks
		}
		toks = append(toks, ref.Token{R: 0x1b})
		ri.rest = rest[1:]
	}
}

// first decodes one item of what arrived.
func (ri *refInput) first() (toks []ref.Token) {
	t, rest := ref.First(ri.rest)
	if ri.rest = rest; t != nil {
		return append(toks, *t)
	}
	if len(rest) == 0 || rest[0] != 0x1b || len(rest) > 1 && rest[1] >= 0x40 && rest[1] <= 0x5f {
		return nil
	}
	ri.rest = rest[1:]
	return append(toks, ref.Token{R: 0x1b})
}

// inPipe is a pipe reused between executions.
type inPipe struct {
	r    *os.File
	w    int
	null *os.File
}

var inPipes = sync.Pool{New: func() interface{} {
	var fds [2]int
	if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
		panic(err)
	}
	null, err := os.Open(os.DevNull)
	if err != nil {
		panic(err)
	}
	return &inPipe{os.NewFile(uintptr(fds[0]), "pipe"), fds[1], null}
}}

// checkInputDecode decodes every small input as it arrives in every division
// into chunks.
func checkInputDecode(c *h.C) {
	one := func(s string, cuts []int, eof, lag bool) {
		c.Transitions(len(cuts) + 1)
		p := inPipes.Get().(*inPipe)
		name := fmt.Sprintf("%q@%v", s, cuts)
		if eof {
			name += ",eof"
		}
		if lag {
			name += ",lag"
		}
		ok := c.Guard("panic:"+name, func() string { return name }, func() {
			in := &anansi.Input{File: p.r}
			var ri refInput
			var rec, want tokRec
			from := 0
			for i := 0; i <= len(cuts); i++ {
				to := len(s)
				if i < len(cuts) {
					to = cuts[i]
				}
				chunk := s[from:to]
				from = to
				if chunk != "" {
					if _, err := syscall.Write(p.w, []byte(chunk)); err != nil {
						panic(err)
					}
				}
				n, err := in.ReadAny()
				if n != len(chunk) || err != nil {
					c.Violate("read:"+name, "%s: ReadAny of %q returns %d, %v", name, chunk, n, err)
					return
				}
				last := i == len(cuts)
				if last && eof {
					in.File = p.null
					if n, err := in.ReadAny(); n != 0 || err == nil {
						c.Violate("eof:"+name, "%s: ReadAny at end returns %d, %v", name, n, err)
						return
					}
				}
				for i := 0; i < 1 || !lag || last; i++ {
					e, a, ok := in.Decode()
					if !ok {
						break
					}
					if len(rec.toks) > 4*len(s)+8 {
						c.Violate("endless:"+name, "%s: decoding does not end", name)
						return
					}
					if a == nil && !(e >= 0xEF00 && e <= 0xEFFF) {
						rec.toks = append(rec.toks, ref.Token{R: rune(e)})
					} else {
						rec.ProcessANSI(e, a)
					}
				}
				if lag && !last {
					ri.rest += chunk
					want.toks = append(want.toks, ri.first()...)
				} else {
					want.toks = append(want.toks, ri.arrive(chunk, last && eof)...)
				}
			}
			for i := range rec.toks {
				rec.toks[i] = cleanArg(rec.toks[i])
			}
			for i := range want.toks {
				want.toks[i] = cleanArg(want.toks[i])
			}
			if g, w := normTok(rec.toks), normTok(want.toks); g != w {
				c.Violate("tokens:"+name, "%s decodes as %s\nwant %s", name, g, w)
			}
			c.StateS(ri.rest + normTok(want.toks))
			c.Traces(1)
		})
		if ok {
			inPipes.Put(p)
		}
	}
	n, m := c.Pick(4, 5), 4
	c.Bound("alphabet", fmt.Sprintf("%q", escLetters))
	c.Bound("length_one_cut", n)
	c.Bound("length_all_cuts", m)
	c.Words(len(escLetters), 1, n, func(word []int) {
		var sb strings.Builder
		for _, i := range word {
			sb.WriteString(escLetters[i])
		}
		s := sb.String()
		if c1InEscape(s) || delInESC(s) {
			return
		}
		one(s, nil, false, false)
		one(s, nil, true, false)
		for cut := 1; cut < len(s); cut++ {
			one(s, []int{cut}, false, false)
		}
		if len(word) <= m {
			var all []int
			for cut := 1; cut < len(s); cut++ {
				one(s, []int{cut}, true, false)
				for cut2 := cut + 1; cut2 < len(s); cut2++ {
					one(s, []int{cut, cut2}, false, false)
					one(s, []int{cut, cut2}, false, true)
				}
				one(s, []int{cut}, true, true)
				all = append(all, cut)
			}
			one(s, all, false, false)
			one(s, all, true, false)
		}
	})
	texts := bigTexts(c)
	c.Parallel(len(texts), func(ti int) {
		t := texts[ti]
		one(t.s, nil, false, false)
		for i, cut := range t.cuts {
			one(t.s, []int{cut}, i%2 == 0, false)
			one(t.s, []int{cut}, i%2 == 1, true)
			for _, cut2 := range t.cuts {
				if cut2 > cut {
					one(t.s, []int{cut, cut2}, false, i%2 == 0)
				}
			}
		}
	})
	// every rune length, invalid bytes, and cuts within them, all bytes
	for _, s := range []string{"aé日😀b", "\xf0\x9f\x98", "\xc3(", "\xe6\x97a", "\xff\xfe", "\xe6\xe6\x97\xa5", "\x1b[\xe6\x97\xa5m", "\x1b]日\x1b\\", "\x1b]\xe6\x97\x1b\\"} {
		for cut := 1; cut < len(s); cut++ {
			for cut2 := cut + 1; cut2 <= len(s); cut2++ {
				one(s, []int{cut, cut2}, false, false)
				one(s, []int{cut, cut2}, true, false)
			}
		}
	}
	for b := 0; b < 256; b++ {
		for b2 := 0; b2 < 256; b2++ {
			s := string([]byte{byte(b), byte(b2)})
			if b == 0x1b && (b2 == 0x7f) {
				continue
			}
			one(s, []int{1}, false, false)
			one(s, []int{1}, true, false)
			one(s, nil, false, false)
		}
	}
}
