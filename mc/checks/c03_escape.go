package checks

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() { h.Register("C03", checkEscapeDecode) }

var escLetters = []string{
	"\x1b", "[", "1", ";", "A", " ", "(", "a", "\\", "]", "P",
	"\x18", "\n", "\a", "\x7f", "\xff", "日", "\u009b", "\u009c", "é", "?", "_",
}

// decodeAll is the consumer loop that DecodeEscape's documentation describes,
// for input that is known to be complete.
func decodeAll(p []byte) (toks []ref.Token, stuck bool) {
	for steps := 0; len(p) > 0; steps++ {
		if steps > 100000 {
			return toks, true
		}
		e, a, n := ansi.DecodeEscape(p)
		if n < 0 || n > len(p) || e != 0 && n == 0 {
			return toks, true
		}
		if e != 0 {
			toks = append(toks, ref.Token{ID: rune(e), Arg: string(a), IsE: true})
			p = p[n:]
			continue
		}
		p = p[n:]
		if n > 0 || len(p) == 0 {
			continue
		}
		r, m := utf8.DecodeRune(p)
		toks = append(toks, ref.Token{R: r})
		p = p[m:]
	}
	return toks, false
}

// cleanArg drops bytes that do not belong into a control sequence; what
// becomes of them is not specified.
func cleanArg(t ref.Token) ref.Token {
	if t.IsE && t.ID >= 0xEF80 && t.ID <= 0xEFFF {
		t.Arg = strings.Map(func(r rune) rune {
			if r < 0x20 || r >= 0x7f {
				return -1
			}
			return r
		}, t.Arg)
	}
	return t
}

func sameToks(a, b []ref.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && cleanArg(a[i]) != cleanArg(b[i]) {
			return false
		}
	}
	return true
}

func checkEscapeDecode(c *h.C) {
	c.Bound("alphabet", fmt.Sprintf("%q", escLetters))
	n := c.Pick(5, 6)
	c.Bound("length", n)
	one := func(s string) {
		c.Transitions(1)
		if len(s) == 0 {
			return
		}
		want, _ := ref.Tokenize(s, true)
		var got []ref.Token
		var stuck bool
		// surround the decoded bytes, to notice writes outside of them
		buf := make([]byte, len(s)+2)
		buf[0], buf[len(s)+1] = 0xAA, 0x55
		p := buf[1 : len(s)+1]
		copy(p, s)
		if !c.Guard(fmt.Sprintf("panic:%q", s), func() string { return fmt.Sprintf("decoding %q", s) }, func() {
			got, stuck = decodeAll(p)
		}) {
			return
		}
		if buf[0] != 0xAA || buf[len(s)+1] != 0x55 {
			c.Violate(fmt.Sprintf("outside:%q", s), "decoding %q wrote outside of its bytes", s)
		}
		if stuck {
			c.Violate(fmt.Sprintf("stuck:%q", s), "decoding %q makes no progress after %+v", s, got)
			return
		}
		if c1InEscape(s) {
			return // whether such a control introduces its own sequence is not specified
		}
		if !sameToks(got, want) {
			c.Violate(fmt.Sprintf("tokens:%q", s), "decoding %q yields %+v, want %+v", s, got, want)
		}
		c.StateS(fmt.Sprint(want))
		c.Traces(1)
	}
	c.Words(len(escLetters), 0, n, func(w []int) {
		var sb [24]byte
		b := sb[:0]
		for _, i := range w {
			b = append(b, escLetters[i]...)
		}
		one(string(b))
	})
	// longer strings behind each introducer
	for _, intro := range []string{"\x1b", "\x1b[", "\u009b", "\x1b]", "\x1bP", "\x1b("} {
		intro := intro
		c.Words(len(escLetters), 0, n-1, func(w []int) {
			b := []byte(intro)
			for _, i := range w {
				b = append(b, escLetters[i]...)
			}
			one(string(b))
		})
	}
	// every single byte and every byte after each introducer, and every pair
	for i := 0; i < 256; i++ {
		one(string([]byte{byte(i)}))
		for j := 0; j < 256; j++ {
			one(string([]byte{byte(i), byte(j)}))
			one("\x1b" + string([]byte{byte(i), byte(j)}))
			one("\x1b[" + string([]byte{byte(i), byte(j)}))
		}
	}
	for r := rune(0x80); r < 0x180; r++ {
		one("\x1b" + string(r) + "x")
		one(string(r) + "1A\x1b\\")
		one("\x1b[" + string(r) + "x")
	}

	for _, t := range bigTexts(c) {
		for _, cut := range append(t.cuts, len(t.s)) {
			one(t.s[:cut])
		}
	}

	// the 7-bit and the UTF-8 form of a C1 control are the same rune
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j++ {
			p := []byte{byte(i), byte(j)}
			r, m := ansi.DecodeRune(p)
			wr, wm := utf8.DecodeRune(p)
			if i == 0x1b && j >= 0x40 && j <= 0x5f {
				wr, wm = rune(j)+0x40, 2
			}
			if r != wr || m != wm {
				c.Violate(fmt.Sprintf("rune:%q", p), "DecodeRune(%q) = %U, %d; want %U, %d", p, r, m, wr, wm)
			}
			c.Transitions(1)
		}
	}
	c.Sample("%q", "\x1b\n[1;2\x7fA\x1b(B\x1b]x\x1b\\")
}

// c1InEscape reports whether s has a C1 control in the middle of an ESC
// sequence, even if controls acted upon first are taken out.
func c1InEscape(s string) bool {
	in := false
	for i, r := range s {
		_ = i
		switch {
		case r == 0x1b:
			in = true
		case r >= 0x80 && r <= 0x9f:
			if in {
				return true
			}
		case r > 0xff, r < 0x20 && r != 0x18, r == 0x7f, r >= 0x20 && r <= 0x2f, r >= 0xa0 && r <= 0xaf:
		default:
			in = false
		}
	}
	return false
}
