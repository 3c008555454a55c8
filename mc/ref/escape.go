package ref

import "unicode/utf8"

// Token is one decoded item: a rune, or an escape with its argument.
type Token struct {
	R   rune // set for runes (ID == 0)
	ID  rune // U+EF00.. for ESC / CSI functions, C1 code for strings
	Arg string
	IsE bool
}

// Tokenize decodes all of s, as documented by package ansi (vt100 state
// machine on top of UTF-8). If atEOF is false it stops before a sequence (or
// UTF-8 rune) that more bytes may complete, returning what is left.
func Tokenize(s string, atEOF bool) (toks []Token, rest string) {
	for len(s) > 0 {
		t, ok, r := next(s)
		if !ok { // needs more bytes
			if !atEOF {
				return toks, r
			}
			// the introducer stands for itself
			s = r
			rr, m := decRune(s)
			toks = append(toks, Token{R: rr})
			s = s[m:]
			continue
		}
		if t != nil {
			toks = append(toks, *t)
		}
		s = r
	}
	return toks, ""
}

// decRune decodes a rune, folding ESC + 0x40..0x5f into its C1 control.
func decRune(s string) (rune, int) {
	r, m := utf8.DecodeRuneInString(s)
	if r == 0x1b && len(s) > 1 && s[1] >= 0x40 && s[1] <= 0x5f {
		return rune(s[1]) + 0x40, 2
	}
	return r, m
}

// next decodes one item. ok is false if s may be the start of a longer
// sequence. t is nil if bytes were consumed without any result.
func next(s string) (t *Token, ok bool, rest string) {
	r, m := decRune(s)
	body := s[m:]
	switch r {
	case 0x1b:
		return nextESC(s)
	case 0x9b:
		return nextCSI(s, body)
	case 0x90, 0x9d, 0x9e, 0x9f:
		// string: everything up to ST
		for i := 0; i < len(body); {
			rr, mm := decRune(body[i:])
			if rr == utf8.RuneError && !utf8.FullRuneInString(body[i:]) {
				return nil, false, s
			}
			if rr == 0x9c || r == 0x9d && rr == 0x07 { // BEL ends an OSC too
				return &Token{ID: r, Arg: body[:i], IsE: true}, true, body[i+mm:]
			}
			i += mm
		}
		return nil, false, s
	}
	if r == utf8.RuneError && !utf8.FullRuneInString(s) {
		return nil, false, s
	}
	return &Token{R: r}, true, body
}

func nextCSI(s, body string) (*Token, bool, string) {
	const (
		params = iota
		inter
	)
	state, start := params, -1
	for i := 0; i < len(body); i++ {
		b := body[i]
		switch {
		case b >= 0x40 && b <= 0x7e:
			arg := ""
			if start >= 0 {
				arg = body[start:i]
			}
			return &Token{ID: 0xEF80 | rune(b), Arg: arg, IsE: true}, true, body[i+1:]
		case b >= 0x20 && b <= 0x2f:
			state = inter
			if start < 0 {
				start = i
			}
		case b >= 0x30 && b <= 0x3f && state == params:
			if start < 0 {
				start = i
			}
		}
	}
	return nil, false, s
}

// nextESC handles an ESC sequence that is not the 7-bit form of a C1 control.
func nextESC(s string) (*Token, bool, string) {
	inter := ""
	i := 1
	for {
		r, m := utf8.DecodeRuneInString(s[i:])
		raw := s[i : i+m]
		rest := s[i+m:]
		pending := "\x1b" + inter + rest
		switch {
		case r == utf8.RuneError:
			if utf8.FullRuneInString(s[i:]) { // undecodable: no sequence after all
				return &Token{R: 0x1b}, true, inter + s[i:]
			}
			return nil, false, "\x1b" + inter + s[i:]
		case r > 0xff:
			return &Token{R: r}, true, pending
		}
		b := byte(r) & 0x7f
		switch {
		case b >= 0x30 && b <= 0x7e:
			if len(inter) == 1 {
				return &Token{ID: 0xEF00 | rune(inter[0]), Arg: raw, IsE: true}, true, rest
			}
			return &Token{ID: 0xEF00 | rune(b), Arg: inter, IsE: true}, true, rest
		case b >= 0x20 && b <= 0x2f:
			inter += raw
			i += m
		case b == 0x7f:
			i += m
		case b == 0x18:
			return nil, true, rest
		default: // C0: it acts first, then the sequence resumes
			return &Token{R: r}, true, pending
		}
	}
}

// First decodes the first item of s, returning the rest; t is nil if there is
// none before a sequence or rune that more bytes may complete.
func First(s string) (t *Token, rest string) {
	for len(s) > 0 {
		t, ok, r := next(s)
		if !ok {
			return nil, r
		}
		if t != nil {
			return t, r
		}
		s = r
	}
	return nil, ""
}
