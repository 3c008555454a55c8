package checks

import (
	"fmt"
	"strings"

	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
	"verif.local/mc/ref"
)

func init() {
	h.Register("C01", checkSGRDiff)
	h.Register("C02", checkSGRDecode)
}

func sgrColors(c *h.C) (cs []ref.Color) {
	cs = []ref.Color{
		{},
		{Kind: 1, R: 0}, {Kind: 1, R: 7},
		{Kind: 1, R: 8}, {Kind: 1, R: 15},
		{Kind: 1, R: 16}, {Kind: 1, R: 255},
		{Kind: 2}, {Kind: 2, R: 255, G: 9, B: 100},
	}
	if c.Thorough() {
		cs = append(cs,
			ref.Color{Kind: 1, R: 1},
			ref.Color{Kind: 1, R: 100},
			ref.Color{Kind: 2, R: 1},
			ref.Color{Kind: 2, B: 255},
		)
	}
	return cs
}

func refFlags(i int) ref.Attr {
	return ref.Attr{
		Bold: i&1 != 0, Dim: i&2 != 0, Italic: i&4 != 0,
		Under: i&8 != 0, Neg: i&16 != 0, Conceal: i&32 != 0,
	}
}

// sgrParams strips the CSI ... m framing of an encoded SGR sequence.
func sgrParams(p string) (string, bool) {
	if !strings.HasPrefix(p, "\x1b[") || !strings.HasSuffix(p, "m") {
		return "", false
	}
	return p[2 : len(p)-1], true
}

func checkSGRDiff(c *h.C) {
	colors := sgrColors(c)
	var attrs []ref.Attr
	for f := 0; f < 64; f++ {
		for _, fg := range colors {
			for _, bg := range colors {
				a := refFlags(f)
				a.FG, a.BG = fg, bg
				attrs = append(attrs, a)
			}
		}
	}
	c.Bound("attributes", len(attrs))
	c.Bound("pairs", "every ordered pair, each with and without the absolute (clear) marker on either side")

	enc := make([]ansi.SGRAttr, len(attrs))
	for i, a := range attrs {
		enc[i] = toAnsiAttr(a)
		c.StateS(fmt.Sprint(a))
		if got := fromAnsiAttr(enc[i]); got != a {
			c.Violate(fmt.Sprintf("accessor:%+v", a), "attribute built from %+v reads back as %+v", a, got)
		}
		sgrRoundTrip(c, enc[i], a)
		sgrRoundTrip(c, enc[i]|ansi.SGRAttrClear, a)
		if got := enc[i].SansFG(); fromAnsiAttr(got) != withFG(a, ref.Color{}) {
			c.Violate(fmt.Sprintf("sansfg:%+v", a), "SansFG of %+v gives %+v", a, fromAnsiAttr(got))
		}
		if got := enc[i].SansBG(); fromAnsiAttr(got) != withBG(a, ref.Color{}) {
			c.Violate(fmt.Sprintf("sansbg:%+v", a), "SansBG of %+v gives %+v", a, fromAnsiAttr(got))
		}
	}

	// Every color the package can express, as foreground and background.
	for v := 0; v < 256; v++ {
		col := ref.Color{Kind: 1, R: uint8(v)}
		sgrColor(c, col)
		for ch := 0; ch < 3; ch++ {
			col := ref.Color{Kind: 2}
			switch ch {
			case 0:
				col.R = uint8(v)
			case 1:
				col.G = uint8(v)
			case 2:
				col.B = uint8(v)
			}
			sgrColor(c, col)
		}
	}
	step := c.Pick(51, 5)
	for r := 0; r < 256; r += step {
		for g := 0; g < 256; g += step {
			for b := 0; b < 256; b += step {
				sgrColor(c, ref.Color{Kind: 2, R: uint8(r), G: uint8(g), B: uint8(b)})
			}
		}
	}

	c.Parallel(len(attrs), func(i int) {
		var buf [96]byte
		n := 0
		for j := range attrs {
			a, b := attrs[i], attrs[j]
			for mark := 0; mark < 4; mark++ {
				ea, eb := enc[i], enc[j]
				if mark&1 != 0 {
					ea |= ansi.SGRAttrClear
				}
				if mark&2 != 0 {
					eb |= ansi.SGRAttrClear
				}
				d := ea.Diff(eb)
				n++
				if m := ea.Merge(d) &^ ansi.SGRAttrClear; m != enc[j] {
					c.Violate(fmt.Sprintf("merge:%v/%v/%d", ea, eb, mark), "merging Diff(%v, %v)=%v gives %v", ea, eb, d, m)
				}
				if d == 0 {
					if a != b {
						c.Violate(fmt.Sprintf("nodiff:%v/%v", ea, eb), "Diff(%v, %v) claims nothing to send", ea, eb)
					}
					continue
				}
				if a == b && mark&2 == 0 {
					c.Violate(fmt.Sprintf("spurious:%v/%v", ea, eb), "Diff(%v, %v)=%v for equal renditions", ea, eb, d)
				}
				p := d.AppendTo(buf[:0])
				params, ok := sgrParams(string(p))
				term := a
				if !ok || term.ApplySGR(params) >= 0 {
					c.Violate(fmt.Sprintf("encode:%v/%v", ea, eb), "Diff(%v, %v)=%v encodes as %q, not a valid SGR sequence", ea, eb, d, p)
				} else if term != b {
					c.Violate(fmt.Sprintf("render:%v/%v", ea, eb), "terminal in %+v after %q renders %+v, want %+v", a, p, term, b)
				}
			}
		}
		c.Transitions(n)
		c.Traces(n)
	})
	c.Sample("Diff(bold fg:red, italic bg:color16) sent to a terminal rendering the former")

	// Merge of arbitrary (relative) attributes behaves like applying both.
	sub := attrs
	if !c.Thorough() {
		sub = nil
		for i, a := range attrs {
			if (a.FG.Kind != 1 || a.FG.R < 8) && (a.BG.Kind != 1 || a.BG.R < 8) && i%2 == 0 {
				sub = append(sub, a)
			}
		}
	}
	c.Parallel(len(sub), func(i int) {
		ea := toAnsiAttr(sub[i])
		for _, b := range sub {
			for mark := 0; mark < 2; mark++ {
				eb := toAnsiAttr(b)
				if mark == 1 {
					eb |= ansi.SGRAttrClear
				} else if eb == 0 {
					continue // encodes as a clear
				}
				p := eb.ControlString()
				params, _ := sgrParams(p)
				term := sub[i]
				term.ApplySGR(params)
				if got := fromAnsiAttr(ea.Merge(eb)); got != term {
					c.Violate(fmt.Sprintf("mergeapply:%v/%v", ea, eb), "%v.Merge(%v) = %+v, a terminal would render %+v", ea, eb, got, term)
				}
			}
			c.Transitions(1)
		}
	})
}

func withFG(a ref.Attr, col ref.Color) ref.Attr { a.FG = col; return a }
func withBG(a ref.Attr, col ref.Color) ref.Attr { a.BG = col; return a }

func sgrColor(c *h.C, col ref.Color) {
	ac := toAnsiColor(col)
	if got := fromAnsiColor(ac, true); got != col {
		c.Violate(fmt.Sprintf("color:%+v", col), "color %+v reads back as %+v", col, got)
	}
	for _, a := range []ref.Attr{{FG: col}, {BG: col}, {Bold: true, FG: col, BG: col}} {
		at := toAnsiAttr(a)
		if got := fromAnsiAttr(at); got != a {
			c.Violate(fmt.Sprintf("accessor:%+v", a), "attribute built from %+v reads back as %+v", a, got)
		}
		sgrRoundTrip(c, at, a)
		c.StateS(fmt.Sprint(a))
	}
}

func sgrRoundTrip(c *h.C, at ansi.SGRAttr, a ref.Attr) {
	c.Transitions(1)
	p := at.AppendTo([]byte("prefix"))
	if !strings.HasPrefix(string(p), "prefix") {
		c.Violate(fmt.Sprintf("append:%v", at), "AppendTo clobbered its buffer: %q", p)
		return
	}
	p = p[len("prefix"):]
	if s := at.ControlString(); s != string(p) {
		c.Violate(fmt.Sprintf("ctlstr:%v", at), "ControlString %q but AppendTo %q", s, p)
	}
	if n := at.Size(); n != len(p) {
		c.Violate(fmt.Sprintf("size:%v", at), "Size of %v is %d but it encodes to %d bytes: %q", at, n, len(p), p)
	}
	params, ok := sgrParams(string(p))
	var term ref.Attr
	if !ok || term.ApplySGR(params) >= 0 || term != a {
		c.Violate(fmt.Sprintf("encode:%v", at), "%v encodes as %q, which a terminal renders as %+v", at, p, term)
	}
	got, n, err := ansi.DecodeSGR([]byte(params))
	want := at
	if want == 0 {
		want = ansi.SGRAttrClear
	}
	if err != nil || n != len(params) || got != want {
		c.Violate(fmt.Sprintf("roundtrip:%v", at), "%v encodes as %q, decoded as %v (n=%d err=%v)", at, p, got, n, err)
	}
	c.Traces(1)
}

func checkSGRDecode(c *h.C) {
	toks := []string{
		"0", "1", "2", "3", "4", "5", "6", "7", "8",
		"30", "37", "40", "47", "90", "97", "100", "107",
		"38;5;0", "38;5;255", "48;5;16", "38;2;0;0;0", "48;2;255;1;20",
		// unsupported or malformed
		"9", "10", "11", "22", "39", "49", "98", "108", "110", "300", "38;5;256", "48;2;0;0;256", "38;3;1", "38", "48;5", "1x", "?",
	}
	maxLen := c.Pick(4, 5)
	c.Bound("parameter_words", len(toks))
	c.Bound("parameters_per_list", maxLen)
	c.Words(len(toks), 0, maxLen, func(w []int) {
		var sb strings.Builder
		for i, t := range w {
			if i > 0 {
				sb.WriteByte(';')
			}
			sb.WriteString(toks[t])
		}
		sgrDecodeOne(c, sb.String())
		c.Transitions(1)
	})
	// every byte string over the interesting bytes: never crashes, and agrees
	// with the reference wherever the parameters are in canonical form
	alpha := "01234589;x"
	if c.Thorough() {
		alpha = "0123456789;:x"
	}
	rawLen := 6
	c.Bound("raw_alphabet", alpha)
	c.Bound("raw_length", rawLen)
	c.Words(len(alpha), 0, rawLen, func(w []int) {
		var b [16]byte
		for i, t := range w {
			b[i] = alpha[t]
		}
		sgrDecodeOne(c, string(b[:len(w)]))
		c.Transitions(1)
	})
	// every direct color component boundary and every indexed color
	for v := 0; v < 300; v++ {
		for _, f := range []string{"38;5;%d", "48;5;%d", "%d", "38;2;%d;0;1", "48;2;1;%d;1", "38;2;1;2;%d", "1;38;5;%d;4"} {
			sgrDecodeOne(c, fmt.Sprintf(f, v))
			c.Transitions(1)
		}
	}
	c.Sample("%q", "1;38;5;255;0;48;2;255;1;20")
}

func canonicalParams(s string) bool {
	if s == "" {
		return true
	}
	for _, p := range strings.Split(s, ";") {
		if p == "" || len(p) > 1 && p[0] == '0' {
			return false
		}
	}
	return true
}

func sgrDecodeOne(c *h.C, s string) {
	arg := []byte(s)
	arg = arg[:len(arg):len(arg)]
	var (
		at  ansi.SGRAttr
		n   int
		err error
	)
	if !c.Guard("panic:"+s, func() string { return fmt.Sprintf("DecodeSGR(%q)", s) }, func() {
		at, n, err = ansi.DecodeSGR(arg)
	}) {
		return
	}
	if n < 0 || n > len(s) || err == nil && n != len(s) {
		c.Violate("consumed:"+s, "DecodeSGR(%q) consumed %d bytes, err=%v", s, n, err)
		return
	}
	if string(arg) != s {
		c.Violate("mutated:"+s, "DecodeSGR(%q) changed its argument to %q", s, arg)
	}
	if !canonicalParams(s) {
		return
	}
	if s == "" {
		if at != 0 || err != nil {
			c.Violate("empty", "DecodeSGR(\"\") = %v, %v", at, err)
		}
		return
	}
	var want ref.Attr
	params := strings.Split(s, ";")
	bad := want.ApplySGR(s)
	upto := len(params)
	if bad >= 0 {
		upto = bad
	}
	ea := toAnsiAttr(want)
	if sgrHasClear(params[:upto]) {
		ea |= ansi.SGRAttrClear
	}
	c.StateH(uint64(ea)<<1 | uint64(b2i(bad >= 0)))
	if (err != nil) != (bad >= 0) {
		c.Violate("err:"+s, "DecodeSGR(%q) = %v, err=%v; reference error at parameter %d", s, at, err, bad)
		return
	}
	if at != ea {
		c.Violate("attr:"+s, "DecodeSGR(%q) = %v (err=%v), want %v", s, at, err, ea)
	}
	if bad >= 0 {
		off := len(strings.Join(params[:bad], ";"))
		if n < off {
			c.Violate("offset:"+s, "DecodeSGR(%q) reports an error at %d, but the offending parameter starts at or after %d", s, n, off)
		}
	}
	c.Traces(1)
}

// sgrHasClear reports whether a 0 parameter (not part of a color) occurs.
func sgrHasClear(ps []string) bool {
	for i := 0; i < len(ps); i++ {
		switch ps[i] {
		case "0":
			return true
		case "38", "48":
			if i+1 < len(ps) {
				if ps[i+1] == "5" {
					i += 2
				} else if ps[i+1] == "2" {
					i += 4
				}
			}
		}
	}
	return false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
