package checks

import (
	"fmt"
	"image"
	"math/big"
	"sort"
	"strings"

	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() { h.Register("C05", checkParams) }

// refNumber is the reference of a signed base-10 parameter of up to 32 bits,
// with an optional leading separator.
func refNumber(s string) (v, n int, ok bool) {
	i := 0
	if i < len(s) && s[i] == ';' {
		i++
	}
	neg := false
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		i++
	}
	start := i
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == start {
		return 0, 0, false
	}
	var b big.Int
	b.SetString(s[start:i], 10)
	if b.BitLen() > 32 {
		return 0, 0, false
	}
	v = int(b.Int64())
	if neg {
		v = -v
	}
	return v, i, true
}

func checkNumber(c *h.C, s string) {
	c.Transitions(1)
	arg := []byte(s)
	arg = arg[:len(arg):len(arg)]
	var v, n int
	var err error
	if !c.Guard("panic:"+s, func() string { return fmt.Sprintf("DecodeNumber(%q)", s) }, func() { v, n, err = ansi.DecodeNumber(arg) }) {
		return
	}
	wv, wn, ok := refNumber(s)
	c.StateS(fmt.Sprintf("%d %v", wv, ok))
	switch {
	case n < 0 || n > len(s):
		c.Violate("num:"+s, "DecodeNumber(%q) consumed %d bytes", s, n)
	case ok && (err != nil || v != wv || n != wn):
		c.Violate("num:"+s, "DecodeNumber(%q) = %d, %d, %v; want %d, %d", s, v, n, err, wv, wn)
	case !ok && err == nil:
		c.Violate("num:"+s, "DecodeNumber(%q) = %d, %d without an error", s, v, n)
	}

	var p ansi.Point
	if !c.Guard("panic:"+s, func() string { return fmt.Sprintf("DecodePoint(%q)", s) }, func() { p, n, err = ansi.DecodePoint(arg) }) {
		return
	}
	if n < 0 || n > len(s) {
		c.Violate("pt:"+s, "DecodePoint(%q) consumed %d bytes", s, n)
	}
	if ok {
		wx, wm, ok := refNumber(s[wn:])
		if ok && (err != nil || p.Y != wv || p.X != wx || n != wn+wm) {
			c.Violate("pt:"+s, "DecodePoint(%q) = %v, %d, %v; want row %d column %d", s, p, n, err, wv, wx)
		}
		if !ok && err == nil {
			c.Violate("pt:"+s, "DecodePoint(%q) = %v, %d without an error", s, p, n)
		}
	} else if err == nil {
		c.Violate("pt:"+s, "DecodePoint(%q) = %v, %d without an error", s, p, n)
	}

	for _, priv := range []bool{false, true} {
		m, n, err := ansi.DecodeMode(priv, arg)
		switch {
		case ok && wv >= 0:
			want := ansi.Mode(wv)
			if priv {
				want |= ansi.ModePrivate
			}
			if err != nil || m != want || n != wn {
				c.Violate("mode:"+s, "DecodeMode(%v, %q) = %x, %d, %v; want %x, %d", priv, s, m, n, err, want, wn)
			}
		case !ok && err == nil:
			c.Violate("mode:"+s, "DecodeMode(%v, %q) = %x, %d without an error", priv, s, m, n)
		}
	}
	c.Traces(1)
}

func checkParams(c *h.C) {
	alpha := "0129;+-x"
	n := c.Pick(7, 8)
	c.Bound("number_alphabet", alpha)
	c.Bound("number_length", n)
	c.Words(len(alpha), 0, n, func(w []int) {
		var b [16]byte
		for i, t := range w {
			b[i] = alpha[t]
		}
		checkNumber(c, string(b[:len(w)]))
	})
	for _, base := range []string{"2147483647", "4294967295", "9223372036854775807", "18446744073709551615", "1844674407370955161", "99999999999999999999999"} {
		var b big.Int
		b.SetString(base, 10)
		for d := int64(-11); d <= 11; d++ {
			s := new(big.Int).Add(&b, big.NewInt(d)).String()
			for _, pre := range []string{"", ";", "-", "+", ";-", "0000000000000000000000"} {
				for _, post := range []string{"", ";1", "x", ";"} {
					checkNumber(c, pre+s+post)
				}
			}
		}
	}

	// Points round trip through cursor positions.
	m := c.Pick(80, 300)
	for x := 1; x <= m; x++ {
		for y := 1; y <= m; y++ {
			p := ansi.Pt(x, y)
			b := ansi.CUP.WithPoint(p).AppendTo(nil)
			e, a, k := ansi.DecodeEscape(b)
			got, n, err := ansi.DecodePoint(a)
			if e != ansi.CUP || k != len(b) || err != nil || n != len(a) || got != p {
				c.Violate(fmt.Sprintf("cup:%d,%d", x, y), "position (%d,%d) encodes as %q, decoded as %v %v %v", x, y, b, e, got, err)
			}
			if want := fmt.Sprintf("\x1b[%d;%dH", y, x); string(b) != want {
				c.Violate(fmt.Sprintf("cup:%d,%d", x, y), "position (%d,%d) encodes as %q, want %q", x, y, b, want)
			}
			c.Transitions(1)
		}
	}

	checkModes(c)
	checkCardinals(c)
	checkMouse(c)
	c.Sample("DecodePoint(%q)", "12;-9x")
	c.Sample("CSI %s", "<68;12;9m")
}

func checkModes(c *h.C) {
	for v := 0; v < c.Pick(3000, 70000); v++ {
		for _, priv := range []bool{false, true} {
			mode := ansi.Mode(v)
			pre := ""
			if priv {
				mode |= ansi.ModePrivate
				pre = "?"
			}
			for k, seq := range []ansi.Seq{mode.Set(), mode.Reset()} {
				want := fmt.Sprintf("\x1b[%s%d%c", pre, v, "hl"[k])
				if got := string(seq.AppendTo(nil)); got != want {
					c.Violate("modeseq:"+want, "mode %x: sequence %q, want %q", mode, got, want)
				}
			}
			c.Transitions(1)
		}
	}
	// lists of modes decode one after the other
	vals := []string{"25", "1049", "1006", "1", "7"}
	c.Words(len(vals), 1, 4, func(w []int) {
		var parts []string
		for _, i := range w {
			parts = append(parts, vals[i])
		}
		a := []byte(strings.Join(parts, ";"))
		var got []string
		for steps := 0; len(a) > 0 && steps < 10; steps++ {
			mode, n, err := ansi.DecodeMode(true, a)
			if err != nil || n <= 0 || mode&ansi.ModePrivate == 0 {
				break
			}
			got = append(got, fmt.Sprint(uint64(mode&^ansi.ModePrivate)))
			a = a[n:]
		}
		if strings.Join(got, ";") != strings.Join(parts, ";") {
			c.Violate("modelist:"+strings.Join(parts, ";"), "mode list %v decodes as %v", parts, got)
		}
		c.Transitions(1)
		c.Traces(1)
	})
}

func checkCardinals(c *h.C) {
	dirs := map[ansi.Escape]image.Point{
		ansi.CSI('A'): {X: 0, Y: -1}, ansi.CSI('B'): {X: 0, Y: 1},
		ansi.CSI('C'): {X: 1, Y: 0}, ansi.CSI('D'): {X: -1, Y: 0},
	}
	for b := 0x40; b <= 0x7e; b++ {
		id := ansi.CSI(byte(b))
		for n := 0; n < 400; n++ {
			arg := fmt.Sprint(n)
			k := n
			if n == 0 {
				arg, k = "", 1 // no argument: one step
			}
			d, ok := ansi.DecodeCursorCardinal(id, []byte(arg))
			u, want := dirs[id]
			if ok != want || ok && d != u.Mul(k) {
				c.Violate(fmt.Sprintf("cardinal:%v:%s", id, arg), "cursor move %v%q = %v %v", id, arg, d, ok)
			}
			c.Transitions(1)
		}
	}
}

// refMouse is the reference of an xterm extended (1006) mouse report.
func refMouse(final byte, arg string) (st, x, y int, ok bool) {
	arg = arg[1:]
	st, n, ok := refNumber(arg)
	if !ok || st < 0 || st > 255 {
		return 0, 0, 0, false
	}
	if final == 'm' {
		st |= 128
	}
	arg = arg[n:]
	if x, n, ok = refNumber(arg); !ok {
		return 0, 0, 0, false
	}
	arg = arg[n:]
	if y, n, ok = refNumber(arg); !ok {
		return 0, 0, 0, false
	}
	return st, x, y, len(arg) == n
}

func checkMouse(c *h.C) {
	one := func(final byte, arg string) {
		id := ansi.CSI(final)
		c.Transitions(1)
		var b ansi.MouseState
		var p ansi.Point
		var err error
		if !c.Guard("panic:mouse"+arg, func() string { return fmt.Sprintf("mouse report %q%c", arg, final) }, func() {
			b, p, err = ansi.DecodeXtermExtendedMouse(id, []byte(arg))
		}) {
			return
		}
		st, x, y, ok := refMouse(final, arg)
		if ok != (err == nil) || ok && (int(b) != st || p.X != x || p.Y != y) {
			c.Violate(fmt.Sprintf("mouse:%s%c", arg, final), "mouse report %q%c = %v %v %v; want %v %d,%d ok=%v", arg, final, b, p, err, st, x, y, ok)
		}
		if err != nil {
			if mde, is := err.(ansi.MouseDecodeError); !is || mde.ID != id || string(mde.Arg) != arg || err.Error() == "" {
				c.Violate(fmt.Sprintf("mouseerr:%s%c", arg, final), "mouse report %q%c error does not identify it: %v", arg, final, err)
			}
		}
		c.Traces(1)
	}
	coords := []int{1, 2, 9, 10, 80, 95, 96, 127, 128, 223, 224, 255, 256, 1000, 65536}
	for cb := 0; cb <= 300; cb++ {
		for _, x := range coords {
			for _, y := range coords {
				arg := fmt.Sprintf("<%d;%d;%d", cb, x, y)
				one('M', arg)
				one('m', arg)
			}
		}
	}
	alpha := "0159;-x"
	c.Words(len(alpha), 0, c.Pick(6, 7), func(w []int) {
		b := []byte("<")
		for _, i := range w {
			b = append(b, alpha[i])
		}
		one('M', string(b))
		one('m', string(b))
	})
	// not a mouse report at all
	for b := 0x40; b <= 0x7e; b++ {
		for _, arg := range []string{"", "0;1;2", "<0;1;2", "?1", "1"} {
			if (b == 'M' || b == 'm') && strings.HasPrefix(arg, "<") {
				continue
			}
			st, p, err := ansi.DecodeXtermExtendedMouse(ansi.CSI(byte(b)), []byte(arg))
			if st != 0 || p != ansi.ZP || err != nil {
				c.Violate(fmt.Sprintf("notmouse:%s%c", arg, b), "CSI %s %c taken for a mouse report: %v %v %v", arg, b, st, p, err)
			}
			c.Transitions(1)
		}
	}
	// classification of every mouse state
	for v := 0; v < 256; v++ {
		ms := ansi.MouseState(v)
		low, mod := v&3, v&0x1c
		motion, wheel, release := v&32 != 0, v&64 != 0, v&128 != 0
		bad := func(what string, got interface{}) {
			c.Violate(fmt.Sprintf("mousestate:%d:%s", v, what), "mouse state %d: %s = %v", v, what, got)
		}
		c.Transitions(1)
		c.StateH(uint64(v) | 1<<40)
		if int(ms.Modifier()) != mod {
			bad("Modifier", ms.Modifier())
		}
		if ms.IsMotion() != motion {
			bad("IsMotion", ms.IsMotion())
		}
		if ms.IsRelease() != release {
			bad("IsRelease", ms.IsRelease())
		}
		var names []string
		for bit, name := range map[int]string{4: "shift", 8: "meta", 16: "ctrl"} {
			if mod&bit != 0 {
				names = append(names, name)
			}
		}
		got := strings.Split(ms.ModifierName(), "+")
		sort.Strings(names)
		sort.Strings(got)
		if strings.Join(names, "+") != strings.Join(got, "+") {
			bad("ModifierName", ms.ModifierName())
		}
		if e := h.Panics(func() { _ = ms.String() }); e != nil {
			bad("String", e)
		}
		if wheel && low > 1 {
			continue // not seen in practice: unspecified
		}
		id := []int{1, 2, 3, 0}[low]
		name := []string{"", "left", "middle", "right", "wheelUp", "wheelDown"}
		if wheel {
			id = 4 + low
		}
		if int(ms.ButtonID()) != id {
			bad("ButtonID", ms.ButtonID())
		}
		if ms.ButtonName() != name[id] {
			bad("ButtonName", ms.ButtonName())
		}
		if bid, is := ms.IsPress(); is != (!release && !motion) || is && int(bid) != id {
			bad("IsPress", fmt.Sprint(bid, is))
		}
		if ms.IsDrag() != (motion && !release && id != 0) {
			bad("IsDrag", ms.IsDrag())
		}
	}
}
