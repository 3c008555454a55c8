package checks

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/h"
)

func init() { h.Register("C04", checkSeqEncode) }

// seqModel is the reference model of an escape sequence under construction.
type seqModel struct {
	id    ansi.Escape
	bytes string
	ints  []int
}

func (m seqModel) encode() string {
	var sb strings.Builder
	nums := make([]string, len(m.ints))
	for i, n := range m.ints {
		nums[i] = strconv.Itoa(n)
	}
	switch id := m.id; {
	case id <= 0x1f:
		sb.WriteByte(byte(id))
		sb.WriteString(m.bytes)
	case id >= 0xEF80:
		sb.WriteString("\x1b[" + m.bytes + strings.Join(nums, ";"))
		sb.WriteByte(byte(id & 0x7f))
	case id <= 0xEF2F:
		sb.WriteByte(0x1b)
		sb.WriteByte(byte(id & 0x7f))
		sb.WriteString(m.bytes)
	default:
		sb.WriteString("\x1b" + m.bytes)
		sb.WriteByte(byte(id & 0x7f))
	}
	return sb.String()
}

// decodesTo checks that the encoded p decodes to exactly id and arg, with
// nothing before or after.
func decodesTo(p string, id ansi.Escape, arg string) (string, bool) {
	b := []byte(p + "Z")
	e, a, n := ansi.DecodeEscape(b)
	if e == 0 {
		// C0 and C1 controls decode as runes
		r, m := ansi.DecodeRune([]byte(p + "Z"))
		return fmt.Sprintf("rune %U + %d bytes", r, m), ansi.Escape(r) == id && arg == "" && m == len(p)
	}
	return fmt.Sprintf("%v %q + %d bytes", e, a, n), e == id && string(a) == arg && n == len(p)
}

func checkSeqEncode(c *h.C) {
	// Part 1: every identifier, with every argument shape it can carry.
	var ids []ansi.Escape
	for r := 1; r <= 0x1f; r++ {
		if r != 0x1b {
			ids = append(ids, ansi.Escape(r))
		}
	}
	for r := 0x80; r <= 0x9f; r++ {
		ids = append(ids, ansi.Escape(r))
	}
	for b := 0x20; b <= 0x7e; b++ {
		ids = append(ids, ansi.ESC(byte(b)))
		if b >= 0x40 {
			ids = append(ids, ansi.CSI(byte(b)))
		}
	}
	for _, id := range ids {
		c.StateH(uint64(id))
		c.Transitions(1)
		if want, known := idName(id); known {
			if b, ok := id.ESC(); ok != (want == 'e') || ok && byte(id&0x7f) != b {
				c.Violate(fmt.Sprintf("name:%04X", rune(id)), "ESC() of %U = %q %v", rune(id), b, ok)
			}
			if b, ok := id.CSI(); ok != (want == 'c') || ok && byte(id&0x7f) != b {
				c.Violate(fmt.Sprintf("name:%04X", rune(id)), "CSI() of %U = %q %v", rune(id), b, ok)
			}
			if id.IsEscape() != (want != 0) {
				c.Violate(fmt.Sprintf("isescape:%04X", rune(id)), "IsEscape of %U = %v", rune(id), id.IsEscape())
			}
		}
		isCharset := id >= 0xEF20 && id <= 0xEF2F
		folded := id >= 0xEF40 && id <= 0xEF5F // 7-bit form of a C1 control
		isString := id == 0x90 || id >= 0x9d && id <= 0x9f
		bare := string(id.AppendTo([]byte("xy")))
		if !strings.HasPrefix(bare, "xy") {
			c.Violate(fmt.Sprintf("clobber:%04X", rune(id)), "AppendTo of %U clobbered its buffer: %q", rune(id), bare)
			continue
		}
		bare = bare[2:]
		if with := string(id.AppendWith([]byte("xy"))); with != "xy"+bare {
			c.Violate(fmt.Sprintf("with:%04X", rune(id)), "AppendWith of %U without arguments gives %q, AppendTo %q", rune(id), with, bare)
		}
		if n := id.Size(); n != len(bare) {
			c.Violate(fmt.Sprintf("size:%04X", rune(id)), "Size of %U is %d, encoded as %q", rune(id), n, bare)
		}
		if folded {
			if got, ok := decodesTo(bare, id-0xEF40+0x80, ""); !ok && !(id-0xEF40 == 0x1b || id-0xEF40 == 0x10 || id-0xEF40 >= 0x1d) {
				c.Violate(fmt.Sprintf("bare:%04X", rune(id)), "%U encodes as %q, decoded as %v", rune(id), bare, got)
			}
		} else if !isCharset && !isString && id != 0x9b {
			if got, ok := decodesTo(bare, id, ""); !ok {
				c.Violate(fmt.Sprintf("bare:%04X", rune(id)), "%U encodes as %q, decoded as %v", rune(id), bare, got)
			}
		}
		var args []string
		switch {
		case isCharset:
			args = []string{"B", "0", "A", "<"}
		case isString:
			args = []string{"", "x", "some:text;1", "日本", "\x07"}
		case id >= 0xEF80:
			args = []string{"", "1", "1;2", "?25", "<0;1;2", ">0", "12;34;56;78;9", "1 ", "!", "1;2$", "0123456789:;<=>?"}
		case id >= 0xEF30 && !folded:
			args = []string{"", "#!", "  ", "\"#$"}
		case id <= 0x1f || id < 0x100:
			args = nil
		}
		for _, arg := range args {
			if id == 0x9d && strings.Contains(arg, "\a") {
				continue // BEL ends an OSC
			}
			p := id.AppendWith([]byte("pre"), []byte(arg)...)
			c.Transitions(1)
			c.Traces(1)
			if !strings.HasPrefix(string(p), "pre") {
				c.Violate(fmt.Sprintf("clobber:%04X", rune(id)), "AppendWith of %U clobbered its buffer: %q", rune(id), p)
				continue
			}
			if got, ok := decodesTo(string(p[3:]), id, arg); !ok {
				c.Violate(fmt.Sprintf("arg:%04X:%q", rune(id), arg), "%U with %q encodes as %q, decoded as %v", rune(id), arg, p[3:], got)
			}
		}
	}
	c.Bound("identifiers", len(ids))

	// Part 2: every history of derivations: sequences are values, so deriving
	// one must not disturb any other, whatever was derived from what.
	bases := []ansi.Escape{ansi.CUP, ansi.SM, ansi.CSI('~'), ansi.ESC('7'), ansi.ESC('('), ansi.Escape(0x07)}
	type op struct {
		bytes string
		ints  []int
		point bool
	}
	ops := []op{
		{bytes: "?"}, {bytes: "<="}, {bytes: "ABCD"},
		{ints: []int{7}}, {ints: []int{1, 20}}, {ints: []int{3, 4, 5, 600}},
		{ints: []int{-8}}, {ints: []int{12, 9}, point: true}, {},
	}
	depth := c.Pick(4, 5)
	c.Bound("derivation_operations", len(ops))
	c.Bound("derivations_per_history", depth)
	for _, id := range bases {
		id := id
		isCSI := id >= 0xEF80
		// history: step k derives node k+1 from any earlier node
		type step struct{ op, from int }
		var steps []step
		for o := range ops {
			for f := 0; f < 2; f++ { // from the latest, or from the one before it
				steps = append(steps, step{o, f})
			}
		}
		c.Words(len(steps), depth, depth, func(w []int) {
			seqs := make([]ansi.Seq, 1, depth+1)
			mods := make([]seqModel, 1, depth+1)
			seqs[0], mods[0] = id.With(), seqModel{id: id}
			for _, si := range w {
				st := steps[si]
				f := len(seqs) - 1 - st.from
				if f < 0 {
					return
				}
				s, m := seqs[f], mods[f]
				o := ops[st.op]
				m.ints = append([]int(nil), m.ints...)
				switch {
				case o.point && isCSI:
					s = s.WithPoint(ansi.Pt(o.ints[1], o.ints[0]))
					m.ints = append(m.ints, o.ints...)
				case o.ints != nil && isCSI:
					s = s.WithInts(o.ints...)
					m.ints = append(m.ints, o.ints...)
				case o.ints != nil:
					return
				case o.bytes != "":
					if id == 0xEF28 && m.bytes != "" || id == 0xEF28 && len(o.bytes) > 1 {
						return // character set selection has exactly one argument byte
					}
					s = s.With([]byte(o.bytes)...)
					m.bytes += o.bytes
				}
				seqs, mods = append(seqs, s), append(mods, m)
			}
			c.Transitions(len(w))
			for i := range seqs {
				if id == 0xEF28 && mods[i].bytes == "" {
					continue
				}
				want := mods[i].encode()
				c.StateS(want)
				got := string(seqs[i].AppendTo([]byte("q")))
				if got != "q"+want || seqs[i].ID() != id {
					c.Violate(fmt.Sprintf("seq:%v:%d", w, i), "history %v of %v: sequence %d encodes as %q, want %q", w, id, i, got[1:], want)
				}
				if n := seqs[i].Size(); n < len(want) {
					c.Violate(fmt.Sprintf("seqsize:%q", want), "Size %d of sequence %q understates its %d bytes", n, want, len(want))
				}
			}
			c.Traces(1)
		})
	}
	c.Sample("CSI+H derived .With(\"?\") and .WithInts(3,4,5,600) from the same base, then both encoded")
}

// idName classifies an identifier: 'e' ESC function, 'c' CSI function, 0 control.
func idName(id ansi.Escape) (byte, bool) {
	switch {
	case id > 0xEF00 && id < 0xEF7F:
		return 'e', true
	case id > 0xEF80 && id < 0xEFFF:
		return 'c', true
	case id < 0x100:
		return 0, true
	}
	return 0, false
}
