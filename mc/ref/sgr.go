// Package ref holds the reference models the checkers compare anansi to. They
// are written from the public documentation of terminals and of anansi, and
// share no code with it.
package ref

import (
	"strconv"
	"strings"
)

// Color is a terminal color: unset, indexed, or direct.
type Color struct {
	Kind    uint8 // 0 default, 1 indexed, 2 direct
	R, G, B uint8 // R is the index if Kind is 1
}

// Attr is the rendition state of a terminal.
type Attr struct {
	Bold, Dim, Italic, Under, Neg, Conceal bool
	FG, BG                                 Color
}

// ApplySGR interprets the parameter string of one SGR sequence as a terminal
// would. It returns the index of the first parameter it does not understand,
// or -1.
func (a *Attr) ApplySGR(params string) int {
	if params == "" {
		*a = Attr{}
		return -1
	}
	ps := strings.Split(params, ";")
	num := func(i int) int {
		if i >= len(ps) {
			return -1
		}
		if ps[i] == "" {
			return 0
		}
		n, err := strconv.Atoi(ps[i])
		if err != nil || n < 0 {
			return -1
		}
		return n
	}
	for i := 0; i < len(ps); i++ {
		n := num(i)
		switch {
		case n == 0:
			*a = Attr{}
		case n == 1:
			a.Bold = true
		case n == 2:
			a.Dim = true
		case n == 3:
			a.Italic = true
		case n == 4:
			a.Under = true
		case n == 5 || n == 6: // blink: not modelled
		case n == 7:
			a.Neg = true
		case n == 8:
			a.Conceal = true
		case 30 <= n && n <= 37:
			a.FG = Color{Kind: 1, R: uint8(n - 30)}
		case 40 <= n && n <= 47:
			a.BG = Color{Kind: 1, R: uint8(n - 40)}
		case 90 <= n && n <= 97:
			a.FG = Color{Kind: 1, R: uint8(n - 90 + 8)}
		case 100 <= n && n <= 107:
			a.BG = Color{Kind: 1, R: uint8(n - 100 + 8)}
		case n == 38 || n == 48:
			var c Color
			switch num(i + 1) {
			case 5:
				v := num(i + 2)
				if v < 0 || v > 255 {
					return i
				}
				c = Color{Kind: 1, R: uint8(v)}
				i += 2
			case 2:
				r, g, b := num(i+2), num(i+3), num(i+4)
				if r < 0 || r > 255 || g < 0 || g > 255 || b < 0 || b > 255 {
					return i
				}
				c = Color{2, uint8(r), uint8(g), uint8(b)}
				i += 4
			default:
				return i
			}
			if n == 38 {
				a.FG = c
			} else {
				a.BG = c
			}
		default:
			return i
		}
	}
	return -1
}
