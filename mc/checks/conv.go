// Package checks holds the checkers that only need anansi's exported API.
package checks

import (
	"github.com/jcorbin/anansi/ansi"

	"verif.local/mc/ref"
)

func toAnsiColor(c ref.Color) ansi.SGRColor {
	if c.Kind == 2 {
		return ansi.RGB(c.R, c.G, c.B)
	}
	return ansi.SGRColor(c.R)
}

func fromAnsiColor(c ansi.SGRColor, set bool) (rc ref.Color) {
	if !set {
		return rc
	}
	if c > 255 {
		r, g, b := c.RGB()
		return ref.Color{Kind: 2, R: r, G: g, B: b}
	}
	return ref.Color{Kind: 1, R: uint8(c)}
}

func toAnsiAttr(a ref.Attr) (at ansi.SGRAttr) {
	if a.Bold {
		at |= ansi.SGRAttrBold
	}
	if a.Dim {
		at |= ansi.SGRAttrDim
	}
	if a.Italic {
		at |= ansi.SGRAttrItalic
	}
	if a.Under {
		at |= ansi.SGRAttrUnderscore
	}
	if a.Neg {
		at |= ansi.SGRAttrNegative
	}
	if a.Conceal {
		at |= ansi.SGRAttrConceal
	}
	if a.FG.Kind != 0 {
		at |= toAnsiColor(a.FG).FG()
	}
	if a.BG.Kind != 0 {
		at |= toAnsiColor(a.BG).BG()
	}
	return at
}

func fromAnsiAttr(at ansi.SGRAttr) (a ref.Attr) {
	a.Bold = at&ansi.SGRAttrBold != 0
	a.Dim = at&ansi.SGRAttrDim != 0
	a.Italic = at&ansi.SGRAttrItalic != 0
	a.Under = at&ansi.SGRAttrUnderscore != 0
	a.Neg = at&ansi.SGRAttrNegative != 0
	a.Conceal = at&ansi.SGRAttrConceal != 0
	a.FG = fromAnsiColor(at.FG())
	a.BG = fromAnsiColor(at.BG())
	return a
}
