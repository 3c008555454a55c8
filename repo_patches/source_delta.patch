From 155e3ed5eaf654f86030c52ae785c65faf222f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 01/70] fix: decode the SGR conceal attribute instead of
 dropping it

---
 ansi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6a80a96..fdf862e 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -331,7 +331,7 @@ func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
 					0, // slow blink not supported
 					0, // fast blink not supported
 					SGRAttrNegative,
-					0, // concealed not supported
+					SGRAttrConceal,
 				}[a[n]-'0']; at {
 				case 0:
 				case SGRAttrClear:
-- 
2.43.0


From 6ff5556c7c1668ad468a86c18d1a450176b8d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 02/70] fix: an invalid UTF-8 byte must not keep an escape
 string from terminating

---
 ansi/decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index fdf862e..1beb2f3 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -207,7 +207,9 @@ func decodeString(p []byte) (a []byte, n int) {
 	for {
 		switch r {
 		case utf8.RuneError:
-			return nil, 0
+			if !utf8.FullRune(p[n:]) {
+				return nil, 0 // may be completed by more bytes
+			}
 		case 0x9C:
 			return p[:n], n + m
 		}
-- 
2.43.0


From 335daccf523ced7d7ce4ef933f4c2f40103efae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 03/70] fix: encode every escape identifier and argument so
 that it decodes to itself

---
 ansi/control.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 960eaa4..4086ae7 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -28,7 +28,7 @@ type Seq struct {
 
 func (id Escape) seq() Seq {
 	switch {
-	case 0x0000 < id && id < 0x001F,
+	case 0x0000 < id && id <= 0x001F,
 		0xEF00 < id && id < 0xEFFF:
 		return Seq{id: id}
 	}
@@ -122,11 +122,11 @@ func (seq Seq) WithPoint(p Point) Seq { return seq.WithInts(p.Y, p.X) }
 func (id Escape) AppendTo(p []byte) []byte {
 	// TODO stricter
 	switch {
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id < 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(p, '\x1b', byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(p, '\x1b', '[', byte(id&0x7F))
@@ -135,15 +135,25 @@ func (id Escape) AppendTo(p []byte) []byte {
 }
 
 // AppendWith appends the escape code and any given argument bytes to the given
-// byte slice.
+// byte slice. Any argument given to a string control (DCS, OSC, PM, or APC) is
+// followed by a terminating ST; without any argument, just the control itself
+// is appended.
 func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	// TODO stricter
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case id == 0x0090, 0x009D <= id && id <= 0x009F: // DCS, OSC, PM, APC string controls
+		p = append(p, '\x1b', byte(0x40|id&0x1F))
+		if arg != nil {
+			p = append(append(p, arg...), '\x1b', '\\')
+		}
+		return p
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control, named by its first byte
+		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
+	case 0xEF30 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(append(append(p, '\x1b', '['), arg...), byte(id&0x7F))
@@ -158,7 +168,7 @@ func (seq Seq) AppendTo(p []byte) []byte {
 	}
 	switch id := seq.id; {
 	case id == 0:
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		p = append(p, byte(id))
 		p = seq.appendArgBytes(p)
 	case 0xEF80 < id && id < 0xEFFF: // CSI
@@ -166,15 +176,15 @@ func (seq Seq) AppendTo(p []byte) []byte {
 		p = seq.appendArgBytes(p)
 		p = seq.appendArgNums(p)
 		p = append(p, byte(id&0x7F))
-	case 0xEF00 < id && id < 0xEF7F: // ESC
-		p = append(p, '\x1b')
-		p = seq.appendArgBytes(p)
-		p = append(p, byte(id&0x7F))
-	case 0xEF20 < id && id < 0xEF2F: // ESC character set control
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control
 		// NOTE character set selection sequences are special, in that they're
 		// always a 3 byte sequence, and identified by the first
 		// (intermediate range) byte after the ESC
 		p = append(p, '\x1b', byte(id&0x7F), seq.argBytes[0])
+	case 0xEF00 < id && id < 0xEF7F: // ESC
+		p = append(p, '\x1b')
+		p = seq.appendArgBytes(p)
+		p = append(p, byte(id&0x7F))
 	default:
 		panic("inconceivable: should not be able to construct a Seq like that")
 	}
@@ -220,9 +230,9 @@ func (id Escape) Size() int {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return 1
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return 2
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return 2
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return 3
-- 
2.43.0


From d9d1f1fe12dd77dc0c8aa66ef3b74c2ed527b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 04/70] fix: DecodeNumber reports missing digits and out of
 range values

---
 ansi/decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 1beb2f3..e91616e 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -268,6 +268,11 @@ func DecodeNumber(p []byte) (r, n int, _ error) {
 	)
 	var un uint64
 
+	// No digits bad.
+	if p[0] < '0' || '9' < p[0] {
+		return 0, n, errSyntax
+	}
+
 	for _, c := range p {
 		if c < '0' || '9' < c {
 			break
@@ -281,12 +286,7 @@ func DecodeNumber(p []byte) (r, n int, _ error) {
 				continue
 			} // else un+v overflows
 		} // else un*10 overflows
-		if !neg && maxVal >= cutoff {
-			return int(cutoff - 1), n, errRange
-		}
-		if neg && maxVal > cutoff {
-			return -int(cutoff), n, errRange
-		}
+		return 0, n, errRange
 	}
 
 	if neg {
-- 
2.43.0


From 6535ef30771c90744472bbc34cc5e2fea9daa9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 05/70] fix: RectFromImage returns the converted rectangle

---
 ansi/geom.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ansi/geom.go b/ansi/geom.go
index fe69b07..1c53a8f 100644
--- a/ansi/geom.go
+++ b/ansi/geom.go
@@ -45,6 +45,8 @@ func RectFromImage(ir image.Rectangle) (r Rectangle) {
 	if ir.Min.X < 0 || ir.Min.Y < 0 || ir.Max.X < 0 || ir.Max.Y < 0 {
 		panic("out of bounds image.Rectangle value")
 	}
+	r.Min = PtFromImage(ir.Min)
+	r.Max = PtFromImage(ir.Max)
 	return r
 }
 
-- 
2.43.0


From 378d6929f298851e616ca3d94eee14e2ea7fe88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 06/70] fix: ColorModels must not overwrite models combined
 earlier

---
 ansi/colors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index 71cb641..d2b8796 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -465,9 +465,9 @@ func ColorModels(models ...ColorModel) ColorModel {
 		as, haveAs := a.(colorModels)
 		bs, haveBs := b.(colorModels)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(colorModels{a}, bs...)
 		} else {
-- 
2.43.0


From 1f6ac59458147f68ab127fe347769e45dd9801da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 07/70] fix: Palette.Index finds the truly closest color

---
 ansi/colors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index d2b8796..b2b987f 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -718,8 +718,9 @@ func (p Palette) Index(c SGRColor) int {
 	return ret
 }
 
-// sqDiff borrowed from image/color
+// sqDiff borrowed from image/color; NOTE 8-bit components do not need to lose
+// any bits to keep their sum within range.
 func sqDiff(x, y uint8) uint32 {
 	d := uint32(x) - uint32(y)
-	return (d * d) >> 2
+	return d * d
 }
-- 
2.43.0


From 2f108300b1b72519b6afd1ddf7a156504569d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 08/70] fix: Cursor.To must emit pure vertical moves

---
 state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 5104884..112acf7 100644
--- a/state.go
+++ b/state.go
@@ -158,7 +158,7 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 		return ansi.CUB.WithInts(-dx)
 	}
 
-	dy := pt.X - cs.X
+	dy := pt.Y - cs.Y
 	cs.Y = pt.Y
 	switch {
 	case dy == 0:
-- 
2.43.0


From 626c339a0324d713d13e2ac6cf2bc1692f84cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 09/70] fix: Cursor must not invent a position from an unknown
 one

---
 state.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/state.go b/state.go
index 112acf7..b0a62d4 100644
--- a/state.go
+++ b/state.go
@@ -178,7 +178,9 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 // NewLine moves the cursor to the start of the next line, returning the
 // necessary ansi sequence.
 func (cs *Cursor) NewLine() ansi.Seq {
-	cs.Y++
+	if cs.Y > 0 {
+		cs.Y++
+	}
 	cs.X = 1
 	return ansi.Escape('\r').With('\n')
 }
@@ -263,13 +265,29 @@ func (cs *Cursor) ProcessANSI(e ansi.Escape, a []byte) {
 	case e.IsEscape():
 		cs.processEscape(e, a, ptID)
 	case e == '\x0A': // LF
-		cs.Y++
+		if cs.Y > 0 {
+			cs.Y++
+		}
 	case e == '\x0D': // CR
 		cs.X = 1
 	// TODO anything for other control runes?
 	case unicode.IsGraphic(rune(e)):
-		cs.X++ // TODO support double-width runes
+		if cs.X > 0 {
+			cs.X++ // TODO support double-width runes
+		}
+	}
+}
+
+// moveBy returns v moved by d, stopping at 1 like a terminal does; an unknown
+// (zero or negative) coordinate stays unknown.
+func moveBy(v, d int) int {
+	if v < 1 {
+		return v
+	}
+	if v += d; v < 1 {
+		return 1
 	}
+	return v
 }
 
 func ptID(pt ansi.Point) ansi.Point { return pt }
@@ -291,7 +309,9 @@ func (cs *Cursor) processEscape(
 			}
 			d = d.Mul(n)
 		}
-		cs.Point = clamp(cs.Point.Add(d))
+		pt := cs.Point
+		pt.X, pt.Y = moveBy(pt.X, d.X), moveBy(pt.Y, d.Y)
+		cs.Point = clamp(pt)
 
 	case ansi.CUP: // absolute cursor motion
 		p := ansi.Pt(1, 1)
-- 
2.43.0


From 48ea78d8358d9ee61324889b26f7d30dc1257705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 10/70] fix: VirtualCursor.Apply must not have its output
 processed again

---
 cursor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index 815ba18..e7217c9 100644
--- a/cursor.go
+++ b/cursor.go
@@ -124,7 +124,9 @@ func (c *VirtualCursor) Hide() {
 // Apply the given cursor state, writing any necessary escape sequences into
 // the internal buffer.
 func (c *VirtualCursor) Apply(cs Cursor) {
-	_, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	var n int
+	n, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	c.buf.Skip(n)
 }
 
 var _ ansiWriter = &VirtualCursor{}
-- 
2.43.0


From 73243709351f5465a61b3405f8b96f017dd87219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 11/70] fix: an SGR sequence without parameters resets the
 cursor attribute

---
 state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index b0a62d4..c13d64f 100644
--- a/state.go
+++ b/state.go
@@ -325,7 +325,9 @@ func (cs *Cursor) processEscape(
 		cs.Point = clamp(p)
 
 	case ansi.SGR:
-		if attr, _, err := ansi.DecodeSGR(a); err == nil {
+		if len(a) == 0 { // no parameters means reset
+			cs.Attr = cs.Attr.Merge(ansi.SGRAttrClear)
+		} else if attr, _, err := ansi.DecodeSGR(a); err == nil {
 			cs.Attr = cs.Attr.Merge(attr)
 		}
 
-- 
2.43.0


From ac5cb7371ad4926fc5a80e560cab2d73cc657c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 12/70] fix: Process must wait for the rest of a cut sequence
 or rune, and never wedge

---
 buffer.go | 46 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/buffer.go b/buffer.go
index 9f85fb6..6cbf498 100644
--- a/buffer.go
+++ b/buffer.go
@@ -147,24 +147,60 @@ func (b *Buffer) Process(proc Processor) {
 }
 
 // Process decodes ansi escapes and utf8 runes from p, passing them to proc.
+// Returns the number of bytes processed; any remaining bytes are the start of
+// an escape sequence or rune that needs more bytes to complete.
 func Process(proc Processor, p []byte) (n int) {
 	for n < len(p) {
+		c1 := p[n] == '\x1b' && n+1 < len(p) && 0x40 <= p[n+1] && p[n+1] <= 0x5f
 		e, a, m := ansi.DecodeEscape(p[n:])
-		n += m
 		if e == 0 {
-			switch r, m := utf8.DecodeRune(p[n:]); r {
+			if m > 0 {
+				n += m
+				continue
+			}
+			r, m := utf8.DecodeRune(p[n:])
+			if c1 && 0x80 <= r && r <= 0x9f {
+				// restore the 7-bit form of a C1 control: the bytes may yet
+				// be written out, or passed again when there are more
+				p[n], p[n+1] = '\x1b', byte(r)-0x40
+			}
+			switch r {
 			case '\x1b':
+				if mayCompleteEscape(p[n+m:]) {
+					return n
+				}
+			case '\u0090', '\u009b', '\u009d', '\u009e', '\u009f': // DCS, CSI, OSC, PM, APC
 				return n
-			default:
-				n += m
-				e = ansi.Escape(r)
+			case utf8.RuneError:
+				if !utf8.FullRune(p[n:]) {
+					return n
+				}
 			}
+			e, n = ansi.Escape(r), n+m
+		} else {
+			n += m
 		}
 		proc.ProcessANSI(e, a)
 	}
 	return n
 }
 
+// mayCompleteEscape returns true only if more bytes may complete the escape
+// sequence whose bytes after ESC are given.
+func mayCompleteEscape(p []byte) bool {
+	for len(p) > 0 {
+		r, m := utf8.DecodeRune(p)
+		if r == '\x1b' {
+			return false
+		}
+		if r == utf8.RuneError {
+			return !utf8.FullRune(p)
+		}
+		p = p[m:]
+	}
+	return true
+}
+
 // Processor receives decoded ANSI escape sequences and Unicode runes from
 // Buffer.Process.
 type Processor interface {
-- 
2.43.0


From 25234872c3f1a6f739284354bddffbc300f43e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 13/70] fix: BEL terminates an OSC string

---
 ansi/decode.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index e91616e..8fb8974 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -51,16 +51,16 @@ func DecodeEscape(p []byte) (e Escape, arg []byte, n int) {
 		}
 	case 0x90: // DCS
 		// TODO stricter DCS state machine per vt100.net
-		if sa, sn := decodeString(p[m:]); sn > 0 {
+		if sa, sn := decodeString(p[m:], 0x9C); sn > 0 {
 			return Escape(r), sa, m + sn
 		}
 	case 0x9D: // OSC
-		if sa, sn := decodeString(p[m:]); sn > 0 {
+		if sa, sn := decodeString(p[m:], 0x07); sn > 0 { // BEL terminates too, as in xterm
 			return Escape(r), sa, m + sn
 		}
 		// TODO linux compat handling for OSC
 	case 0x9E, 0x9F: // PM, APC
-		if sa, sn := decodeString(p[m:]); sn > 0 {
+		if sa, sn := decodeString(p[m:], 0x9C); sn > 0 {
 			return Escape(r), sa, m + sn
 		}
 	}
@@ -202,7 +202,8 @@ term:
 	return CSI(p[ni]), a, ni + 1
 }
 
-func decodeString(p []byte) (a []byte, n int) {
+// decodeString decodes a control string up to its ST or alternate terminator.
+func decodeString(p []byte, term rune) (a []byte, n int) {
 	r, m := DecodeRune(p)
 	for {
 		switch r {
@@ -210,7 +211,7 @@ func decodeString(p []byte) (a []byte, n int) {
 			if !utf8.FullRune(p[n:]) {
 				return nil, 0 // may be completed by more bytes
 			}
-		case 0x9C:
+		case 0x9C, term:
 			return p[:n], n + m
 		}
 		n += m
-- 
2.43.0


From 03a14fd0636f60a9fad3457c27d12e0a165134c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 14/70] fix: screen erase sequences: current cell, default
 parameter, and sub-screen bounds

---
 state.go | 69 ++++++++++++++++++++++++++------------------------------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/state.go b/state.go
index c13d64f..1bfc553 100644
--- a/state.go
+++ b/state.go
@@ -60,7 +60,11 @@ func (sc Screen) SubSize(sz image.Point) Screen {
 // given rectangle; clamps the cursor to the new bounding rectangle.
 func (sc Screen) SubRect(r ansi.Rectangle) Screen {
 	sc.Grid = sc.Grid.SubRect(r)
-	sc.Cursor.Point = clampPointTo(sc.Cursor.Point, r)
+	if r = sc.Grid.Bounds(); r.Empty() {
+		sc.Cursor.Point = ansi.ZP
+	} else {
+		sc.Cursor.Point = clampPointTo(sc.Cursor.Point, r)
+	}
 	return sc
 }
 
@@ -391,7 +395,7 @@ func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 	case e == '\x0A': // LF
 		sc.linefeed()
 	case e == '\x0D': // CR
-		sc.Cursor.X = 1
+		sc.Cursor.X = sc.Bounds().Min.X
 	// TODO anything for other control runes?
 	case unicode.IsGraphic(rune(e)):
 		br := sc.Bounds()
@@ -407,53 +411,44 @@ func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 
 func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 	switch e {
-	case ansi.ED:
-		var val byte
+	case ansi.ED, ansi.EL:
+		val := byte('0')
 		if len(a) == 1 {
 			val = a[0]
-		} else {
+		} else if len(a) > 1 {
 			return
 		}
-		switch val {
-		case '0': // Erase from current position to bottom of screen inclusive
-			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-				sc.clearRegion(i+1, len(sc.Rune))
-			}
-		case '1': // Erase from top of screen to current position inclusive
-			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-				sc.clearRegion(0, i+1)
-			}
-		case '2': // Erase entire screen (without moving the cursor)
-			sc.clearRegion(0, len(sc.Rune))
-		}
 
-	case ansi.EL:
-		var val byte
-		if len(a) == 1 {
-			val = a[0]
-		} else {
-			return
+		// rows [lo.Y, hi.Y] get cleared: the first one from lo.X on, the last
+		// one up to hi.X, both inclusive
+		br := sc.Bounds()
+		lo, hi := br.Min, br.Max.Sub(image.Pt(1, 1))
+		if e == ansi.EL {
+			lo.Y, hi.Y = sc.Cursor.Y, sc.Cursor.Y
 		}
-
-		lo := sc.Cursor.Point
-		hi := sc.Bounds().Max.Sub(image.Pt(1, 1))
 		switch val {
-		case '0': // Erase from current position to end of line inclusive
-			hi.Y = sc.Cursor.Y
-		case '1': // Erase from beginning of line to current position inclusive
-			lo.X = 1
+		case '0': // Erase from current position to the end inclusive
+			lo = sc.Cursor.Point
+		case '1': // Erase from the beginning to current position inclusive
 			hi = sc.Cursor.Point
-		case '2': // Erase entire line (without moving cursor)
-			lo.X = 1
-			hi.Y = sc.Cursor.Y
+		case '2': // Erase everything (without moving the cursor)
 		default:
 			return
 		}
 
-		i, iok := sc.CellOffset(lo)
-		j, jok := sc.CellOffset(hi)
-		if iok && jok {
-			sc.clearRegion(i, j+1)
+		for y := lo.Y; y <= hi.Y; y++ {
+			x0, x1 := br.Min.X, br.Max.X-1
+			if y == lo.Y {
+				x0 = lo.X
+			}
+			if y == hi.Y {
+				x1 = hi.X
+			}
+			i, iok := sc.CellOffset(ansi.Point{Point: image.Pt(x0, y)})
+			j, jok := sc.CellOffset(ansi.Point{Point: image.Pt(x1, y)})
+			if iok && jok {
+				sc.clearRegion(i, j+1)
+			}
 		}
 
 		// case ansi.DECSTBM: TODO
-- 
2.43.0


From 15c549aeb3a09d3d214c52c3d7d83d768eae5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 15/70] fix: cursor motion after the last column, and erasing
 with a background color set

---
 render.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/render.go b/render.go
index 3157ac4..b31e80e 100644
--- a/render.go
+++ b/render.go
@@ -42,7 +42,12 @@ func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor)
 		style = Styles(style, ZeroRuneStyle(empty))
 	}
 	style = Styles(style, DefaultRuneStyle(empty))
-	n := aw.WriteSeq(ansi.ED.With('2'))
+	n := 0
+	if _, haveBG := cur.Attr.BG(); haveBG {
+		// terminals erase with the current background color
+		n += aw.WriteSGR(cur.MergeSGR(0))
+	}
+	n += aw.WriteSeq(ansi.ED.With('2'))
 	// TODO support writing a sub-grid
 	for i, pt := 0, ansi.Pt(1, 1); i < len(g.Rune); {
 		if gr, ga := style.Style(pt, 0, g.Rune[i], 0, g.Attr[i]); gr != 0 {
@@ -60,7 +65,17 @@ func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor)
 			pt.Y++
 		}
 	}
-	return n, cur
+	return n, forgetWrap(cur, g)
+}
+
+// forgetWrap returns cur with its position unknown if it is past the last
+// column: terminals leave their cursor within the last column until the next
+// rune wraps it, so that motion relative to either column would be off.
+func forgetWrap(cur Cursor, g Grid) Cursor {
+	if cur.X >= g.Rect.Max.X {
+		cur.Point = ansi.ZP
+	}
+	return cur
 }
 
 func writeGridDiff(aw ansiWriter, g Grid, prior Screen, style Style) (int, Screen) {
@@ -111,6 +126,7 @@ func writeGridDiff(aw ansiWriter, g Grid, prior Screen, style Style) (int, Scree
 			pt.Y++
 		}
 	}
+	prior.Cursor = forgetWrap(prior.Cursor, g)
 	return n, prior
 }
 
-- 
2.43.0


From 7149327d8d0f13ff0322640fe10a872733c52902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 16/70] fix: ScreenDiffer must survive blocked, failed and
 interleaved writes

---
 screen.go | 70 +++++++++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/screen.go b/screen.go
index dd4a073..04aaec8 100644
--- a/screen.go
+++ b/screen.go
@@ -24,6 +24,9 @@ type ScreenDiffer struct {
 
 	VirtualScreen
 	Real Screen
+
+	out  Buffer // output assembled by WriteTo, kept until fully written
+	lost bool   // a write failed, leaving the terminal in an unknown state
 }
 
 // VirtualScreen implements minimal terminal emulation around ScreenState.
@@ -66,6 +69,7 @@ func (sc *ScreenDiffer) Resize(size image.Point) bool {
 // Invalidate forces the next WriteTo() to perform a full redraw.
 func (sc *ScreenDiffer) Invalidate() {
 	sc.Real.Resize(image.ZP)
+	sc.Real.Cursor.Point = ansi.ZP
 }
 
 // TODO support sub-screen diffs
@@ -87,41 +91,51 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, errSubScreenDiff
 	}
 
-	state := sc.Real
-	defer func() {
-		if err == nil {
-			sc.Real = state
-		}
-	}()
-
-	aw, haveAW := w.(ansiWriter)
+	// continue prior write (e.g. after isEWouldBlock(err) below)
+	if sc.out.Len() > 0 {
+		return sc.flush(w)
+	}
 
 	// if caller didn't pass a buffered ansi writer, use internal buffer and
 	// then flush to the given io.Writer
+	aw, haveAW := w.(ansiWriter)
 	if !haveAW {
-		defer func() {
-			n, err = sc.buf.WriteTo(w)
-			if err != nil && unwrapOSError(err) != syscall.EWOULDBLOCK {
-				sc.Reset()
-				sc.Invalidate()
-			}
-		}()
-
-		// continue prior write (e.g. after isEWouldBlock(err) above)
-		if sc.buf.Len() > 0 {
-			return
-		}
-
-		aw = &sc.buf
+		aw = &sc.out
 	}
 
 	// enforce final user cursor state
 	sc.VirtualScreen.Cursor = sc.UserCursor
+	if sc.UserCursor.Point.Valid() {
+		sc.VirtualScreen.To(sc.UserCursor.Point)
+	}
 
 	// perform (full or differential) update
 	var m int
-	m, state = sc.VirtualScreen.update(aw, state)
-	return int64(m), err
+	if sc.lost {
+		m = aw.WriteSeq(ansi.SGR.With('0'))
+		sc.lost = false
+	}
+	k, state := sc.VirtualScreen.update(aw, sc.Real)
+	sc.Real = state
+	if haveAW {
+		return int64(m + k), nil
+	}
+	return sc.flush(w)
+}
+
+// flush writes any assembled output. The Real state already accounts for it,
+// so all of it must get written, unless the write fails for good: then virtual
+// state is discarded, and nothing is assumed about the terminal.
+func (sc *ScreenDiffer) flush(w io.Writer) (n int64, err error) {
+	n, err = sc.out.WriteTo(w)
+	if err != nil && unwrapOSError(err) != syscall.EWOULDBLOCK {
+		sc.out.Reset()
+		sc.Real.Cursor = Cursor{}
+		sc.lost = true
+		sc.Reset()
+		sc.Invalidate()
+	}
+	return n, err
 }
 
 // Write writes bytes to the internal buffer, updating screen state as describe
@@ -201,10 +215,10 @@ func (tsc *TermScreen) Exit(term *Term) error {
 	// discard all virtual state...
 	tsc.Reset()
 	// ...and restore real cursor state
-	n := tsc.buf.WriteSGR(tsc.Real.Cursor.MergeSGR(0))
-	n += tsc.buf.WriteSeq(tsc.Real.Cursor.Show())
-	if n > 0 {
-		return term.Flush(&tsc.buf)
+	tsc.out.WriteSGR(tsc.Real.Cursor.MergeSGR(0))
+	tsc.out.WriteSeq(tsc.Real.Cursor.Show())
+	if tsc.out.Len() > 0 {
+		return term.Flush(&tsc.out)
 	}
 	return nil
 }
-- 
2.43.0


From 811e77087838a2e6c98a8008428ba00d93df13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 17/70] fix: DrawGrid with styles must stay within both grids,
 and pass the drawn point

---
 draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/draw.go b/draw.go
index 9c96863..4280176 100644
--- a/draw.go
+++ b/draw.go
@@ -31,9 +31,11 @@ func DrawGrid(dst, src Grid, styles ...Style) {
 			sii++
 			dii++
 			sp.X++
+			dp.X++
 		}
 		si += src.Stride
 		di += dst.Stride
+		sp.Y++
 		dp.Y++
 	}
 }
-- 
2.43.0


From ff0860db7f1ad1af99b797bc7e18757aa6606f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 18/70] fix: a resized sub-grid must stay within the grid, and
 a zero-width grid is no sub-grid

---
 grid.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/grid.go b/grid.go
index c2c3db4..7435fc2 100644
--- a/grid.go
+++ b/grid.go
@@ -22,11 +22,12 @@ func (g *Grid) Resize(size image.Point) bool {
 		return false
 	}
 	if g.IsSub() {
-		if size.X > g.Stride {
-			size.X = g.Stride
+		max := g.Full().Rect.Max
+		if n := max.X - g.Rect.Min.X; size.X > n {
+			size.X = n
 		}
-		if g.Stride*size.Y > len(g.Rune) {
-			size.Y = len(g.Rune) / g.Stride
+		if n := max.Y - g.Rect.Min.Y; size.Y > n {
+			size.Y = n
 		}
 		g.Rect.Max = g.Rect.Min.Add(size)
 	} else {
@@ -93,7 +94,7 @@ func (g Grid) CellOffset(pt ansi.Point) (int, bool) {
 // IsSub returns true if the grid's bounding rectangle only covers a
 // sub-section of its underlying data.
 func (g *Grid) IsSub() bool {
-	return g.Rect.Size() != g.fullSize()
+	return g.Stride != 0 && g.Rect.Size() != g.fullSize()
 }
 
 func (g *Grid) fullSize() image.Point {
-- 
2.43.0


From b35e38ba729e6f651883532e56b325c24cda960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 19/70] fix: Bitmap.Load pads the last row, and accepts less
 than a row

---
 bitmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bitmap.go b/bitmap.go
index 2df4c15..572cddb 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -13,10 +13,13 @@ type Bitmap struct {
 	Rect   image.Rectangle
 }
 
-// Load the given bit data into the bitmap.
+// Load the given bit data into the bitmap, padding any partial last row.
 func (bi *Bitmap) Load(stride int, data []bool) {
-	h := len(data) / stride
-	for i, n := 0, len(data)%h; i < n; i++ {
+	h := 0
+	if stride > 0 {
+		h = (len(data) + stride - 1) / stride
+	}
+	for data = data[:len(data):len(data)]; len(data) < stride*h; {
 		data = append(data, false)
 	}
 	bi.Bit = data
-- 
2.43.0


From 3cd30a8cdf7447f9b7da4f6c9f842306de04395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 20/70] fix: WriteGrid must not drop styled spaces when filling
 with spaces

---
 render.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/render.go b/render.go
index b31e80e..9dbc05d 100644
--- a/render.go
+++ b/render.go
@@ -39,7 +39,13 @@ func writeGrid(aw ansiWriter, g Grid, prior Screen, style Style) (int, Screen) {
 func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor) {
 	const empty = ' '
 	if fillRune, _ := style.Style(ansi.ZP, 0, 0, 0, 0); fillRune == empty {
-		style = Styles(style, ZeroRuneStyle(empty))
+		// elide only what erasing has already drawn
+		style = Styles(style, StyleFunc(func(_ ansi.Point, _, r rune, _, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
+			if r == empty && a == 0 {
+				r = 0
+			}
+			return r, a
+		}))
 	}
 	style = Styles(style, DefaultRuneStyle(empty))
 	n := 0
-- 
2.43.0


From f092772f63fcd36b2608b97b55d60e2ebb6fc81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 21/70] fix: a differential WriteGrid must blank cells that
 styles elide

---
 render.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/render.go b/render.go
index 9dbc05d..cacd384 100644
--- a/render.go
+++ b/render.go
@@ -89,9 +89,8 @@ func writeGridDiff(aw ansiWriter, g Grid, prior Screen, style Style) (int, Scree
 	const empty = ' '
 	if fillRune == 0 {
 		fillRune = empty
-		style = Styles(style, FillRuneStyle(fillRune))
 	}
-	style = Styles(style, DefaultRuneStyle(empty))
+	style = Styles(style, FillRuneStyle(empty)) // elided cells must get blanked
 	n, diffing := 0, true
 	// TODO support writing a sub-grid
 	for i, pt := 0, ansi.Pt(1, 1); i < len(g.Rune); /* next: */ {
-- 
2.43.0


From c6e6a819938eeef6f667b83f3b4186506132583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 22/70] fix: WriteBitmap of a sub-bitmap, and of unstyled runes
 after styled ones

---
 render.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render.go b/render.go
index cacd384..9b84d14 100644
--- a/render.go
+++ b/render.go
@@ -155,7 +155,7 @@ func WriteBitmap(w io.Writer, bi Bitmap, styles ...Style) (int, error) {
 
 func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cursor) {
 	for bp := bi.Rect.Min; bp.Y < bi.Rect.Max.Y; bp.Y += 4 {
-		if bp.Y > 0 {
+		if bp.Y > bi.Rect.Min.Y {
 			n += aw.WriteSeq(cur.NewLine())
 		}
 		for bp.X = bi.Rect.Min.X; bp.X < bi.Rect.Max.X; bp.X += 2 {
@@ -163,7 +163,7 @@ func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cu
 			sr := bi.Rune(bp)
 			r, a := style.Style(sp, 0, sr, 0, 0)
 
-			if a != 0 {
+			if a != 0 || cur.Attr != 0 {
 				ad := cur.MergeSGR(a)
 				n += aw.WriteSGR(ad)
 			}
-- 
2.43.0


From 56de81a0f438e99761977779c4284ba01b3ccc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 23/70] fix: virtual cursor and screen output must not be
 mistaken for the rest of a cut sequence

---
 buffer.go |  9 +++++++++
 cursor.go | 10 +++++-----
 screen.go |  2 +-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/buffer.go b/buffer.go
index 6cbf498..f9407c2 100644
--- a/buffer.go
+++ b/buffer.go
@@ -132,6 +132,15 @@ func (b *Buffer) Skip(n int) {
 	b.off += n
 }
 
+// skipWritten is Skip for a processor that just wrote n bytes of its own: they
+// cut short any sequence that still waits for more bytes, so that is skipped
+// too.
+func (b *Buffer) skipWritten(n int) {
+	if n > 0 {
+		b.off = b.buf.Len()
+	}
+}
+
 // Discard processed bytes, re-using internal buffer space during the next Write*.
 func (b *Buffer) Discard() {
 	if b.off > 0 {
diff --git a/cursor.go b/cursor.go
index e7217c9..06d6290 100644
--- a/cursor.go
+++ b/cursor.go
@@ -98,7 +98,7 @@ func (c *VirtualCursor) WriteSGR(attrs ...ansi.SGRAttr) (n int) {
 		n += c.buf.WriteSGR(c.Cursor.MergeSGR(attrs[i]))
 	}
 	if n > 0 {
-		c.buf.Skip(n)
+		c.buf.skipWritten(n)
 	}
 	return n
 }
@@ -106,19 +106,19 @@ func (c *VirtualCursor) WriteSGR(attrs ...ansi.SGRAttr) (n int) {
 // To moves the cursor to the given point using absolute (ansi.CUP) or relative
 // (ansi.{CUU,CUD,CUF,CUD}) if possible.
 func (c *VirtualCursor) To(pt ansi.Point) {
-	c.buf.Skip(c.buf.WriteSeq(c.Cursor.To(pt)))
+	c.buf.skipWritten(c.buf.WriteSeq(c.Cursor.To(pt)))
 }
 
 // Show ensures that the cursor is visible, writing the necessary control
 // sequence into the internal buffer if this is a change.
 func (c *VirtualCursor) Show() {
-	c.buf.Skip(c.buf.WriteSeq(c.Cursor.Show()))
+	c.buf.skipWritten(c.buf.WriteSeq(c.Cursor.Show()))
 }
 
 // Hide ensures that the cursor is not visible, writing the necessary control
 // sequence into the internal buffer if this is a change.
 func (c *VirtualCursor) Hide() {
-	c.buf.Skip(c.buf.WriteSeq(c.Cursor.Hide()))
+	c.buf.skipWritten(c.buf.WriteSeq(c.Cursor.Hide()))
 }
 
 // Apply the given cursor state, writing any necessary escape sequences into
@@ -126,7 +126,7 @@ func (c *VirtualCursor) Hide() {
 func (c *VirtualCursor) Apply(cs Cursor) {
 	var n int
 	n, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
-	c.buf.Skip(n)
+	c.buf.skipWritten(n)
 }
 
 var _ ansiWriter = &VirtualCursor{}
diff --git a/screen.go b/screen.go
index 04aaec8..29eef95 100644
--- a/screen.go
+++ b/screen.go
@@ -195,7 +195,7 @@ func (vsc *VirtualScreen) WriteSGR(attrs ...ansi.SGRAttr) (n int) {
 		}
 	}
 	if n > 0 {
-		vsc.buf.Skip(n)
+		vsc.buf.skipWritten(n)
 	}
 	return n
 
-- 
2.43.0


From f929e8638d0f75c09cf14fa9042bf6ccc0d025b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 24/70] fix: a RunWith nested under RunWithout must not close
 contexts, nor a failed re-Enter leave them partially entered

---
 term.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/term.go b/term.go
index 13481b8..df1813f 100644
--- a/term.go
+++ b/term.go
@@ -98,21 +98,21 @@ func (term *Term) RunWith(within func(*Term) error) (err error) {
 		term.active = false
 	}()
 
+	term.initContext()
+
 	if !term.under {
 		term.under = true
 		defer func() {
 			term.under = false
 		}()
-	}
-
-	term.initContext()
 
-	if cl, ok := term.ctx.(interface{ Close() error }); ok {
-		defer func() {
-			if cerr := cl.Close(); err == nil {
-				err = cerr
-			}
-		}()
+		if cl, ok := term.ctx.(interface{ Close() error }); ok {
+			defer func() {
+				if cerr := cl.Close(); err == nil {
+					err = cerr
+				}
+			}()
+		}
 	}
 
 	defer func() {
@@ -160,6 +160,9 @@ func (term *Term) RunWithout(without func(*Term) error) (err error) {
 		if err = without(term); err == nil {
 			if err = term.ctx.Enter(term); err == nil {
 				term.active = true
+			} else {
+				// as under RunWith, don't leave things partially entered
+				_ = term.ctx.Exit(term)
 			}
 		}
 	}
-- 
2.43.0


From 54a3e939498b2799c4d17eb767194ba24810aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 25/70] fix: Contexts must not share storage between combined
 contexts

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 7c6da8d..4c9f1ff 100644
--- a/context.go
+++ b/context.go
@@ -38,9 +38,9 @@ func Contexts(cs ...Context) Context {
 		as, haveAs := a.(contexts)
 		bs, haveBs := b.(contexts)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(contexts{a}, bs...)
 		} else {
-- 
2.43.0


From 8f018cb088c66188f52afbbc496cf21a30f62135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 26/70] fix: terminal ioctls must not be passed the address of
 a stack variable that may move

---
 attr.go       | 8 ++++++--
 attr_bsd.go   | 6 +++---
 attr_linux.go | 6 +++---
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/attr.go b/attr.go
index bbf46c0..ce1381c 100644
--- a/attr.go
+++ b/attr.go
@@ -6,6 +6,7 @@ import (
 	"image"
 	"os"
 	"syscall"
+	"unsafe"
 )
 
 var errAttrNoFile = errors.New("anansi.Attr.ioctl: no File set")
@@ -149,11 +150,14 @@ func (at *Attr) Exit(term *Term) error {
 	return nil
 }
 
-func (at Attr) ioctl(request, arg1, arg2, arg3, arg4 uintptr) error {
+// ioctl takes a pointer rather than an uintptr so that what it points to stays
+// where it is: that is only so for a conversion within the Syscall itself.
+func (at Attr) ioctl(request uintptr, arg unsafe.Pointer) error {
 	if at.file == nil {
 		return errAttrNoFile
 	}
-	if _, _, e := syscall.Syscall6(syscall.SYS_IOCTL, at.file.Fd(), request, arg1, arg2, arg3, arg4); e != 0 {
+	fd := at.file.Fd()
+	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, request, uintptr(arg)); e != 0 {
 		return e
 	}
 	return nil
diff --git a/attr_bsd.go b/attr_bsd.go
index affb1f6..96b41f6 100644
--- a/attr_bsd.go
+++ b/attr_bsd.go
@@ -15,7 +15,7 @@ func (at Attr) getSize() (size image.Point, err error) {
 		xpixels uint16
 		ypixels uint16
 	}
-	err = at.ioctl(syscall.TIOCGWINSZ, uintptr(unsafe.Pointer(&dim)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGWINSZ, unsafe.Pointer(&dim))
 	if err == nil {
 		size.X = int(dim.cols)
 		size.Y = int(dim.rows)
@@ -24,10 +24,10 @@ func (at Attr) getSize() (size image.Point, err error) {
 }
 
 func (at Attr) getAttr() (attr syscall.Termios, err error) {
-	err = at.ioctl(syscall.TIOCGETA, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGETA, unsafe.Pointer(&attr))
 	return
 }
 
 func (at Attr) setAttr(attr syscall.Termios) error {
-	return at.ioctl(syscall.TIOCSETA, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	return at.ioctl(syscall.TIOCSETA, unsafe.Pointer(&attr))
 }
diff --git a/attr_linux.go b/attr_linux.go
index cb2f442..078a835 100644
--- a/attr_linux.go
+++ b/attr_linux.go
@@ -15,7 +15,7 @@ func (at Attr) getSize() (size image.Point, err error) {
 		xpixels uint16
 		ypixels uint16
 	}
-	err = at.ioctl(syscall.TIOCGWINSZ, uintptr(unsafe.Pointer(&dim)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGWINSZ, unsafe.Pointer(&dim))
 	if err == nil {
 		size.X = int(dim.cols)
 		size.Y = int(dim.rows)
@@ -24,10 +24,10 @@ func (at Attr) getSize() (size image.Point, err error) {
 }
 
 func (at Attr) getAttr() (attr syscall.Termios, err error) {
-	err = at.ioctl(syscall.TCGETS, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	err = at.ioctl(syscall.TCGETS, unsafe.Pointer(&attr))
 	return
 }
 
 func (at Attr) setAttr(attr syscall.Termios) error {
-	return at.ioctl(syscall.TCSETS, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	return at.ioctl(syscall.TCSETS, unsafe.Pointer(&attr))
 }
-- 
2.43.0


From 6e94fc205605f21e189bb712a29c6e8114f4383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:17 +0000
Subject: [PATCH 27/70] fix: ReadAny must not wait for input on a file that
 uses the runtime poller

---
 input.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/input.go b/input.go
index d7e20a4..777a983 100644
--- a/input.go
+++ b/input.go
@@ -238,7 +238,7 @@ func (in *Input) ReadAny() (n int, err error) {
 	for err == nil {
 		var m int
 		p := in.readBuf()
-		m, err = in.File.Read(p)
+		m, err = in.readNonblock(p)
 		if m == 0 {
 			break
 		}
@@ -273,6 +273,32 @@ func (in *Input) ReadAny() (n int, err error) {
 	return n, err
 }
 
+// readNonblock reads any bytes that are available now. Unlike File.Read, it
+// doesn't wait for any if File uses the runtime poller, as it does when opened
+// by os.OpenFile, or when already non-blocking.
+func (in *Input) readNonblock(p []byte) (n int, err error) {
+	conn, err := in.File.SyscallConn()
+	if err != nil {
+		return 0, err
+	}
+	if cerr := conn.Read(func(fd uintptr) bool {
+		for {
+			if n, err = syscall.Read(int(fd), p); err != syscall.EINTR {
+				return true
+			}
+		}
+	}); cerr != nil {
+		return 0, cerr
+	}
+	if err != nil {
+		return 0, &os.PathError{Op: "read", Path: in.File.Name(), Err: err}
+	}
+	if n == 0 {
+		return 0, io.EOF
+	}
+	return n, nil
+}
+
 // Enter gets the current fcntl flags for restoration during Exit(), and sets
 // non-blocking/async modes if needed.
 func (in *Input) Enter(term *Term) error {
-- 
2.43.0


From 120c618a0544ea33dfaeb11d0bbf672125f9808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 28/70] fix: input file flags must be cleared too, and follow
 the actual flags

---
 input.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/input.go b/input.go
index 777a983..73ea7c6 100644
--- a/input.go
+++ b/input.go
@@ -386,10 +386,9 @@ func (in *Input) setAsync(async bool) error {
 	return nil
 }
 
+// setNonblock always goes by the actual file flags: they may have been changed
+// by Exit, or through another handle to the same terminal.
 func (in *Input) setNonblock(nonblock bool) error {
-	if nonblock == in.nonblock {
-		return nil
-	}
 	in.nonblock = nonblock
 	_, err := in.setFlags()
 	return err
@@ -404,15 +403,17 @@ func (in *Input) setFlags() (prior uintptr, _ error) {
 		return 0, fmt.Errorf("failed to get input file flags: %v", err)
 	}
 	prior = flags
-	flags = in.buildFlags(flags)
-	_, _, err = in.fcntl(syscall.F_SETFL, flags)
-	if err != nil {
-		return prior, fmt.Errorf("failed to set input file flags: %v", err)
+	if flags = in.buildFlags(flags); flags != prior {
+		_, _, err = in.fcntl(syscall.F_SETFL, flags)
+		if err != nil {
+			return prior, fmt.Errorf("failed to set input file flags: %v", err)
+		}
 	}
 	return prior, nil
 }
 
 func (in *Input) buildFlags(flags uintptr) uintptr {
+	flags &^= syscall.O_NONBLOCK | syscall.O_ASYNC
 	if in.nonblock {
 		flags |= syscall.O_NONBLOCK
 	}
-- 
2.43.0


From dfb32edb830f6a07e300c472b293793b31f6c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 29/70] fix: failing to enter a non-terminal must not leave
 Attr attached to it

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index ce1381c..c0238f7 100644
--- a/attr.go
+++ b/attr.go
@@ -125,6 +125,9 @@ func (at *Attr) Enter(term *Term) (err error) {
 	}
 	at.orig, err = at.getAttr()
 	if err != nil {
+		if !at.ownFile {
+			at.file = nil // there's nothing for Exit to restore
+		}
 		return fmt.Errorf("failed to get termios attrs: %v", err)
 	}
 	at.cur = at.modifyTermios(at.orig)
-- 
2.43.0


From eba4015983a3041332243dadde8acca778d2c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:21 +0000
Subject: [PATCH 30/70] fix: Suspend must not miss being continued

---
 term.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.go b/term.go
index df1813f..f9b67d2 100644
--- a/term.go
+++ b/term.go
@@ -177,7 +177,7 @@ func (term *Term) Suspend() error {
 		return term.RunWithout((*Term).Suspend)
 	}
 
-	cont := make(chan os.Signal)
+	cont := make(chan os.Signal, 1)
 	signal.Notify(cont, syscall.SIGCONT)
 	defer signal.Stop(cont)
 	log.Printf("suspending")
-- 
2.43.0


From ca3d715c2ead8ba67e48db062ddc9d66b0526245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 31/70] fix: ReadMore must wait, not fail, after a non-blocking
 ReadAny

---
 input.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/input.go b/input.go
index 73ea7c6..9e39b2d 100644
--- a/input.go
+++ b/input.go
@@ -198,6 +198,7 @@ func (in *Input) ReadMore() (int, error) {
 			if err := in.setNonblock(false); err != nil {
 				return 0, err
 			}
+			continue
 
 		case nil:
 			in.ateof = false
-- 
2.43.0


From a6d9d2e00b2270232de90b0fd70c838a1ed3a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:59 +0000
Subject: [PATCH 32/70] fix: Decode must wait for the rest of a cut rune, and
 go on after a canceled sequence

---
 input.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/input.go b/input.go
index 9e39b2d..dfec842 100644
--- a/input.go
+++ b/input.go
@@ -138,14 +138,15 @@ func (in *Input) Decode() (e ansi.Escape, a []byte, ok bool) {
 }
 
 func (in *Input) decodeEscape() (e ansi.Escape, a []byte) {
-	if in.buf.Len() == 0 {
-		return 0, nil
-	}
-	e, a, n := ansi.DecodeEscape(in.buf.Bytes())
-	if n > 0 {
+	for in.buf.Len() > 0 {
+		e, a, n := ansi.DecodeEscape(in.buf.Bytes())
 		in.buf.Next(n)
+		if e != 0 || n == 0 {
+			return e, a
+		}
+		// a canceled sequence was dropped, another one may follow
 	}
-	return e, a
+	return 0, nil
 }
 
 func (in *Input) decodeRune() (rune, bool) {
@@ -157,6 +158,10 @@ func (in *Input) decodeRune() (rune, bool) {
 		switch r {
 		case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 			return 0, false
+		case utf8.RuneError:
+			if !utf8.FullRune(in.buf.Bytes()) { // may be completed by more bytes
+				return 0, false
+			}
 		case 0x1B: // ESC
 			if p := in.buf.Bytes(); len(p) == cap(p) && !in.ateof {
 				return 0, false
-- 
2.43.0


From 00f482a3e3cb5da6a080559dd17657160daebb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:39 +0000
Subject: [PATCH 33/70] fix: ReadInputReplay must give back input as it was
 read, along with read errors

---
 input.go | 119 +++++++++++++++++++++++--------------------------------
 1 file changed, 49 insertions(+), 70 deletions(-)

diff --git a/input.go b/input.go
index dfec842..7eb76f3 100644
--- a/input.go
+++ b/input.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/signal"
 	"runtime"
@@ -480,97 +481,75 @@ func (frm InputFrame) String() string {
 	if len(frm.B) == 0 {
 		_, _ = buf.WriteString(" mark")
 	} else {
-		_, _ = fmt.Fprintf(&buf, " %q", frm.M)
+		_, _ = fmt.Fprintf(&buf, " %q", frm.B)
 	}
 	return buf.String()
 }
 
-// ReadInputReplay reads an InputReplay from the provided file.
+// ReadInputReplay reads an InputReplay from the provided file. All input comes
+// back byte for byte, wherever reads started and ended within it, except for
+// any complete APC strings: they become message frames of their own, without
+// a time.
 func ReadInputReplay(f *os.File) (InputReplay, error) {
-	fi, err := f.Stat()
+	bs, err := ioutil.ReadAll(f)
 	if err != nil {
 		return nil, err
 	}
 
-	estBytes := int(fi.Size())
-	estFrames := estBytes / recMarkSize
-
-	type protoFrame struct {
-		InputFrame
-		e [2]int
-		b [2]int
-		m [2]int
-	}
-
 	var (
-		in     = Input{File: f, MinReadSize: 1024}
-		frames = make([]protoFrame, 0, estFrames)
-		bs     = make([]byte, 0, estBytes)
-		off    int
-		prot   protoFrame
+		frames = make(InputReplay, 0, len(bs)/recMarkSize)
+		frm    InputFrame
+		marked bool // frm was marked, and so is to be kept even if empty
+		off    int  // where the bytes of frm start
 	)
 
-	push := func() {
-		if prot.m != [2]int{} || !prot.T.IsZero() || off < len(bs) {
-			prot.b = [2]int{off, len(bs)}
-			frames = append(frames, prot)
-			prot = protoFrame{}
-			off = len(bs)
+	push := func(end int) {
+		if marked || off < end {
+			frm.B = bs[off:end:end]
+			frames = append(frames, frm)
 		}
+		frm, marked = InputFrame{T: frm.T}, false
 	}
 
-	for {
-		e, a, ok := in.Decode()
-		if !ok {
-			if _, err := in.ReadMore(); err == io.EOF {
-				push()
-				break
-			} else if err != nil {
-				return nil, err
-			}
+	for i := 0; i < len(bs); {
+		a, n := decodeReplayAPC(bs[i:])
+		if n == 0 {
+			i++
+			continue
 		}
-
-		if e == 0x9F { // APC
-			switch {
-			case bytes.HasPrefix(a, []byte("recTime:")):
-				push()
-				if parseErr := prot.T.UnmarshalText(a[8:]); parseErr != nil {
-					return nil, fmt.Errorf("invalid recTime value %q", a[8:])
-				}
-			case bytes.HasPrefix(a, []byte("recReadErr:")):
-				bs = append(bs, a[11:]...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
-				push()
-			default:
-				push()
-				bs = append(bs, a...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
+		switch {
+		case bytes.HasPrefix(a, []byte("recTime:")):
+			push(i)
+			marked = true
+			if parseErr := frm.T.UnmarshalText(a[8:]); parseErr != nil {
+				return nil, fmt.Errorf("invalid recTime value %q", a[8:])
 			}
-		} else if e.IsEscape() {
-			bs = e.AppendWith(bs, a...)
-		} else {
-			var tmp [4]byte
-			n := utf8.EncodeRune(tmp[:], rune(e))
-			bs = append(bs, tmp[:n]...)
+		case marked && off == i && bytes.HasPrefix(a, []byte("recReadErr:")):
+			frm.E = InputError(a[11:])
+		default:
+			push(i)
+			frames = append(frames, InputFrame{M: a})
 		}
+		i += n
+		off = i
 	}
+	push(len(bs))
 
-	result := make(InputReplay, len(frames))
-	for i, frm := range frames {
-		if frm.e != [2]int{} {
-			prot.E = InputError(bs[frm.e[0]:frm.e[1]])
-		}
-		if frm.b != [2]int{} {
-			frm.B = bs[frm.b[0]:frm.b[1]]
-		}
-		if frm.m != [2]int{} {
-			frm.M = bs[frm.m[0]:frm.m[1]]
-		}
-		result[i] = frm.InputFrame
+	return frames, nil
+}
+
+// decodeReplayAPC returns the argument and size of any complete APC string that
+// b starts with. It doesn't contain any ESC, so one that was cut off by the end
+// of a read isn't taken to go on past the following mark.
+func decodeReplayAPC(b []byte) (a []byte, n int) {
+	if !bytes.HasPrefix(b, []byte("\x1b_")) {
+		return nil, 0
+	}
+	i := bytes.IndexByte(b[2:], '\x1b')
+	if i < 0 || !bytes.HasPrefix(b[2+i:], []byte("\x1b\\")) {
+		return nil, 0
 	}
-	return result, nil
+	return b[2 : 2+i : 2+i], 2 + i + 2
 }
 
 func unwrapOSError(err error) error {
-- 
2.43.0


From d37997e4e3b2bc352f3d0fbf52a50cd60603e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 34/70] fix: events must be decoded past a canceled sequence,
 and be counted once

---
 x/platform/event.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index 5baed5c..05178e8 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -79,6 +79,7 @@ func (es *Events) CountRune(rs ...rune) (n int) {
 			if es.esc[i] == ansi.Escape(r) {
 				es.Type[i] = EventNone
 				n++
+				break
 			}
 		}
 	}
@@ -189,6 +190,9 @@ func (es *Events) DecodeBytes(b []byte) {
 	for len(b) > 0 {
 		e, a, n := ansi.DecodeEscape(b)
 		b = b[n:]
+		if e == 0 && n > 0 {
+			continue // a canceled sequence was dropped
+		}
 		if e == 0 {
 			r, n := utf8.DecodeRune(b)
 			b = b[n:]
-- 
2.43.0


From a410513bae07e2c929bebd321ae67d47ab50300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 35/70] fix: queued events must keep their argument past
 further input reads

---
 x/platform/event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/event.go b/x/platform/event.go
index 05178e8..e035405 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -229,6 +229,6 @@ func (es *Events) add(e ansi.Escape, a []byte) {
 
 	es.Type = append(es.Type, kind)
 	es.esc = append(es.esc, e)
-	es.arg = append(es.arg, a)
+	es.arg = append(es.arg, append([]byte(nil), a...)) // valid only until more input is read
 	es.mouse = append(es.mouse, m)
 }
-- 
2.43.0


From f2822562c2f5dcbed280e9c8a568454060ab45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 36/70] fix: stopping a background worker must not hang, nor a
 failing worker

---
 x/platform/bg.go   | 32 ++++++++++++++++++++++++++------
 x/platform/diag.go | 21 +++++++++++----------
 x/platform/log.go  | 10 +++++-----
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/x/platform/bg.go b/x/platform/bg.go
index 28f4d68..8fa8fe1 100644
--- a/x/platform/bg.go
+++ b/x/platform/bg.go
@@ -65,29 +65,40 @@ type bgWorkerCore struct {
 	e chan error
 }
 
+// Start makes new channels for a worker goroutine, once any prior one is done.
+// The worker must be passed them, rather than use the core's fields, which
+// change once it is told to stop. It must close e when done.
 func (core *bgWorkerCore) Start() error {
+	_ = core.Stop()
 	core.w = make(chan struct{}, 1)
 	core.e = make(chan error, 1)
 	return nil
 }
 
-func (core *bgWorkerCore) Stop() error {
+// Stop tells the worker to stop, waits until it is done, and returns any error
+// that has not been returned by Notify or Error.
+func (core *bgWorkerCore) Stop() (err error) {
 	if core.w != nil {
 		close(core.w)
 		core.w = nil
 	}
-	if core.e == nil {
-		return nil
+	if core.e != nil {
+		for werr := range core.e {
+			err = errOr(err, werr)
+		}
+		core.e = nil
 	}
-	return <-core.e
+	return err
 }
 
 func (core *bgWorkerCore) Error() error {
 	select {
 	case err := <-core.e:
 		if err != nil {
-			close(core.w)
-			core.w = nil
+			if core.w != nil {
+				close(core.w)
+				core.w = nil
+			}
 			return err
 		}
 	default:
@@ -107,3 +118,12 @@ func (core *bgWorkerCore) Notify() error {
 	}
 	return nil
 }
+
+// workerError passes an error on from a worker, which must not wait for it to
+// be collected; errors that follow one that has not been are dropped.
+func workerError(e chan<- error, err error) {
+	select {
+	case e <- err:
+	default:
+	}
+}
diff --git a/x/platform/diag.go b/x/platform/diag.go
index ff16794..9a7ea72 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -356,20 +356,22 @@ func (coll *telemetryCollector) Start() error {
 	if err := coll.bgWorkerCore.Start(); err != nil {
 		return err
 	}
-	go coll.worker()
 	coll.buf.Grow(64 * 1024)
+	go coll.worker(coll.w, coll.e)
 	return nil
 }
 
-func (coll *telemetryCollector) worker() {
-	defer close(coll.e)
+func (coll *telemetryCollector) worker(w <-chan struct{}, e chan<- error) {
+	defer close(e)
 	for open := true; open; {
-		_, open = <-coll.w
-		coll.logData()
+		_, open = <-w
+		if err := coll.logData(); err != nil {
+			workerError(e, err)
+		}
 	}
 }
 
-func (coll *telemetryCollector) logData() {
+func (coll *telemetryCollector) logData() error {
 	coll.Lock()
 	defer coll.Unlock()
 
@@ -425,10 +427,8 @@ func (coll *telemetryCollector) logData() {
 			coll.stalls = nil
 		}
 
-		if _, err := coll.buf.WriteTo(coll.f); err != nil {
-			coll.e <- err
-		}
-		return
+		_, err := coll.buf.WriteTo(coll.f)
+		return err
 	}
 
 	if coll.timing != nil {
@@ -439,6 +439,7 @@ func (coll *telemetryCollector) logData() {
 		log.Printf("output stalls %v", coll.stalls)
 		coll.stalls = nil
 	}
+	return nil
 }
 
 func appendDurationsTo(buf *bytes.Buffer, ds []time.Duration) {
diff --git a/x/platform/log.go b/x/platform/log.go
index 5aaf33e..f91058d 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -89,7 +89,7 @@ func (logs *LogSink) Start() error {
 	err := logs.bgWorkerCore.Start()
 	if err == nil {
 		logs.direct = false
-		go logs.flushWorker()
+		go logs.flushWorker(logs.w, logs.e)
 	}
 	return err
 }
@@ -105,15 +105,15 @@ func (logs *LogSink) Stop() error {
 	return err
 }
 
-func (logs *LogSink) flushWorker() {
-	defer close(logs.e)
+func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
+	defer close(e)
 	for open := true; open; {
-		_, open = <-logs.w
+		_, open = <-w
 		if logs.f == nil {
 			break
 		}
 		if err := logs.flush(); err != nil {
-			logs.e <- err
+			workerError(e, err)
 		}
 	}
 }
-- 
2.43.0


From eaca37fd626ef3eaa3f894b822dc9166ce7d3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 37/70] fix: LogSink must not lose, reorder, or panic on what
 is written, whatever its worker does

---
 x/platform/log.go | 136 ++++++++++++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 54 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index f91058d..9d0a93b 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -17,66 +17,69 @@ func init() {
 var Logs LogSink
 
 // LogSink implements an in-memory log buffer.
+//
+// Content may be written from any goroutine, while everything else must be
+// done by one of them.
 type LogSink struct {
 	// TODO cap buffer size
 	buf     bytes.Buffer
-	bufEOLs []int
+	bufEOLs []int // of terminated lines
 
 	direct bool
 	bgWorkerCore
-	fbuf bytes.Buffer
+	fbuf bytes.Buffer // what is to be written next
+	wbuf bytes.Buffer // what is being written
 	f    *os.File
 }
 
 // Contents all in-memory buffered bytes and a slice containing the index of
-// all newlines within those bytes.
+// all newlines within those bytes; an unterminated last line is counted as if
+// there were a newline after it.
 func (logs *LogSink) Contents() ([]byte, []int) {
-	return logs.buf.Bytes(), logs.bufEOLs
+	logs.Lock()
+	defer logs.Unlock()
+	b, eols := logs.buf.Bytes(), logs.bufEOLs
+	eols = eols[:len(eols):len(eols)]
+	if i := len(b) - 1; i >= 0 && b[i] != '\n' {
+		eols = append(eols, len(b)) // implicit EOL-at-EOF
+	}
+	return b, eols
 }
 
 func (logs *LogSink) Read(p []byte) (n int, err error) {
+	logs.Lock()
+	defer logs.Unlock()
 	n, err = logs.buf.Read(p)
-	i := 0
-	for ; i < len(logs.bufEOLs) && n > logs.bufEOLs[i]; i++ {
-	}
-	logs.bufEOLs = logs.bufEOLs[:copy(logs.bufEOLs, logs.bufEOLs[i:])]
-	for i = 0; i < len(logs.bufEOLs); i++ {
-		logs.bufEOLs[i] -= n
+	var eols []int
+	for _, i := range logs.bufEOLs {
+		if i >= n {
+			eols = append(eols, i-n)
+		}
 	}
+	logs.bufEOLs = eols
 	return n, err
 }
 
-func (logs *LogSink) Write(p []byte) (n int, _ error) {
-	if len(p) == 0 {
-		return 0, nil
-	}
-	if logs.f != nil {
-		if logs.direct {
-			if n, err := logs.f.Write(p); err != nil {
-				return n, err
-			}
-		} else {
-			_, _ = logs.fbuf.Write(p)
-		}
-	}
-
-	b := logs.buf.Bytes()
-	// unwind any implicit EOL-at-EOF
-	if i := len(logs.bufEOLs) - 1; i >= 0 && b[logs.bufEOLs[i]] != '\n' {
-		logs.bufEOLs = logs.bufEOLs[:i]
-	}
+func (logs *LogSink) Write(p []byte) (n int, err error) {
+	logs.Lock()
+	defer logs.Unlock()
 	for off := 0; off < len(p); off++ {
 		i := bytes.IndexByte(p[off:], '\n')
 		if i < 0 {
-			logs.bufEOLs = append(logs.bufEOLs, len(b)+len(p))
 			break
 		}
 		off += i
-		logs.bufEOLs = append(logs.bufEOLs, len(b)+off)
+		logs.bufEOLs = append(logs.bufEOLs, logs.buf.Len()+off)
 	}
-
 	n, _ = logs.buf.Write(p)
-	return n, nil
+
+	if logs.f != nil {
+		_, _ = logs.fbuf.Write(p)
+		if logs.direct {
+			err = logs.flush(logs.swap())
+		}
+	}
+	return n, err
 }
 
 // Start a background goroutine to defer file writing, transitioning to such
@@ -88,7 +91,9 @@ func (logs *LogSink) Start() error {
 	}
 	err := logs.bgWorkerCore.Start()
 	if err == nil {
+		logs.Lock()
 		logs.direct = false
+		logs.Unlock()
 		go logs.flushWorker(logs.w, logs.e)
 	}
 	return err
@@ -97,52 +102,75 @@ func (logs *LogSink) Start() error {
 // Stop the any background file-writing goroutine, transitioning back to direct
 // file writes.
 func (logs *LogSink) Stop() error {
-	if logs.f == nil || logs.w == nil {
+	if logs.e == nil {
 		return nil
 	}
 	err := logs.bgWorkerCore.Stop()
+	logs.Lock()
+	defer logs.Unlock()
 	logs.direct = true
-	return err
+	return errOr(err, logs.flush(logs.swap()))
 }
 
 func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
 	defer close(e)
 	for open := true; open; {
 		_, open = <-w
-		if logs.f == nil {
-			break
-		}
-		if err := logs.flush(); err != nil {
+		logs.Lock()
+		f := logs.swap()
+		logs.Unlock()
+		if err := logs.flush(f); err != nil {
 			workerError(e, err)
 		}
 	}
 }
 
-func (logs *LogSink) flush() error {
-	_, err := logs.fbuf.WriteTo(logs.f)
+// swap makes all that is to be written be what is being written, after any
+// rest that failed to be.
+func (logs *LogSink) swap() *os.File {
+	if logs.wbuf.Len() == 0 {
+		logs.fbuf, logs.wbuf = logs.wbuf, logs.fbuf
+	} else {
+		_, _ = logs.fbuf.WriteTo(&logs.wbuf)
+	}
+	return logs.f
+}
+
+// flush is called by the worker while there is one, without holding the lock.
+func (logs *LogSink) flush(f *os.File) error {
+	if f == nil {
+		return nil
+	}
+	_, err := logs.wbuf.WriteTo(f)
 	return err
 }
 
 // SetFile sets the sink's file destination, starting or stopping a background
-// goroutine as needed.
+// goroutine as needed. Everything that was written so far is flushed to any
+// prior file, which is then closed.
 func (logs *LogSink) SetFile(f *os.File) error {
 	if logs.f == f {
 		return nil
 	}
-	if logs.f != nil {
-		if err := logs.f.Close(); err != nil {
-			return fmt.Errorf("failed to close log file %q: %v", logs.f.Name(), err)
-		}
-	}
 	if f != nil {
 		log.Printf("logging to %q", f.Name())
-		logs.f = f
-		return logs.Start()
-	}
-	if logs.f != nil {
+	} else {
 		log.Printf("disabling log file output")
-		logs.f = nil
-		return logs.Stop()
 	}
-	return nil
+
+	err := logs.Stop()
+	logs.Lock()
+	prior := logs.f
+	logs.f = f
+	logs.direct = false
+	logs.fbuf.Reset()
+	logs.wbuf.Reset()
+	logs.Unlock()
+
+	if prior != nil {
+		if cerr := prior.Close(); err == nil && cerr != nil {
+			err = fmt.Errorf("failed to close log file %q: %v", prior.Name(), cerr)
+		}
+	}
+	return errOr(err, logs.Start())
 }
-- 
2.43.0


From da30f66e4182f49120b2c1be439338bb38a7c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 38/70] fix: data passed to the telemetry worker must not be
 changed while it uses it

---
 x/platform/diag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index 9a7ea72..d734b2d 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -216,11 +216,11 @@ func (tel *Telemetry) update(p *Platform) error {
 		timingFrame := tel.Timing.update(p)
 		consumeStalls := timingFrame
 		if tel.LogTiming && timingFrame {
-			tel.coll.timing = tel.Timing.ds
+			tel.coll.timing = append([]time.Duration{}, tel.Timing.ds...)
 		}
 		if stalls := p.term.Stalls(consumeStalls); stalls != nil {
 			if tel.LogStallData {
-				tel.coll.stalls = stalls
+				tel.coll.stalls = append([]time.Duration{}, stalls...)
 			}
 			if tel.StallDataEnabled {
 				tel.Stalls.update(p, stalls)
-- 
2.43.0


From 28c65cd3595d62ebbf2d0a6218ce0ad7b1319fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 39/70] fix: SGRReset must be a well-formed sequence

---
 ansi/sgr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/sgr.go b/ansi/sgr.go
index ccf77a8..8de1779 100644
--- a/ansi/sgr.go
+++ b/ansi/sgr.go
@@ -47,7 +47,7 @@ const (
 
 // SGRReset resets graphic rendition (foreground, background, text and other
 // character attributes) to default.
-var SGRReset = SGR.With(SGRCodeClear)
+var SGRReset = SGR.WithInts(SGRCodeClear)
 
 // SGRAttr represents commonly used SGR attributes (ignoring blinks and fonts).
 type SGRAttr uint64
-- 
2.43.0


From 880b332f77c3bf64af31253d04f5c95d1275700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 40/70] fix: each input event must be seen by exactly one frame

---
 x/platform/platform.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index d8e1cac..6360c9a 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -195,6 +195,9 @@ func (p *Platform) Run(client Client) (err error) {
 
 		ctx := p.Context()
 
+		// events are those that arrived since the last frame
+		p.events.Clear()
+
 		// poll for signals
 		for polling := true; polling; {
 			select {
@@ -203,7 +206,6 @@ func (p *Platform) Run(client Client) (err error) {
 			case <-p.resize.C:
 				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
 			case <-p.sigio.C:
-				p.events.Clear()
 				n, err := p.term.ReadAny()
 				if n > 0 {
 					p.events.DecodeInput(&p.term.Input)
-- 
2.43.0


From 18629f0979e0a578f530601c91a505a0236fce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 41/70] fix: timing must be measured, and logged, when asked to

---
 x/platform/config.go | 10 +++++++---
 x/platform/diag.go   |  2 +-
 x/platform/hud.go    |  2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index d715f5b..f5bc7bc 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -48,9 +48,9 @@ func (cfg *Config) AddFlags(f *flag.FlagSet, prefix string) {
 	f.StringVar(&cfg.TraceFileName, prefix+"tracefile", cfg.TraceFileName,
 		"enables platform execution tracing")
 	if prefix != "" {
-		f.BoolVar(&cfg.StartTiming, prefix+"timing", false,
+		f.BoolVar(&cfg.StartTiming, prefix+"timing", cfg.StartTiming,
 			"measure timing from the beginning")
-		f.BoolVar(&cfg.LogTiming, prefix+"timing.log", false,
+		f.BoolVar(&cfg.LogTiming, prefix+"timing.log", cfg.LogTiming,
 			"measure and log timing from the beginning")
 	}
 }
@@ -74,6 +74,9 @@ func (cfg *Config) Merge(other Config) {
 	if other.MemProfileName != "" && cfg.MemProfileName == "" {
 		cfg.MemProfileName = other.MemProfileName
 	}
+	if other.StartTiming {
+		cfg.StartTiming = true
+	}
 	if other.LogTiming {
 		cfg.LogTiming = true
 	}
@@ -83,7 +86,8 @@ func (cfg *Config) Merge(other Config) {
 }
 
 func (cfg *Config) setup(p *Platform) error {
-	p.SetTimingEnabled(cfg.LogTiming)
+	p.SetTimingEnabled(cfg.StartTiming || cfg.LogTiming)
+	p.Telemetry.LogTiming = cfg.LogTiming
 
 	if cfg.TelemetryLogFileName != "" {
 		if err := p.Telemetry.coll.create(cfg.TelemetryLogFileName); err != nil {
diff --git a/x/platform/diag.go b/x/platform/diag.go
index d734b2d..2d3e6a9 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -170,7 +170,7 @@ func (tel *Telemetry) FPS() float64 {
 func (p *Platform) SetTimingEnabled(enabled bool) {
 	if p.TimingEnabled != enabled {
 		p.TimingEnabled = enabled
-		if !p.TimingEnabled && !p.LogTiming {
+		if !p.TimingEnabled && !p.Telemetry.LogTiming {
 			p.Timing.reset()
 		}
 	}
diff --git a/x/platform/hud.go b/x/platform/hud.go
index 3fe3570..1ed1c66 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -386,7 +386,7 @@ func (hud *HUD) drawFPSDetail(ctx *Context) {
 func (hud *HUD) drawTelemetry(ctx *Context) {
 	hud.detailHeader(ctx, "# Telemetry:")
 	hud.drawFileEditRow(ctx, &ctx.Telemetry.coll, "Go Log")
-	hud.drawToggleRow(ctx, "Log Timing", &ctx.LogTiming)
+	hud.drawToggleRow(ctx, "Log Timing", &ctx.Telemetry.LogTiming)
 	hud.drawToggleRow(ctx, "Log Stalls", &ctx.Telemetry.LogStallData)
 }
 
-- 
2.43.0


From 7a639d0d41d6d2882f2b32db6767bc1aa99b10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 42/70] fix: timing must work at low frame rates

---
 x/platform/options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/options.go b/x/platform/options.go
index e0794ce..98caa8b 100644
--- a/x/platform/options.go
+++ b/x/platform/options.go
@@ -17,6 +17,9 @@ func (f optionFunc) apply(p *Platform) error { return f(p) }
 func FrameRate(fps int) Option {
 	return optionFunc(func(p *Platform) error {
 		timingPeriod := fps / 4
+		if timingPeriod < 1 {
+			timingPeriod = 1
+		}
 		p.ticker.d = time.Second / time.Duration(fps)
 		p.FPSEstimate.data = make([]float64, fps)
 		p.Timing.ts = make([]time.Time, timingPeriod)
-- 
2.43.0


From b5d191219fe6df42744e187e7d9fcb585d4aea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 43/70] fix: a signal must not be ignored during a replay

---
 x/platform/replay.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 95a0854..1553da4 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -36,7 +36,7 @@ type replay struct {
 
 func (rep *replay) update(ctx *Context) {
 	if len(rep.cur) == 0 {
-		ctx.Err = errReplayDone
+		ctx.Err = errOr(ctx.Err, errReplayDone)
 		return
 	}
 
@@ -86,7 +86,7 @@ func (rep *replay) update(ctx *Context) {
 			}
 		}
 		if rep.frame.T.IsZero() {
-			ctx.Err = errReplayDone
+			ctx.Err = errOr(ctx.Err, errReplayDone)
 			return
 		}
 
@@ -105,7 +105,7 @@ func (rep *replay) update(ctx *Context) {
 		}
 	}
 
-	ctx.Err = rep.runClient(ctx)
+	ctx.Err = errOr(ctx.Err, rep.runClient(ctx))
 }
 
 func (rep *replay) runClient(ctx *Context) error {
-- 
2.43.0


From b2467f4f5921f857a7edeb2a3f1d7d64b73a484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 44/70] fix: a replay file must not be rejected for a short
 read

---
 x/platform/replay.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 1553da4..d9dc386 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -255,7 +255,7 @@ func readReplay(f *os.File) (_ *replay, err error) {
 
 func readSized(r io.Reader) ([]byte, error) {
 	var tmp [8]byte
-	if _, err := r.Read(tmp[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp[:]); err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint64(tmp[:])
-- 
2.43.0


From 6696b98bd69b2f07727edc0f8abedf204089de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 45/70] fix: replay must decode sequences that were cut between
 reads as live input does

---
 input.go               | 13 +++++++++++++
 x/platform/platform.go |  2 +-
 x/platform/replay.go   | 13 +++++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/input.go b/input.go
index 7eb76f3..ca0c366 100644
--- a/input.go
+++ b/input.go
@@ -449,6 +449,19 @@ type InputFrame struct {
 	M []byte    // pass through APC message
 }
 
+// Replay adds the bytes of a recorded frame to the internal byte buffer, as if
+// they were just read. Returns their number, and any error that was recorded.
+func (in *Input) Replay(frm InputFrame) (int, error) {
+	err := frm.E
+	in.ateof = err != nil && err.Error() == io.EOF.Error()
+	if in.ateof {
+		err = io.EOF
+	}
+	_, _ = in.buf.Write(frm.B)
+	_ = in.readBuf() // keep room for more, as reading does
+	return len(frm.B), err
+}
+
 // InputError represets a recorderded read error.
 type InputError []byte
 
diff --git a/x/platform/platform.go b/x/platform/platform.go
index 6360c9a..0447644 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -179,7 +179,7 @@ func (p *Platform) Run(client Client) (err error) {
 		if err := p.readState(bytes.NewReader(p.replay.cereal)); err != nil {
 			return err
 		}
-		p.replay.cur = p.replay.input
+		p.replay.rewind()
 	}
 
 	log.Printf("running %T", p.client)
diff --git a/x/platform/replay.go b/x/platform/replay.go
index d9dc386..070bd06 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -26,6 +26,8 @@ type replay struct {
 	input  anansi.InputReplay
 	cur    anansi.InputReplay
 	frame  anansi.InputFrame
+	in     anansi.Input // decodes frames, as sequences may be cut between them
+	err    error        // read error of frame
 	pause  time.Time
 	size   image.Point
 	mouse  struct {
@@ -92,7 +94,8 @@ func (rep *replay) update(ctx *Context) {
 
 		// load replay frame input
 		ctx.events.Clear()
-		ctx.events.DecodeBytes(rep.frame.B)
+		_, rep.err = rep.in.Replay(rep.frame)
+		ctx.events.DecodeInput(&rep.in)
 
 		// update mouse cursor state
 		if m, have := ctx.events.LastMouse(false); have {
@@ -111,7 +114,7 @@ func (rep *replay) update(ctx *Context) {
 func (rep *replay) runClient(ctx *Context) error {
 	ctx.Time = rep.frame.T
 	ctx.Output.Resize(rep.size) // TODO better afford size difference
-	err := rep.frame.E          // TODO wrap so that it can be non-fatal to looper?
+	err := rep.err              // TODO wrap so that it can be non-fatal to looper?
 	return errOr(err, ctx.runClient())
 }
 
@@ -143,6 +146,12 @@ func (rep *replay) drawOverlay(ctx *Context) {
 	ctx.Output.WriteESC(ansi.DECRC)
 }
 
+// rewind starts over.
+func (rep *replay) rewind() {
+	rep.cur = rep.input
+	rep.in = anansi.Input{}
+}
+
 func (rep *replay) next() bool {
 	if len(rep.cur) == 0 {
 		return false
-- 
2.43.0


From 4ea57189c24255631a5817ca942cbd5d0fb90b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 46/70] fix: a replayed client must not see what the platform
 handled when recording

---
 x/platform/replay.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 070bd06..f87da8c 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -97,6 +97,10 @@ func (rep *replay) update(ctx *Context) {
 		_, rep.err = rep.in.Replay(rep.frame)
 		ctx.events.DecodeInput(&rep.in)
 
+		// as when recorded, Ctrl-L and Ctrl-R aren't for the client
+		ctx.Redraw = ctx.Input.CountRune('\x0c') > 0 || ctx.Redraw
+		_ = ctx.Input.CountRune('\x12')
+
 		// update mouse cursor state
 		if m, have := ctx.events.LastMouse(false); have {
 			rep.mouse.Mouse = m
-- 
2.43.0


From 6d23ed7d2aed164d9a2b32c5155e133e186eefb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 47/70] fix: the screen must have the terminal's size again
 after a replay is stopped

---
 x/platform/replay.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index f87da8c..c51b874 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -46,6 +46,8 @@ func (rep *replay) update(ctx *Context) {
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
 		ctx.Platform.replay = nil
+		ctx.Redraw = true // at actual size
+		ctx.Output.Invalidate()
 		return
 	}
 
-- 
2.43.0


From acef020fffc462957dbde08a6062180d2e5b3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 48/70] fix: a resize while recording must be replayed

---
 x/platform/platform.go | 26 +++++++++++++++++++++-----
 x/platform/replay.go   |  9 +++++++--
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 0447644..6854ec4 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -108,9 +108,10 @@ type Platform struct {
 	events Events
 	ticker Ticker
 
-	recording *os.File
-	replay    *replay
-	bg        BackgroundWorkers
+	recording    *os.File
+	recordedSize image.Point
+	replay       *replay
+	bg           BackgroundWorkers
 
 	State
 	Time   time.Time // internal time (rewinds during replay)
@@ -204,8 +205,13 @@ func (p *Platform) Run(client Client) (err error) {
 			case sig := <-p.stop.C:
 				ctx.Err = errOr(ctx.Err, anansi.SigErr(sig))
 			case <-p.resize.C:
-				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
+				ctx.Err = errOr(ctx.Err, p.sizeToTerm())
 			case <-p.sigio.C:
+				select {
+				case <-p.resize.C: // to be recorded ahead of input
+					ctx.Err = errOr(ctx.Err, p.sizeToTerm())
+				default:
+				}
 				n, err := p.term.ReadAny()
 				if n > 0 {
 					p.events.DecodeInput(&p.term.Input)
@@ -233,6 +239,16 @@ func (p *Platform) Run(client Client) (err error) {
 	return nil
 }
 
+// sizeToTerm resizes the screen to match the terminal, and records its size if
+// that's not what was recorded last.
+func (p *Platform) sizeToTerm() error {
+	err := p.screen.SizeToTerm(p.term)
+	if err == nil && p.recording != nil && p.recordedSize != p.screen.Bounds().Size() {
+		err = p.recordSize()
+	}
+	return err
+}
+
 // Context returns a new Context bound to the platform.
 func (p *Platform) Context() Context {
 	return Context{
@@ -276,7 +292,7 @@ func (ctx *Context) Update() {
 	}
 
 	if ctx.Redraw {
-		ctx.Err = errOr(ctx.Err, ctx.Output.SizeToTerm(ctx.term))
+		ctx.Err = errOr(ctx.Err, ctx.sizeToTerm())
 	}
 
 	// recording / replaying toggle on Ctrl-R
diff --git a/x/platform/replay.go b/x/platform/replay.go
index c51b874..f88ad70 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -119,8 +119,12 @@ func (rep *replay) update(ctx *Context) {
 
 func (rep *replay) runClient(ctx *Context) error {
 	ctx.Time = rep.frame.T
-	ctx.Output.Resize(rep.size) // TODO better afford size difference
-	err := rep.err              // TODO wrap so that it can be non-fatal to looper?
+	if ctx.Output.Bounds().Size() != rep.size || ctx.LastSize != rep.size {
+		ctx.Redraw = true
+		ctx.Output.Invalidate()
+		ctx.Output.Resize(rep.size) // TODO better afford size difference
+	}
+	err := rep.err // TODO wrap so that it can be non-fatal to looper?
 	return errOr(err, ctx.runClient())
 }
 
@@ -237,6 +241,7 @@ func (p *Platform) recordSize() error {
 		if _, err := fmt.Fprintf(p.recording, "\x1b_resize:%d,%d\x1b\\", sz.X, sz.Y); err != nil {
 			return fmt.Errorf("failed to record size: %v", err)
 		}
+		p.recordedSize = sz
 	}
 	return nil
 }
-- 
2.43.0


From 6c703d0ec5482e04625b405ecc3ba94c42ca0116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 49/70] fix: a recording must start with the state that its
 input was received in

---
 x/platform/platform.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 6854ec4..d78f717 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -295,12 +295,14 @@ func (ctx *Context) Update() {
 		ctx.Err = errOr(ctx.Err, ctx.sizeToTerm())
 	}
 
-	// recording / replaying toggle on Ctrl-R
-	if ctx.Input.CountRune('\x12')%2 == 1 {
+	// recording / replaying toggle on Ctrl-R; what gets recorded starts with
+	// the state after this frame
+	toggle := ctx.Input.CountRune('\x12')%2 == 1
+	err := ctx.runClient()
+	if toggle {
 		ctx.Err = errOr(ctx.Err, ctx.toggleRecRep())
 	}
-
-	ctx.Err = errOr(ctx.Err, ctx.runClient())
+	ctx.Err = errOr(ctx.Err, err)
 }
 
 func (ctx *Context) runClient() error {
-- 
2.43.0


From 6779cb6b000fc9afb29aaeb82eec957f57c5985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 50/70] fix: backspace within an edit line must delete the rune
 before the cursor

---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index e87a76c..0af54d0 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -179,7 +179,7 @@ func (edl *EditLine) handleControlRune(ctx *Context, eid int) {
 		if edl.Cur > 0 {
 			if edl.Cur < utf8.RuneCount(edl.Buf) {
 				in := edl.Buf
-				for j := 0; j < edl.Cur; j++ {
+				for j := 1; j < edl.Cur; j++ {
 					_, n := utf8.DecodeRune(in)
 					in = in[n:]
 				}
-- 
2.43.0


From b8b21ada96cfe83ab0c144314a22ed3b8aba0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 51/70] fix: input after an edit line is submitted or canceled
 must not edit it

---
 x/platform/editline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 0af54d0..93bec77 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -57,6 +57,9 @@ func (edl *EditLine) Update(ctx *Context) {
 		edl.handleEvent = defaultBehavior
 	}
 	for eid := range ctx.Input.Type {
+		if edl.State != EditLineReady {
+			break
+		}
 		edl.handleEvent(edl, ctx, eid)
 	}
 
-- 
2.43.0


From 0ba76c05ec13fa4e89cce45a21dd72490a3928c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 52/70] fix: an edit line must keep its cursor within its box

---
 x/platform/editline.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 93bec77..dab6eec 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -67,7 +67,10 @@ func (edl *EditLine) Update(ctx *Context) {
 		return
 	}
 
-	// TODO clamp to box, showing cursor
+	w := edl.Box.Dx()
+	if w < 1 {
+		return
+	}
 	n := utf8.RuneCount(edl.Buf)
 
 	// ensure cursor past left rune offset
@@ -80,22 +83,26 @@ func (edl *EditLine) Update(ctx *Context) {
 	}
 
 	// ensure cursor within right rune offset
-	hi := edl.View + n
-	if w := edl.Box.Dx(); n > w {
-		hi = edl.View + w
-	}
-	if edl.Cur >= hi {
-		d := edl.Cur - hi
-		if hi < n {
-			d++
-		}
-		hi += d
-		edl.View += d
-	} else if reclaim := hi - n; reclaim > 0 {
+	if lo := edl.Cur - w + 1; edl.View < lo {
+		edl.View = lo
+	}
+
+	// reclaim any unused space, except for a cursor past the last rune
+	end := n
+	if edl.Cur == n {
+		end++
+	}
+	if reclaim := edl.View + w - end; reclaim > 0 {
 		edl.View -= reclaim
-		hi -= reclaim
+		if edl.View < 0 {
+			edl.View = 0
+		}
+	}
+
+	lo, hi := edl.View, edl.View+w
+	if hi > n {
+		hi = n
 	}
-	lo := edl.View
 
 	// TODO ellipses
 
-- 
2.43.0


From 60721754b15df0f5bc837373e1faaaf38cda0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 53/70] fix: the log view must fit the screen, one row per
 line, and toggle where it is shown

---
 x/platform/hud.go | 79 +++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 1ed1c66..f149d82 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -2,7 +2,6 @@ package platform
 
 import (
 	"fmt"
-	"image"
 	"log"
 	"os"
 	"runtime/pprof"
@@ -605,46 +604,22 @@ func NewLogView(logs *LogSink) *LogView {
 func (lv *LogView) Update(ctx *Context) error {
 	outBounds := ctx.Output.Bounds()
 
-	// view calc input handling
-	viewLines := lv.ViewLines
-	if viewLines == 0 {
-		viewLines = 10
-		lv.ViewLines = viewLines
+	if lv.ViewLines < 1 {
+		lv.ViewLines = 10
 	}
-	height := viewLines
-
-	topLeft := ansi.Pt(1, outBounds.Max.Y-1)
-	if lv.Expanded {
-		height++
-		topLeft.Y -= height - 1
-	} else {
-		height = 1
-	}
-
-	// TODO drag resizing
-	if n := ctx.Input.CountPressesIn(ansi.Rect(topLeft.X, topLeft.Y, outBounds.Max.X, topLeft.Y+1), 1); n%2 == 1 {
-		topLeft.Y = outBounds.Max.Y - 1
-		height = 1
-		if lv.Expanded = !lv.Expanded; lv.Expanded {
-			height += viewLines
-		}
-		topLeft.Y -= height - 1
-	}
-
-	if !lv.Expanded {
-		viewLines = 1
-	}
-
-	bounds := ansi.Rectangle{Min: topLeft, Max: outBounds.Max}
-	bounds.Max = bounds.Max.Add(image.Pt(0, 1)) // TODO ideally utilize the final column too
 
 	content, eolOffsets := lv.logs.Contents()
 	lines := len(eolOffsets)
-	if lines <= 0 {
+	if lines <= 0 || outBounds.Empty() {
 		return nil
 	}
-	if diff := bounds.Dy() - lines + 1; diff > 0 {
-		bounds.Min.Y += diff
+
+	// TODO drag resizing
+	bounds, viewLines := lv.layout(outBounds, lines)
+	head := ansi.Rect(bounds.Min.X, bounds.Min.Y, bounds.Max.X, bounds.Min.Y+1)
+	if n := ctx.Input.CountPressesIn(head, 1); n%2 == 1 {
+		lv.Expanded = !lv.Expanded
+		bounds, viewLines = lv.layout(outBounds, lines)
 	}
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
 		lv.scrollBy(lines, delta)
@@ -652,23 +627,45 @@ func (lv *LogView) Update(ctx *Context) error {
 
 	// render
 	start, end := lv.viewWindow(lines, viewLines)
-	ctx.Output.To(bounds.Min)
-	if height > 1 {
-		fmt.Fprintf(ctx.Output, "Logs (%v-%v/%v):", start, end, lines)
+	at := bounds.Min
+	if bounds.Dy() > viewLines {
+		ctx.Output.To(at)
+		head := fmt.Sprintf("Logs (%v-%v/%v):", start, end, lines)
+		writeTruncated(ctx, bounds.Dx(), []byte(head))
+		at.Y++
 	}
 	off := 0
 	if start > 1 {
 		off = eolOffsets[start-2] + 1
 	}
 	for _, eol := range eolOffsets[start-1 : end] {
-		ctx.Output.To(ansi.Pt(1, ctx.Output.Cursor.Y+1))
-		w := bounds.Max.X - ctx.Output.Cursor.X
-		writeTruncated(ctx, w, content[off:eol])
+		ctx.Output.To(at)
+		writeTruncated(ctx, bounds.Dx(), content[off:eol])
+		at.Y++
 		off = eol + 1
 	}
 	return nil
 }
 
+// layout returns the part of the screen that's to be used, and how many lines
+// of log to show there; any additional row is for a header.
+func (lv *LogView) layout(outBounds ansi.Rectangle, lines int) (bounds ansi.Rectangle, viewLines int) {
+	bounds, viewLines = outBounds, 1
+	height := 1
+	if lv.Expanded && bounds.Dy() > 1 {
+		viewLines = lv.ViewLines
+		if viewLines > lines {
+			viewLines = lines
+		}
+		if viewLines > bounds.Dy()-1 {
+			viewLines = bounds.Dy() - 1
+		}
+		height += viewLines
+	}
+	bounds.Min.Y = bounds.Max.Y - height
+	return bounds, viewLines
+}
+
 func (lv *LogView) scrollBy(lines, delta int) {
 	start := lv.Line
 	if start == 0 {
-- 
2.43.0


From 4388b52853fdc4a84568c63544a372ec8b453e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 54/70] fix: the log view must scroll from what it shows, and
 back to following

---
 x/platform/hud.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index f149d82..a9f989b 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -622,7 +622,7 @@ func (lv *LogView) Update(ctx *Context) error {
 		bounds, viewLines = lv.layout(outBounds, lines)
 	}
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
-		lv.scrollBy(lines, delta)
+		lv.scrollBy(lines, viewLines, delta)
 	}
 
 	// render
@@ -666,13 +666,14 @@ func (lv *LogView) layout(outBounds ansi.Rectangle, lines int) (bounds ansi.Rect
 	return bounds, viewLines
 }
 
-func (lv *LogView) scrollBy(lines, delta int) {
+func (lv *LogView) scrollBy(lines, viewLines, delta int) {
+	last := lines - viewLines + 1
 	start := lv.Line
-	if start == 0 {
-		start = lines
+	if start == 0 || start > last {
+		start = last
 	}
 	start += delta
-	if start >= lines {
+	if start >= last {
 		start = 0
 	} else if start < 1 {
 		start = 1
@@ -687,6 +688,9 @@ func (lv *LogView) viewWindow(lines, viewLines int) (int, int) {
 		}
 		return 1, lines
 	}
+	if lv.Line > lines {
+		lv.Line = lines // some have been read away
+	}
 	start, end := lv.Line, lv.Line
 	for end < lines && end-start+1 < viewLines {
 		end++
-- 
2.43.0


From 5ab0208ad3305219b86b24fc5f49df85dadb094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 55/70] fix: the HUD must not panic where it does not fit the
 screen

---
 x/platform/hud.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index a9f989b..0923e8d 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -83,7 +83,7 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 	// but still have full (mouse) input priority.
 	err := client.Update(ctx)
 
-	if !hud.Visible {
+	if !hud.Visible || outBounds.Empty() {
 		hud.Active = 0
 		return err
 	}
@@ -178,10 +178,17 @@ func (hud *HUD) updateProfilers(p *Platform) {
 func (hud *HUD) calcKVBox(ctx *Context, key string) (kbox, vbox ansi.Rectangle) {
 	outBounds := ctx.Output.Bounds()
 	n := utf8.RuneCountInString(key)
-	kbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
-	vbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
-	kbox.Max = ansi.Pt(kbox.Min.X+n, ctx.Output.Cursor.Y+1)
-	vbox.Max = ansi.Pt(vbox.Min.X+hud.detailWidth, ctx.Output.Cursor.Y+1)
+	kx, vx := outBounds.Max.X-hud.detailWidth-n-1, outBounds.Max.X-hud.detailWidth
+	if kx < outBounds.Min.X {
+		kx = outBounds.Min.X
+	}
+	if vx < outBounds.Min.X {
+		vx = outBounds.Min.X
+	}
+	kbox.Min = ansi.Pt(kx, ctx.Output.Cursor.Y)
+	vbox.Min = ansi.Pt(vx, ctx.Output.Cursor.Y)
+	kbox.Max = ansi.Pt(kx+n, ctx.Output.Cursor.Y+1)
+	vbox.Max = ansi.Pt(outBounds.Max.X, ctx.Output.Cursor.Y+1)
 	return kbox, vbox
 }
 
@@ -203,7 +210,9 @@ func (hud *HUD) detailRow(ctx *Context, key string, val string) (box ansi.Rectan
 	box.Min = kbox.Min
 	box.Max = vbox.Max
 	n := utf8.RuneCountInString(key) + 2 + hud.detailWidth
-	ctx.Output.To(ansi.Pt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
+	at := ctx.Output.Cursor.Point
+	at.X -= n - 1
+	ctx.Output.To(at)
 	ctx.Output.WriteString(key)
 	ctx.Output.WriteRune(' ')
 	for i := utf8.RuneCountInString(val); i < hud.detailWidth; i++ {
@@ -220,8 +229,12 @@ func (hud *HUD) rightSegment(ctx *Context, s string) (box ansi.Rectangle) {
 	if box.Min.X+1 < outBounds.Max.X {
 		box.Min.X--
 	}
-	box.Max = ansi.Pt(box.Min.X, box.Min.Y+1)
-	box.Min.X -= utf8.RuneCountInString(s)
+	box.Max = box.Min
+	box.Max.Y++
+	if box.Min.X -= utf8.RuneCountInString(s); box.Min.X < outBounds.Min.X {
+		box.Max = box.Min // no room left
+		return box
+	}
 	ctx.Output.To(box.Min)
 	ctx.Output.WriteString(s)
 	ctx.Output.To(box.Min)
@@ -341,8 +354,10 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 					ansi.Rect(box.Min.X, ctx.Output.Cursor.Y, box.Max.X, ctx.Output.Cursor.Y+1),
 					hud.ButtonAttr, hud.SelectAttr,
 					func(ctx *Context, _ bool) {
-						ctx.Output.WriteString(prof.Name())
-						ctx.Output.WriteString(strings.Repeat(" ", outBounds.Max.X-1-ctx.Output.Cursor.X))
+						writeTruncated(ctx, box.Dx()-1, []byte(prof.Name()))
+						for ctx.Output.Cursor.X < outBounds.Max.X-1 {
+							ctx.Output.WriteRune(' ')
+						}
 					})
 				ctx.Output.To(ansi.Pt(box.Min.X, ctx.Output.Cursor.Y+1))
 				box.Max.Y = ctx.Output.Cursor.Y
-- 
2.43.0


From 02a2ee69797759431cd899764c19d4ef7264639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 56/70] fix: the HUD must not edit another file name once
 details are toggled

---
 x/platform/hud.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 0923e8d..e76e02f 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -94,6 +94,8 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 
 	ctx.Output.To(ansi.Pt(outBounds.Max.X, 1))
 
+	details := [...]bool{hud.TimeDetail, hud.FPSDetail, hud.ProfDetail}
+
 	box := hud.rightSegment(ctx, ctx.Time.Format(hudTimeFmt))
 	if box != hud.bla {
 		hud.bla = box
@@ -118,6 +120,11 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 		hud.ProfDetail = !hud.ProfDetail
 	}
 
+	// what follows gets other UIIDs if what's shown has changed
+	if details != [...]bool{hud.TimeDetail, hud.FPSDetail, hud.ProfDetail} {
+		hud.Active = 0
+	}
+
 	hud.rightSegment(ctx, outBounds.Size().String())
 	hud.rightSegment(ctx, fmt.Sprintf("W:% 5v", ctx.Platform.term.Flushed))
 	hud.rightSegment(ctx, hud.Mouse.String())
-- 
2.43.0


From fc3289896fe13691f14f6f9f9df9c481da3ec11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 57/70] fix: terminfo must read only capabilities that the file
 has

---
 terminfo/read.go | 86 +++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 49 deletions(-)

diff --git a/terminfo/read.go b/terminfo/read.go
index 0b20719..35ff1f5 100644
--- a/terminfo/read.go
+++ b/terminfo/read.go
@@ -1,6 +1,7 @@
 package terminfo
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -84,28 +85,36 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 		return fmt.Errorf("invalid magic number %07o", header[0])
 	}
 
-	if (header[1]+header[2])%2 != 0 {
-		// old quirk to align everything on word boundaries
-		header[2]++
+	for _, n := range header[1:] {
+		if n < 0 {
+			return fmt.Errorf("invalid section size %v", n)
+		}
+	}
+
+	// names, booleans, and numbers are not used
+	skip := int64(header[1]) + int64(header[2])
+	skip += skip % 2 // old quirk to align everything on word boundaries
+	skip += 2 * int64(header[3])
+	if _, err := rs.Seek(headerLength+skip, io.SeekStart); err != nil {
+		return err
+	}
+
+	offsets := make([]int16, header[4])
+	if err := binary.Read(rs, binary.LittleEndian, offsets); err != nil {
+		return err
 	}
 
-	strOffset := headerLength + uint16(header[1]+header[2]+2*header[3])
-	tableOffset := strOffset + 2*uint16(header[4])
+	table := make([]byte, header[5])
+	if _, err := io.ReadFull(rs, table); err != nil {
+		return err
+	}
 
 	for i := 1; i < len(tiKeys); i++ {
-		key, err := readTableString(rs, strOffset+2*tiKeys[i], tableOffset)
-		if err != nil {
-			return err
-		}
-		ti.Keys[i] = key
+		ti.Keys[i] = tableString(offsets, table, tiKeys[i])
 	}
 
 	for i := 1; i < len(tiFuncs); i++ {
-		fnc, err := readTableString(rs, strOffset+2*tiFuncs[i], tableOffset)
-		if err != nil {
-			return err
-		}
-		ti.Funcs[i] = fnc
+		ti.Funcs[i] = tableString(offsets, table, tiFuncs[i])
 	}
 
 	ti.Funcs[FuncEnterMouse] = tiMouseEnter
@@ -114,41 +123,20 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	return nil
 }
 
-func readTableString(rs io.ReadSeeker, off, table uint16) (s string, err error) {
-	index, err := readUint16(rs, off)
-	if err != nil {
-		return "", err
-	}
-	if _, err := rs.Seek(int64(table+index), 0); err != nil {
-		return "", err
-	}
-	return readNullString(rs)
-}
-
-func readUint16(rs io.ReadSeeker, off uint16) (uint16, error) {
-	if _, err := rs.Seek(int64(off), 0); err != nil {
-		return 0, err
+// tableString returns the string capability with the given number, the empty
+// string if it is absent: beyond the end of the offsets section, marked by a
+// negative offset, or not within the string table.
+func tableString(offsets []int16, table []byte, num uint16) string {
+	if int(num) >= len(offsets) {
+		return ""
 	}
-	if err := binary.Read(rs, binary.LittleEndian, &off); err != nil {
-		return 0, err
+	off := int(offsets[num])
+	if off < 0 || off >= len(table) {
+		return ""
 	}
-	return off, nil
-}
-
-func readNullString(r io.Reader) (s string, err error) {
-	var bs []byte
-	var buf [8]byte
-	for {
-		n, err := r.Read(buf[:])
-		if err != nil {
-			return "", err
-		}
-		for i, b := range buf[:n] {
-			if b == 0 {
-				bs = append(bs, buf[:i]...)
-				return string(bs), nil
-			}
-		}
-		bs = append(bs, buf[:n]...)
+	s := table[off:]
+	if i := bytes.IndexByte(s, 0); i >= 0 {
+		return string(s[:i])
 	}
+	return ""
 }
-- 
2.43.0


From 1db725922c457652de818be31fd94c27dcc9dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 58/70] fix: terminfo.Load must use what is builtin if reading
 from the database fails

---
 terminfo/terminfo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terminfo/terminfo.go b/terminfo/terminfo.go
index df62ccc..664a54b 100644
--- a/terminfo/terminfo.go
+++ b/terminfo/terminfo.go
@@ -139,6 +139,9 @@ func Load(term string) (*Terminfo, error) {
 	if ti, def := cache[term]; def {
 		return ti, nil
 	}
+	if term == "" {
+		return GetBuiltin(term)
+	}
 	paths := SearchPath()
 	for _, path := range paths {
 		for _, fp := range []string{
@@ -155,8 +158,8 @@ func Load(term string) (*Terminfo, error) {
 				}
 				if err == nil {
 					cache[term] = &ti
+					return &ti, nil
 				}
-				return &ti, err
 			}
 		}
 	}
-- 
2.43.0


From 6be16447978551ad6de4dc7bc6341910b1dbacb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 59/70] fix: input notification must survive being given the
 same channel again

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index ca0c366..a7336be 100644
--- a/input.go
+++ b/input.go
@@ -97,7 +97,7 @@ func (in *Input) Notify(sigio chan os.Signal) error {
 	if sigio != nil {
 		signal.Notify(in.sigio, syscall.SIGIO)
 	}
-	if prior != nil {
+	if prior != nil && prior != sigio {
 		signal.Stop(prior)
 	}
 	return in.setAsync(sigio != nil)
-- 
2.43.0


From 704679742102d5765007de61c9531af1d14e430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 60/70] fix: waiting for an inactive ticker must return zero
 time

---
 x/platform/tick.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/x/platform/tick.go b/x/platform/tick.go
index 2bee957..5aea2df 100644
--- a/x/platform/tick.go
+++ b/x/platform/tick.go
@@ -43,12 +43,11 @@ func (ct *Ticker) Exit(term *anansi.Term) error {
 // Wait blocks for the next ticker time, returning zero time if the Ticker
 // isn't active, or is Exit-ed first.
 func (ct *Ticker) Wait() time.Time {
-	var tc <-chan time.Time
-	if ct.t != nil {
-		tc = ct.t.C
+	if ct.t == nil {
+		return time.Time{}
 	}
 	select {
-	case t := <-tc:
+	case t := <-ct.t.C:
 		return t
 	case <-ct.c:
 	}
-- 
2.43.0


From ea856d3c548c3cf3953157407830e6daabaa7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 61/70] fix: to24bit must convert background colors too

---
 cmd/to24bit/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index cd9b39b..bc7b370 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -89,7 +89,7 @@ func process(e ansi.Escape, a []byte) error {
 
 			// maybe convert background
 			if bg, hasBG := attr.BG(); hasBG {
-				if newc := bg.To24Bit(); newc != bg.To24Bit() {
+				if newc := bg.To24Bit(); newc != bg {
 					attr = attr.SansBG() | newc.BG()
 					needed = true
 				}
-- 
2.43.0


From 730db7373930a54c6ea78b4f8dee8ddda927636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 62/70] fix: to24bit must complete a sequence or rune that is
 split between reads

---
 cmd/to24bit/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index bc7b370..ccb6d9a 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -51,11 +51,20 @@ func processMore(ateof bool) (err error) {
 	for err == nil && readBuf.Len() > 0 {
 		e, a, n := ansi.DecodeEscape(readBuf.Bytes())
 		readBuf.Next(n)
+		if e == 0 && n > 0 {
+			continue // a canceled sequence was dropped
+		}
 		if e == 0 {
 			r, n := utf8.DecodeRune(readBuf.Bytes())
-			const esc = 0x1b
-			if r == esc && readBuf.Len() == 1 && !ateof {
-				break // readMore, try to complete escape sequence
+			if !ateof {
+				switch r {
+				case 0x1B, 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // ESC, DCS, CSI, OSC, PM, APC
+					return nil // readMore, try to complete escape sequence
+				case utf8.RuneError:
+					if !utf8.FullRune(readBuf.Bytes()) {
+						return nil // readMore, try to complete rune
+					}
+				}
 			}
 			readBuf.Next(n)
 			e = ansi.Escape(r)
-- 
2.43.0


From fd2d6664226da0d8b38ab6e8d4739fcfa7b850bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 63/70] fix: to24bit must keep control strings and private use
 runes

---
 cmd/to24bit/main.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index ccb6d9a..b623e9d 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -67,7 +67,8 @@ func processMore(ateof bool) (err error) {
 				}
 			}
 			readBuf.Next(n)
-			e = ansi.Escape(r)
+			_, err = outBuf.WriteRune(r)
+			continue
 		}
 		err = process(e, a)
 	}
@@ -75,11 +76,6 @@ func processMore(ateof bool) (err error) {
 }
 
 func process(e ansi.Escape, a []byte) error {
-	if !e.IsEscape() {
-		_, err := outBuf.WriteRune(rune(e))
-		return err
-	}
-
 	var b [4096]byte
 	p := b[:0]
 
-- 
2.43.0


From c6e20d48604a8b25f8ec51bc8e10f15e6dc0d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 64/70] fix: decode must not fail at the end of its input

---
 cmd/decode/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 5692913..246fbb4 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -74,6 +74,9 @@ func runBatch(in, out *os.File) (err error) {
 			err = perr
 		}
 	}
+	if err == io.EOF {
+		err = nil
+	}
 	if buf.Len() > 0 {
 		log.Printf("undecoded trailer content: %q", buf.Bytes())
 	}
-- 
2.43.0


From 3772577cd2cb76351c12dd697ca384644dbf2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 65/70] fix: decode must complete a sequence or rune that is
 split between reads

---
 cmd/decode/main.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 246fbb4..6c6fa77 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -70,7 +70,7 @@ func runBatch(in, out *os.File) (err error) {
 	for err == nil {
 		buf.Grow(readSize)
 		err = readMore(&buf, in)
-		if perr := processBatch(&buf, bufw); err == nil {
+		if perr := processBatch(&buf, bufw, err == io.EOF); err == nil {
 			err = perr
 		}
 	}
@@ -83,7 +83,7 @@ func runBatch(in, out *os.File) (err error) {
 	return err
 }
 
-func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
+func processBatch(buf *bytes.Buffer, w io.Writer, ateof bool) (err error) {
 	writeRune := func(r rune) (size int, err error) {
 		var b [4]byte
 		n := utf8.EncodeRune(b[:], r)
@@ -99,6 +99,9 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 		e, a, n := ansi.DecodeEscape(buf.Bytes())
 		if n > 0 {
 			buf.Next(n)
+			if e == 0 {
+				continue // a canceled sequence was dropped
+			}
 		}
 		if e == 0 {
 			r, n := utf8.DecodeRune(buf.Bytes())
@@ -106,7 +109,11 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 				return
 			case 0x1B: // ESC
-				if p := buf.Bytes(); len(p) == cap(p) {
+				if !ateof {
+					return
+				}
+			case utf8.RuneError:
+				if !ateof && !utf8.FullRune(buf.Bytes()) {
 					return
 				}
 			}
-- 
2.43.0


From 56b18367b6ca63ffadbd568d1ded1edf618dbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 66/70] fix: interact must not panic if given no command

---
 cmd/interact/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/interact/main.go b/cmd/interact/main.go
index 715dfd2..5b5a018 100644
--- a/cmd/interact/main.go
+++ b/cmd/interact/main.go
@@ -104,6 +104,10 @@ func (in *inspect) runCmd() {
 		return
 	}
 	in.cmdOutput.To(ansi.Pt(1, 1))
+	if len(in.cmd) == 0 {
+		in.cmdOutput.WriteString("No command to run")
+		return
+	}
 	if !in.haveAllArgVals() {
 		in.cmdOutput.WriteString("Define variables to run")
 		return
-- 
2.43.0


From d45d4aed0ef3c451b37db2a10d908dd2d41f1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 67/70] fix: closing input must disable async mode

---
 input.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/input.go b/input.go
index a7336be..e2c2fc7 100644
--- a/input.go
+++ b/input.go
@@ -333,6 +333,16 @@ func (in *Input) Close() error {
 		signal.Stop(in.sigio)
 		in.sigio = nil
 	}
+	if in.async && in.File != nil {
+		in.async = false
+		flags, _, err := in.fcntl(syscall.F_GETFL, 0)
+		if err == nil && flags&syscall.O_ASYNC != 0 {
+			_, _, err = in.fcntl(syscall.F_SETFL, flags&^syscall.O_ASYNC)
+		}
+		if err != nil {
+			return fmt.Errorf("failed to set input file flags: %v", err)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 7cb746314593b8ac79c978fe882d25dcd979aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 68/70] fix: a signal must not leave the terminal changed while
 the platform is entered

---
 x/platform/platform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index d78f717..166411b 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -166,6 +166,10 @@ func IsReplayStop(err error) bool {
 // RunWith runs the given function under the platform anansi.Term; such
 // function should call Platform.Run one or more times.
 func (p *Platform) RunWith(run func(*Platform) error) error {
+	// stop signals must not end the process once terminal state is changed
+	if err := p.stop.Open(); err != nil {
+		return err
+	}
 	return p.term.RunWith(func(_ *anansi.Term) error {
 		return run(p)
 	})
-- 
2.43.0


From 4922501badd2fc4914bdf56bfb6e6de8073a4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 69/70] fix: an output stall must be counted, and logged, once

Stalls of a timing period were processed anew in every frame of it: each was
logged again up to the end of the period, and their share of time was given
relative to one frame.
---
 x/platform/diag.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index 2d3e6a9..50b3929 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -213,12 +213,13 @@ func (tel *Telemetry) update(p *Platform) error {
 
 	tel.FPSEstimate.update(p)
 	if tel.TimingEnabled || tel.LogTiming {
-		timingFrame := tel.Timing.update(p)
-		consumeStalls := timingFrame
-		if tel.LogTiming && timingFrame {
+		if !tel.Timing.update(p) {
+			return nil // stalls are processed along with timing, once each
+		}
+		if tel.LogTiming {
 			tel.coll.timing = append([]time.Duration{}, tel.Timing.ds...)
 		}
-		if stalls := p.term.Stalls(consumeStalls); stalls != nil {
+		if stalls := p.term.Stalls(true); stalls != nil {
 			if tel.LogStallData {
 				tel.coll.stalls = append([]time.Duration{}, stalls...)
 			}
-- 
2.43.0


From 89f665f1c7cce9d8684a162b3a3a6909b4bb9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 70/70] fix: an empty line of a bitmap must be as long as the
 others

ParseBitmap took the first line that was not empty for the one that gives the
length, and so accepted empty lines ahead of it.
---
 bitmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitmap.go b/bitmap.go
index 572cddb..b0830de 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -56,7 +56,7 @@ func ParseBitmap(set string, lines ...string) (stride int, data []bool, err erro
 	}
 
 	var n int
-	for _, line := range lines {
+	for i, line := range lines {
 		m := utf8.RuneCountInString(line)
 		if len(pat) == 2 {
 			if m%2 == 1 {
@@ -64,7 +64,7 @@ func ParseBitmap(set string, lines ...string) (stride int, data []bool, err erro
 			}
 			m /= 2
 		}
-		if stride == 0 {
+		if i == 0 {
 			stride = m
 		} else if m != stride {
 			return 0, nil, errors.New("inconsistent line length")
-- 
2.43.0

