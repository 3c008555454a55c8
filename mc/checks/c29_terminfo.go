package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/user"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi/terminfo"

	"verif.local/mc/h"
)

func init() { h.Register("C29", checkTerminfo) }

// tiCap is a capability that a Terminfo has: its name and its number among the
// strings of a database file (term(5), term.h).
type tiCap struct {
	name string
	num  int
	get  func(ti *terminfo.Terminfo) *string
}

func tiKey(k terminfo.KeyCode) func(ti *terminfo.Terminfo) *string {
	return func(ti *terminfo.Terminfo) *string { return &ti.Keys[k] }
}

func tiFunc(k terminfo.FuncCode) func(ti *terminfo.Terminfo) *string {
	return func(ti *terminfo.Terminfo) *string { return &ti.Funcs[k] }
}

var tiCaps = []tiCap{
	{"F1", 66, tiKey(terminfo.KeyF1)},
	{"F2", 68, tiKey(terminfo.KeyF2)},
	{"F3", 69, tiKey(terminfo.KeyF3)},
	{"F4", 70, tiKey(terminfo.KeyF4)},
	{"F5", 71, tiKey(terminfo.KeyF5)},
	{"F6", 72, tiKey(terminfo.KeyF6)},
	{"F7", 73, tiKey(terminfo.KeyF7)},
	{"F8", 74, tiKey(terminfo.KeyF8)},
	{"F9", 75, tiKey(terminfo.KeyF9)},
	{"F10", 67, tiKey(terminfo.KeyF10)},
	{"F11", 216, tiKey(terminfo.KeyF11)},
	{"F12", 217, tiKey(terminfo.KeyF12)},
	{"Insert", 77, tiKey(terminfo.KeyInsert)},
	{"Delete", 59, tiKey(terminfo.KeyDelete)},
	{"Home", 76, tiKey(terminfo.KeyHome)},
	{"End", 164, tiKey(terminfo.KeyEnd)},
	{"PageUp", 82, tiKey(terminfo.KeyPageUp)},
	{"PageDown", 81, tiKey(terminfo.KeyPageDown)},
	{"Up", 87, tiKey(terminfo.KeyUp)},
	{"Down", 61, tiKey(terminfo.KeyDown)},
	{"Left", 79, tiKey(terminfo.KeyLeft)},
	{"Right", 83, tiKey(terminfo.KeyRight)},
	{"EnterCA", 28, tiFunc(terminfo.FuncEnterCA)},
	{"ExitCA", 40, tiFunc(terminfo.FuncExitCA)},
	{"ShowCursor", 16, tiFunc(terminfo.FuncShowCursor)},
	{"HideCursor", 13, tiFunc(terminfo.FuncHideCursor)},
	{"ClearScreen", 5, tiFunc(terminfo.FuncClearScreen)},
	{"SGR0", 39, tiFunc(terminfo.FuncSGR0)},
	{"Underline", 36, tiFunc(terminfo.FuncUnderline)},
	{"Bold", 27, tiFunc(terminfo.FuncBold)},
	{"Blink", 26, tiFunc(terminfo.FuncBlink)},
	{"Reverse", 34, tiFunc(terminfo.FuncReverse)},
	{"EnterKeypad", 89, tiFunc(terminfo.FuncEnterKeypad)},
	{"ExitKeypad", 88, tiFunc(terminfo.FuncExitKeypad)},
}

const (
	tiEnterMouse = "\x1b[?1000h\x1b[?1002h\x1b[?1015h\x1b[?1006h"
	tiExitMouse  = "\x1b[?1006l\x1b[?1015l\x1b[?1002l\x1b[?1000l"
)

// tiFile is a database file to be.
type tiFile struct {
	names, bools, nums, strs int            // section sizes
	state                    map[int]string // of capabilities that are not just present
	ext                      bool           // extended section
	vals                     map[int]string
}

// bytes of the file.
func (tf tiFile) bytes() []byte {
	var offs []uint16
	var table []byte
	for n := 0; n < tf.strs; n++ {
		switch tf.state[n] {
		case "absent":
			offs = append(offs, 0xffff)
			continue
		case "cancelled":
			offs = append(offs, 0xfffe)
			continue
		}
		offs = append(offs, uint16(len(table)))
		table = append(append(table, tf.value(n)...), 0)
	}
	for n, st := range tf.state {
		if n >= tf.strs {
			continue
		}
		switch st {
		case "outside":
			offs[n] = uint16(len(table) + 3)
		case "just-outside":
			offs[n] = uint16(len(table))
		case "unterminated":
			offs[n] = uint16(len(table))
			table = append(table, 'u')
		case "suffix": // shares what another one ends with
			o := offs[n]
			offs[n] = o + 1
		}
	}
	b := binary.LittleEndian.AppendUint16(nil, 0432)
	for _, n := range []int{tf.names, tf.bools, tf.nums, tf.strs, len(table)} {
		b = binary.LittleEndian.AppendUint16(b, uint16(n))
	}
	if tf.names > 0 {
		b = append(append(b, bytes.Repeat([]byte{'n'}, tf.names-1)...), 0)
	}
	for i := 0; i < tf.bools; i++ {
		b = append(b, byte(1))
	}
	if len(b)%2 != 0 {
		b = append(b, 0)
	}
	for i := 0; i < tf.nums; i++ {
		b = binary.LittleEndian.AppendUint16(b, uint16(256*i+i+2))
	}
	for _, o := range offs {
		b = binary.LittleEndian.AppendUint16(b, o)
	}
	b = append(b, table...)
	if tf.ext {
		if len(b)%2 != 0 {
			b = append(b, 0)
		}
		for _, n := range []int{1, 0, 1, 3, 10} {
			b = binary.LittleEndian.AppendUint16(b, uint16(n))
		}
		b = append(b, 1, 0)
		for _, n := range []int{0, 0, 3} {
			b = binary.LittleEndian.AppendUint16(b, uint16(n))
		}
		b = append(b, "xyz\x00AX\x00XT\x00"...)
	}
	return b
}

func (tf tiFile) value(n int) string {
	if v, ok := tf.vals[n]; ok {
		return v
	}
	return fmt.Sprintf("\x1b[%dx", n)
}

func (tf tiFile) String() string {
	var st []string
	for n, s := range tf.state {
		st = append(st, fmt.Sprintf("%d:%s", n, s))
	}
	sort.Strings(st)
	if len(st) > 8 {
		st = append(st[:8], "...")
	}
	return fmt.Sprintf("file with %d bytes of names, %d booleans, %d numbers, %d strings %v extended=%v",
		tf.names, tf.bools, tf.nums, tf.strs, st, tf.ext)
}

// tiRef is what a database file holds, by term(5): the value of every string
// ("" if absent or cancelled), and whether the file is sound; broken are those
// strings that are not within the string table.
type tiRef struct {
	val    map[int]string
	broken map[int]bool
	ok     bool
}

func refTerminfo(b []byte) (r tiRef) {
	if len(b) < 12 {
		return r
	}
	var hd [6]int
	for i := range hd {
		hd[i] = int(int16(binary.LittleEndian.Uint16(b[2*i:])))
	}
	width := 2
	if hd[0] == 01036 {
		width = 4
	} else if hd[0] != 0432 {
		return r
	}
	for _, n := range hd[1:] {
		if n < 0 {
			return r
		}
	}
	at := 12 + hd[1] + hd[2]
	at += at % 2
	at += width * hd[3]
	table := at + 2*hd[4]
	end := table + hd[5]
	if end > len(b) {
		return r
	}
	r.ok, r.val, r.broken = true, map[int]string{}, map[int]bool{}
	for n := 0; n < hd[4]; n++ {
		o := int(int16(binary.LittleEndian.Uint16(b[at+2*n:])))
		if o == -1 || o == -2 {
			continue
		}
		if o < 0 || o >= hd[5] {
			r.broken[n] = true
			continue
		}
		s := b[table+o : end]
		i := bytes.IndexByte(s, 0)
		if i < 0 {
			r.broken[n] = true
			continue
		}
		r.val[n] = string(s[:i])
	}
	return r
}

// is compares a description to what a file holds.
func (r tiRef) is(ti *terminfo.Terminfo) string {
	for _, cp := range tiCaps {
		if got, want := *cp.get(ti), r.val[cp.num]; got != want {
			return fmt.Sprintf("%s is %q, the file has %q", cp.name, got, want)
		}
	}
	if got := ti.Funcs[terminfo.FuncEnterMouse]; got != tiEnterMouse {
		return fmt.Sprintf("EnterMouse is %q", got)
	}
	if got := ti.Funcs[terminfo.FuncExitMouse]; got != tiExitMouse {
		return fmt.Sprintf("ExitMouse is %q", got)
	}
	if ti.Keys[0] != "" || ti.Funcs[0] != "" {
		return "a capability that does not exist has a value"
	}
	return ""
}

// tiReader reads bytes in steps, and may fail.
type tiReader struct {
	*bytes.Reader
	step  int
	eof   bool // reports the end with the last bytes
	fail  int  // this read or seek fails, if not negative
	n     int
	fails bool
}

var errTiReader = errors.New("medium error")

func (tr *tiReader) op() bool {
	tr.n++
	if tr.n-1 == tr.fail {
		tr.fails = true
	}
	return tr.fails
}

func (tr *tiReader) Read(p []byte) (int, error) {
	if tr.op() {
		return 0, errTiReader
	}
	if tr.step > 0 && len(p) > tr.step {
		p = p[:tr.step]
	}
	n, err := tr.Reader.Read(p)
	if err == nil && tr.eof && tr.Reader.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

func (tr *tiReader) Seek(o int64, whence int) (int64, error) {
	if tr.op() {
		return 0, errTiReader
	}
	return tr.Reader.Seek(o, whence)
}

type tiCheck struct {
	c *h.C
}

// read reads a file and compares; full is the file before it was truncated.
func (tc tiCheck) read(sig string, what func() string, b []byte, tr tiReader) (nops int) {
	c := tc.c
	tr.Reader = bytes.NewReader(b)
	ref := refTerminfo(b)
	var ti terminfo.Terminfo
	var err error
	if !c.Guard(sig+":panic", what, func() { err = ti.ReadFrom(&tr) }) {
		return 0
	}
	c.Transitions(1)
	switch {
	case tr.fails:
		if err == nil {
			c.Violate(sig, "a read error got lost\n%s", what())
		}
	case err != nil:
		if ref.ok && len(ref.broken) == 0 && binary.LittleEndian.Uint16(b) == 0432 {
			c.Violate(sig, "fails: %v\n%s", err, what())
		}
	case !ref.ok:
		c.Violate(sig, "a file that is not sound is read\n%s", what())
	default:
		if s := ref.is(&ti); s != "" {
			c.Violate(sig, "%s\n%s", s, what())
		}
	}
	return tr.n
}

var tiNumStrs = []int{0, 1, 5, 6, 13, 14, 16, 17, 26, 27, 28, 29, 34, 35, 36, 37, 39, 40, 41,
	59, 60, 61, 62, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 87, 88, 89, 90,
	164, 165, 216, 217, 218, 361, 413, 414}

func checkTerminfo(c *h.C) {
	tc := tiCheck{c}
	if os.Getenv("VERIF_PART_OUT") == "" {
		tc.format()
		tc.maps()
		tc.builtin()
	}
	tc.load()
}

// format reads all files.
func (tc tiCheck) format() {
	c := tc.c
	sizes := []int{0, 1, 2, 3}
	bools := []int{0, 1, 2, 3, 37, 38, 44}
	nums := []int{0, 1, 2, 15, 39}
	c.Bound("files", fmt.Sprintf("%v bytes of names, %v booleans, %v numbers, %d numbers of strings; every capability in each of 8 states alone among others present or absent",
		sizes, bools, nums, len(tiNumStrs)))
	steps := []int{0, 1, 3, 7}

	// section sizes
	c.Parallel(len(tiNumStrs), func(i int) {
		for _, ns := range sizes {
			for _, bs := range bools {
				for _, ms := range nums {
					for _, ext := range []bool{false, true} {
						tf := tiFile{names: ns, bools: bs, nums: ms, strs: tiNumStrs[i], ext: ext}
						b := tf.bytes()
						c.StateS(string(b))
						for _, st := range steps[:c.Pick(2, 4)] {
							tc.read("sizes", tf.String, b, tiReader{step: st, fail: -1})
						}
					}
				}
			}
		}
	})

	// states of single capabilities, and lengths of their values
	vals := []string{"", "a", "abcdef", "abcdefg", "abcdefgh", "abcdefghijklmno", "abcdefghijklmnop", "\x80\xff\x01"}
	states := []string{"present", "absent", "cancelled", "outside", "just-outside", "unterminated", "suffix"}
	bases := []tiFile{
		{names: 5, bools: 3, nums: 2, strs: 218},
		{names: 4, bools: 3, nums: 2, strs: 218, ext: true},
		{names: 4, bools: 3, nums: 2, strs: 414, ext: true},
	}
	c.Parallel(len(tiCaps), func(i int) {
		for _, base := range bases {
			for _, others := range []string{"present", "absent", "cancelled"} {
				for _, state := range states {
					for j, v := range vals {
						if j > 0 && state != "present" && state != "suffix" {
							break
						}
						if state == "suffix" && v == "" {
							continue
						}
						tf := base
						tf.state, tf.vals = map[int]string{}, map[int]string{}
						for n := 0; n < tf.strs; n++ {
							tf.state[n] = others
						}
						tf.state[tiCaps[i].num] = state
						tf.vals[tiCaps[i].num] = v
						b := tf.bytes()
						c.StateS(string(b))
						for _, st := range steps {
							for _, eof := range []bool{false, true} {
								tc.read("caps:"+state, func() string {
									return fmt.Sprintf("%v, %s is %q, read %d bytes at a time (end with the last: %v)", tf, tiCaps[i].name, v, st, eof)
								}, b, tiReader{step: st, eof: eof, fail: -1})
							}
						}
					}
				}
			}
		}
	})

	// one value longer than all buffers, as first and last one
	for _, n := range []int{100, 1000, 4000} {
		for _, cp := range tiCaps {
			tf := tiFile{names: 4, bools: 3, nums: 2, strs: 218, vals: map[int]string{cp.num: strings.Repeat("l", n)}}
			tc.read("long", tf.String, tf.bytes(), tiReader{fail: -1})
		}
	}

	// truncations: no capability must be wrong
	for _, base := range []tiFile{
		{names: 5, bools: 3, nums: 2, strs: 218},
		{names: 4, bools: 3, nums: 2, strs: 90, ext: true},
		{names: 4, bools: 2, nums: 1, strs: 30},
		{names: 1, strs: 0},
		{names: 1, bools: 0, nums: 1, strs: 6},
	} {
		b := base.bytes()
		ref := refTerminfo(b)
		c.Parallel(len(b), func(n int) {
			what := func() string { return fmt.Sprintf("%v truncated to %d of %d bytes", base, n, len(b)) }
			c.StateS(string(b[:n]))
			for _, eof := range []bool{false, true} {
				for _, st := range steps {
					var ti terminfo.Terminfo
					var err error
					tr := tiReader{Reader: bytes.NewReader(b[:n]), step: st, eof: eof, fail: -1}
					if !c.Guard("truncated:panic", what, func() { err = ti.ReadFrom(&tr) }) {
						continue
					}
					c.Transitions(1)
					if err != nil {
						if refTerminfo(b[:n]).ok {
							c.Violate("truncated", "fails, though only the extended section is cut: %v\n%s", err, what())
						}
						continue
					}
					if s := ref.is(&ti); s != "" {
						c.Violate("truncated", "%s\n%s", s, what())
					}
				}
			}
		})
	}

	// damage: any one byte replaced
	repl := []byte{0, 1, 0x7f, 0x80, 0xfe, 0xff}
	for _, base := range []tiFile{
		{names: 4, bools: 2, nums: 1, strs: 90, ext: true},
		{names: 5, bools: 2, nums: 1, strs: 30},
	} {
		b := base.bytes()
		c.Parallel(len(b), func(i int) {
			for _, v := range repl {
				d := append([]byte(nil), b...)
				d[i] = v
				c.StateS(string(d))
				tc.read("damaged", func() string { return fmt.Sprintf("%v with byte %d set to %#x", base, i, v) }, d, tiReader{fail: -1})
			}
		})
	}
	// headers, all pairs of fields
	hv := []int{-32768, -2, -1, 0, 1, 2, 3, 100, 32766, 32767}
	base := tiFile{names: 4, bools: 2, nums: 1, strs: 90, ext: true}
	b := base.bytes()
	c.Parallel(len(hv), func(i int) {
		for f := 0; f < 6; f++ {
			for g := f; g < 6; g++ {
				for _, w := range hv {
					d := append([]byte(nil), b...)
					binary.LittleEndian.PutUint16(d[2*f:], uint16(hv[i]))
					binary.LittleEndian.PutUint16(d[2*g:], uint16(w))
					c.StateS(string(d))
					tc.read("header", func() string {
						return fmt.Sprintf("%v with header field %d set to %d, %d to %d", base, f, hv[i], g, w)
					}, d, tiReader{fail: -1})
				}
			}
		}
	})

	// faults at every operation
	for _, base := range []tiFile{
		{names: 5, bools: 3, nums: 2, strs: 218},
		{names: 5, bools: 3, nums: 2, strs: 30},
	} {
		b := base.bytes()
		for _, st := range []int{0, 7} {
			n := tc.read("fault", base.String, b, tiReader{step: st, fail: -1})
			c.Parallel(n, func(i int) {
				tc.read("fault", func() string { return fmt.Sprintf("%v, operation %d fails", base, i) }, b, tiReader{step: st, fail: i})
			})
		}
	}
	c.Bound("damage", "truncation at every byte; every byte replaced by 6 values; all pairs of header fields from 10 values; a fault at every read and seek; reads of any, 1, 3 or 7 bytes")

	// what is installed here
	paths, _ := filepath.Glob("/usr/share/terminfo/?/*")
	for _, path := range paths {
		if b, err := os.ReadFile(path); err == nil {
			tc.read("installed:"+filepath.Base(path), func() string { return path }, b, tiReader{fail: -1})
			c.Count("installed_files", 1)
		}
	}
	c.Traces(1)
}

// maps checks what the maps have under each name.
func (tc tiCheck) maps() {
	c := tc.c
	var ti terminfo.Terminfo
	for _, cp := range tiCaps {
		*cp.get(&ti) = "value of " + cp.name
	}
	ti.Funcs[terminfo.FuncEnterMouse] = "value of EnterMouse"
	ti.Funcs[terminfo.FuncExitMouse] = "value of ExitMouse"
	funcs, keys := ti.FuncMap(), ti.KeyMap()
	nf, nk := 2, 0
	for _, name := range []string{"EnterMouse", "ExitMouse"} {
		if got := funcs[name]; got != "value of "+name {
			c.Violate("funcmap", "%s is %q", name, got)
		}
	}
	for _, cp := range tiCaps {
		m := funcs
		if cp.num >= 59 && cp.num != 88 && cp.num != 89 {
			m = keys
			nk++
		} else {
			nf++
		}
		c.Transitions(1)
		if got := m[cp.name]; got != "value of "+cp.name {
			c.Violate("map", "%s is %q", cp.name, got)
		}
	}
	if len(funcs) != nf || len(keys) != nk {
		c.Violate("map", "%d functions and %d keys, not %d and %d", len(funcs), len(keys), nf, nk)
	}
}

// the names under which builtins are found, and parts of names
var (
	tiBuiltins = []string{"Eterm", "linux", "rxvt-256color", "rxvt-unicode", "screen", "xterm"}
	tiCompat   = map[string]string{"Eterm": "Eterm", "linux": "linux", "rxvt": "rxvt-unicode", "screen": "screen", "xterm": "xterm", "cygwin": "xterm", "st": "xterm"}
)

// tiBuiltinNames are the names of those builtins that may be used for a
// terminal; none if there is none.
func tiBuiltinNames(term string) (names []string) {
	for _, n := range tiBuiltins {
		if term == n {
			return []string{n}
		}
	}
	for p, n := range tiCompat {
		if strings.Contains(term, p) {
			names = append(names, n)
		}
	}
	return names
}

func (tc tiCheck) isBuiltin(term string, ti *terminfo.Terminfo, err error) string {
	names := tiBuiltinNames(term)
	if len(names) == 0 {
		if err == nil {
			return fmt.Sprintf("%q is not supported, yet there is no error", term)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%q fails: %v", term, err)
	}
	if ti == nil {
		return fmt.Sprintf("%q gives nothing", term)
	}
	for _, n := range names {
		if ti.Name == n {
			if want, _ := terminfo.GetBuiltin(n); want == nil || *want != *ti {
				return fmt.Sprintf("%q differs from the builtin %s", term, n)
			}
			return ""
		}
	}
	return fmt.Sprintf("%q gives %q, not one of %q", term, ti.Name, names)
}

// builtin looks up every name.
func (tc tiCheck) builtin() {
	c := tc.c
	parts := []string{"", "Eterm", "linux", "rxvt-256color", "rxvt-unicode", "rxvt", "screen", "xterm", "cygwin", "st", "vt", "X", "-", "256color", ".", "s"}
	for _, a := range parts {
		for _, b := range parts {
			for _, d := range parts {
				term := a + b + d
				c.StateS(term)
				var ti *terminfo.Terminfo
				var err error
				if !c.Guard("builtin:panic", func() string { return term }, func() { ti, err = terminfo.GetBuiltin(term) }) {
					continue
				}
				c.Transitions(1)
				if s := tc.isBuiltin(term, ti, err); s != "" {
					c.Violate("builtin", "%s", s)
				}
			}
		}
	}
	// all of them have all keys, and those and the functions can be told apart
	for _, name := range tiBuiltins {
		ti, err := terminfo.GetBuiltin(name)
		if err != nil {
			continue
		}
		seen := map[string]string{}
		for _, cp := range tiCaps {
			v := *cp.get(ti)
			if v == "" {
				if cp.num >= 59 && cp.num != 88 && cp.num != 89 {
					c.Violate("builtin:"+name, "%s of %s is %q", cp.name, name, v)
				}
				continue
			}
			if was, ok := seen[v]; ok {
				c.Violate("builtin:"+name, "%s of %s is %q, as is %s", cp.name, name, v, was)
			}
			seen[v] = cp.name
		}
	}
}

// tiScene is a scene of files and settings for Load.
type tiScene struct {
	c      *h.C
	home   string
	dirs   [3]string // home, A, B
	serial int
}

// tiValid is a file, by which it can be told apart.
func tiValid(mark string) []byte {
	return tiFile{names: 5, bools: 3, nums: 2, strs: 218, vals: map[int]string{5: mark}}.bytes()
}

func tiPut(dir, term, layout string, b []byte, asDir bool) {
	sub := term[:1]
	if layout == "hex" {
		sub = hex.EncodeToString([]byte(term[:1]))
	}
	path := filepath.Join(dir, sub, term)
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if asDir {
		if err := os.Mkdir(path, 0755); err != nil {
			panic(err)
		}
		return
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
}

func tiRemove(dir, term string) {
	for _, sub := range []string{term[:1], hex.EncodeToString([]byte(term[:1]))} {
		os.Remove(filepath.Join(dir, sub, term))
	}
}

func (sc *tiScene) term(base string) string {
	sc.serial++
	return fmt.Sprintf("%s%d", base, sc.serial)
}

func (tc tiCheck) load() {
	c := tc.c
	bases := []string{"qterm-", "xterm-", "linux"}
	states := []string{"none", "valid", "hex", "truncated", "magic", "directory", "empty"}
	settings := []struct {
		info string // TERMINFO
		dirs string // TERMINFO_DIRS
	}{
		{"", ""}, {"", "A"}, {"", "B"}, {"", "A:B"}, {"", "B:A"}, {"", ":A"}, {"", "A:"}, {"", "A::B"}, {"", "::"},
		{"A", ""}, {"A", "B"}, {"B", "A:B"},
	}
	histLen := c.Pick(5, 6)
	c.Bound("search", fmt.Sprintf("files of the home directory and of two more each in %d states, %d settings of TERMINFO and TERMINFO_DIRS, 3 kinds of name", len(states), len(settings)))
	c.Bound("history", fmt.Sprintf("%d steps out of 9: write a sound, another sound, or a damaged file, or remove it, here or there; load one or the other terminal", histLen))
	dir := os.Getenv("VERIF_TI_DIR")
	if dir == "" {
		d, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "terminfo")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		os.Setenv("VERIF_TI_DIR", d)
		dir = d
	}
	var sc *tiScene
	nset := len(settings) * len(bases)
	installed, _ := filepath.Glob("/usr/share/terminfo/?/*")
	c.Procs(nset+len(bases)*3+1, func(job int) {
		if sc == nil {
			d, err := os.MkdirTemp(dir, "p")
			if err != nil {
				panic(err)
			}
			sc = &tiScene{c: c, home: filepath.Join(d, "home")}
			// as a user that nobody knows, whose home is where HOME says
			if err := syscall.Setreuid(54321, -1); err == nil {
				os.Setenv("HOME", sc.home)
				os.Setenv("USER", "nobody-knows")
			} else {
				sc.home = ""
			}
			sc.dirs = [3]string{filepath.Join(sc.home, ".terminfo"), filepath.Join(d, "A"), filepath.Join(d, "B")}
			// whether that works depends on how the program is built
			if u, err := user.Current(); err != nil || u.HomeDir != sc.home {
				sc.home = ""
				c.Count("processes_without_home", 1)
			}
		}
		expand := func(s string) string {
			s = strings.Replace(s, "A", "\x01", -1)
			s = strings.Replace(s, "B", sc.dirs[2], -1)
			return strings.Replace(s, "\x01", sc.dirs[1], -1)
		}
		if job < nset {
			set, base := settings[job/len(bases)], bases[job%len(bases)]
			os.Setenv("TERMINFO", expand(set.info))
			os.Setenv("TERMINFO_DIRS", expand(set.dirs))
			tc.search(sc, base, states, set.info, set.dirs)
			return
		}
		job -= nset
		if job < len(bases)*3 {
			tc.history(sc, bases[job%len(bases)], job/len(bases), histLen)
			return
		}
		// what is installed, and no name at all
		os.Setenv("TERMINFO", "")
		// with directories that have nothing, however they may be spelled
		around := []string{"", "A", "/usr/share/terminfo-none", "/usr/share/terminfo/none", "/usr/share", "/usr/share/terminf", "A:B", "A:/usr/share/terminfo.d/x:B", "/none/usr/share/terminfo"}
		for i, path := range installed {
			b, err := os.ReadFile(path)
			if err != nil {
				continue
			}
			dirs := expand(around[i%len(around)])
			os.Setenv("TERMINFO_DIRS", dirs)
			term := filepath.Base(path)
			tc.loads(sc, "default", func() string { return fmt.Sprintf("loading %s with TERMINFO_DIRS=%q", path, dirs) }, term, [][]byte{b})
		}
		for _, set := range settings {
			os.Setenv("TERMINFO", expand(set.info))
			os.Setenv("TERMINFO_DIRS", expand(set.dirs))
			var err error
			c.Guard("empty:panic", func() string { return "loading the empty terminal name" }, func() { _, err = terminfo.Load("") })
			if err == nil {
				c.Violate("empty", "no error for the empty terminal name")
			}
		}
	})
}

// loads loads a terminal whose files are, in search order, these.
func (tc tiCheck) loads(sc *tiScene, sig string, what func() string, term string, files [][]byte) {
	c := tc.c
	var ti *terminfo.Terminfo
	var err error
	if !c.Guard(sig+":panic", what, func() { ti, err = terminfo.Load(term) }) {
		return
	}
	c.Transitions(1)
	if s := tc.among(term, files, ti, err); s != "" {
		c.Violate(sig, "%s\n%s", s, what())
		return
	}
	var again *terminfo.Terminfo
	if !c.Guard(sig+":panic", what, func() { again, err = terminfo.Load(term) }) {
		return
	}
	if ti != nil && err == nil && (again == nil || *again != *ti) {
		c.Violate(sig, "loading it again gives another value\n%s", what())
	}
}

// among judges what loading gave: what the first file holds if it is sound. If
// not, reading from the database failed: then it has to be what is builtin, or
// what the next sound file holds.
func (tc tiCheck) among(term string, files [][]byte, ti *terminfo.Terminfo, err error) string {
	broken := false
	for _, b := range files {
		ref := refTerminfo(b)
		if !ref.ok {
			broken = true
			continue
		}
		if binary.LittleEndian.Uint16(b) != 0432 {
			broken = true // may be too new
		}
		if err == nil && ti != nil {
			if s := ref.is(ti); s == "" {
				return ""
			} else if !broken {
				return s
			}
		} else if !broken {
			return fmt.Sprintf("fails: %v", err)
		}
		if binary.LittleEndian.Uint16(b) == 0432 {
			break
		}
	}
	s := tc.isBuiltin(term, ti, err)
	if s != "" && broken {
		s += " (neither is it what a file has)"
	}
	return s
}

func (tc tiCheck) search(sc *tiScene, base string, states []string, info, dirs string) {
	c := tc.c
	var order []int
	switch {
	case info == "A":
		order = []int{1}
	case info == "B":
		order = []int{2}
	default:
		order = []int{0}
		for _, d := range strings.Split(dirs, ":") {
			switch d {
			case "A":
				order = append(order, 1)
			case "B":
				order = append(order, 2)
			}
		}
	}
	n := len(states)
	for w := 0; w < n*n*n && !c.Expired(); w++ {
		pick := [3]string{states[w%n], states[w/n%n], states[w/n/n]}
		if sc.home == "" && pick[0] != "none" {
			continue
		}
		term := sc.term(base)
		var content [3][]byte
		for i, st := range pick {
			b := tiValid(fmt.Sprintf("in %d", i))
			layout := "letter"
			switch st {
			case "none":
				continue
			case "hex":
				layout = "hex"
			case "truncated":
				b = b[:len(b)/2]
			case "magic":
				b[0]++
			case "empty", "directory":
				b = []byte{}
			}
			content[i] = b
			tiPut(sc.dirs[i], term, layout, b, st == "directory")
		}
		var files [][]byte
		for _, i := range order {
			if content[i] != nil {
				files = append(files, content[i])
			}
		}
		c.StateS(fmt.Sprint(base, pick, info, dirs))
		tc.loads(sc, "search", func() string {
			return fmt.Sprintf("TERMINFO=%q TERMINFO_DIRS=%q, terminal %q, which is %s in ~/.terminfo, %s in A, %s in B", info, dirs, term, pick[0], pick[1], pick[2])
		}, term, files)
		c.Traces(1)
		for _, d := range sc.dirs {
			tiRemove(d, term)
		}
	}
}

// history loads while files change.
func (tc tiCheck) history(sc *tiScene, base string, first, n int) {
	c := tc.c
	os.Setenv("TERMINFO", "")
	os.Setenv("TERMINFO_DIRS", sc.dirs[1]+":"+sc.dirs[2])
	const nops = 9
	total := 1
	for i := 1; i < n; i++ {
		total *= nops
	}
	for f := first * 3; f < first*3+3; f++ {
		for w := 0; w < total && !c.Expired(); w++ {
			ops := []int{f}
			for v, i := w, 1; i < n; i++ {
				ops = append(ops, v%nops)
				v /= nops
			}
			terms := [2]string{sc.term(base), sc.term(base)}
			var files [2][2][]byte // term, dir
			var cached [2]*terminfo.Terminfo
			var value [2]terminfo.Terminfo
			var hist []string
			what := func() string { return strings.Join(hist, "; ") }
			for _, op := range ops {
				switch op {
				case 0, 1, 2, 3, 4, 5, 6:
					// writes for the first terminal, but one
					t := 0
					if op == 5 {
						t = 1
					}
					d := 0
					if op == 4 || op == 6 {
						d = 1
					}
					var b []byte
					switch op {
					case 0, 5:
						b = tiValid("one")
					case 1, 4:
						b = tiValid("two")
					case 2:
						b = tiValid("three")
						b = b[:len(b)-20]
					}
					files[t][d] = b
					tiRemove(sc.dirs[1+d], terms[t])
					if b != nil {
						tiPut(sc.dirs[1+d], terms[t], "letter", b, false)
					}
					hist = append(hist, fmt.Sprintf("write %d bytes %s for terminal %d in %c", len(b), []string{"one", "two", "damaged", "(none)", "two", "one", "(none)"}[op], t, 'A'+d))
				default:
					t := op - 7
					hist = append(hist, fmt.Sprintf("load terminal %d (%q)", t, terms[t]))
					var ti *terminfo.Terminfo
					var err error
					if !c.Guard("history:panic", what, func() { ti, err = terminfo.Load(terms[t]) }) {
						return
					}
					c.Transitions(1)
					if cached[t] != nil && err == nil && ti != nil && *ti == value[t] {
						break
					}
					if cached[t] != nil && tc.isBuiltin(terms[t], &value[t], nil) != "" {
						c.Violate("history", "was loaded from a file before, now is another value (%v)\n%s", err, what())
						break
					}
					var fs [][]byte
					for _, b := range files[t] {
						if b != nil {
							fs = append(fs, b)
						}
					}
					if s := tc.among(terms[t], fs, ti, err); s != "" {
						c.Violate("history", "%s\n%s", s, what())
					}
					if err == nil && ti != nil {
						cached[t], value[t] = ti, *ti
					}
				}
			}
			c.StateS(fmt.Sprint(base, ops))
			c.Traces(1)
			for d := range files[0] {
				tiRemove(sc.dirs[1+d], terms[0])
				tiRemove(sc.dirs[1+d], terms[1])
			}
		}
	}
}
