package checks

import (
	"io"
	"log"
	"os"
	"os/signal"
	"reflect"
	"syscall"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"

	"verif.local/mc/ref"
)

// private returns the address of an unexported field of the type that ptr
// points to, that satisfies is, within nested structures too.
func private(ptr, typ interface{}, is func(p unsafe.Pointer) bool) unsafe.Pointer {
	t := reflect.TypeOf(typ).Elem()
	var find func(v reflect.Value) unsafe.Pointer
	find = func(v reflect.Value) unsafe.Pointer {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == t {
				if p := unsafe.Pointer(f.UnsafeAddr()); is == nil || is(p) {
					return p
				}
			} else if f.Kind() == reflect.Struct {
				if p := find(f); p != nil {
					return p
				}
			}
		}
		return nil
	}
	p := find(reflect.ValueOf(ptr).Elem())
	if p == nil {
		panic("no field of type " + t.String())
	}
	return p
}

func (d *driver) signal(sig os.Signal) *anansi.Signal {
	return (*anansi.Signal)(private(d.p, (*anansi.Signal)(nil), func(p unsafe.Pointer) bool {
		for _, s := range (*anansi.Signal)(p).Notify {
			if s == sig {
				return true
			}
		}
		return sig == nil && len((*anansi.Signal)(p).Notify) == 0
	}))
}

// driver runs a platform on a pseudo terminal with its ticks and signals under
// control: everything happens within the goroutine that runs the client.
type driver struct {
	pty     *pty
	in, out *os.File
	p       *platform.Platform
	term    *anansi.Term
	ticks   chan time.Time
	now     time.Time
	vt      *ref.VT
	read    func() // called at the end of each read of input
}

func newDriver(cols, rows int, opts ...platform.Option) (*driver, error) {
	log.SetOutput(io.Discard)
	return newDriverWith(cols, rows, append(opts, platform.Config{})...)
}

// newDriverWith leaves the log alone, and adds no options.
func newDriverWith(cols, rows int, opts ...platform.Option) (*driver, error) {
	d := &driver{pty: getPty()}
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(d.pty.slave), 0x540B /* TCFLSH */, 2)
	setFdFlags(d.pty.slave, fdFlags(d.pty.slave)&^flagMask)
	d.pty.set(d.pty.initial)
	d.pty.drain()
	d.pty.setSize(uint16(cols), uint16(rows))
	d.vt = ref.NewVT(cols, rows)
	d.vt.Modes = make(map[string]bool)
	d.in, d.out = dupFile(d.pty.slave, "in"), dupFile(d.pty.slave, "out")
	p, err := platform.New(d.in, d.out, opts...)
	if err != nil {
		d.close()
		return nil, err
	}
	d.p = p
	d.term = *(**anansi.Term)(private(p, (**anansi.Term)(nil), nil))
	// no notification but ours
	signal.Stop(d.sigio())
	if err := d.term.Input.Notify(nil); err != nil {
		d.close()
		return nil, err
	}
	return d, nil
}

func (d *driver) sigio() chan os.Signal { return d.signal(nil).C }

func (d *driver) send(c chan os.Signal, sig os.Signal) {
	select {
	case c <- sig:
	default:
	}
}

// Write is called as input gets recorded.
func (d *driver) Write(p []byte) (int, error) {
	if f := d.read; f != nil {
		d.read = nil
		f()
	}
	return len(p), nil
}

// run calls f under the platform, with its ticker replaced.
func (d *driver) run(f func(p *platform.Platform) error) error {
	return d.p.RunWith(func(p *platform.Platform) error {
		d.replaceTicker()
		return f(p)
	})
}

func (d *driver) replaceTicker() chan time.Time {
	d.ticks = make(chan time.Time, 1)
	t := (**time.Ticker)(private(d.p, (**time.Ticker)(nil), nil))
	(*t).Stop()
	*t = &time.Ticker{C: d.ticks}
	return d.ticks
}

// tick makes the next frame happen.
func (d *driver) tick() {
	d.now = d.now.Add(time.Second / 60)
	select {
	case d.ticks <- d.now:
	default:
	}
}

// input makes input arrive, with its signal.
func (d *driver) input(s string) {
	if s != "" {
		if _, err := syscall.Write(d.pty.master, []byte(s)); err != nil {
			panic(err)
		}
	}
	d.send(d.sigio(), syscall.SIGIO)
}

func (d *driver) resize(cols, rows int) {
	d.pty.setSize(uint16(cols), uint16(rows))
	d.vt.Resize(cols, rows)
	d.send(d.signal(syscall.SIGWINCH).C, syscall.SIGWINCH)
}

func (d *driver) stop(sig os.Signal) {
	d.send(d.signal(syscall.SIGTERM).C, sig)
}

// shown feeds what was output to the reference terminal.
func (d *driver) shown() *ref.VT {
	d.vt.Write(d.pty.drain())
	return d.vt
}

func (d *driver) close() {
	d.in.Close()
	d.out.Close()
	d.pty.drain()
	d.pty.set(d.pty.initial)
	putPty(d.pty)
}

// client is a client that is a function.
type client struct {
	update func(ctx *platform.Context) error
}

func (cl *client) Update(ctx *platform.Context) error { return cl.update(ctx) }
