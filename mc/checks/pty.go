package checks

import (
	"fmt"
	"os"
	"sync"
	"syscall"
	"unsafe"
)

func ioctl(fd int, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

func fdFlags(fd int) int {
	f, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFL, 0)
	if e != 0 {
		return -1
	}
	return int(f)
}

func setFdFlags(fd, flags int) {
	syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_SETFL, uintptr(flags))
}

// pty is a pseudo terminal: master and slave are raw descriptors, both in
// blocking mode.
type pty struct {
	master, slave int
	initial       syscall.Termios
	name          string
}

func openPty() (*pty, error) {
	m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC|syscall.O_NONBLOCK, 0)
	if err != nil {
		return nil, fmt.Errorf("open /dev/ptmx: %v", err)
	}
	var n int32
	if err := ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&n)); err != nil {
		return nil, err
	}
	var num uint32
	if err := ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&num)); err != nil {
		return nil, err
	}
	p := &pty{master: m, name: fmt.Sprintf("/dev/pts/%d", num)}
	if p.slave, err = syscall.Open(p.name, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0); err != nil {
		syscall.Close(m)
		return nil, err
	}
	p.initial, err = p.get()
	return p, err
}

func (p *pty) Close() {
	syscall.Close(p.slave)
	syscall.Close(p.master)
}

func (p *pty) get() (t syscall.Termios, err error) {
	err = ioctl(p.slave, syscall.TCGETS, unsafe.Pointer(&t))
	return t, err
}

func (p *pty) set(t syscall.Termios) error {
	return ioctl(p.slave, syscall.TCSETS, unsafe.Pointer(&t))
}

func (p *pty) setSize(cols, rows uint16) error {
	dim := [4]uint16{rows, cols, 0, 0}
	return ioctl(p.master, syscall.TIOCSWINSZ, unsafe.Pointer(&dim))
}

// drain returns what was written to the terminal.
func (p *pty) drain() (b []byte) {
	var buf [4096]byte
	for {
		n, err := syscall.Read(p.master, buf[:])
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 {
			return b
		}
		b = append(b, buf[:n]...)
	}
}

// dupFile returns an os.File for the same open file description as fd.
func dupFile(fd int, name string) *os.File {
	syscall.ForkLock.RLock()
	n, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_DUPFD_CLOEXEC, 0)
	syscall.ForkLock.RUnlock()
	if e != 0 {
		panic(e)
	}
	return os.NewFile(n, name)
}

// ptyPool hands out ptys to parallel executions.
var ptyPool struct {
	sync.Mutex
	free []*pty
}

func getPty() *pty {
	ptyPool.Lock()
	defer ptyPool.Unlock()
	if n := len(ptyPool.free); n > 0 {
		p := ptyPool.free[n-1]
		ptyPool.free = ptyPool.free[:n-1]
		return p
	}
	p, err := openPty()
	if err != nil {
		fmt.Fprintf(os.Stderr, "cannot open a pseudo terminal: %v\n", err)
		os.Exit(2)
	}
	return p
}

func putPty(p *pty) {
	ptyPool.Lock()
	ptyPool.free = append(ptyPool.free, p)
	ptyPool.Unlock()
}
