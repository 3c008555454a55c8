package checks

import (
	"errors"
	"io"
	"os"
	"syscall"

	"verif.local/mc/ref"
)

var errSink = errors.New("sink broke")

// sink is a writer in front of a reference terminal that misbehaves at a
// chosen byte.
type sink struct {
	vt     *ref.VT
	mode   int // 0 ok, 1 hard error after k bytes, 2 EWOULDBLOCK after k bytes, 3 short write without an error
	k      int
	n      int  // bytes written
	tried  int  // bytes offered
	failed bool // the fault was hit
}

func (s *sink) Write(p []byte) (int, error) {
	s.tried += len(p)
	if s.mode == 0 || s.n+len(p) <= s.k {
		s.n += len(p)
		return s.vt.Write(p)
	}
	m := s.k - s.n
	if m < 0 {
		m = 0
	}
	s.n += m
	s.vt.Write(p[:m])
	s.failed = true
	switch s.mode {
	case 1:
		return m, errSink
	case 2:
		return m, wouldBlock(s.k)
	}
	return m, nil
}

// wouldBlock returns EWOULDBLOCK, in one of the forms that files report it.
func wouldBlock(k int) error {
	err := error(syscall.EWOULDBLOCK)
	switch k % 3 {
	case 1:
		return &os.PathError{Op: "write", Path: "/dev/tty", Err: err}
	case 2:
		return &os.PathError{Op: "write", Path: "/dev/tty", Err: os.NewSyscallError("write", err)}
	}
	return err
}

var _ io.Writer = &sink{}
