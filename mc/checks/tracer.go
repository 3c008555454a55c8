package checks

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"syscall"
)

// tracer follows a program that this thread started, and sends it a signal at
// one of the system calls with which it changes the terminal.
type tracer struct {
	at    int // number of the system call, from 1; 0 is none
	entry bool
	sig   syscall.Signal

	points  int32 // such calls so far
	sent    int32
	stopped int32 // it would be, but goes on until continued
	what    string

	inCall map[int]bool
}

// change tells whether a system call changes the terminal, on its entry.
func (tr *tracer) change(pid int, regs *syscall.PtraceRegs) string {
	fd := regs.Rdi
	if fd > 1 {
		return ""
	}
	switch regs.Orig_rax {
	case syscall.SYS_IOCTL:
		if r := regs.Rsi & 0xffffffff; r >= syscall.TCSETS && r <= syscall.TCSETS+2 {
			return fmt.Sprintf("ioctl(%d, TCSETS)", fd)
		}
	case syscall.SYS_FCNTL:
		if regs.Rsi == syscall.F_SETFL {
			return fmt.Sprintf("fcntl(%d, F_SETFL, %#x)", fd, regs.Rdx)
		}
	case syscall.SYS_WRITE:
		n := int(regs.Rdx)
		if n > 200 {
			n = 200 // a frame
		}
		b := make([]byte, n)
		if f, err := os.Open(fmt.Sprintf("/proc/%d/mem", pid)); err == nil {
			k, _ := f.ReadAt(b, int64(regs.Rsi))
			f.Close()
			if strings.Contains(string(b[:k]), "\x1b[?") {
				return fmt.Sprintf("write(%d, %q)", fd, b[:k])
			}
		}
	}
	return ""
}

// follow is to be called by the thread that started pid; it returns how that
// ended.
func (tr *tracer) follow(pid int) string {
	tr.inCall = map[int]bool{}
	hit := map[int]bool{} // at the point, by thread
	first := true
	for {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL|0x20000000 /* __WNOTHREAD */, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return "wait: " + err.Error()
		}
		switch {
		case ws.Exited() || ws.Signaled():
			if tid != pid {
				continue
			}
			if ws.Signaled() {
				return "signal: " + ws.Signal().String()
			}
			return fmt.Sprintf("exit status %d", ws.ExitStatus())
		case !ws.Stopped():
			continue
		}
		deliver := 0
		switch sig := ws.StopSignal(); {
		case first:
			first = false
			syscall.PtraceSetOptions(tid, syscall.PTRACE_O_TRACECLONE|syscall.PTRACE_O_TRACESYSGOOD|0x100000 /* PTRACE_O_EXITKILL */)
		case sig == syscall.SIGTRAP|0x80:
			tr.inCall[tid] = !tr.inCall[tid]
			if tr.inCall[tid] {
				var regs syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &regs) == nil {
					if what := tr.change(pid, &regs); what != "" {
						if n := atomic.AddInt32(&tr.points, 1); int(n) == tr.at {
							tr.what = what
							hit[tid] = true
							if tr.entry {
								tr.send(pid, tid)
							}
						}
					}
				}
			} else if hit[tid] {
				hit[tid] = false
				if !tr.entry {
					tr.send(pid, tid)
				}
			}
		case sig == syscall.SIGTRAP: // a new thread
		case sig == syscall.SIGSTOP: // of a new thread
		case sig == syscall.SIGTSTP:
			atomic.AddInt32(&tr.stopped, 1)
		default:
			deliver = int(sig)
		}
		syscall.PtraceSyscall(tid, deliver)
	}
}

func (tr *tracer) send(pid, tid int) {
	atomic.StoreInt32(&tr.sent, 1)
	syscall.Syscall(234 /* tgkill */, uintptr(pid), uintptr(tid), uintptr(tr.sig))
}
