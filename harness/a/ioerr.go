package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"verif/sim"
)

// ioErr makes an error a transport can fail with, distinct from every other
// and of one of the kinds that connections produce. It never is an end of file.
func ioErr(t *T, op string, i any) error {
	plain := fmt.Errorf("%s error %v", op, i)
	if t.Src.Chance(0.4) {
		return plain
	}
	sys := func(e syscall.Errno) error {
		return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError(op, e)}
	}
	switch t.Src.Intn(12) {
	case 0:
		return fmt.Errorf("%w: %s %v", sim.ErrInjected, op, i)
	case 1:
		return sys(syscall.ECONNRESET)
	case 2:
		return sys(syscall.EPIPE)
	case 3:
		return sys(syscall.EINTR)
	case 4:
		return sys(syscall.EAGAIN)
	case 5:
		return sys(syscall.ETIMEDOUT)
	case 6:
		return sys(syscall.ENOBUFS)
	case 7:
		return &net.OpError{Op: op, Net: "tcp", Err: os.ErrDeadlineExceeded}
	case 8:
		return &net.OpError{Op: op, Net: "tcp", Err: net.ErrClosed}
	case 9:
		return fmt.Errorf("%w: %s %v", io.ErrClosedPipe, op, i)
	case 10:
		return fmt.Errorf("%w: %s %v", io.ErrNoProgress, op, i)
	case 11:
		return &net.OpError{Op: op, Net: "tcp", Err: plain}
	}
	return plain
}

// isOne reports whether e is, or wraps, one of the errors marked.
func isOne(e error, marked map[error]bool) bool {
	for m := range marked {
		if errors.Is(e, m) {
			return true
		}
	}
	return false
}
