package os

import (
	dstrt "archive"
	"io"
	"syscall"
)

// DSTProcessState describes a simulated command that ended with the given code.
func DSTProcessState(code int) *ProcessState {
	return &ProcessState{pid: 4711, status: syscall.WaitStatus(code << 8)}
}

// dstStd tells whether f is the standard output or standard error of a simulated process. All of them share the
// variables of package os, so what is written goes past the lock of the file: a process that is killed while it
// writes must not keep the lock for the others.
func dstStd(f *File) bool {
	return dstrt.SyscallHook != nil && dstrt.Proc() != 0 && (f == Stdout || f == Stderr)
}

func dstStdWrite(f *File, b []byte) (n int, err error) {
	for n < len(b) {
		m, err := syscall.Write(f.pfd.Sysfd, b[n:])
		if m > 0 {
			n += m
		}
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.EPIPE && dstrt.ExitHook != nil {
			dstrt.ExitHook(128 + int(syscall.SIGPIPE))
		}
		if err != nil {
			return n, err
		}
		if m == 0 {
			return n, io.ErrUnexpectedEOF
		}
	}
	return n, nil
}
