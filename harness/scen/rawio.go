package scen

import (
	"syscall"
	"unsafe"
)

func rawWrite(fd int, b []byte) {
	for len(b) > 0 {
		n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR || e == syscall.EAGAIN {
			continue
		}
		if e != 0 {
			return
		}
		b = b[n:]
	}
}
