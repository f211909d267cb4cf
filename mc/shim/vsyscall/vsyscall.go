// Package vsyscall replaces the calls of package syscall that gev may make.
package vsyscall

import (
	"syscall"

	"gevmc/shim/vunix"
)

func Read(fd int, p []byte) (int, error)         { return vunix.Read(fd, p) }
func Write(fd int, p []byte) (int, error)        { return vunix.Write(fd, p) }
func Close(fd int) error                         { return vunix.Close(fd) }
func SetNonblock(fd int, nonblocking bool) error { return vunix.SetNonblock(fd, nonblocking) }
func Shutdown(fd, how int) error                 { return vunix.Shutdown(fd, how) }
func Dup(fd int) (int, error)                    { return vunix.Dup(fd) }
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return vunix.Syscall(trap, a1, a2, a3)
}
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return vunix.Syscall(trap, a1, a2, a3)
}
