// Package vos replaces os.File for descriptors of the kernel model.
package vos

import (
	"os"

	"gevmc/vkern"
	"gevmc/vs"
)

// File is a duplicate of a listener's descriptor.
type File struct {
	fd     int
	name   string
	closed bool
}

func NewFile(fd uintptr, name string) *File { return &File{fd: int(fd), name: name} }

// Fd returns the descriptor; like os.File.Fd it leaves the description in
// blocking mode.
func (f *File) Fd() uintptr {
	if f == nil || f.closed {
		return ^uintptr(0)
	}
	vkern.SetNonblockQuiet(f.fd, false)
	return uintptr(f.fd)
}

func (f *File) Name() string { return f.name }

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	if e := vkern.Close(f.fd); e != 0 {
		return e
	}
	return nil
}

// ExitCode is set by Exit.
type ExitCode int

// Exit ends the calling goroutine with an ExitCode panic.
func Exit(code int) {
	vs.Tracef("os.Exit(%d)", code)
	panic(ExitCode(code))
}
