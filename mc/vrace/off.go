//go:build !race

// Package vrace exposes the race detector's annotation hooks (no-ops without -race).
package vrace

import "unsafe"

const Enabled = false

func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func Disable()                      {}
func Enable()                       {}
func Errors() int                   { return 0 }
