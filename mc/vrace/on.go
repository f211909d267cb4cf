//go:build race

// Package vrace exposes the race detector's annotation hooks (no-ops without -race).
package vrace

import (
	"runtime"
	"unsafe"
)

const Enabled = true

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func Disable()                      { runtime.RaceDisable() }
func Enable()                       { runtime.RaceEnable() }
func Errors() int                   { return runtime.RaceErrors() }
