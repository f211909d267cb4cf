// Package spinlock: the lock of toolkit, blocking under the controlled scheduler.
package spinlock

import "gevmc/shim/vsync"

type SpinLock struct{ mu vsync.Mutex }

func (l *SpinLock) Lock()   { l.mu.Lock() }
func (l *SpinLock) Unlock() { l.mu.Unlock() }
