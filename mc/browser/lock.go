package browser

import "runtime"

// lock keeps the goroutine on its thread, which lives as long as it.
func lock() { runtime.LockOSThread() }
