package sched

// getg identifies the running goroutine among live ones.
func getg() uintptr
