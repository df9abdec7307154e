//go:build !amd64

package sched

import (
	"runtime"
	"strconv"
	"strings"
)

func getg() uintptr {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	n, _ := strconv.ParseUint(f[1], 10, 64)
	return uintptr(n)
}
