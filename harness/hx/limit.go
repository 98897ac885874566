package hx

import (
	"os/signal"
	"syscall"
)

// FullDisk runs fn while no file of this process may grow beyond n bytes:
// further writes fail, as they do on a full disk.
func FullDisk(n int, fn func() error) error {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
		panic(err)
	}
	return fn()
}
