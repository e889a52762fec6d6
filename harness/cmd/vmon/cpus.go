package main

import (
	"math/bits"
	"syscall"
	"unsafe"
)

type cpuSet [16]uint64

// limitCPUs lets the calling thread, and processes started by it, run on n of
// the available CPUs only (0: on all); the returned function undoes that.
func limitCPUs(n, offset int) func() {
	var all, some cpuSet
	nop := func() {}
	if n <= 0 {
		return nop
	}
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, unsafe.Sizeof(all), uintptr(unsafe.Pointer(&all))); e != 0 {
		return nop
	}
	var ids []int
	for w, v := range all {
		for ; v != 0; v &= v - 1 {
			ids = append(ids, w*64+bits.TrailingZeros64(v))
		}
	}
	if n >= len(ids) {
		return nop
	}
	for i := 0; i < n; i++ {
		id := ids[(offset+i)%len(ids)]
		some[id/64] |= 1 << (id % 64)
	}
	set := func(s *cpuSet) {
		syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(*s), uintptr(unsafe.Pointer(s)))
	}
	set(&some)
	return func() { set(&all) }
}
