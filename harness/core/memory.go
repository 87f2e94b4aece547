package core

import (
	"fmt"
	"runtime/metrics"
	"syscall"
	"time"
	"unsafe"
)

// Memory beyond which code is taken to be out of control. No case needs a
// fifth of it.
const (
	memChild = 3 << 30
	memTool  = 8 << 30 // address space

	openFiles = 400 // of a server; they need a fraction of it
)

// watchMemory ends this process when the code that it runs takes too much
// memory, rather than leave that to the system, which may end another one.
func watchMemory() {
	limit := uint64(memChild)
	if *fTier == "thorough" {
		limit *= 3
	}
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	for range time.Tick(100 * time.Millisecond) {
		metrics.Read(s)
		if s[0].Value.Uint64()+s[1].Value.Uint64() > limit {
			panic(fmt.Sprintf("the code takes more than %d MB of memory", limit>>20))
		}
	}
}

// LimitFiles bounds the number of files and connections that a process just
// started may have open at a time.
func LimitFiles(pid int) {
	lim := [2]uint64{openFiles, openFiles}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), 7 /* RLIMIT_NOFILE */, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
}

// LimitMemory bounds the memory of a process just started.
func LimitMemory(pid int) {
	lim := [2]uint64{memTool, memTool}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), 9 /* RLIMIT_AS */, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
}
