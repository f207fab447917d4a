package vsim

import "unsafe"

// SimCPUs is the processor count the simulated program sees.
var SimCPUs = 4

// WorldSeed seeds the simulated program's own global random sources.
var WorldSeed uint64

// LiveTasks is the number of goroutines that have not ended.
//
//go:norace
func LiveTasks() int {
	n := 0
	for i := 0; i < nTasks; i++ {
		if tasks[i].state != stDone {
			n++
		}
	}
	return n
}

// TrySend puts v into a buffered channel if there is room.
//
//go:norace
func TrySend[T any](ch chan T, v T) {
	if trySend((chan<- T)(ch), v) {
		if p := ptrOf(ch); p != nil {
			stateOf(p).recvq.wakeOne()
		}
	}
}

// PendingTimers is the number of armed timers and tickers.
//
//go:norace
func PendingTimers() int {
	n := 0
	for t := timers; t != nil; t = t.next {
		n++
	}
	return n
}

// OwnBytes is the memory the simulator has used for the tasks and channels of the current run.
func OwnBytes() int64 {
	return chanBytes + planBytes + int64(nTasks)*(int64(unsafe.Sizeof(Task{}))+160)
}
