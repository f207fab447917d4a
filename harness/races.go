package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	"verifsim/vsim"
)

var (
	racesSeen int
	raceLogAt int64
)

// racesReported says whether the race detector has reported races since the last call. Races
// between two accesses of the worker pool's own code are not the program's: rebooting the pool,
// which is a fault the simulator injects, races with the pool's housekeeping.
func racesReported() bool {
	n := vsim.RaceErrors()
	if n == racesSeen {
		return false
	}
	racesSeen = n
	text := raceLog()
	reports := strings.Split(text, "WARNING: DATA RACE")[1:]
	for _, r := range reports {
		if !poolsOwn(r) {
			return true
		}
	}
	return len(reports) == 0
}

// raceLog is what has been added to the race detector's log.
func raceLog() string {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if path, ok := strings.CutPrefix(o, "log_path="); ok {
			f, err := os.Open(fmt.Sprintf("%s.%d", path, os.Getpid()))
			if err != nil {
				return ""
			}
			defer f.Close()
			f.Seek(raceLogAt, 0)
			b, _ := io.ReadAll(f)
			raceLogAt += int64(len(b))
			return string(b)
		}
	}
	return ""
}

// poolsOwn says whether the accesses of a report, as far as their stacks are known, happen in the worker pool.
func poolsOwn(report string) bool {
	accesses, pool, program := 0, 0, false
	for _, block := range strings.Split(report, "\n\n") {
		head, _, _ := strings.Cut(strings.TrimSpace(block), "\n")
		if !strings.Contains(head, " at 0x") {
			continue
		}
		if strings.Contains(block, "failed to restore") {
			continue
		}
		accesses++
		if strings.Contains(block, "panjf2000/ants") {
			pool++
		}
		if strings.Contains(block, "RH12503/Triangula") {
			program = true
		}
	}
	return accesses > 0 && pool == accesses && !program
}
