package main

func realComponents(prop string) []string {
	r := []string{"package algorithm", "package algorithm/evaluator", "package fitness", "package triangulation/incrdelaunay", "package rasterize", "package geom",
		"package normgeom", "package mutation", "package random", "package generator", "goroutine pool ants v2 (its source, instrumented)", "go-pcgr (its source)"}
	switch prop {
	case "C14":
		r = []string{"package triangulation/incrdelaunay"}
	case "C15", "C16":
		r = []string{"package utils", "bufio", "encoding/json"}
	case "C25":
		r = []string{"package generator", "package normgeom"}
	case "C27":
		r = append(r, "package render", "package polygonation", "package triangulation", "package image", "fogleman/delaunay (not instrumented: runs without preemption)")
	case "C31":
		r = append(r, "package image")
	case "C32":
		r = append(r, "package render", "package polygonation", "package triangulation", "package image", "package color", "fogleman/delaunay (not instrumented: runs without preemption)")
	case "C28":
		r = append(r, "package utils", "package image")
	case "C17", "C18":
		r = append(r, "package utils", "bufio")
	}
	return r
}

func stubComponents(prop string) []string {
	s := []string{"goroutine scheduling (real goroutines, one at a time, chosen by the simulator)", "sync and sync/atomic (simulated primitives)", "channel blocking", "clocks, timers and sleeping", "math/rand (real generator behind extreme-value injection)"}
	switch prop {
	case "C15", "C16":
		s = append(s, "the file system (in-memory disk with page cache, durable state and faults)", "the algorithm (scripted)", "terminal, log and process exit")
	case "C17":
		s = append(s, "the file system", "the CPU profiler and the execution tracer (recorders producing known bytes)", "process exit")
	}
	return s
}
