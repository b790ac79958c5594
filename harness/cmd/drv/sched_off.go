//go:build !sched

package main

// without the overlay of cmd/instr there are no scheduling points
func installPoints(func()) bool { return false }
