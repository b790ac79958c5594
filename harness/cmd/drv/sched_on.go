//go:build sched

package main

import (
	"gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/ipv6"
)

func installPoints(f func()) bool {
	ipv4.VerifSchedHook_, ipv6.VerifSchedHook_ = f, f
	return true
}
