//go:build maporder

package main

import "runtime"

// With the runtime overlay in place every map iteration starts where the
// harness says (the low bits of the seed select the first bucket and slot).
const mapOrderControlled = true

func setMapSeed(s uint64) {
	runtime.VerifMapSeedOn = true
	runtime.VerifMapSeed = uintptr(s)
}
