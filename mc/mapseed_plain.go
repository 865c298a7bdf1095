//go:build !maporder

package main

// Without the runtime overlay the iteration order of maps is the run time's.
const mapOrderControlled = false

func setMapSeed(s uint64) {}
