//go:build race

package main

import "runtime"

// The explorer was built with Go's race detector.
const raceDetector = true

func raceErrors() int { return runtime.RaceErrors() }
