//go:build !race

package main

// Without the race detector only the results of concurrent calls are compared.
const raceDetector = false

func raceErrors() int { return 0 }
