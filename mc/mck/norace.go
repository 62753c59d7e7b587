//go:build !race

package mck

// RaceDetector says whether the race detector is on.
const RaceDetector = false

func raceReport() string { return "" }
