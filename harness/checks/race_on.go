//go:build race

package checks

const raceEnabled = true
