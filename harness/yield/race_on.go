//go:build race

package yield

// a counter would order the goroutines and hide races between them
const counting = false
