//go:build !race

package yield

const counting = true
