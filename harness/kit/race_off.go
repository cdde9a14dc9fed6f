//go:build !race

package kit

// Race reports whether the race detector is on.
const Race = false
