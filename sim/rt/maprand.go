//go:build verifmaprand

package rt

import _ "unsafe"

// Set by the overlay of runtime/rand.go: while it is non-zero, map iteration
// order is a pure function of it.
//
//go:linkname mapState runtime.verifMapState
var mapState uint64

//go:norace
func setMapState(x uint64) { mapState = x }

const MapRandControlled = true
