//go:build !verifmaprand

package rt

func setMapState(x uint64) {}

const MapRandControlled = false
