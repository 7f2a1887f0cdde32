//go:build !race

package rt

func raceOff() {}
func raceOn()  {}

func RaceErrors() int { return 0 }

const RaceBuild = false
