//go:build !race

package simrt

const Race = false

func raceDisable()         {}
func raceEnable()          {}
func RaceErrors() int      { return 0 }
func Acquire(p *byte)      {}
func Release(p *byte)      {}
func ReleaseMerge(p *byte) {}
