//go:build !race

package sigverif

const raceMode = false

func raceOff()                        {}
func raceOn()                         {}
func quickRand(n uint64) uint64       { return 0 }
func newRaces() []string              { return nil }
func judgeRace(string) (string, bool) { return "", false }
func touch([]byte) byte               { return 0 }
func fill([]byte)                     {}
