//go:build !race

package vsched

func raceOff() {}
func raceOn()  {}
