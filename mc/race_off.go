//go:build !race

package main

const raceEnabled = false

func raceDisable() {}
func raceEnable()  {}
