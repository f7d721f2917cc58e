//go:build !race

package main

func hideSync()      {}
func showSync()      {}
func raceCount() int { return 0 }

const raceBuild = false
