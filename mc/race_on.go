//go:build race

package main

import "runtime"

// The scheduler's own synchronization is hidden from the race detector, so that two threads are as
// unordered to it as they are in a program, however the schedule orders them.
func hideSync() { runtime.RaceDisable() }
func showSync() { runtime.RaceEnable() }

func raceCount() int { return runtime.RaceErrors() }

const raceBuild = true
