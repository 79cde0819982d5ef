//go:build !race

package vrt

import "unsafe"

const RaceEnabled = false

func raceOff()                 {}
func raceOn()                  {}
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
func RaceErrors() int          { return 0 }
