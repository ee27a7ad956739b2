package main

import (
	"os"
	"runtime/pprof"
)

func startProf(fn string) func() {
	f, _ := os.Create(fn)
	pprof.StartCPUProfile(f)
	return pprof.StopCPUProfile
}
