package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		return func() { pprof.StopCPUProfile(); w.Close() }
	}
	return func() {}
}

var debugV = os.Getenv("VDEBUG") != ""
