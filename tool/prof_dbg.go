package main

import (
	"os"
	"runtime/pprof"
)

func init() {
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		stopProf = func() { pprof.StopCPUProfile(); w.Close() }
	}
}

var stopProf = func() {}
