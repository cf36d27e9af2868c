package main

import (
	"os"
	"runtime/pprof"
)

// startProfile writes a CPU profile when VERIF_PROF names a file.
func startProfile() func() {
	p := os.Getenv("VERIF_PROF")
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}
