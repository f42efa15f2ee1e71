package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(24 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	}
	os.Exit(2)
}
