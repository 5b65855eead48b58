// vsim builds the deterministic simulator against the working tree of /repo and
// runs the checks.
//
//	vsim setup                   build only
//	vsim check PROPERTY TIER     search for violations of a property
//	vsim replay FILE [trace]     execute a replay file
//	vsim gen PROPERTY SEED       print the plan of a seed
package main

import (
	"fmt"
	"os"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Println("usage: vsim setup|check|replay|gen")
		os.Exit(2)
	}
	switch {
	case a[0] == "setup" || a[0] == "build":
		out, err := buildHarness(false)
		if err == nil && (a[0] == "setup" || len(a) > 1 && a[1] == "race") {
			out, err = buildHarness(true)
		}
		fmt.Println(out, err)
		if err != nil {
			os.Exit(2)
		}
	case a[0] == "check" && len(a) == 3:
		os.Exit(cmdCheck(a[1], a[2]))
	case a[0] == "replay" && len(a) >= 2:
		os.Exit(cmdReplay(a[1], len(a) > 2))
	case a[0] == "gen" && len(a) == 3:
		os.Exit(cmdGen(a[1], a[2]))
	default:
		os.Exit(2)
	}
}
