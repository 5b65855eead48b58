package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

// Reports of the race detector. It writes them to a file; each pair of stacks is
// reported once per process.

var raceLogAt int

// newRaces gives short descriptions of the data races reported since the last call.
func newRaces(before int) []string {
	if runtime.DetRaceErrors() == before {
		return nil
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VSIM_RACELOG"), os.Getpid()))
	s := ""
	if raceLogAt < len(b) {
		s = string(b[raceLogAt:])
	}
	raceLogAt = len(b)
	var out []string
	for _, rep := range strings.Split(s, "WARNING: DATA RACE")[min(1, strings.Count(s, "WARNING: DATA RACE")):] {
		var parts []string
		harness := 0     // accesses of the harness itself
		restart := false // or not known
		for _, sec := range strings.Split(rep, "\n\n") {
			lines := strings.Split(strings.TrimSpace(sec), "\n")
			head := lines[0]
			if !strings.Contains(head, " at 0x") {
				continue
			}
			kind, _, _ := strings.Cut(head, " at 0x")
			var fs []string
			ours := false // an access of the harness itself
			by := false   // an access on behalf of the code under test
			for i := 1; i+1 < len(lines); i += 2 {
				f := strings.TrimSpace(lines[i])
				if k := strings.LastIndex(f, "("); k > 0 {
					f = f[:k]
				}
				restart = restart || f == "main.(*World).reinit" || strings.HasSuffix(f, ".VerifReinit") || strings.Contains(f, ".verifVars")
				if strings.HasPrefix(f, "main.") {
					ours = ours || !by
					continue
				}
				by = by || foreign(f)
				if !strings.HasPrefix(f, "runtime.") && len(fs) < 5 {
					fs = append(fs, f)
				}
			}
			if ours {
				harness++
			} else if len(fs) == 0 { // no stack
				restart = true
			}
			parts = append(parts, kind+" in "+strings.Join(fs, " < "))
		}
		if len(parts) != 2 || harness == 2 || restart {
			continue
		}
		out = append(out, strings.Join(parts, " and "))
	}
	return dedupe(out)
}

// foreign tells whether a function belongs to the code under test or to one of its
// dependencies.
func foreign(f string) bool {
	host, _, ok := strings.Cut(f, "/")
	return ok && strings.Contains(host, ".") && !strings.Contains(f, "/vendor/")
}

// detach copies what goes from one goroutine to another through the simulated network or
// cache, as the real ones do.
//
//go:norace
func detach(s string) string { return string(detachBytes([]byte(s))) }

//go:norace
func detachBytes(b []byte) []byte {
	c := make([]byte, len(b))
	for i := range b {
		c[i] = b[i]
	}
	return c
}
