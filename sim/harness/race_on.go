//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

// raceSeen is how much of the log was looked at before.
var raceSeen int

// raceNew returns the reports written since the last call.
func raceNew() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(kv, "log_path="); ok {
			b, _ := os.ReadFile(fmt.Sprint(p, ".", os.Getpid()))
			s := string(b[min(raceSeen, len(b)):])
			raceSeen = len(b)
			return s
		}
	}
	return ""
}

// raceInCode returns the first new report in which one of the accesses is made
// by the code under test, or by the standard library on its behalf.
func raceInCode() string {
	for _, rep := range strings.Split(raceNew(), "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		access := false // inside the stack of an access, owner not yet known
		for _, l := range strings.Split(rep, "\n") {
			switch {
			case strings.Contains(l, " at 0x") && strings.Contains(l, " by "):
				access = true
			case strings.HasPrefix(l, "Goroutine "):
				access = false
			case !access:
			case strings.HasPrefix(l, "  main.") || strings.HasPrefix(l, "  bibsim/"):
				access = false
			case strings.HasPrefix(l, "  github.com/jschaf/bibtex"):
				return clip(rep, 6000)
			}
		}
	}
	return ""
}
