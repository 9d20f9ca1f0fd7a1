// The driver builds the simulation from the current tree of the repository,
// searches seeds for a violation of one property, confirms and shrinks what it
// finds, and writes the evidence.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

const (
	exitHeld      = 0
	exitViolation = 1
	exitNoAnswer  = 2
)

func verifDir() string {
	if d := os.Getenv("VERIF_SIM_ROOT"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		for d := filepath.Dir(exe); d != "/"; d = filepath.Dir(d) {
			if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
				return d
			}
		}
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_SIM_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func seedEnv() uint64 {
	if n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return n
	}
	return 1
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	os.Exit(exitNoAnswer)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: driver check ID [quick|thorough] | replay FILE | build | selftest")
	}
	switch os.Args[1] {
	case "build":
		b, err := NewBuild(verifDir(), repoDir(), "full")
		if err != nil {
			fatal("%v", err)
		}
		fmt.Println(b.Dir, b.Stats)
		fmt.Println(b.Harness(false))
	case "check":
		if len(os.Args) < 3 {
			fatal("which property?")
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier, seedEnv()))
	case "replay":
		if len(os.Args) < 3 {
			fatal("which file?")
		}
		os.Exit(replay(os.Args[2]))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}
