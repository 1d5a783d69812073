// Command veriftool builds the simulator from the tree under test, runs
// seeded searches with it, minimises and replays what they find, and writes
// the evidence files.
package main

import (
	"fmt"
	"os"
	"path/filepath"
)

func main() {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	verif, _ = filepath.Abs(verif)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check ID quick|thorough | --replay FILE | --determinism ID")
		os.Exit(2)
	}
	env, err := newEnv(verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	func() {
		defer func() {
			if os.Getenv("VERIF_KEEP") == "" {
				os.RemoveAll(env.dir)
			} else {
				fmt.Println("scratch kept:", env.dir)
			}
		}()
		switch os.Args[1] {
		case "--replay":
			code = replayMain(env, os.Args[2])
		case "--determinism":
			code = determinismMain(env, os.Args[2])
		default:
			code = checkMain(env, os.Args[1], os.Args[2])
		}
	}()
	os.Exit(code)
}
