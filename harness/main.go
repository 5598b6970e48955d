// Command vp runs the property checks (see /verif/DESIGN.md).
package main

import (
	"fmt"
	"os"

	_ "verifharness/props"
	"verifharness/run"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vp check|worker|replay|ids ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(run.Check(os.Args[2:]))
	case "worker":
		os.Exit(run.Worker(os.Args[2:]))
	case "index":
		os.Exit(run.Index(os.Args[2:]))
	case "replay":
		os.Exit(run.Replay(os.Args[2]))
	case "ids":
		for _, id := range run.IDs() {
			p := run.Lookup(id)
			fmt.Println(id, p.Race)
		}
	default:
		os.Exit(2)
	}
}
