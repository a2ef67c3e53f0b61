// Command gosym checks properties of gosu-pp by symbolic execution of its Go
// SSA form: see /verif/DESIGN.md.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check ID | run ... | gen | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "run":
		os.Exit(runOne(os.Args[2:]))
	case "gen":
		os.Exit(gen())
	case "list":
		os.Exit(list())
	}
	os.Exit(2)
}
