// simctl builds the simulator from the working tree of the repository, runs a
// property's seeds over parallel workers, minimises what fails and writes the
// evidence.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(check(os.Args[2]))
	case "replay":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(replayCmd(os.Args[2]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	case "build": // leaves the build directory for inspection
		b, err := newBuild()
		if err == nil {
			err = b.compile(false)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fmt.Println(b.dir)
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: simctl check PROP | replay FILE | selftest [PROP...] | build")
	os.Exit(2)
}
