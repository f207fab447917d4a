// vtool instruments Go modules for the simulator.
//
//	vtool alias SHIMDIR           regenerate the shims' alias files
//	vtool instrument LEVEL DIR... rewrite the modules in place (scratch copies)
package main

import (
	"fmt"
	"os"
	"strconv"
)

func main() {
	var err error
	switch {
	case len(os.Args) == 3 && os.Args[1] == "alias":
		err = genAliases(os.Args[2])
	case len(os.Args) >= 4 && os.Args[1] == "instrument":
		var level int
		if level, err = strconv.Atoi(os.Args[2]); err == nil {
			err = instrument(level, os.Args[3:])
		}
	default:
		err = fmt.Errorf("usage: vtool alias SHIMDIR | vtool instrument LEVEL DIR...")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vtool:", err)
		os.Exit(2)
	}
}
