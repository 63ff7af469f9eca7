package checks

import (
	"fmt"
	"os"
)

var debug = os.Getenv("SQV_DEBUG") != ""

func debugf(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

// debugCmd limits a run to some commands while developing.
func debugCmd(c string) bool {
	o := os.Getenv("SQV_CMD")
	return o == "" || o == c
}
