package main

import (
	"os"

	"github.com/google/licensecheck/verif/eng"
)

var checks []*eng.Check

func reg(c *eng.Check) { checks = append(checks, c) }

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-firstuse" {
		firstUseMain(os.Args[2])
		return
	}
	eng.Main(checks)
}
