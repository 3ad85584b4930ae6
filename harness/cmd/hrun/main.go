package main

import (
	"os"

	"verifharness/checks"
	"verifharness/runner"
)

func main() {
	switch {
	case os.Getenv("VERIF_ASK") != "":
		checks.Answer()
	case os.Getenv("VERIF_SERVED") != "":
		checks.Served()
	}
	runner.Main()
}
