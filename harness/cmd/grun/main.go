// grun is hrun with the checks that need graphviz.
package main

import (
	_ "verifharness/graphcheck"
	"verifharness/runner"
)

func main() { runner.Main() }
