// Command run holds the checks that execute generated code and the runtime
// library.
package main

import (
	"fmt"
	"os"

	"mc/rep"
)

var checks = map[string]func(*rep.R){}
var levels = map[string]string{}

func main() {
	id := os.Args[1]
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		os.Exit(2)
	}
	lvl := levels[id]
	if lvl == "" {
		lvl = "model_checking"
	}
	r := rep.New(id, lvl)
	f(r)
	r.Done()
}
