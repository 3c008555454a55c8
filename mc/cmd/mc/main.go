// Command mc runs one bounded model checker.
package main

import (
	_ "verif.local/mc/checks"
	"verif.local/mc/h"
)

func main() { h.Main() }
