// simcheck decides the properties of hedzr/store by seeded simulation.
package main

import (
	"verif/sim/core"
	_ "verif/sim/scen"
)

func main() { core.Main() }
