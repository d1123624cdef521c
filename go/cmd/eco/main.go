// Command eco runs the checks over amounts, ages, rates and prices.
package main

import (
	simall "github.com/ndau/ndaumath/simall/eco"
	"github.com/ndau/ndaumath/simall/sites"
	"verif/core"
	"verif/eco"
)

func main() {
	(&core.Main{Checks: eco.Checks(simall.Reinit), Reinit: simall.Reinit, Sites: sites.Names}).Main()
}
