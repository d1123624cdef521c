// Command hd runs the checks over the packages that build offline.
package main

import (
	simall "github.com/ndau/ndaumath/simall/hd"
	"github.com/ndau/ndaumath/simall/sites"
	"verif/core"
	"verif/hd"
)

func main() {
	(&core.Main{Checks: hd.Checks(simall.Reinit), Reinit: simall.Reinit, Sites: sites.Names}).Main()
}
