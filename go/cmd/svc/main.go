// Command svc runs the check over the WebAssembly key service.
package main

import (
	service "github.com/ndau/ndaumath/cmd/keyaddr"
	"github.com/ndau/ndaumath/simall/sites"
	simall "github.com/ndau/ndaumath/simall/svc"
	"verif/core"
	"verif/svc"
)

func main() {
	(&core.Main{Checks: svc.Checks(simall.Reinit, service.SimMain__), Reinit: simall.Reinit, Sites: sites.Names}).Main()
}
