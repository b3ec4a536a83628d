// Conformance driver for the gateway administration library.
package main

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/adminkit"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"
)

func main() {
	adminkit.Main(func(w *adminkit.World) func(w *adminkit.World, a *adminkit.Ask) (error, [][]int) {
		b := fcrgatewayadmin.CreateSettings()
		b.SetLogging("fatal", "STDOUT", "verif")
		bc, err := fcrcrypto.GenerateBlockchainKeyPair()
		if err != nil {
			panic(err)
		}
		b.SetBlockchainPrivateKey(bc)
		b.SetGatewayAdminPrivateKey(w.Admin.KP, w.AdminVer)
		lib := fcrgatewayadmin.NewFilecoinRetrievalGatewayAdmin(*b.Build())
		return func(w *adminkit.World, a *adminkit.Ask) (error, [][]int) {
			r := w.Register(a)
			reg := register.NewGatewayRegister(r.ID, "addr", r.Root, r.Key, "AU", r.Trap, r.Trap, r.Trap, r.Admin)
			none := [][]int{}
			switch a.Kind {
			case "init1":
				return lib.InitialiseGateway(reg, w.Key(a, 0, 0), w.Ver(a, 0, 1)), none
			case "init2":
				return lib.InitialiseGatewayV2(reg, w.Key(a, 0, 0), w.Ver(a, 0, 1), w.Word(a, 1, 0), w.Word(a, 1, 1), w.Word(a, 1, 2)), none
			case "force":
				return lib.ForceUpdate(w.ID(a)), none
			case "list":
				return lib.ListDHTOffer(w.ID(a)), none
			case "grp":
				return lib.UpdateGatewaySupportedFeatures(reg, w.Peers(a, 0)), none
			case "getrep":
				v, err := lib.AdminApiCaller.RequestGetReputation(reg, &w.Peers(a, 0)[0], w.Admin.KP, w.AdminVer)
				return err, [][]int{{w.RepOf(v)}}
			case "setrep":
				c := w.Peers(&adminkit.Ask{A: [][]int{a.A[0][:1]}}, 0)
				ok, err := lib.AdminApiCaller.RequestSetReputation(reg, &c[0], w.Rep(a, 0, 1), w.Admin.KP, w.AdminVer)
				if ok {
					return err, [][]int{{1}}
				}
				return err, [][]int{{0}}
			}
			panic(a.Kind)
		}
	})
}
