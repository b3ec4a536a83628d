// Conformance driver for the provider administration library.
package main

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/adminkit"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/fcrprovideradmin"
)

func main() {
	adminkit.Main(func(w *adminkit.World) func(w *adminkit.World, a *adminkit.Ask) (error, [][]int) {
		b := fcrprovideradmin.CreateSettings()
		b.SetLogging("fatal", "STDOUT", "verif")
		bc, err := fcrcrypto.GenerateBlockchainKeyPair()
		if err != nil {
			panic(err)
		}
		b.SetBlockchainPrivateKey(bc)
		b.SetProviderAdminPrivateKey(w.Admin.KP, w.AdminVer)
		lib := fcrprovideradmin.NewFilecoinRetrievalProviderAdmin(*b.Build())
		return func(w *adminkit.World, a *adminkit.Ask) (error, [][]int) {
			r := w.Register(a)
			reg := register.NewProviderRegister(r.ID, "addr", r.Root, r.Key, "AU", r.Trap, r.Trap, r.Admin)
			none := [][]int{}
			switch a.Kind {
			case "init1":
				return lib.InitialiseProvider(reg, w.Key(a, 0, 0), w.Ver(a, 0, 1)), none
			case "init2":
				return lib.InitialiseProviderV2(reg, w.Key(a, 0, 0), w.Ver(a, 0, 1), w.Word(a, 1, 0), w.Word(a, 1, 1), w.Word(a, 1, 2)), none
			case "force":
				return lib.ForceUpdate(w.ID(a)), none
			case "pubg":
				return lib.PublishGroupCID(w.ID(a), w.CIDs(a, 0), w.Nums(a, 1)[0], w.Times(a, 2)[0], w.Nums(a, 3)[0]), none
			case "pubd":
				return lib.PublishDHTCID(w.ID(a), w.CIDs(a, 0), w.Nums(a, 1), w.Times(a, 2), w.Nums(a, 3)), none
			case "getp":
				found, offers, err := lib.GetGroupCIDOffer(w.ID(a), w.Peers(a, 0))
				f := 0
				if found {
					f = 1
				}
				return err, [][]int{{f}, w.OffersOf(offers)}
			}
			panic(a.Kind)
		}
	})
}
