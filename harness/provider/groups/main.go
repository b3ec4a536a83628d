// Conformance driver for the provider's list of gateways that support group
// offers: the core and the handler of the notices in this process, the
// gateways outside a TCP connection away.
package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/nodekit"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
	"github.com/ConsenSys/fc-retrieval/provider/internal/api/gatewayapi"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
	"github.com/ConsenSys/fc-retrieval/provider/internal/util/settings"
)

var (
	port int
	keys []nodekit.Key
)

func setup() {
	core.GetSingleInstance(&settings.AppSettings{TCPInactivityTimeout: 20 * time.Second, TCPLongInactivityTimeout: 20 * time.Second})
	c := core.GetSingleInstance()
	p, hold := nodekit.Ports(1)
	port = p
	_ = hold
	c.P2PServer = fcrp2pserver.NewFCRP2PServer([]string{fmt.Sprint(port)}, nil, 20*time.Second)
	c.P2PServer.AddHandler(fmt.Sprint(port), fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, gatewayapi.HandleGatewayNotifyProviderGroupCIDOfferSupportRequest)
	if err := c.P2PServer.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "server: "+err.Error())
		os.Exit(4)
	}
	for i := 0; i < 10; i++ {
		keys = append(keys, nodekit.NewKey())
	}
	k := nodekit.NewKey()
	c.ProviderPrivateKey, c.ProviderPrivateKeyVersion = k.KP, fcrcrypto.InitialKeyVersion()
}

func main() {
	var once sync.Once
	vt.Main(func(s *vt.Script, t *vt.Trace) {
		once.Do(func() {
			os.Stdout.Sync()
			setup()
		})
		c := core.GetSingleInstance()
		rng := rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed"))))
		n := vt.I(s.Hdr, "n")
		ids, reg := []string{}, []int{}
		for i := 0; i < n; i++ {
			b := make([]byte, 32)
			rng.Read(b)
			ids, reg = append(ids, hex.EncodeToString(b)), append(reg, i)
		}
		for _, g := range vt.Ints(s.Hdr, "unreg") {
			reg[g] = -1
		}
		r := nodekit.NewRegistry()
		defer r.Srv.Close()
		list := func() {
			gs := []register.GatewayRegister{}
			for i, id := range ids {
				if reg[i] < 0 {
					continue
				}
				k := keys[reg[i]].Pub
				gs = append(gs, register.GatewayRegister{NodeID: id, Address: "f0", RootSigningKey: k, SigningKey: k, RegionCode: "AU",
					NetworkInfoGateway: "127.0.0.1:1", NetworkInfoProvider: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
			}
			r.Set(gs, nil)
		}
		list()
		c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(r.Srv.URL, false, true, time.Hour)
		if err := c.RegisterMgr.Start(); err != nil {
			panic(err)
		}
		// the first refresh is under way: this one comes after it
		c.RegisterMgr.Refresh()
		c.GroupOfferGatewayIDs = []nodeid.NodeID{}
		t.Set("n", n)
		t.Set("unreg", vt.Ints(s.Hdr, "unreg"))
		for _, op := range s.Ops {
			if vt.S(op, "op") == "rekey" {
				reg[vt.I(op, "g")] = vt.I(op, "k")
				list()
				c.RegisterMgr.Refresh()
				t.Add(vt.M{"op": "rekey", "g": vt.I(op, "g"), "k": vt.I(op, "k")})
				continue
			}
			ns := vt.L(op, "ns")
			evs := make([]vt.M, len(ns))
			var wg sync.WaitGroup
			for i, x := range ns {
				m := x.(map[string]interface{})
				g := vt.I(m, "g")
				id, err := nodeid.NewNodeIDFromHexString(ids[g])
				if err != nil {
					panic(err)
				}
				msg, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(id, vt.B(m, "on"))
				if err != nil {
					panic(err)
				}
				if vt.S(m, "tamper") != "nosig" {
					if err := msg.Sign(keys[vt.I(m, "by")].KP, fcrcrypto.InitialKeyVersion()); err != nil {
						panic(err)
					}
				}
				ev := vt.M{"g": g, "on": vt.B(m, "on"), "by": vt.I(m, "by"), "tamper": vt.S(m, "tamper"), "good": false}
				evs[i] = ev
				wg.Add(1)
				go func() {
					defer wg.Done()
					class, res := nodekit.TCP(port, msg, 30*time.Second)
					if class == "ok" {
						ok, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(res)
						ev["good"] = err == nil && ok
					}
					ev["res"] = class
				}()
			}
			wg.Wait()
			saved := []int{}
			for i := range c.GroupOfferGatewayIDs {
				k := -1
				for j, id := range ids {
					if c.GroupOfferGatewayIDs[i].ToString() == id {
						k = j
					}
				}
				saved = append(saved, k)
			}
			t.Add(vt.M{"op": "notes", "ns": evs, "list": saved})
		}
	})
}
