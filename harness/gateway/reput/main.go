// Conformance driver of the gateway's reputation manager.
package main

import (
	"math/big"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/reputation"
)

var limit = 20 * time.Second

func table(r *reputation.Reputation) []func(*nodeid.NodeID) {
	return []func(*nodeid.NodeID){
		r.OnChainDeposit, r.ClientStdDiscOneCidOffer, r.ClientStdDiscNoCidOffers, r.ClientStdDiscLateCidOffers,
		r.ClientStdDiscNonPayment, r.ClientDhtDiscOneCidOffer, r.ClientDhtDiscNoCidOffers, r.ClientDhtDiscLateCidOffers,
		r.ClientDhtDiscNonPayment, r.ClientMicroPayment, r.ClientInvalidMessage,
	}
}

// a reputation is far inside TLC's integers unless something went wrong
func val(v int64) int64 {
	if v > 1000000000 {
		return 1000000000
	}
	if v < -1000000000 {
		return -1000000000
	}
	return v
}

type world struct {
	r   *reputation.Reputation
	ev  []func(*nodeid.NodeID)
	ids []*nodeid.NodeID
	n   int32
	t   *vt.Trace
}

// an event for a client that was never established is a programming error the manager may reject by a panic;
// it must not establish the client
func quietly(f func()) {
	defer func() { recover() }()
	f()
}

// a caller's identifier is its own copy
func (w *world) id(c int) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromHexString(w.ids[c-1].ToString())
	if err != nil {
		panic(err)
	}
	return n
}

func (w *world) do(op vt.M) {
	k := int(atomic.AddInt32(&w.n, 1))
	c := vt.I(op, "c")
	id := w.id(c)
	b := vt.M{"op": "B", "id": k, "k": op["op"], "c": c, "e": vt.I(op, "e"), "n": vt.I(op, "n"), "v": vt.I(op, "v")}
	e := vt.M{"op": "E", "id": k}
	w.t.Add(b)
	switch vt.S(op, "op") {
	case "est":
		e["val"] = val(w.r.ClientEstablishmentChallenge(id))
	case "get":
		v, is := w.r.GetClientReputation(id)
		e["val"], e["is"] = val(v), is
	case "exists":
		e["is"] = w.r.ClientExists(id)
	case "set":
		w.r.SetClientReputation(id, int64(vt.I(op, "v")))
	case "ev":
		quietly(func() { w.ev[vt.I(op, "e")-1](id) })
	case "run":
		for i := 0; i < vt.I(op, "n"); i++ {
			quietly(func() { w.ev[vt.I(op, "e")-1](id) })
		}
	}
	w.t.Add(e)
}

func run(s *vt.Script, t *vt.Trace) {
	r := reputation.GetSingleInstance()
	w := &world{r: r, ev: table(r), t: t}
	rng := rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed")) + time.Now().UnixNano()))
	base := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), 250))
	for i := 0; i < vt.I(s.Hdr, "clients"); i++ {
		// neighbours, some with a short form
		n, err := nodeid.NewNodeID(new(big.Int).Add(base, big.NewInt(int64(i*i))))
		if err != nil {
			panic(err)
		}
		w.ids = append(w.ids, n)
	}
	seq := func(ops []interface{}) {
		for _, op := range ops {
			w.do(op.(map[string]interface{}))
		}
	}
	t.Step("rep", limit, func() {
		for _, op := range s.Ops {
			w.do(op)
		}
		threads := vt.L(s.Hdr, "threads")
		if len(threads) > 0 {
			var wg sync.WaitGroup
			start := make(chan bool)
			for _, th := range threads {
				wg.Add(1)
				go func(ops []interface{}) {
					defer wg.Done()
					<-start
					seq(ops)
				}(th.([]interface{}))
			}
			time.Sleep(50 * time.Microsecond)
			close(start)
			wg.Wait()
			seq(vt.L(s.Hdr, "after"))
		}
		for _, x := range vt.L(s.Hdr, "bulk") {
			w.bulk(x.(map[string]interface{}))
		}
	})
}

// bulk: many callers at once on one client
func (w *world) bulk(b vt.M) {
	c, n := vt.I(b, "c"), vt.Ints(b, "n")
	var calls []int
	for i := 0; i < vt.I(b, "est"); i++ {
		calls = append(calls, -1)
	}
	first := append([]int{}, calls...)
	for i, k := range n {
		for ; k > 0; k-- {
			calls = append(calls, i)
		}
	}
	if len(first) > 0 {
		// establishment may come late among the others only if the client is there already
		if !w.r.ClientExists(w.id(c)) {
			calls = calls[len(first):]
		} else {
			first = nil
		}
	}
	rand.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
	par := func(calls []int) {
		var wg sync.WaitGroup
		start := make(chan bool)
		g := vt.I(b, "g")
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				id := w.id(c)
				<-start
				for j := i; j < len(calls); j += g {
					if calls[j] < 0 {
						w.r.ClientEstablishmentChallenge(id)
					} else {
						w.ev[calls[j]](id)
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
	}
	par(first)
	par(calls)
	v, is := w.r.GetClientReputation(w.id(c))
	w.t.Add(vt.M{"op": "bulk", "c": c, "est": vt.I(b, "est"), "n": n, "val": val(v), "is": is})
}

func main() { vt.Main(run) }
