// Package lotus is a stand-in for the chain node: the JSON-RPC calls that the
// payment manager makes, over an in-memory chain of payment channels.
package lotus

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"sync"

	"github.com/filecoin-project/go-address"
	"github.com/filecoin-project/go-state-types/abi"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	"github.com/filecoin-project/lotus/chain/types"
	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
	paych4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/paych"
	"github.com/ipfs/go-cid"
)

// Chan is a payment channel on the chain.
type Chan struct {
	Addr     address.Address
	From, To address.Address // key addresses
	Balance  *big.Int
	N        int // order of creation
}

// Push is a message that reached the chain.
type Push struct {
	Create bool
	To     address.Address // recipient of a new channel, or channel
	Chan   *Chan
	Value  *big.Int
	Exit   int
}

// Node is the fake chain node.
type Node struct {
	mu       sync.Mutex
	URL      string
	srv      *http.Server
	chans    map[address.Address]*Chan
	order    []*Chan
	ids      map[address.Address]address.Address // ID -> key
	keyIDs   map[address.Address]address.Address
	receipts map[cid.Cid]*types.MessageReceipt
	seq      uint64
	pushes   []Push
	// Hook is called before each call is served, without the lock; an error is
	// returned to the caller. Done is called after serving, before answering.
	Hook func(method string) error
	Done func(method string) error
	// Pending, when it says so, answers a request for a receipt in vain: with
	// none, or with the error.
	Pending func() (bool, error)
	// Exit, when it returns non-zero, makes the pushed message fail on chain.
	Exit func() int
}

// New starts a node on a loopback port.
func New() *Node {
	n := &Node{chans: map[address.Address]*Chan{}, ids: map[address.Address]address.Address{},
		keyIDs: map[address.Address]address.Address{}, receipts: map[cid.Cid]*types.MessageReceipt{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	n.URL = "http://" + l.Addr().String() + "/rpc/v0"
	n.srv = &http.Server{Handler: http.HandlerFunc(n.serve)}
	go n.srv.Serve(l)
	return n
}

// Close stops the node.
func (n *Node) Close() { n.srv.Close() }

func (n *Node) id(key address.Address) address.Address {
	if a, ok := n.keyIDs[key]; ok {
		return a
	}
	a, _ := address.NewIDAddress(uint64(1000 + len(n.ids)))
	n.ids[a] = key
	n.keyIDs[key] = a
	return a
}

// NewChannel creates a channel on the chain.
func (n *Node) NewChannel(from, to address.Address, balance *big.Int) *Chan {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.newChannel(from, to, balance)
}

func (n *Node) newChannel(from, to address.Address, balance *big.Int) *Chan {
	n.seq++
	a, _ := address.NewActorAddress([]byte(fmt.Sprintf("%p channel %d", n, n.seq)))
	c := &Chan{Addr: a, From: from, To: to, Balance: new(big.Int).Set(balance), N: len(n.order)}
	n.chans[a] = c
	n.order = append(n.order, c)
	n.id(from)
	n.id(to)
	return c
}

// Deposit adds to a channel's balance.
func (n *Node) Deposit(c *Chan, v *big.Int) {
	n.mu.Lock()
	c.Balance.Add(c.Balance, v)
	n.mu.Unlock()
}

// Channels lists the channels in order of creation.
func (n *Node) Channels() []*Chan {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Chan{}, n.order...)
}

// Pushes returns and forgets the messages pushed so far.
func (n *Node) Pushes() []Push {
	n.mu.Lock()
	defer n.mu.Unlock()
	p := n.pushes
	n.pushes = nil
	return p
}

func (n *Node) serve(w http.ResponseWriter, r *http.Request) {
	b, _ := ioutil.ReadAll(r.Body)
	var q struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	json.Unmarshal(b, &q)
	m := q.Method
	if len(m) > 9 {
		m = m[9:] // "Filecoin."
	}
	var res interface{}
	var err error
	if n.Hook != nil {
		err = n.Hook(m)
	}
	if err == nil {
		res, err = n.call(m, q.Params)
	}
	if err == nil && n.Done != nil {
		err = n.Done(m)
	}
	w.Header().Set("Content-Type", "application/json")
	out := map[string]interface{}{"jsonrpc": "2.0", "id": q.ID}
	if err != nil {
		out["error"] = map[string]interface{}{"code": 1, "message": err.Error()}
	} else {
		out["result"] = res
	}
	j, _ := json.Marshal(out)
	w.Write(j)
}

func (n *Node) call(m string, p []json.RawMessage) (interface{}, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	switch m {
	case "MpoolGetNonce":
		n.seq++
		return n.seq, nil
	case "GasEstimateGasLimit":
		return 1000000, nil
	case "GasEstimateGasPremium", "GasEstimateFeeCap":
		return "100000", nil
	case "MpoolPush":
		var sm types.SignedMessage
		if err := json.Unmarshal(p[0], &sm); err != nil {
			return nil, err
		}
		exit := 0
		if n.Exit != nil {
			exit = n.Exit()
		}
		push := Push{Value: new(big.Int).Set(sm.Message.Value.Int), Exit: exit}
		rec := &types.MessageReceipt{ExitCode: 0, GasUsed: 1}
		if exit != 0 {
			rec.ExitCode = 16
		}
		if c, ok := n.chans[sm.Message.To]; ok {
			push.To, push.Chan = c.Addr, c
			if exit == 0 {
				c.Balance.Add(c.Balance, push.Value)
			}
		} else {
			var ep init4.ExecParams
			if err := ep.UnmarshalCBOR(bytes.NewReader(sm.Message.Params)); err != nil {
				return nil, fmt.Errorf("message to an unknown actor: %v", err)
			}
			var cp paych4.ConstructorParams
			if err := cp.UnmarshalCBOR(bytes.NewReader(ep.ConstructorParams)); err != nil {
				return nil, err
			}
			push.Create, push.To = true, cp.To
			if exit == 0 {
				c := n.newChannel(cp.From, cp.To, push.Value)
				push.Chan = c
				ida, _ := address.NewIDAddress(uint64(500000 + c.N))
				ret := init4.ExecReturn{IDAddress: ida, RobustAddress: c.Addr}
				buf := new(bytes.Buffer)
				if err := ret.MarshalCBOR(buf); err != nil {
					return nil, err
				}
				rec.Return = buf.Bytes()
			}
		}
		n.pushes = append(n.pushes, push)
		id := sm.Cid()
		n.receipts[id] = rec
		return id, nil
	case "StateGetReceipt":
		if n.Pending != nil {
			if wait, err := n.Pending(); wait {
				return nil, err
			}
		}
		var c cid.Cid
		if err := json.Unmarshal(p[0], &c); err != nil {
			return nil, err
		}
		return n.receipts[c], nil
	case "StateReadState":
		var a address.Address
		if err := json.Unmarshal(p[0], &a); err != nil {
			return nil, err
		}
		if c, ok := n.chans[a]; ok {
			return map[string]interface{}{"Balance": c.Balance.String(),
				"State": map[string]interface{}{"From": n.id(c.From).String(), "To": n.id(c.To).String(), "ToSend": "0",
					"SettlingAt": 0, "MinSettleHeight": 0}}, nil
		}
		if _, ok := n.keyIDs[a]; ok {
			return map[string]interface{}{"Balance": "1000000000", "State": map[string]interface{}{"Address": a.String()}}, nil
		}
		return nil, errors.New("actor not found")
	case "StateAccountKey":
		var a address.Address
		if err := json.Unmarshal(p[0], &a); err != nil {
			return nil, err
		}
		if k, ok := n.ids[a]; ok {
			return k, nil
		}
		if _, ok := n.keyIDs[a]; ok {
			return a, nil
		}
		return nil, errors.New("no such account")
	}
	return nil, errors.New("method not supported: " + m)
}

var _ = abi.NewTokenAmount
var _ = lotusbig.Zero
