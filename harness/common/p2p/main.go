// Conformance driver for requests through the peer-to-peer server: peers that
// answer, stall, answer late, break off or restart.
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

const (
	limit   = 60 * time.Second
	patient = 20 * time.Second
	short   = 40 * time.Millisecond
	lag     = 90 * time.Millisecond
	typ     = 4242
)

type body struct {
	ID   int    `json:"id"`
	Peer int    `json:"peer"`
	Beh  string `json:"beh"`
	Pad  string `json:"pad"`
}

// long texts on both sides of the sizes at which a length gains a byte
var sizes = []int{40000, 8191, 8192, 8300, 31, 100000}

func pad(id int, huge bool) string {
	n := sizes[id%len(sizes)]
	if huge {
		n = 2200000
	}
	return strings.Repeat(fmt.Sprintf("%07d,", id), n)
}

func message(b body) *fcrmessages.FCRMessage {
	j, _ := json.Marshal(b)
	return fcrmessages.CreateFCRMessage(typ, j)
}

// ---- peers

func writeFrame(c net.Conn, m *fcrmessages.FCRMessage) []byte {
	d, _ := m.FCRMsgToBytes()
	f := make([]byte, 4)
	binary.BigEndian.PutUint32(f, uint32(len(d)))
	return append(f, d...)
}

func readFrame(c net.Conn) (*fcrmessages.FCRMessage, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(c, h); err != nil {
		return nil, err
	}
	d := make([]byte, binary.BigEndian.Uint32(h))
	if _, err := io.ReadFull(c, d); err != nil {
		return nil, err
	}
	return fcrmessages.FCRMsgFromBytes(d)
}

type peer struct {
	n     int
	addr  string
	again sync.Mutex
	mu    sync.Mutex
	ln    net.Listener
	conns map[net.Conn]bool
	real  *fcrp2pserver.FCRP2PServer
}

func (p *peer) listen(addr string) {
	var ln net.Listener
	var err error
	for i := 0; i < 500; i++ {
		if ln, err = net.Listen("tcp", addr); err == nil {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	if err != nil {
		panic("stand-in peer cannot listen: " + err.Error())
	}
	p.mu.Lock()
	p.ln, p.conns, p.addr = ln, map[net.Conn]bool{}, ln.Addr().String()
	p.mu.Unlock()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			gone := p.ln != ln
			if !gone {
				p.conns[c] = true
			}
			p.mu.Unlock()
			if gone {
				c.Close()
				continue
			}
			go p.serve(c)
		}
	}()
}

func (p *peer) stop() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.ln != nil {
		p.ln.Close()
		p.ln = nil
	}
	for c := range p.conns {
		c.Close()
	}
}

func (p *peer) serve(c net.Conn) {
	defer c.Close()
	for {
		m, err := readFrame(c)
		if err != nil {
			return
		}
		var b body
		if json.Unmarshal(m.GetMessageBody(), &b) != nil || b.Beh == "end" {
			continue
		}
		r := body{ID: b.ID, Peer: p.n, Beh: "answer"}
		if b.Beh == "bigreq" || b.Beh == "huge" {
			if b.Pad != pad(b.ID, b.Beh == "huge") {
				r.Beh = "request not as sent"
			}
		}
		if b.Beh == "big" || b.Beh == "late2" || b.Beh == "huge" {
			r.Pad = pad(b.ID, b.Beh == "huge")
		}
		f := writeFrame(c, message(r))
		switch b.Beh {
		case "none":
		case "cut":
			return
		case "half":
			c.Write(f[:len(f)/2])
			return
		case "latehalf":
			// part of the length only
			c.Write(f[:2])
			time.Sleep(lag)
			c.Write(f[2:])
		case "late2":
			c.Write(f[:len(f)/2])
			time.Sleep(lag)
			c.Write(f[len(f)/2:])
		case "late":
			time.Sleep(lag)
			c.Write(f)
		case "slow":
			time.Sleep(short / 4)
			c.Write(f[:3])
			time.Sleep(short / 4)
			c.Write(f[3:7])
			time.Sleep(short / 4)
			c.Write(f[7:])
		default:
			c.Write(f)
		}
	}
}

// ---- registry

type registry struct {
	mu   sync.Mutex
	g, p []interface{}
}

func (r *registry) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	r.mu.Lock()
	defer r.mu.Unlock()
	list := r.p
	if strings.Contains(q.URL.Path, "gateway") {
		list = r.g
	}
	if list == nil {
		list = []interface{}{}
	}
	json.NewEncoder(w).Encode(list)
}

// ---- the requester under the server

func requester(rd *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
	b := args[0].(body)
	t := args[1].(time.Duration)
	if b.Beh == "bigreq" || b.Beh == "huge" {
		b.Pad = pad(b.ID, b.Beh == "huge")
	}
	if err := wr.Write(message(b), patient); err != nil {
		return nil, err
	}
	if b.Beh == "early" {
		return nil, errors.New("gave up before the answer")
	}
	m, err := rd.Read(t)
	if err != nil {
		return nil, err
	}
	if b.Beh == "reqerr" {
		return nil, errors.New("answer refused")
	}
	if b.Beh == "ack" {
		if err := wr.Write(message(body{ID: b.ID, Beh: "end"}), patient); err != nil {
			return nil, err
		}
	}
	return m, nil
}

var fails = map[string]bool{"late": true, "late2": true, "none": true, "cut": true, "half": true, "reqerr": true, "early": true, "latehalf": true}

func run(s *vt.Script, t *vt.Trace) {
	np := vt.I(s.Hdr, "peers")
	t.Set("peers", np)
	reg := &registry{}
	hs := httptest.NewServer(reg)
	defer hs.Close()
	ids := make([]*nodeid.NodeID, np+2)
	peers := make([]*peer, np+2)
	asProvider := make([]bool, np+2)
	fromProvider := vt.B(s.Hdr, "fromprovider")
	for i := 1; i <= np+1; i++ {
		ids[i], _ = nodeid.NewNodeIDFromHexString(fmt.Sprintf("%064x", i*1000+7))
		if i > np {
			break
		}
		peers[i] = &peer{n: i}
		// an address of this process's own: nobody takes the port while the peer is away
		peers[i].listen(fmt.Sprintf("127.%d.%d.%d:0", 1+os.Getpid()/250%250, os.Getpid()%250, i))
		defer peers[i].stop()
		asProvider[i] = !fromProvider && vt.I(s.Hdr, "provs")>>uint(i)&1 == 1
		// the other addresses of the entry lead nowhere
		bad := "127.0.0.1:1"
		if asProvider[i] {
			reg.p = append(reg.p, register.ProviderRegister{NodeID: ids[i].ToString(), NetworkInfoGateway: peers[i].addr, NetworkInfoClient: bad, NetworkInfoAdmin: bad})
		} else {
			g := register.GatewayRegister{NodeID: ids[i].ToString(), NetworkInfoGateway: peers[i].addr, NetworkInfoProvider: bad, NetworkInfoClient: bad, NetworkInfoAdmin: bad}
			if fromProvider {
				g.NetworkInfoGateway, g.NetworkInfoProvider = bad, peers[i].addr
			}
			reg.g = append(reg.g, g)
		}
	}
	mgr := fcrregistermgr.NewFCRRegisterMgr(hs.URL, true, true, time.Hour)
	if err := mgr.Start(); err != nil {
		panic(err)
	}
	defer mgr.Shutdown()
	mgr.Refresh()
	srv := fcrp2pserver.NewFCRP2PServer([]string{}, mgr, time.Second).AddRequester(typ, requester)
	if err := srv.Start(); err != nil {
		panic(err)
	}
	var n int32
	do := func(op vt.M) {
		p, beh := vt.I(op, "p"), vt.S(op, "beh")
		if beh == "restart" {
			peers[p].again.Lock()
			defer peers[p].again.Unlock()
			t.Add(vt.M{"op": "down", "p": p})
			peers[p].stop()
			peers[p].listen(peers[p].addr)
			t.Add(vt.M{"op": "up", "p": p})
			return
		}
		k := int(atomic.AddInt32(&n, 1))
		to := patient
		if fails[beh] {
			to = short
		}
		t.Add(vt.M{"op": "B", "id": k, "p": p, "beh": beh})
		var m *fcrmessages.FCRMessage
		var err error
		switch {
		case fromProvider:
			m, err = srv.RequestGatewayFromProvider(ids[p], typ, body{ID: k, Beh: beh}, to)
		case asProvider[p]:
			m, err = srv.RequestProvider(ids[p], typ, body{ID: k, Beh: beh}, to)
		default:
			m, err = srv.RequestGatewayFromGateway(ids[p], typ, body{ID: k, Beh: beh}, to)
		}
		e := vt.M{"op": "E", "id": k, "ok": err == nil}
		if err != nil {
			e["why"] = err.Error()
		} else if m == nil {
			e["rid"], e["rp"], e["whole"] = -1, -1, false
		} else {
			var b body
			j := json.Unmarshal(m.GetMessageBody(), &b)
			e["rid"], e["rp"] = b.ID, b.Peer
			e["whole"] = j == nil && m.GetMessageType() == typ && (b.Pad == "" || b.Pad == pad(b.ID, beh == "huge")) && b.Beh == "answer"
		}
		t.Add(e)
	}
	t.Step("p2p", limit, func() {
		byT := map[int][]vt.M{}
		for _, op := range s.Ops {
			byT[vt.I(op, "t")] = append(byT[vt.I(op, "t")], op)
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, ops := range byT {
			wg.Add(1)
			go func(ops []vt.M) {
				defer wg.Done()
				<-start
				for _, op := range ops {
					do(op)
				}
			}(ops)
		}
		close(start)
		wg.Wait()
		// and all is well afterwards
		for p := 1; p <= np; p++ {
			for i := 0; i < 3; i++ {
				do(vt.M{"p": float64(p), "beh": "ok"})
			}
		}
	})
}

func main() { vt.Main(run) }
