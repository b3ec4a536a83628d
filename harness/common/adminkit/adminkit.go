// Package adminkit is the surroundings in which an administration library is
// driven: nodes that record what they are asked and answer as the script says.
package adminkit

import (
	"encoding/json"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/nodekit"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

// Ask is one call of the library.
type Ask struct {
	Kind      string
	G, RK, AD int
	Reg       string
	A, Ret    [][]int
	SK        int
	Ans       string
}

// Reg is what the register says of a node.
type Reg struct{ ID, Root, Key, Trap, Admin string }

type node struct {
	w    *World
	i    int
	id   *nodeid.NodeID
	keys [2]nodekit.Key
	srv  [2]*httptest.Server
	trap *httptest.Server
	mu   sync.Mutex
	now  *Ask
	got  []vt.M
}

// World is what the values of a script stand for.
type World struct {
	nodes    []*node
	stranger nodekit.Key
	Admin    nodekit.Key
	AdminVer *fcrcrypto.KeyVersion
	keys     []nodekit.Key
	vers     []uint32
	words    []string
	peers    []nodeid.NodeID
	cids     []cid.ContentID
	nums     []uint64
	times    []int64
	reps     []int64
	offers   []cidoffer.CIDOffer
	mu       sync.Mutex
	stray    int // requests nobody asked for, or that are none
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newWorld(s *vt.Script) *World {
	rng := rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed"))))
	w := &World{stranger: nodekit.NewKey(), Admin: nodekit.NewKey()}
	w.vers = []uint32{1, 0, 2, 256, 1 << 31, math.MaxUint32}
	w.words = []string{"", "t1abc", "http://127.0.0.1:1234/rpc/v0", "eyJ.a+b/c=", "Ünï \"q\" <&>", strings.Repeat("x", 3000)}
	w.nums = []uint64{0, 1, 1000, 1<<53 + 1, 1 << 63, math.MaxUint64}
	w.times = []int64{0, -1, 1700000000, 4000000000, 1<<53 + 1, math.MaxInt64}
	w.reps = []int64{0, 1, -1, 1<<53 + 1, math.MinInt64, math.MaxInt64}
	w.AdminVer = fcrcrypto.DecodeKeyVersion(w.vers[vt.I(s.Hdr, "ver")])
	bytes := func(base []byte, i int) []byte {
		// ids alike in all but one place, or unlike
		b := append([]byte{}, base...)
		if vt.B(s.Hdr, "alike") {
			at := []int{31, 0, 15, 30, 16, 1}[i%6]
			b[at] ^= byte(1 + i)
		} else {
			rng.Read(b)
		}
		return b
	}
	base := make([]byte, 32)
	rng.Read(base)
	if vt.B(s.Hdr, "low") {
		// numbers with leading zeros
		for i := 0; i < 12; i++ {
			base[i] = 0
		}
	}
	for i := 0; i < 6; i++ {
		w.keys = append(w.keys, nodekit.NewKey())
		p, err := nodeid.NewNodeIDFromBytes(bytes(base, i))
		must(err)
		w.peers = append(w.peers, *p)
		c, err := cid.NewContentIDFromBytes(bytes(base, i))
		must(err)
		w.cids = append(w.cids, *c)
	}
	for i := 0; i < 6; i++ {
		o, err := cidoffer.NewCIDOffer(&w.peers[i%2], append([]cid.ContentID{}, w.cids[:1+i%3]...), w.nums[(i*2)%6], w.times[(i+2)%6], w.nums[(i+4)%6])
		must(err)
		must(o.Sign(w.keys[i%2].KP, fcrcrypto.DecodeKeyVersion(1)))
		w.offers = append(w.offers, *o)
	}
	for i := 0; i < vt.I(s.Hdr, "nodes"); i++ {
		n := &node{w: w, i: i, keys: [2]nodekit.Key{nodekit.NewKey(), nodekit.NewKey()}}
		id, err := nodeid.NewNodeIDFromBytes(bytes(base, i))
		must(err)
		n.id = id
		for ad := 0; ad < 2; ad++ {
			ad := ad
			n.srv[ad] = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) { n.serve(rw, q, 2*n.i+ad) }))
		}
		n.trap = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) { n.serve(rw, q, -1) }))
		w.nodes = append(w.nodes, n)
	}
	return w
}

func (w *World) close() {
	for _, n := range w.nodes {
		for _, s := range []*httptest.Server{n.srv[0], n.srv[1], n.trap} {
			s.CloseClientConnections()
			s.Close()
		}
	}
}

// Register is what the register says of the node of a call.
func (w *World) Register(a *Ask) Reg {
	n := w.nodes[a.G]
	host := func(s *httptest.Server) string { return strings.TrimPrefix(s.URL, "http://") }
	r := Reg{n.id.ToString(), w.stranger.Pub, n.keys[a.RK].Pub, host(n.trap), host(n.srv[a.AD])}
	switch a.Reg {
	case "nokey":
		r.Key = "zz" + r.Key
	case "badid":
		r.ID = "x" + r.ID[1:]
	}
	return r
}

// ID is the id of the node of a call.
func (w *World) ID(a *Ask) *nodeid.NodeID { return w.nodes[a.G].id }

// At is one value of a list of a script.
func at(l [][]int, i, j int) int { return l[i][j] }

// Key, Ver, Word, Peers, CIDs, Nums, Times, Rep: the arguments of a call.
func (w *World) Key(a *Ask, i, j int) *fcrcrypto.KeyPair { return w.keys[at(a.A, i, j)].KP }
func (w *World) Ver(a *Ask, i, j int) *fcrcrypto.KeyVersion {
	return fcrcrypto.DecodeKeyVersion(w.vers[at(a.A, i, j)])
}
func (w *World) Word(a *Ask, i, j int) string { return w.words[at(a.A, i, j)] }
func (w *World) Rep(a *Ask, i, j int) int64   { return w.reps[at(a.A, i, j)] }
func (w *World) Peers(a *Ask, i int) []nodeid.NodeID {
	r := []nodeid.NodeID{}
	for _, x := range a.A[i] {
		r = append(r, w.peers[x])
	}
	return r
}
func (w *World) CIDs(a *Ask, i int) []cid.ContentID {
	r := []cid.ContentID{}
	for _, x := range a.A[i] {
		r = append(r, w.cids[x])
	}
	return r
}
func (w *World) Nums(a *Ask, i int) []uint64 {
	r := []uint64{}
	for _, x := range a.A[i] {
		r = append(r, w.nums[x])
	}
	return r
}
func (w *World) Times(a *Ask, i int) []int64 {
	r := []int64{}
	for _, x := range a.A[i] {
		r = append(r, w.times[x])
	}
	return r
}

// what a value is called in the script
func (w *World) keyOf(k *fcrcrypto.KeyPair) int {
	for i := range w.keys {
		if k != nil && k.EncodePrivateKey() == w.keys[i].KP.EncodePrivateKey() {
			return i
		}
	}
	return 99
}
func (w *World) verOf(v *fcrcrypto.KeyVersion) int {
	for i, x := range w.vers {
		if v != nil && v.EncodeKeyVersion() == x {
			return i
		}
	}
	return 99
}
func (w *World) wordOf(s string) int {
	for i, x := range w.words {
		if s == x {
			return i
		}
	}
	return 99
}
func (w *World) peerOf(p *nodeid.NodeID) int {
	for i := range w.peers {
		if p != nil && p.ToString() == w.peers[i].ToString() {
			return i
		}
	}
	return 99
}
func (w *World) nodeOf(p *nodeid.NodeID) int {
	for i := range w.nodes {
		if p != nil && p.ToString() == w.nodes[i].id.ToString() {
			return i
		}
	}
	return 99
}
func (w *World) peersOf(l []nodeid.NodeID) []int {
	r := []int{}
	for i := range l {
		r = append(r, w.peerOf(&l[i]))
	}
	return r
}
func (w *World) cidsOf(l []cid.ContentID) []int {
	r := []int{}
	for i := range l {
		k := 99
		for j := range w.cids {
			if l[i].ToString() == w.cids[j].ToString() {
				k = j
			}
		}
		r = append(r, k)
	}
	return r
}
func (w *World) numsOf(l ...uint64) []int {
	r := []int{}
	for _, v := range l {
		k := 99
		for j, x := range w.nums {
			if x == v {
				k = j
			}
		}
		r = append(r, k)
	}
	return r
}
func (w *World) timesOf(l ...int64) []int {
	r := []int{}
	for _, v := range l {
		k := 99
		for j, x := range w.times {
			if x == v {
				k = j
			}
		}
		r = append(r, k)
	}
	return r
}

// RepOf, OffersOf: what the library reports.
func (w *World) RepOf(v int64) int {
	for i, x := range w.reps {
		if v == x {
			return i
		}
	}
	return 99
}
func (w *World) OffersOf(l []cidoffer.CIDOffer) []int {
	r := []int{}
	for i := range l {
		k := 99
		for j := range w.offers {
			a, e1 := json.Marshal(l[i])
			b, e2 := json.Marshal(w.offers[j])
			if e1 == nil && e2 == nil && string(a) == string(b) {
				k = j
			}
		}
		r = append(r, k)
	}
	return r
}

// what a node was asked
func (w *World) describe(m *fcrmessages.FCRMessage) vt.M {
	kind, nid, a := "?", -1, [][]int{}
	switch m.GetMessageType() {
	case fcrmessages.GatewayAdminInitialiseKeyRequestType, fcrmessages.ProviderAdminInitialiseKeyRequestType:
		f := fcrmessages.DecodeGatewayAdminInitialiseKeyRequest
		if m.GetMessageType() == fcrmessages.ProviderAdminInitialiseKeyRequestType {
			f = fcrmessages.DecodeProviderAdminInitialiseKeyRequest
		}
		if id, k, v, err := f(m); err == nil {
			kind, nid, a = "init1", w.nodeOf(id), [][]int{{w.keyOf(k), w.verOf(v)}}
		}
	case fcrmessages.GatewayAdminInitialiseKeyRequestV2Type, fcrmessages.ProviderAdminInitialiseKeyRequestV2Type:
		f := fcrmessages.DecodeGatewayAdminInitialiseKeyRequestV2
		if m.GetMessageType() == fcrmessages.ProviderAdminInitialiseKeyRequestV2Type {
			f = fcrmessages.DecodeProviderAdminInitialiseKeyRequestV2
		}
		if id, k, v, x, y, z, err := f(m); err == nil {
			kind, nid, a = "init2", w.nodeOf(id), [][]int{{w.keyOf(k), w.verOf(v)}, {w.wordOf(x), w.wordOf(y), w.wordOf(z)}}
		}
	case fcrmessages.GatewayAdminForceRefreshRequestType:
		if b, err := fcrmessages.DecodeGatewayAdminForceRefreshRequest(m); err == nil && b {
			kind = "force"
		}
	case fcrmessages.ProviderAdminForceRefreshRequestType:
		if b, err := fcrmessages.DecodeProviderAdminForceRefreshRequest(m); err == nil && b {
			kind = "force"
		}
	case fcrmessages.GatewayAdminListDHTOfferRequestType:
		if b, err := fcrmessages.DecodeGatewayAdminListDHTOfferRequest(m); err == nil && b {
			kind = "list"
		}
	case fcrmessages.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType:
		if id, l, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(m); err == nil {
			kind, nid, a = "grp", w.nodeOf(id), [][]int{w.peersOf(l)}
		}
	case fcrmessages.GatewayAdminGetReputationRequestType:
		if c, err := fcrmessages.DecodeGatewayAdminGetReputationRequest(m); err == nil {
			kind, a = "getrep", [][]int{{w.peerOf(c)}}
		}
	case fcrmessages.GatewayAdminSetReputationRequestType:
		if c, v, err := fcrmessages.DecodeGatewayAdminSetReputationRequest(m); err == nil {
			kind, a = "setrep", [][]int{{w.peerOf(c), w.RepOf(v)}}
		}
	case fcrmessages.ProviderAdminPublishGroupOfferRequestType:
		if l, p, e, q, err := fcrmessages.DecodeProviderAdminPublishGroupOfferRequest(m); err == nil {
			kind, a = "pubg", [][]int{w.cidsOf(l), w.numsOf(p), w.timesOf(e), w.numsOf(q)}
		}
	case fcrmessages.ProviderAdminPublishDHTOfferRequestType:
		if l, p, e, q, err := fcrmessages.DecodeProviderAdminPublishDHTOfferRequest(m); err == nil {
			kind, a = "pubd", [][]int{w.cidsOf(l), w.numsOf(p...), w.timesOf(e...), w.numsOf(q...)}
		}
	case fcrmessages.ProviderAdminGetPublishedOfferRequestType:
		if l, err := fcrmessages.DecodeProviderAdminGetPublishedOfferRequest(m); err == nil {
			kind, a = "getp", [][]int{w.peersOf(l)}
		}
	}
	return vt.M{"kind": kind, "nid": nid, "a": a}
}

// the answer to a request; yes: what was asked is done
func (w *World) answer(typ int32, a *Ask, yes bool, shift string) *fcrmessages.FCRMessage {
	var m *fcrmessages.FCRMessage
	var err error
	rep := func(i, j int, l [][]int) int64 {
		v := w.reps[l[i][j]]
		switch shift {
		case "near":
			return v ^ 1
		case "high":
			return v ^ 1<<33
		}
		if shift == "otherval" {
			return w.reps[(l[i][j]+1)%len(w.reps)]
		}
		return v
	}
	who := func() *nodeid.NodeID {
		i := a.A[0][0]
		if shift == "otherid" {
			i = (i + 1) % len(w.peers)
		}
		return &w.peers[i]
	}
	switch typ {
	case fcrmessages.GatewayAdminInitialiseKeyRequestType, fcrmessages.GatewayAdminInitialiseKeyRequestV2Type:
		m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(yes)
	case fcrmessages.ProviderAdminInitialiseKeyRequestType, fcrmessages.ProviderAdminInitialiseKeyRequestV2Type:
		m, err = fcrmessages.EncodeProviderAdminInitialiseKeyResponse(yes)
	case fcrmessages.GatewayAdminForceRefreshRequestType:
		m, err = fcrmessages.EncodeGatewayAdminForceRefreshResponse(yes)
	case fcrmessages.ProviderAdminForceRefreshRequestType:
		m, err = fcrmessages.EncodeProviderAdminForceRefreshResponse(yes)
	case fcrmessages.GatewayAdminListDHTOfferRequestType:
		m, err = fcrmessages.EncodeGatewayAdminListDHTOfferResponse(yes)
	case fcrmessages.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType:
		m, err = fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(yes)
	case fcrmessages.GatewayAdminGetReputationRequestType:
		m, err = fcrmessages.EncodeGatewayAdminGetReputationResponse(who(), rep(0, 0, a.Ret), yes)
	case fcrmessages.GatewayAdminSetReputationRequestType:
		m, err = fcrmessages.EncodeGatewayAdminSetReputationResponse(who(), rep(0, 1, a.A), yes)
	case fcrmessages.ProviderAdminPublishGroupOfferRequestType:
		m, err = fcrmessages.EncodeProviderAdminPublishGroupOfferResponse(yes)
	case fcrmessages.ProviderAdminPublishDHTOfferRequestType:
		m, err = fcrmessages.EncodeProviderAdminPublishDHTOfferResponse(yes)
	case fcrmessages.ProviderAdminGetPublishedOfferRequestType:
		l := []cidoffer.CIDOffer{}
		if yes {
			for _, x := range a.Ret[1] {
				l = append(l, w.offers[x])
			}
		}
		m, err = fcrmessages.EncodeProviderAdminGetPublishedOfferResponse(yes && a.Ret[0][0] == 1, l)
	default:
		return fcrmessages.CreateFCRMessage(typ+1, []byte("{}"))
	}
	must(err)
	return m
}

// a message of any content
func forge(typ int32, body []byte, sig string) *fcrmessages.FCRMessage {
	v, s := fcrmessages.GetCurrentProtocolVersion()
	b, err := json.Marshal(vt.M{"message_type": typ, "protocol_version": v, "protocol_supported": s, "message_body": body, "message_signature": sig})
	must(err)
	m, err := fcrmessages.FCRMsgFromBytes(b)
	must(err)
	return m
}

func (n *node) serve(rw http.ResponseWriter, q *http.Request, at int) {
	w := n.w
	n.mu.Lock()
	a := n.now
	n.mu.Unlock()
	m := &fcrmessages.FCRMessage{}
	if err := json.NewDecoder(q.Body).Decode(m); err != nil || q.Method != "POST" || q.URL.Path != "/v1" || a == nil {
		w.mu.Lock()
		w.stray++
		w.mu.Unlock()
		rw.WriteHeader(400)
		return
	}
	d := w.describe(m)
	v, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature())
	d["n"], d["by"] = at, m.Verify(w.Admin.KP) == nil && err == nil && v.Equals(w.AdminVer)
	n.mu.Lock()
	n.got = append(n.got, d)
	n.mu.Unlock()
	typ := m.GetMessageType()
	key := w.stranger
	if a.SK < 2 {
		key = n.keys[a.SK]
	}
	sign := func(m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
		must(m.Sign(key.KP, fcrcrypto.DecodeKeyVersion(1)))
		return m
	}
	yes := w.answer(typ, a, true, "")
	r := sign(yes)
	switch a.Ans {
	case "no":
		r = sign(w.answer(typ, a, false, ""))
	case "nosig":
		r = forge(yes.GetMessageType(), yes.GetMessageBody(), "")
	case "altered":
		// a genuine refusal, made an agreement on the way
		no := sign(w.answer(typ, a, false, "otherval"))
		r = forge(no.GetMessageType(), yes.GetMessageBody(), no.GetSignature())
	case "retyped":
		o := sign(forge(yes.GetMessageType()+2, yes.GetMessageBody(), ""))
		r = forge(yes.GetMessageType(), yes.GetMessageBody(), o.GetSignature())
	case "othertype":
		r = sign(forge([]int32{yes.GetMessageType() + 2, yes.GetMessageType() - 2, typ, 601, 0}[n.i%5], yes.GetMessageBody(), ""))
	case "otherid", "otherval", "near", "high":
		r = sign(w.answer(typ, a, true, a.Ans))
	case "nobody":
		r = sign(forge(yes.GetMessageType(), []byte("{"), ""))
	}
	b, err := r.FCRMsgToBytes()
	must(err)
	switch a.Ans {
	case "status":
		rw.WriteHeader([]int{500, 404, 503, 401}[n.i%4])
	case "junk":
		b = []byte("<html>it works</html>")
	case "hollow":
		b = []byte("{}")
	case "null":
		b = []byte("null")
	case "empty":
		b = nil
	case "down", "cut":
		if c, _, err := rw.(http.Hijacker).Hijack(); err == nil {
			if a.Ans == "cut" {
				c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: " + strconv.Itoa(len(b)+2) + "\r\n\r\n"))
				c.Write(b)
			}
			c.Close()
		}
		return
	}
	rw.Write(b)
}

func lists(m vt.M, k string) [][]int {
	r := [][]int{}
	for _, x := range vt.L(m, k) {
		l := []int{}
		for _, y := range x.([]interface{}) {
			l = append(l, int(y.(float64)))
		}
		r = append(r, l)
	}
	return r
}

// Main runs the scripts against a library.
func Main(fresh func(w *World) func(w *World, a *Ask) (error, [][]int)) {
	vt.Main(func(s *vt.Script, t *vt.Trace) {
		w := newWorld(s)
		defer w.close()
		call := fresh(w)
		one := func(o vt.M) vt.M {
			a := &Ask{Kind: vt.S(o, "kind"), G: vt.I(o, "g"), RK: vt.I(o, "rk"), AD: vt.I(o, "ad"), Reg: vt.S(o, "reg"), A: lists(o, "a"), Ret: lists(o, "ret"), SK: vt.I(o, "sk"), Ans: vt.S(o, "ans")}
			n := w.nodes[a.G]
			n.mu.Lock()
			n.now, n.got = a, []vt.M{}
			n.mu.Unlock()
			err, val := call(w, a)
			n.mu.Lock()
			got := n.got
			n.now = nil
			n.mu.Unlock()
			e := vt.M{"req": got, "ok": err == nil, "val": val}
			for k, v := range o {
				e[k] = v
			}
			e["op"] = "ask"
			return e
		}
		for _, o := range s.Ops {
			o := o
			evs := [][]vt.M{}
			ok := t.Step(vt.S(o, "op"), 30*time.Second, func() {
				if vt.S(o, "op") == "ask" {
					evs = append(evs, []vt.M{one(o)})
					return
				}
				// one thread per node
				th := vt.L(o, "th")
				evs = make([][]vt.M, len(th))
				bad := make(chan interface{}, len(th))
				for i := range th {
					go func(i int) {
						defer func() { bad <- recover() }()
						for _, x := range th[i].([]interface{}) {
							evs[i] = append(evs[i], one(x.(vt.M)))
						}
					}(i)
				}
				for range th {
					if r := <-bad; r != nil {
						panic(r)
					}
				}
			})
			if !ok {
				return
			}
			for _, l := range evs {
				for _, e := range l {
					t.Add(e)
				}
			}
			w.mu.Lock()
			if w.stray > 0 {
				t.Add(vt.M{"op": "stray", "n": w.stray})
			}
			w.stray = 0
			w.mu.Unlock()
		}
	})
}
