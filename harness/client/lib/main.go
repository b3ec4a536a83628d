// Conformance driver for the client library: the library runs in this process,
// among gateways and providers that answer as the script says, a stand-in
// registry and a stand-in chain node.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/go-address"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/lib/sigs"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/lotus"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/nodekit"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

type obj = map[string]interface{}

func sub(m obj, k string) obj { r, _ := m[k].(obj); return r }

// a gateway or provider
type node struct {
	id     string
	key    nodekit.Key
	other  nodekit.Key
	addr   address.Address
	srv    *httptest.Server
	region string
	reg    string // ok, unreg, bad
	bad    int
	now    string // the key on the registry (providers)
}

func (n *node) host() string { return strings.TrimPrefix(n.srv.URL, "http://") }

type world struct {
	s      *vt.Script
	rng    *rand.Rand
	unit   *big.Int
	reg    *nodekit.Registry
	chain  *lotus.Node
	gws    []*node
	pvs    []*node
	keys   []nodekit.Key // by number: provider i has key i, two more belong to nobody
	pkey   []int
	cids   []cid.ContentID
	offers []*cidoffer.CIDOffer // from 1
	mgr    *fcrregistermgr.FCRRegisterMgr
	c      *fcrclient.FilecoinRetrievalClient
	id     *nodeid.NodeID
	wallet address.Address

	mu    sync.Mutex
	plan  obj // what the script says about the current operation
	calls map[string]int
	req   []vt.M
	items []item
	last  map[string][2]*big.Int // channel/lane -> nonce, amount of the last voucher seen
	seen  map[string]int         // challenges and nonces: the operation they were first used in
	opno  int
	hold  func()
}

// something a gateway put in its answer
type item struct {
	json string
	e    vt.M
}

func hexID(rng *rand.Rand) string {
	b := make([]byte, 32)
	rng.Read(b)
	return hex.EncodeToString(b)
}

func nid(h string) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromHexString(h)
	if err != nil {
		panic(err)
	}
	return n
}

func must(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	if err != nil {
		panic(err)
	}
	return m
}

func newAddr(rng *rand.Rand) (string, address.Address) {
	p := make([]byte, 32)
	rng.Read(p)
	p[0] = 1
	pub, err := sigs.ToPublic(crypto2.SigTypeSecp256k1, p)
	if err != nil {
		panic(err)
	}
	a, err := address.NewSecp256k1Address(pub)
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(p), a
}

func (w *world) val(k int) *big.Int { return new(big.Int).Mul(big.NewInt(int64(k)), w.unit) }

func (w *world) back(v *big.Int) int {
	q, r := new(big.Int).QuoRem(v, w.unit, new(big.Int))
	if r.Sign() != 0 || !q.IsInt64() || q.Int64() > 1<<30 || q.Int64() < -(1<<30) {
		return -999999
	}
	return int(q.Int64())
}

func (w *world) listings() {
	gs, ps := []register.GatewayRegister{}, []register.ProviderRegister{}
	for _, g := range w.gws {
		if g.reg == "unreg" {
			continue
		}
		r := register.GatewayRegister{NodeID: g.id, Address: g.addr.String(), RootSigningKey: g.key.Pub, SigningKey: g.key.Pub, RegionCode: g.region,
			NetworkInfoGateway: "127.0.0.1:1", NetworkInfoProvider: "127.0.0.1:1", NetworkInfoClient: g.host(), NetworkInfoAdmin: "127.0.0.1:1"}
		if g.reg == "bad" {
			switch g.bad % 6 {
			case 0:
				r.Address = ""
			case 1:
				r.NetworkInfoGateway = ""
			case 2:
				r.NetworkInfoProvider = ""
			case 3:
				r.NetworkInfoAdmin = ""
			case 4:
				r.RootSigningKey = "00"
			case 5:
				r.RegionCode = ""
			}
		}
		gs = append(gs, r)
	}
	for i, p := range w.pvs {
		if p.reg == "unreg" {
			continue
		}
		k := w.keys[w.pkey[i]].Pub
		r := register.ProviderRegister{NodeID: p.id, Address: "f0", RootSigningKey: k, SigningKey: k, RegionCode: "AU",
			NetworkInfoGateway: "127.0.0.1:1", NetworkInfoClient: p.host(), NetworkInfoAdmin: "127.0.0.1:1"}
		if p.reg == "bad" {
			switch p.bad % 5 {
			case 0:
				r.Address = ""
			case 1:
				r.NetworkInfoGateway = ""
			case 2:
				r.RegionCode = ""
			case 3:
				r.NetworkInfoAdmin = ""
			case 4:
				r.RootSigningKey = "zz"
			}
		}
		ps = append(ps, r)
	}
	w.reg.Set(gs, ps)
}

func newWorld(s *vt.Script, t *vt.Trace) *world {
	h := s.Hdr
	w := &world{s: s, rng: rand.New(rand.NewSource(int64(vt.I(h, "seed")))), calls: map[string]int{}, last: map[string][2]*big.Int{}, seen: map[string]int{}}
	w.unit, _ = new(big.Int).SetString(vt.S(h, "unit"), 10)
	w.reg, w.chain = nodekit.NewRegistry(), lotus.New()
	np := vt.I(h, "np")
	for i := 0; i < np+2; i++ {
		w.keys = append(w.keys, nodekit.NewKey())
	}
	for i := 0; i < np; i++ {
		i := i
		p := &node{id: hexID(w.rng), key: w.keys[i], other: w.keys[np], reg: vt.L(h, "preg")[i].(string), bad: w.rng.Intn(60)}
		p.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { w.serveProvider(i, rw, r) }))
		w.pvs = append(w.pvs, p)
		w.pkey = append(w.pkey, i)
	}
	for i, x := range vt.L(h, "greg") {
		i := i
		_, a := newAddr(w.rng)
		g := &node{id: hexID(w.rng), key: nodekit.NewKey(), other: nodekit.NewKey(), addr: a, reg: x.(string), bad: w.rng.Intn(60), region: vt.L(h, "region")[i].(string)}
		g.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { w.serveGateway(i, rw, r) }))
		w.gws = append(w.gws, g)
	}
	w.listings()
	like := hexID(w.rng)
	for i := 0; i < vt.I(h, "ncid"); i++ {
		x := hexID(w.rng)
		switch vt.I(h, "at") { // CIDs that have most of their digits in common
		case 1:
			x = like[:60] + x[:4]
		case 2:
			x = x[:4] + like[:60]
		}
		c, err := cid.NewContentIDFromHexString(x)
		if err != nil {
			panic(err)
		}
		w.cids = append(w.cids, *c)
	}
	w.offers = []*cidoffer.CIDOffer{nil}
	base := time.Now().Unix()
	for i, x := range vt.L(h, "offers") {
		o := x.(obj)
		cs := []cid.ContentID{}
		for _, k := range vt.Ints(o, "cids") {
			cs = append(cs, w.cids[k])
		}
		// what tells offers apart: the price, the quality of service or the expiry; the others are all alike
		at := []uint64{1000, 0, 1<<63 + 5, 1<<53 + 1}[vt.I(h, "at")%4]
		price, exp, qos := at, base+7200, at
		switch vt.S(h, "vary") {
		case "qos":
			qos = uint64(10 * i)
		case "exp":
			exp += int64(10 * i)
		default:
			price = uint64(1000 + 10*i)
		}
		of, err := cidoffer.NewCIDOffer(nid(w.pvs[vt.I(o, "prov")].id), cs, price, exp, qos)
		if err != nil {
			panic(err)
		}
		if err := of.Sign(w.keys[vt.I(o, "by")].KP, fcrcrypto.InitialKeyVersion()); err != nil {
			panic(err)
		}
		w.offers = append(w.offers, of)
	}
	for _, k := range []string{"np", "greg", "region", "preg", "ncid", "offers", "sp", "price", "top"} {
		t.Set(k, h[k])
	}
	bk, err := fcrcrypto.GenerateBlockchainKeyPair()
	if err != nil {
		panic(err)
	}
	b := fcrclient.CreateSettings()
	b.SetLogging("error", "STDOUT", "client")
	b.SetEstablishmentTTL(100)
	b.SetRegisterURL(w.reg.Srv.URL)
	b.SetBlockchainPrivateKey(bk)
	priv, a := newAddr(w.rng)
	w.wallet = a
	b.SetWalletPrivateKey(priv)
	b.SetLotusAP(w.chain.URL)
	b.SetLotusAuthToken("token")
	b.SetSearchPrice(w.val(vt.I(h, "sp")))
	b.SetOfferPrice(w.val(vt.I(h, "price")))
	b.SetTopUpAmount(w.val(vt.I(h, "top")))
	st := b.Build()
	w.id = st.ClientID()
	w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.reg.Srv.URL, true, true, time.Hour)
	if err := w.mgr.Start(); err != nil {
		panic(err)
	}
	w.mgr.Refresh()
	w.c, err = fcrclient.NewFilecoinRetrievalClient(*st, w.mgr)
	if err != nil {
		panic(err)
	}
	return w
}

func (w *world) close() {
	w.mgr.Shutdown()
	for _, n := range append(append([]*node{}, w.gws...), w.pvs...) {
		n.srv.CloseClientConnections()
		n.srv.Close()
	}
	w.chain.Close()
	// the manager's last calls to the registry may still be under way
	go func() { time.Sleep(200 * time.Millisecond); w.reg.Srv.Close() }()
}

// ---------------------------------------------------------------- answers

// alter a signed message
func (w *world) altered(m *fcrmessages.FCRMessage, k string) *fcrmessages.FCRMessage {
	var x obj
	b, _ := m.FCRMsgToBytes()
	json.Unmarshal(b, &x)
	for f, v := range x {
		s, ok := v.(string)
		if !ok || len(s) == 0 {
			continue
		}
		isSig := s == m.GetSignature()
		if k == "sig" && isSig {
			c := []byte(s)
			i := 20 + w.rng.Intn(60)
			c[i] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", c[i])+1+w.rng.Intn(14))%16]
			x[f] = string(c)
		}
		if k == "altered" && !isSig {
			x[f] = base64.StdEncoding.EncodeToString(append(m.GetMessageBody(), ' '))
		}
	}
	j, _ := json.Marshal(x)
	r, err := fcrmessages.FCRMsgFromBytes(j)
	if err != nil {
		panic(err)
	}
	return r
}

// sign as the plan says
func (w *world) signed(m *fcrmessages.FCRMessage, n *node, env string) *fcrmessages.FCRMessage {
	k := n.key
	if env == "wrongkey" {
		k = n.other
	}
	if env == "nosig" {
		return m
	}
	if err := m.Sign(k.KP, fcrcrypto.InitialKeyVersion()); err != nil {
		panic(err)
	}
	if env == "altered" || env == "sig" {
		return w.altered(m, env)
	}
	return m
}

// answer a request over HTTP
func (w *world) reply(rw http.ResponseWriter, m *fcrmessages.FCRMessage, n *node, env string) {
	switch env {
	case "err":
		http.Error(rw, "no", []int{400, 404, 500, 503, 204, 201}[w.rng.Intn(6)])
		return
	case "cut":
		c, _, err := rw.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
		return
	case "junk":
		fmt.Fprint(rw, []string{"", "null", "{}", "[]", "{\"message_type\":", "\"x\"", "{\"message_type\":5,\"message_body\":\"\",\"message_signature\":\"\"}"}[w.rng.Intn(7)])
		return
	case "othertype":
		m = must(fcrmessages.EncodeProviderPublishGroupOfferResponse(*nid(n.id), "00"))
	}
	b, err := w.signed(m, n, env).FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	rw.Header().Set("Content-Type", "application/json")
	rw.Write(b)
}

func request(r *http.Request) *fcrmessages.FCRMessage {
	b, err := ioutil.ReadAll(r.Body)
	if err != nil || r.URL.Path != "/v1" || r.Method != "POST" {
		return nil
	}
	m, err := fcrmessages.FCRMsgFromBytes(b)
	if err != nil {
		return nil
	}
	return m
}

// the sub-offers that the script puts into an answer about CID c
func (w *world) makeItems(plan obj, c int) ([]cidoffer.SubCIDOffer, []vt.M) {
	res, desc := []cidoffer.SubCIDOffer{}, []vt.M{}
	for _, x := range vt.L(plan, "items") {
		q := x.(obj)
		o, mut := vt.I(q, "o"), vt.S(q, "mut")
		sc := c
		in := vt.Ints(vt.L(w.s.Hdr, "offers")[o-1].(obj), "cids")
		if !has(in, c) {
			sc = in[w.rng.Intn(len(in))]
		}
		if mut == "foreign" { // an honest offer, for another CID
			sc, mut = in[w.rng.Intn(len(in))], ""
		}
		so, err := w.offers[o].GenerateSubCIDOffer(&w.cids[sc])
		if err != nil {
			panic(err)
		}
		prov, subc, root, proof := so.GetProviderID(), so.GetSubCID(), so.GetMerkleRoot(), so.GetMerkleProof()
		price, exp, qos, sig := so.GetPrice(), so.GetExpiry(), so.GetQoS(), so.GetSignature()
		claim := sc
		switch mut {
		case "price":
			price--
		case "exp":
			exp += 1005
		case "qos":
			qos++
		case "prov":
			prov = nid(w.pvs[(vt.I(vt.L(w.s.Hdr, "offers")[o-1].(obj), "prov")+1)%len(w.pvs)].id)
			if len(w.pvs) == 1 {
				prov = nid(hexID(w.rng))
			}
		case "nosig":
			sig = ""
		case "sig":
			b := []byte(sig)
			k := 20 + w.rng.Intn(60)
			b[k] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", b[k])+1+w.rng.Intn(14))%16]
			sig = string(b)
		case "root": // the offer's signature over a tree of the forger's own
			t, err := cidoffer.NewCIDOffer(prov, []cid.ContentID{w.cids[c]}, price, exp, qos)
			if err != nil {
				panic(err)
			}
			f, err := t.GenerateSubCIDOffer(&w.cids[c])
			if err != nil {
				panic(err)
			}
			if f.GetMerkleRoot() == root {
				price++
			}
			root, proof, subc, claim = f.GetMerkleRoot(), f.GetMerkleProof(), f.GetSubCID(), c
		case "subcid": // an honest offer with the CID replaced
			k := c
			if k == sc {
				k = (sc + 1) % len(w.cids)
			}
			subc, claim = &w.cids[k], k
		case "proof": // the proof of another tree
			t, err := cidoffer.NewCIDOffer(prov, []cid.ContentID{w.cids[sc], w.cids[(sc+1)%len(w.cids)], w.cids[(sc+2)%len(w.cids)]}, price, exp, qos)
			if err != nil {
				panic(err)
			}
			f, err := t.GenerateSubCIDOffer(&w.cids[sc])
			if err != nil {
				panic(err)
			}
			if f.GetMerkleRoot() == root {
				price++
			}
			proof = f.GetMerkleProof()
		case "noproof":
			proof = &fcrmerkletree.FCRMerkleProof{}
		}
		n := cidoffer.NewSubCIDOffer(prov, subc, root, proof, price, exp, qos, sig)
		j, err := n.MarshalJSON()
		if err != nil {
			if mut == "" {
				panic(err)
			}
			// not even representable: leave it out
			continue
		}
		// as received on the other side
		var back cidoffer.SubCIDOffer
		if back.UnmarshalJSON(j) != nil {
			continue
		}
		res = append(res, *n)
		d := vt.M{"o": o, "c": claim, "mut": mut}
		desc = append(desc, d)
		w.items = append(w.items, item{string(j), d})
	}
	return res, desc
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (w *world) cidIndex(c *cid.ContentID) int {
	for i := range w.cids {
		if w.cids[i].ToString() == c.ToString() {
			return i
		}
	}
	return -1
}

func (w *world) gwIndex(id string) int {
	for i, g := range w.gws {
		if g.id == id {
			return i
		}
	}
	return -1
}

func (w *world) digest(i int) string {
	if i < 1 {
		return hexID(w.rng)
	}
	return cidoffer.EncodeMessageDigest(w.offers[i].GetMessageDigest())
}

func (w *world) digests(l []int) []string {
	r := []string{}
	for _, i := range l {
		r = append(r, w.digest(i))
	}
	return r
}

func (w *world) digestIndexes(l []string) []int {
	r := []int{}
	for _, d := range l {
		k := -1
		for i := 1; i < len(w.offers); i++ {
			if w.digest(i) == d {
				k = i
			}
		}
		r = append(r, k)
	}
	return r
}

// what a voucher adds to what this gateway got before (-1: it is no good)
func (w *world) worth(g int, ch, v string) int {
	sv, err := paych.DecodeSignedVoucher(v)
	if err != nil {
		return -1
	}
	vb, err := sv.SigningBytes()
	if err != nil || sv.Signature == nil || sigs.Verify(sv.Signature, w.wallet, vb) != nil || sv.ChannelAddr.String() != ch {
		return -1
	}
	for _, c := range w.chain.Channels() {
		if c.Addr == sv.ChannelAddr && c.To == w.gws[g].addr && c.From == w.wallet && c.Balance.Cmp(sv.Amount.Int) >= 0 {
			k := fmt.Sprintf("%s/%d", ch, sv.Lane)
			l, ok := w.last[k]
			n := new(big.Int).SetUint64(sv.Nonce)
			if !ok {
				l = [2]*big.Int{big.NewInt(-1), big.NewInt(0)}
			}
			if n.Cmp(l[0]) <= 0 {
				return -2
			}
			w.last[k] = [2]*big.Int{n, sv.Amount.Int}
			return w.back(new(big.Int).Sub(sv.Amount.Int, l[1]))
		}
	}
	return -3
}

// the CID asked for, -2 if the nonce is one of an earlier operation
func (w *world) asked(c *cid.ContentID, nonce int64) int {
	k := fmt.Sprint(nonce)
	if n, ok := w.seen[k]; ok && n != w.opno {
		return -2
	}
	w.seen[k] = w.opno
	return w.cidIndex(c)
}

// the plan of the n-th request of a kind in the current operation
func (w *world) next(kind string) obj {
	n := w.calls[kind]
	w.calls[kind]++
	l := vt.L(w.plan, kind)
	if n >= len(l) {
		return obj{"env": "err"}
	}
	return l[n].(obj)
}

func answer(env string) vt.M {
	return vt.M{"env": env, "pay": false, "ds": []int{}, "items": []vt.M{}, "subs": []vt.M{}}
}

func (w *world) serveGateway(g int, rw http.ResponseWriter, r *http.Request) {
	m := request(r)
	w.mu.Lock()
	locked := true
	defer func() {
		if locked {
			w.mu.Unlock()
		}
	}()
	n := w.gws[g]
	e := vt.M{"g": g, "kind": "?", "c": -1, "amt": 0, "n": 0, "gs": []int{}, "dss": [][]int{}, "ans": answer("err")}
	w.req = append(w.req, e)
	if m == nil {
		http.Error(rw, "bad request", 400)
		return
	}
	none := []bool{}
	switch m.GetMessageType() {
	case fcrmessages.ClientEstablishmentRequestType:
		e["kind"] = "est"
		id, ch, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(m)
		_, old := w.seen["challenge "+ch]
		w.seen["challenge "+ch] = w.opno
		if err == nil && id.ToString() == w.id.ToString() && ttl >= time.Now().Unix() && len(ch) > 20 && !old {
			e["c"] = 0
		}
		p, _ := sub(w.plan, "est")[fmt.Sprint(g)].(string)
		if h := w.hold; h != nil {
			w.hold = nil
			locked = false
			w.mu.Unlock()
			h()
			w.mu.Lock()
			locked = true
		}
		who := n.id
		switch p {
		case "challenge":
			b := []byte(ch)
			i := w.rng.Intn(len(b) - 2)
			if b[i] == 'A' {
				b[i] = 'B'
			} else {
				b[i] = 'A'
			}
			ch = string(b)
		case "nochallenge":
			ch = ""
		case "gwid":
			who = hexID(w.rng)
			if len(w.gws) > 1 {
				who = w.gws[(g+1)%len(w.gws)].id
			}
		}
		w.reply(rw, must(fcrmessages.EncodeClientEstablishmentResponse(nid(who), ch)), n, p)
	case fcrmessages.ClientStandardDiscoverRequestType:
		p := w.next("std")
		c, nn, _, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(m)
		if err != nil {
			http.Error(rw, "bad request", 400)
			return
		}
		e["kind"], e["c"] = "std", w.asked(c, nn)
		env := vt.S(p, "env")
		it, desc := w.makeItems(p, w.cidIndex(c))
		a := answer(env)
		a["items"], e["ans"] = desc, a
		rc, rn := w.echo(c, nn, env)
		w.reply(rw, must(fcrmessages.EncodeClientStandardDiscoverResponse(rc, rn, len(it) > 0, it, none)), n, env)
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		p := w.next("std2")
		c, nn, _, ch, v, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(m)
		if err != nil {
			http.Error(rw, "bad request", 400)
			return
		}
		e["kind"], e["c"], e["amt"] = "std2", w.asked(c, nn), w.worth(g, ch, v)
		env := vt.S(p, "env")
		a := answer(env)
		a["pay"], a["ds"], e["ans"] = vt.B(p, "pay"), vt.Ints(p, "ds"), a
		rc, rn := w.echo(c, nn, env)
		w.reply(rw, must(fcrmessages.EncodeClientStandardDiscoverResponseV2(rc, rn, !vt.B(p, "pay"), w.digests(vt.Ints(p, "ds")), none, vt.B(p, "pay"), ch)), n, env)
	case fcrmessages.ClientStandardDiscoverOfferRequestType:
		p := w.next("stdoffer")
		c, nn, _, ds, ch, v, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
		if err != nil {
			http.Error(rw, "bad request", 400)
			return
		}
		e["kind"], e["c"], e["amt"], e["dss"] = "stdoffer", w.asked(c, nn), w.worth(g, ch, v), [][]int{w.digestIndexes(ds)}
		env := vt.S(p, "env")
		it, desc := w.makeItems(p, w.cidIndex(c))
		a := answer(env)
		a["pay"], a["items"], e["ans"] = vt.B(p, "pay"), desc, a
		rc, rn := w.echo(c, nn, env)
		w.reply(rw, must(fcrmessages.EncodeClientStandardDiscoverOfferResponse(rc, rn, len(it) > 0, it, none, vt.B(p, "pay"), ch)), n, env)
	case fcrmessages.ClientDHTDiscoverRequestType:
		p := w.next("dht")
		c, nn, _, num, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(m)
		if err != nil {
			http.Error(rw, "bad request", 400)
			return
		}
		e["kind"], e["c"], e["n"] = "dht", w.asked(c, nn), num
		ids, ms, desc := w.subs(p, "dht", w.cidIndex(c), nn, "")
		a := answer(vt.S(p, "env"))
		a["pay"], a["subs"], e["ans"] = vt.B(p, "pay"), desc, a
		env := vt.S(p, "env")
		_, rn := w.echo(c, nn, env)
		ids, ms = w.count(ids, ms, env)
		w.reply(rw, must(fcrmessages.EncodeClientDHTDiscoverResponse(ids, ms, []nodeid.NodeID{*nid(hexID(w.rng))}, rn, vt.B(p, "pay"), "")), n, env)
	case fcrmessages.ClientDHTDiscoverRequestV2Type:
		p := w.next("dht2")
		c, nn, _, num, _, ch, v, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(m)
		if err != nil {
			http.Error(rw, "bad request", 400)
			return
		}
		e["kind"], e["c"], e["n"], e["amt"] = "dht2", w.asked(c, nn), num, w.worth(g, ch, v)
		ids, ms, desc := w.subs(p, "dht2", w.cidIndex(c), nn, ch)
		a := answer(vt.S(p, "env"))
		a["pay"], a["subs"], e["ans"] = vt.B(p, "pay"), desc, a
		if vt.B(p, "pay") {
			ids, ms, a["subs"] = nil, nil, []vt.M{}
		}
		env := vt.S(p, "env")
		_, rn := w.echo(c, nn, env)
		ids, ms = w.count(ids, ms, env)
		w.reply(rw, must(fcrmessages.EncodeClientDHTDiscoverResponseV2(ids, ms, []nodeid.NodeID{}, rn, vt.B(p, "pay"), ch)), n, env)
	case fcrmessages.ClientDHTDiscoverOfferRequestType:
		p := w.next("dhtoffer")
		c, nn, dss, gids, ch, v, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
		if err != nil {
			http.Error(rw, "bad request", 400)
			return
		}
		gs, ds := []int{}, [][]int{}
		for i := range gids {
			gs = append(gs, w.gwIndex(gids[i].ToString()))
		}
		for _, d := range dss {
			ds = append(ds, w.digestIndexes(d))
		}
		e["kind"], e["c"], e["gs"], e["dss"], e["amt"] = "dhtoffer", w.asked(c, nn), gs, ds, w.worth(g, ch, v)
		ids, ms, desc := w.subs(p, "dhtoffer", w.cidIndex(c), nn, ch)
		a := answer(vt.S(p, "env"))
		a["pay"], a["subs"], e["ans"] = vt.B(p, "pay"), desc, a
		env := vt.S(p, "env")
		rc, rn := w.echo(c, nn, env)
		ids, ms = w.count(ids, ms, env)
		w.reply(rw, must(fcrmessages.EncodeClientDHTDiscoverOfferResponse(rc, rn, ids, ms, vt.B(p, "pay"), ch)), n, env)
	default:
		e["kind"] = fmt.Sprint(m.GetMessageType())
		http.Error(rw, "bad request", 400)
	}
}

func (w *world) echo(c *cid.ContentID, n int64, env string) (*cid.ContentID, int64) {
	switch env {
	case "nonce":
		return c, []int64{n + 1 + int64(w.rng.Intn(3)), 0, -n - 1, n ^ 1<<40, n&(1<<31-1) ^ 1<<50, n ^ 1, -1}[w.rng.Intn(7)]
	case "cid": // another CID of the scenario, or one that differs in a single digit
		if w.rng.Intn(2) == 0 {
			return &w.cids[(w.cidIndex(c)+1)%len(w.cids)], n
		}
		b := []byte(c.ToString())
		k := []int{0, len(b) - 1, w.rng.Intn(len(b))}[w.rng.Intn(3)]
		b[k] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", b[k])+1+w.rng.Intn(15))%16]
		x, err := cid.NewContentIDFromHexString(string(b))
		if err != nil {
			panic(err)
		}
		return x, n
	}
	return c, n
}

// an answer whose lists do not match
func (w *world) count(ids []nodeid.NodeID, ms []fcrmessages.FCRMessage, env string) ([]nodeid.NodeID, []fcrmessages.FCRMessage) {
	if env != "count" {
		return ids, ms
	}
	if len(ms) > 0 && w.rng.Intn(2) == 0 {
		return ids, ms[:len(ms)-1]
	}
	return append(ids, *nid(w.gws[0].id)), ms
}

// the answers of other gateways that an answer carries
func (w *world) subs(plan obj, kind string, c int, nonce int64, ch string) ([]nodeid.NodeID, []fcrmessages.FCRMessage, []vt.M) {
	ids, ms, out := []nodeid.NodeID{}, []fcrmessages.FCRMessage{}, []vt.M{}
	for _, x := range vt.L(plan, "subs") {
		q := x.(obj)
		g := vt.I(q, "g")
		n := w.gws[g]
		env := vt.S(q, "env")
		if env == "swap" && len(w.gws) == 1 {
			env = "wrongkey"
		}
		d := vt.M{"g": g, "env": env, "pay": vt.B(q, "pay"), "found": vt.B(q, "found"), "ds": vt.Ints(q, "ds"), "items": []vt.M{}}
		rc, rn := w.echo(&w.cids[c], nonce, env)
		var m *fcrmessages.FCRMessage
		switch kind {
		case "dht":
			it, desc := w.makeItems(q, c)
			d["items"] = desc
			m = must(fcrmessages.EncodeGatewayDHTDiscoverResponse(rc, rn, len(it) > 0, it, []bool{}))
		case "dht2":
			ds := w.digests(vt.Ints(q, "ds"))
			m = must(fcrmessages.EncodeGatewayDHTDiscoverResponseV2(rc, rn, vt.B(q, "found"), ds, []bool{}, vt.B(q, "pay"), ch))
		case "dhtoffer":
			it, desc := w.makeItems(q, c)
			d["items"] = desc
			m = must(fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(rc, rn, len(it) > 0, it, []bool{}, vt.B(q, "pay"), ch))
		}
		switch env {
		case "othertype":
			m = must(fcrmessages.EncodeProviderPublishGroupOfferResponse(*nid(n.id), "00"))
		case "junk":
			m = fcrmessages.CreateFCRMessage(m.GetMessageType(), []byte([]string{"", "null", "{", "[]", "{}"}[w.rng.Intn(5)]))
		}
		m = w.signed(m, n, env)
		id := n.id
		if env == "swap" { // another gateway's name on it
			id = w.gws[(g+1)%len(w.gws)].id
			d["g"] = (g + 1) % len(w.gws)
		}
		out = append(out, d)
		ids, ms = append(ids, *nid(id)), append(ms, *m)
	}
	return ids, ms, out
}

func (w *world) serveProvider(i int, rw http.ResponseWriter, r *http.Request) {
	m := request(r)
	w.mu.Lock()
	defer w.mu.Unlock()
	e := vt.M{"g": -1 - i, "kind": "?", "c": -1, "amt": 0, "n": 0, "gs": []int{}, "dss": [][]int{}, "ans": answer("err")}
	w.req = append(w.req, e)
	if m == nil || m.GetMessageType() != fcrmessages.ClientDHTOfferAckRequestType {
		http.Error(rw, "bad request", 400)
		return
	}
	c, gid, err := fcrmessages.DecodeClientDHTOfferAckRequest(m)
	if err != nil {
		http.Error(rw, "bad request", 400)
		return
	}
	e["kind"], e["c"], e["gs"] = "ack", w.cidIndex(c), []int{w.gwIndex(gid.ToString())}
	n := *w.pvs[i]
	n.key = w.keys[w.pkey[i]]
	p := w.plan
	// the publication
	q := sub(p, "msg")
	l := []cidoffer.CIDOffer{}
	for _, o := range vt.Ints(q, "os") {
		l = append(l, *w.offers[o])
	}
	nonce := w.rng.Int63()
	pub := must(fcrmessages.EncodeProviderPublishDHTOfferRequest(nid(n.id), nonce, l))
	switch vt.S(q, "env") {
	case "othertype":
		pub = must(fcrmessages.EncodeProviderPublishGroupOfferResponse(*nid(n.id), "00"))
	case "junk":
		pub = fcrmessages.CreateFCRMessage(pub.GetMessageType(), []byte([]string{"", "null", "{", "[]", "{}"}[w.rng.Intn(5)]))
	}
	if vt.S(q, "env") == "by" {
		pub.Sign(w.keys[vt.I(q, "by")].KP, fcrcrypto.InitialKeyVersion())
	} else {
		pub = w.signed(pub, &n, vt.S(q, "env"))
	}
	// the acknowledgement
	a := sub(p, "ack")
	gk := w.gws[0]
	if k := vt.I(a, "by"); k >= 0 && k < len(w.gws) {
		gk = w.gws[k]
	}
	over := pub.GetMessageBody()
	switch vt.S(a, "inner") {
	case "othermsg":
		over = append(append([]byte{}, over...), ' ')
	}
	ik := gk.key
	if vt.S(a, "inner") == "otherkey" {
		ik = gk.other
	}
	inner, err := fcrcrypto.SignMessage(ik.KP, fcrcrypto.InitialKeyVersion(), over)
	if err != nil {
		panic(err)
	}
	if vt.S(a, "inner") == "empty" {
		inner = ""
	}
	ack := must(fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, inner))
	switch vt.S(a, "env") {
	case "othertype":
		ack = must(fcrmessages.EncodeProviderPublishGroupOfferResponse(*nid(n.id), "00"))
	case "junk":
		ack = fcrmessages.CreateFCRMessage(ack.GetMessageType(), []byte([]string{"", "null", "{", "[]", "{}"}[w.rng.Intn(5)]))
	}
	ack = w.signed(ack, gk, vt.S(a, "env"))
	if vt.B(p, "nomsgs") {
		pub, ack = &fcrmessages.FCRMessage{}, &fcrmessages.FCRMessage{}
	}
	w.reply(rw, must(fcrmessages.EncodeClientDHTOfferAckResponse(c, gid, vt.B(p, "found"), pub, ack)), &n, vt.S(p, "env"))
}

// ---------------------------------------------------------------- operations

func (w *world) ids(gs []int) []*nodeid.NodeID {
	r := []*nodeid.NodeID{}
	for _, g := range gs {
		if g < 0 {
			r = append(r, nid(hexID(w.rng)))
		} else {
			r = append(r, nid(w.gws[g].id))
		}
	}
	return r
}

func (w *world) gid(g int) *nodeid.NodeID { return w.ids([]int{g})[0] }

func (w *world) indexes(ids []*nodeid.NodeID) []int {
	r := []int{}
	for _, id := range ids {
		r = append(r, w.gwIndex(id.ToString()))
	}
	sort.Ints(r)
	return r
}

func (w *world) offersOut(l []cidoffer.SubCIDOffer) []vt.M {
	r := []vt.M{}
	for i := range l {
		j, _ := l[i].MarshalJSON()
		e := vt.M{"o": 0, "c": -1, "mut": "unknown"}
		w.mu.Lock()
		for _, it := range w.items {
			if it.json == string(j) {
				e = it.e
				if it.e["mut"] == "" {
					break
				}
			}
		}
		w.mu.Unlock()
		r = append(r, vt.M{"o": e["o"], "c": e["c"], "mut": e["mut"]})
	}
	return r
}

func (w *world) sets(op vt.M) int {
	gs := w.ids(vt.Ints(op, "gs"))
	switch vt.S(op, "op") {
	case "use":
		return w.c.AddGatewaysToUse(gs)
	case "unuse":
		return w.c.RemoveGatewaysToUse(gs)
	case "unuseall":
		return w.c.RemoveAllGatewaysToUse()
	case "act":
		return w.c.AddActiveGateways(gs)
	case "deact":
		return w.c.RemoveActiveGateways(gs)
	case "deactall":
		return w.c.RemoveAllActiveGateways()
	}
	panic("op " + vt.S(op, "op"))
}

func (w *world) do(op vt.M) vt.M {
	w.mu.Lock()
	w.plan, w.calls, w.req, w.items, w.hold = op, map[string]int{}, []vt.M{}, nil, nil
	w.opno++
	w.mu.Unlock()
	w.chain.Exit = func() int {
		if vt.B(op, "chainfail") {
			return 16
		}
		return 0
	}
	w.chain.Pushes()
	ev := vt.M{}
	for k, v := range op {
		ev[k] = v
	}
	ev["out"], ev["map"], ev["err"], ev["yes"], ev["num"] = []vt.M{}, []vt.M{}, false, false, 0
	var err error
	switch vt.S(op, "op") {
	case "use", "unuse", "unuseall", "deact", "deactall", "act":
		done := make(chan int, 1)
		d := sub(op, "during")
		if d != nil {
			w.mu.Lock()
			w.hold = func() {
				go func() { done <- w.sets(d) }()
				select {
				case n := <-done:
					done <- n
				case <-time.After(250 * time.Millisecond):
				}
			}
			w.mu.Unlock()
		}
		ev["num"] = w.sets(op)
		ev["dnum"] = -1
		if d != nil {
			w.mu.Lock()
			late := w.hold != nil
			w.hold = nil
			w.mu.Unlock()
			if late { // nobody was asked: it comes afterwards
				ev["dnum"] = w.sets(d)
			} else {
				ev["dnum"] = <-done
			}
		}
	case "find":
		var l []*nodeid.NodeID
		l, err = w.c.FindGateways(vt.S(op, "loc"), vt.I(op, "max"))
		ev["found"] = w.indexes(l)
	case "late":
		if vt.S(op, "kind") == "g" {
			w.gws[vt.I(op, "i")].reg = "ok"
		} else {
			w.pvs[vt.I(op, "i")].reg = "ok"
		}
		w.listings()
		w.mgr.Refresh()
	case "prekey":
		w.pkey[vt.I(op, "p")] = vt.I(op, "k")
		w.listings()
		w.mgr.Refresh()
	case "std":
		var l []cidoffer.SubCIDOffer
		l, err = w.c.FindOffersStandardDiscovery(&w.cids[vt.I(op, "c")], w.gid(vt.I(op, "g")))
		ev["out"] = w.offersOut(l)
	case "std2":
		var l []cidoffer.SubCIDOffer
		l, err = w.c.FindOffersStandardDiscoveryV2(&w.cids[vt.I(op, "c")], w.gid(vt.I(op, "g")), vt.I(op, "max"))
		ev["out"] = w.offersOut(l)
	case "dht":
		var m map[string]*[]cidoffer.SubCIDOffer
		m, err = w.c.FindOffersDHTDiscovery(&w.cids[vt.I(op, "c")], w.gid(vt.I(op, "g")), int64(vt.I(op, "n")))
		ev["map"] = w.mapOut(m)
	case "dht2":
		var m map[string]*[]cidoffer.SubCIDOffer
		m, err = w.c.FindOffersDHTDiscoveryV2(&w.cids[vt.I(op, "c")], w.gid(vt.I(op, "g")), int64(vt.I(op, "n")), vt.I(op, "max"))
		ev["map"] = w.mapOut(m)
	case "ack":
		pid := nid(hexID(w.rng))
		if p := vt.I(op, "p"); p >= 0 {
			pid = nid(w.pvs[p].id)
		}
		ev["yes"], err = w.c.FindDHTOfferAck(&w.cids[vt.I(op, "c")], w.gid(vt.I(op, "g")), pid)
	default:
		panic("op " + vt.S(op, "op"))
	}
	ev["err"] = err != nil
	ev["use"], ev["act"] = w.indexes(w.c.GetGatewaysToUse()), w.indexes(w.c.GetActiveGateways())
	w.mu.Lock()
	ev["req"] = w.req
	w.mu.Unlock()
	push := []vt.M{}
	for _, p := range w.chain.Pushes() {
		g := -1
		for i, n := range w.gws {
			if n.addr == p.To || (p.Chan != nil && p.Chan.To == n.addr) {
				g = i
			}
		}
		push = append(push, vt.M{"g": g, "amt": w.back(p.Value), "new": p.Create, "ok": p.Exit == 0})
	}
	ev["push"] = push
	return ev
}

func (w *world) mapOut(m map[string]*[]cidoffer.SubCIDOffer) []vt.M {
	r := []vt.M{}
	for k, l := range m {
		if l == nil || len(*l) == 0 {
			continue
		}
		r = append(r, vt.M{"g": w.gwIndex(k), "out": w.offersOut(*l)})
	}
	return r
}

func main() {
	// the chain library wants the signature algorithm registered once
	fcrpaymentmgr.NewFCRPaymentMgr(strings.Repeat("01", 32), "http://127.0.0.1:1", "")
	vt.Main(func(s *vt.Script, t *vt.Trace) {
		w := newWorld(s, t)
		for _, op := range s.Ops {
			op := op
			var ev vt.M
			if !t.Step(vt.S(op, "op"), 30*time.Second, func() { ev = w.do(op) }) {
				return
			}
			t.Add(ev)
		}
		w.close()
	})
}
