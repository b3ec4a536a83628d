// Conformance driver for the gateway program: one process per scenario, with
// a stand-in registry, chain node, providers, peers and clients.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/go-address"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/lib/sigs"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/lotus"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/nodekit"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

const far = 1 << 30

type wallet struct {
	priv []byte
	addr address.Address
}

func newWallet(rng *rand.Rand) wallet {
	p := make([]byte, 32)
	rng.Read(p)
	p[0] = 1
	pub, err := sigs.ToPublic(crypto2.SigTypeSecp256k1, p)
	if err != nil {
		panic(err)
	}
	a, err := address.NewSecp256k1Address(pub)
	if err != nil {
		panic(err)
	}
	return wallet{p, a}
}

func id32(first int, rng *rand.Rand) string {
	b := make([]byte, 32)
	b[0] = byte(first)
	if rng != nil {
		rng.Read(b[1:])
	}
	return hex.EncodeToString(b)
}

func nid(h string) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromHexString(h)
	if err != nil {
		panic(err)
	}
	return n
}

type seen struct {
	kind  string
	cid   string
	sig   int
	nonce int64
	ds    []string
	ch, v string
}

type peer struct {
	n      int
	id     string
	key    nodekit.Key
	other  nodekit.Key
	w      wallet
	beh    string
	l      *nodekit.Listener
	mu     sync.Mutex
	got    []seen
	sent   []string // signatures of the answers given
	serial int64
}

type laneSt struct{ next, total int }

type world struct {
	s        *vt.Script
	t        *vt.Trace
	rng      *rand.Rand
	base     time.Time
	dir      string
	unit     *big.Int
	reg      *nodekit.Registry
	chain    *lotus.Node
	cids     []cid.ContentID
	provs    []string // node ids
	keys     []nodekit.Key
	regKey   []int // provider -> key
	provFk   []*provider
	peers    []*peer
	gid      string
	gkeys    []nodekit.Key
	me       wallet
	signers  []wallet
	chans    []address.Address
	lanes    map[[2]int]*laneSt
	last     map[[2]int]vt.M
	offers   []*cidoffer.CIDOffer // from 1
	ports    int
	hold     io.Closer
	p        *nodekit.Proc
	inited   bool
	conns    map[int]net.Conn
	outgoing map[string]bool
	par      bool
	parMu    sync.Mutex
}

type provider struct {
	l     *nodekit.Listener
	mu    sync.Mutex
	plan  *pullPlan
	notes []vt.M
	kind  string
}

type pullPlan struct {
	resp     *fcrmessages.FCRMessage
	ack      chan *fcrmessages.FCRMessage
	min, max string
	sig      int
}

func (w *world) ms() int { return int(time.Since(w.base) / time.Millisecond) }

func (w *world) val(k int) *big.Int { return new(big.Int).Mul(big.NewInt(int64(k)), w.unit) }

func (w *world) back(v *big.Int) int {
	q, r := new(big.Int).QuoRem(v, w.unit, new(big.Int))
	if r.Sign() != 0 || !q.IsInt64() || q.Int64() > far || q.Int64() < -far {
		return -999999
	}
	return int(q.Int64())
}

func (w *world) listings() {
	gs := []register.GatewayRegister{}
	add := func(id, addr, key, gnet string) {
		gs = append(gs, register.GatewayRegister{NodeID: id, Address: addr, RootSigningKey: key, SigningKey: key, RegionCode: "AU",
			NetworkInfoGateway: gnet, NetworkInfoProvider: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
	}
	for _, p := range w.peers {
		addr := "127.0.0.1:1"
		if p.l != nil {
			addr = p.l.Addr
		}
		add(p.id, p.w.addr.String(), p.key.Pub, addr)
	}
	add(w.gid, w.me.addr.String(), w.gkeys[0].Pub, fmt.Sprintf("127.0.0.1:%d", w.ports+2))
	ps := []register.ProviderRegister{}
	for i, id := range w.provs {
		if w.regKey[i] < 0 {
			continue
		}
		k := w.keys[w.regKey[i]].Pub
		addr := "127.0.0.1:1"
		if w.provFk[i] != nil {
			addr = w.provFk[i].l.Addr
		}
		ps = append(ps, register.ProviderRegister{NodeID: id, Address: "f0", RootSigningKey: k, SigningKey: k, RegionCode: "AU",
			NetworkInfoGateway: addr, NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
	}
	w.reg.Set(gs, ps)
}

func (w *world) start() {
	env := []string{
		fmt.Sprintf("BIND_REST_API=%d", w.ports), fmt.Sprintf("BIND_PROVIDER_API=%d", w.ports+1),
		fmt.Sprintf("BIND_GATEWAY_API=%d", w.ports+2), fmt.Sprintf("BIND_ADMIN_API=%d", w.ports+3),
		"REGISTER_API_URL=" + w.reg.Srv.URL, "LOG_LEVEL=error", "LOG_TARGET=STDOUT", "LOG_SERVICE_NAME=gateway",
		"GATEWAY_ID=" + w.gid, "TCP_INACTIVITY_TIMEOUT=" + vt.S(w.s.Hdr, "tcp"), "TCP_LONG_INACTIVITY_TIMEOUT=5s",
		"SEARCH_PRICE=" + w.val(vt.I(w.s.Hdr, "sp")).String(), "OFFER_PRICE=" + w.val(vt.I(w.s.Hdr, "op")).String(),
		"TOPUP_AMOUNT=" + w.val(vt.I(w.s.Hdr, "top")).String(),
	}
	for tries := 0; ; tries++ {
		w.reg.ResetServed()
		w.p = nodekit.Start(os.Getenv("VERIF_GATEWAY"), w.dir, env, filepath.Join(w.dir, "log"))
		for i := 0; i < 4000 && w.reg.Served() == 0 && !w.p.Dead(); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		if !w.p.Dead() && w.reg.Served() > 0 && w.listening() {
			return
		}
		if tries == 3 {
			fmt.Fprintln(os.Stderr, "the gateway does not start: "+w.p.Why())
			os.Exit(4)
		}
		if !w.p.Dead() {
			w.p.Kill()
		}
	}
}

func (w *world) listening() bool {
	for i := 0; i < 4; i++ {
		ok := false
		for j := 0; j < 400 && !ok; j++ {
			c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", w.ports+i))
			if err == nil {
				c.Close()
				ok = true
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func newWorld(s *vt.Script, t *vt.Trace) *world {
	w := &world{s: s, t: t, rng: rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed")))), lanes: map[[2]int]*laneSt{}, last: map[[2]int]vt.M{}}
	h := s.Hdr
	w.base = time.Unix(time.Now().Unix(), 0)
	dir, err := ioutil.TempDir("", "verifgw")
	if err != nil {
		panic(err)
	}
	w.dir = dir
	w.unit, _ = new(big.Int).SetString(vt.S(h, "unit"), 10)
	w.reg, w.chain = nodekit.NewRegistry(), lotus.New()
	for _, k := range vt.Ints(h, "cids") {
		c, err := cid.NewContentIDFromHexString(id32(k, nil))
		if err != nil {
			panic(err)
		}
		w.cids = append(w.cids, *c)
	}
	// keys 0..np-1 belong to the providers, the others to nobody
	np := vt.I(h, "np")
	for i := 0; i < np+2; i++ {
		w.keys = append(w.keys, nodekit.NewKey())
	}
	for i := 0; i < np; i++ {
		w.provs = append(w.provs, id32(200+i, w.rng))
		w.regKey = append(w.regKey, i)
		w.provFk = append(w.provFk, w.newProvider(i))
	}
	for _, i := range vt.Ints(h, "unreg") {
		w.regKey[i] = -1
	}
	for i := 0; i < 3; i++ {
		w.gkeys = append(w.gkeys, nodekit.NewKey())
	}
	w.gid = id32(vt.I(h, "gpos"), nil)
	w.me = newWallet(w.rng)
	for i, b := range vt.L(h, "peers") {
		m := b.(map[string]interface{})
		w.peers = append(w.peers, w.newPeer(i, vt.I(m, "pos"), vt.S(m, "beh")))
	}
	w.signers = []wallet{newWallet(w.rng), newWallet(w.rng), w.me}
	other := newWallet(w.rng)
	bal := vt.Ints(h, "bal")
	for i, pay := range []int{0, 0, 1, 0} {
		to := w.me.addr
		if i == 3 {
			to = other.addr
		}
		w.chans = append(w.chans, w.chain.NewChannel(w.signers[pay].addr, to, w.val(bal[i])).Addr)
	}
	ghost, _ := address.NewActorAddress([]byte(w.dir))
	w.chans = append(w.chans, ghost)
	w.offers = []*cidoffer.CIDOffer{nil}
	tab := []vt.M{}
	for i, x := range vt.L(h, "offers") {
		o := x.(map[string]interface{})
		of, rel := w.makeOffer(o, i)
		w.offers = append(w.offers, of)
		dg := i + 1
		if vt.I(o, "like") > 0 {
			dg = vt.I(o, "like")
		}
		tab = append(tab, vt.M{"dg": dg, "cids": vt.Ints(o, "cids"), "exp": rel, "prov": vt.I(o, "prov"), "by": vt.I(o, "by"), "bad": vt.S(o, "bad") != ""})
	}
	t.Set("off", tab)
	t.Set("np", np)
	t.Set("unreg", vt.Ints(h, "unreg"))
	t.Set("bal", bal)
	t.Set("sp", vt.I(h, "sp"))
	t.Set("price", vt.I(h, "op"))
	t.Set("gpos", vt.I(h, "gpos"))
	t.Set("cids", vt.Ints(h, "cids"))
	t.Set("peers", h["peers"])
	w.ports, w.hold = nodekit.Ports(4)
	w.listings()
	return w
}

func (w *world) close() {
	if w.p != nil && !w.p.Dead() {
		w.p.Kill()
	}
	w.chain.Close()
	w.reg.Srv.Close()
	for _, p := range w.peers {
		if p.l != nil {
			p.l.Close()
		}
	}
	for _, p := range w.provFk {
		p.l.Close()
	}
	w.hold.Close()
	os.RemoveAll(w.dir)
}

// what tells offers apart: the price, the quality of service or the expiry carries the offer's number and
// the others are all alike, at ordinary or extreme values
func alike(s *vt.Script, n int, kind string, exp int64, rel int) (uint64, uint64, int64, int) {
	at := []uint64{1000, 0, 1<<63 + 5, 1<<53 + 1}[vt.I(s.Hdr, "at")%4]
	switch vary := vt.S(s.Hdr, "vary"); {
	case vary == "qos" || vary == "exp" && kind == "soon":
		return at, uint64(42 + n), exp, rel
	case vary == "exp":
		if kind == "past" {
			n = -n
		}
		if rel != far {
			rel += n * 1000
		}
		return at, at, exp + int64(n), rel
	}
	return uint64(1000 + n), at, exp, rel
}

func (w *world) makeOffer(o vt.M, i int) (*cidoffer.CIDOffer, int) {
	cs := []cid.ContentID{}
	for _, k := range vt.Ints(o, "cids") {
		cs = append(cs, w.cids[k])
	}
	exp, rel := w.base.Unix()+3600, 3600*1000
	switch vt.S(o, "exp") {
	case "past":
		exp, rel = w.base.Unix()-100, -100*1000
	case "huge":
		exp, rel = 1<<62, far
	case "soon":
		exp, rel = w.base.Unix()+int64(vt.I(o, "in")), vt.I(o, "in")*1000
	}
	pr := i
	if vt.I(o, "like") > 0 {
		pr = vt.I(o, "like") - 1
	}
	price, qos, exp, rel := alike(w.s, pr, vt.S(o, "exp"), exp, rel)
	of, err := cidoffer.NewCIDOffer(nid(w.provs[vt.I(o, "prov")]), cs, price, exp, qos)
	if err != nil {
		panic(err)
	}
	if err := of.Sign(w.keys[vt.I(o, "by")].KP, fcrcrypto.InitialKeyVersion()); err != nil {
		panic(err)
	}
	switch vt.S(o, "bad") {
	case "sig":
		b := []byte(of.GetSignature())
		k := 20 + w.rng.Intn(60)
		b[k] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", b[k])+1+w.rng.Intn(14))%16]
		of.SetSignature(string(b))
	case "price", "cids", "exp":
		x := *of
		pr2, e2, cs2 := price+uint64(500000+i), exp, cs
		if vt.S(o, "bad") == "cids" {
			pr2, cs2 = price, append([]cid.ContentID{}, cs...)
			cs2[w.rng.Intn(len(cs2))] = w.cids[w.rng.Intn(len(w.cids))]
			if fmt.Sprint(cs2) == fmt.Sprint(cs) {
				pr2 = price + uint64(500000+i)
			}
		}
		if vt.S(o, "bad") == "exp" {
			pr2, e2 = price, exp+1
			if vt.S(w.s.Hdr, "vary") == "exp" {
				e2 += 5000
				rel += 5000000
			}
			rel += 1000
		}
		y, err := cidoffer.NewCIDOffer(x.GetProviderID(), cs2, pr2, e2, x.GetQoS())
		if err != nil {
			panic(err)
		}
		y.SetSignature(of.GetSignature())
		of = y
	case "nosig":
		of.SetSignature("")
	}
	return of, rel
}

// which offer a sub-offer for a CID was made from (0: none)
func (w *world) subIndex(so *cidoffer.SubCIDOffer, c int) int {
	for i := 1; i < len(w.offers); i++ {
		o := w.offers[i]
		exp, err := o.GenerateSubCIDOffer(&w.cids[c])
		if err != nil {
			continue
		}
		a, _ := exp.MarshalJSON()
		b, err := so.MarshalJSON()
		if err != nil || string(a) != string(b) {
			continue
		}
		if so.VerifyMerkleProof() != nil {
			continue
		}
		return i
	}
	return 0
}

func (w *world) digest(i int) string {
	switch {
	case i == -1:
		b := make([]byte, 32)
		w.rng.Read(b)
		return hex.EncodeToString(b)
	case i == -2:
		return []string{"", "zz", "abc", strings.Repeat("0", 62), strings.Repeat("0", 80), "0x12"}[w.rng.Intn(6)]
	}
	return cidoffer.EncodeMessageDigest(w.offers[i].GetMessageDigest())
}

func (w *world) digestIndex(d string) int {
	for i := 1; i < len(w.offers); i++ {
		if cidoffer.EncodeMessageDigest(w.offers[i].GetMessageDigest()) == d {
			return i
		}
	}
	return 0
}

// who signed a message: the gateway's key and the version it named
func (w *world) signed(ev vt.M, m *fcrmessages.FCRMessage) {
	ev["sk"], ev["sv"] = -1, -1
	if m == nil {
		return
	}
	for i, k := range w.gkeys {
		pub, err := fcrcrypto.DecodePublicKey(k.Pub)
		if err == nil && m.Verify(pub) == nil {
			ev["sk"] = i
		}
	}
	if v, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature()); err == nil {
		ev["sv"] = int(v.EncodeKeyVersion() % (1 << 30))
	}
}

func (w *world) sign(m *fcrmessages.FCRMessage, k nodekit.Key, tamper string) *fcrmessages.FCRMessage {
	if tamper == "nosig" {
		return m
	}
	if err := m.Sign(k.KP, fcrcrypto.InitialKeyVersion()); err != nil {
		panic(err)
	}
	if tamper == "" {
		return m
	}
	var x map[string]interface{}
	b, _ := m.FCRMsgToBytes()
	json.Unmarshal(b, &x)
	for k, v := range x {
		s, ok := v.(string)
		if !ok || len(s) == 0 {
			continue
		}
		// the body is the base64 field, the signature the hex one
		isSig := s == m.GetSignature()
		if tamper == "sig" && isSig {
			c := []byte(s)
			i := 20 + w.rng.Intn(60)
			c[i] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", c[i])+1+w.rng.Intn(14))%16]
			x[k] = string(c)
		}
		if !isSig && (tamper == "trunc" || tamper == "body") {
			d := m.GetMessageBody()
			if tamper == "trunc" {
				d = d[:w.rng.Intn(len(d))]
			} else {
				// another nonce, or blanks that mean nothing
				d = append(d, ' ')
			}
			x[k] = base64.StdEncoding.EncodeToString(d)
		}
	}
	j, _ := json.Marshal(x)
	r, err := fcrmessages.FCRMsgFromBytes(j)
	if err != nil {
		panic(err)
	}
	return r
}

func (w *world) nonce() int64 {
	if w.rng.Intn(3) == 0 {
		return int64(w.rng.Intn(5) - 2)
	}
	return w.rng.Int63()
}

func ttl(op vt.M) int64 {
	switch vt.S(op, "ttl") {
	case "past":
		return time.Now().Unix() - 5
	case "long":
		return 1 << 60
	case "neg":
		return -1
	}
	return time.Now().Unix() + 100
}

// a voucher as a client would issue it next, or an old or damaged one
func (w *world) voucher(op vt.M) (string, string, vt.M) {
	v, _ := op["v"].(map[string]interface{})
	ch, l := vt.I(v, "ch"), vt.I(v, "l")
	k := [2]int{ch, l}
	st := w.lanes[k]
	if st == nil {
		st = &laneSt{}
		w.lanes[k] = st
	}
	tamper := vt.S(v, "tamper")
	n, a := st.next, st.total+vt.I(v, "d")
	switch vt.S(v, "kind") {
	case "replay":
		n, a = st.next-1, st.total
		if n < 0 {
			n, a = 0, vt.I(v, "d")
		}
	case "old":
		n = st.next - 2
		if n < 0 {
			n = 0
		}
	default:
		if tamper == "" {
			st.next, st.total = n+1, a
		}
	}
	by := 2
	if ch != 4 {
		by = []int{0, 0, 1, 0}[ch]
	}
	if vt.S(v, "kind") == "forged" {
		by = 1 - by%2
	}
	sv := &paych.SignedVoucher{ChannelAddr: w.chans[ch], Lane: uint64(l), Nonce: uint64(n), Amount: lotusbig.NewFromGo(w.val(a))}
	vb, err := sv.SigningBytes()
	if err != nil {
		panic(err)
	}
	sv.Signature, err = sigs.Sign(crypto2.SigTypeSecp256k1, w.signers[by].priv, vb)
	if err != nil {
		panic(err)
	}
	switch tamper {
	case "amount":
		sv.Amount = lotusbig.NewFromGo(w.val(a + 50))
	case "sig":
		sv.Signature.Data[w.rng.Intn(60)] ^= byte(1 + w.rng.Intn(255))
	}
	var b strings.Builder
	if err := sv.MarshalCBOR(&b); err != nil {
		panic(err)
	}
	str := base64.RawURLEncoding.EncodeToString([]byte(b.String()))
	msgch := ch
	name := w.chans[ch].String()
	switch tamper {
	case "b64":
		str = str[:len(str)/2] + "!" + str[len(str)/2:]
	case "trunc":
		str = str[:w.rng.Intn(len(str))]
	case "empty":
		str = ""
	case "chan":
		msgch = (ch + 1) % 3
		name = w.chans[msgch].String()
		tamper = ""
	case "noname":
		name = ""
	case "badname":
		name = "f2notanaddress"
	}
	return name, str, vt.M{"ch": msgch, "vch": ch, "l": l, "n": n, "a": a, "by": by, "tamper": tamper}
}

func (w *world) newProvider(i int) *provider {
	p := &provider{}
	p.l = nodekit.Listen(func(c net.Conn, m *fcrmessages.FCRMessage) bool {
		switch m.GetMessageType() {
		case fcrmessages.GatewayListDHTOfferRequestType:
			p.mu.Lock()
			plan := p.plan
			p.plan = nil
			p.mu.Unlock()
			if plan == nil {
				return false
			}
			_, a, b, _, _, _, _, err := fcrmessages.DecodeGatewayListDHTOfferRequest(m)
			if err == nil {
				plan.min, plan.max = a.ToString(), b.ToString()
			}
			e := vt.M{}
			w.signed(e, m)
			plan.sig = e["sk"].(int)
			nodekit.WriteFrame(c, plan.resp)
			c.SetReadDeadline(time.Now().Add(4 * time.Second))
			ack, err := nodekit.ReadFrame(c)
			if err != nil {
				ack = nil
			}
			plan.ack <- ack
			c.SetReadDeadline(time.Time{})
			return err == nil
		case fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType:
			id, on, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(m)
			e := vt.M{}
			w.signed(e, m)
			if err == nil {
				p.mu.Lock()
				p.notes = append(p.notes, vt.M{"p": i, "on": on, "id": id.ToString() == w.gid, "sk": e["sk"], "sv": e["sv"]})
				p.mu.Unlock()
			}
			r, _ := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
			r.Sign(w.keys[i].KP, fcrcrypto.InitialKeyVersion())
			nodekit.WriteFrame(c, r)
			return true
		}
		p.mu.Lock()
		p.notes = append(p.notes, vt.M{"p": i, "on": false, "id": false, "sk": -9, "sv": int(m.GetMessageType())})
		p.mu.Unlock()
		return false
	})
	return p
}

func (w *world) newPeer(n, pos int, beh string) *peer {
	p := &peer{n: n, id: id32(pos, nil), key: nodekit.NewKey(), other: nodekit.NewKey(), w: newWallet(w.rng), beh: beh, serial: int64(n+1) * 1000000}
	if beh == "refuse" {
		return p
	}
	p.l = nodekit.Listen(func(c net.Conn, m *fcrmessages.FCRMessage) bool {
		x := seen{sig: -1}
		e := vt.M{}
		w.signed(e, m)
		x.sig = e["sk"].(int)
		var r *fcrmessages.FCRMessage
		var err error
		p.mu.Lock()
		p.serial++
		ser := p.serial
		p.mu.Unlock()
		none := []cidoffer.SubCIDOffer{}
		switch m.GetMessageType() {
		case fcrmessages.GatewayDHTDiscoverRequestType:
			id, cc, nn, _, _, _, er := fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
			if er != nil || id.ToString() != w.gid {
				return false
			}
			x.kind, x.cid, x.nonce = "dht", cc.ToString(), nn
			r, err = fcrmessages.EncodeGatewayDHTDiscoverResponse(cc, ser, false, none, []bool{})
		case fcrmessages.GatewayDHTDiscoverRequestV2Type:
			id, cc, nn, _, ch, v, er := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
			if er != nil || id.ToString() != w.gid {
				return false
			}
			x.kind, x.cid, x.nonce, x.ch, x.v = "dht2", cc.ToString(), nn, ch, v
			r, err = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(cc, ser, true, []string{fmt.Sprintf("%064d", ser)}, []bool{false}, false, "")
		case fcrmessages.GatewayDHTDiscoverOfferRequestType:
			cc, nn, ds, ch, v, er := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
			if er != nil {
				return false
			}
			x.kind, x.cid, x.nonce, x.ch, x.v, x.ds = "dhtoffer", cc.ToString(), nn, ch, v, ds
			r, err = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(cc, ser, true, none, []bool{}, false, "")
		default:
			return false
		}
		if err != nil {
			panic(err)
		}
		k := p.key
		if beh == "badsig" {
			k = p.other
		}
		if beh != "nosig" {
			r.Sign(k.KP, fcrcrypto.InitialKeyVersion())
		}
		if beh == "altered" {
			r = w.sign(r, k, "body")
		}
		p.mu.Lock()
		p.got = append(p.got, x)
		p.sent = append(p.sent, r.GetSignature()+string(r.GetMessageBody()))
		p.mu.Unlock()
		switch beh {
		case "silent":
			return true
		case "cut":
			return false
		}
		nodekit.WriteFrame(c, r)
		return true
	})
	return p
}

func must(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	if err != nil {
		panic(err)
	}
	return m
}

const (
	rest = iota
	prov
	gate
	admin
)

// exchanges with the node; in a concurrent scenario only these run at once
func (w *world) rest(port int, m *fcrmessages.FCRMessage) (string, *fcrmessages.FCRMessage, int) {
	if w.par {
		w.parMu.Unlock()
		defer w.parMu.Lock()
	}
	return nodekit.Rest(port, m)
}

func (w *world) tcp(port int, m *fcrmessages.FCRMessage, patience time.Duration) (string, *fcrmessages.FCRMessage) {
	if w.par {
		w.parMu.Unlock()
		defer w.parMu.Lock()
	}
	return nodekit.TCP(port, m, patience)
}

func (w *world) patience() time.Duration { return 6 * time.Second }

func (w *world) do(op vt.M) vt.M {
	ev := vt.M{"op": op["op"], "t0": w.ms(), "sk": -1, "sv": -1}
	var res *fcrmessages.FCRMessage
	var class string
	switch vt.S(op, "op") {
	case "init":
		k := vt.I(op, "k")
		ev["v"], ev["k"], ev["ver"], ev["bad"] = vt.I(op, "v"), k, vt.I(op, "ver"), vt.S(op, "bad")
		ver := fcrcrypto.DecodeKeyVersion(uint32(vt.I(op, "ver")))
		var m *fcrmessages.FCRMessage
		if vt.I(op, "v") == 2 {
			wk := hex.EncodeToString(w.me.priv)
			switch vt.S(op, "bad") {
			case "wallet":
				wk = "not hex"
			}
			m = must(fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(nid(w.gid), w.gkeys[k].KP, ver, wk, w.chain.URL, "token"))
		} else {
			m = must(fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(nid(w.gid), w.gkeys[k].KP, ver))
		}
		if vt.S(op, "bad") == "trunc" {
			b := m.GetMessageBody()
			m = fcrmessages.CreateFCRMessage(m.GetMessageType(), b[:w.rng.Intn(len(b))])
		}
		class, res, _ = w.rest(w.ports+admin, m)
		w.signed(ev, res)
		if class == "ok" {
			ok, err := fcrmessages.DecodeGatewayAdminInitialiseKeyResponse(res)
			if err != nil || !ok {
				class = "garbage"
			}
		}
		if class == "ok" {
			w.inited = true
			w.refresh()
		}
	case "pub":
		w.publish(op, ev)
		ev["t1"] = w.ms()
		return ev
	case "disc":
		c := vt.I(op, "c")
		n := w.nonce()
		ev["via"], ev["c"], ev["live"], ev["auth"] = vt.S(op, "via"), c, vt.S(op, "ttl") != "past" && vt.S(op, "ttl") != "neg", true
		ev["os"], ev["found"], ev["echo"] = []int{}, false, false
		var found bool
		var so []cidoffer.SubCIDOffer
		var rc *cid.ContentID
		var rn int64
		var err error
		if vt.S(op, "via") == "std" {
			class, res, _ = w.rest(w.ports+rest, must(fcrmessages.EncodeClientStandardDiscoverRequest(&w.cids[c], n, ttl(op), "", "")))
			if class == "ok" {
				rc, rn, found, so, _, err = fcrmessages.DecodeClientStandardDiscoverResponse(res)
			}
		} else {
			m := must(fcrmessages.EncodeGatewayDHTDiscoverRequest(w.peerID(op), &w.cids[c], n, ttl(op), "", ""))
			class, res = w.tcp(w.ports+gate, w.signPeer(op, ev, m), w.patience())
			if class == "ok" {
				rc, rn, found, so, _, err = fcrmessages.DecodeGatewayDHTDiscoverResponse(res)
			}
		}
		w.signed(ev, res)
		if class == "ok" {
			if err != nil {
				class = "garbage"
				break
			}
			ev["echo"], ev["found"] = rc.ToString() == w.cids[c].ToString() && rn == n, found
			os := []int{}
			for i := range so {
				os = append(os, w.subIndex(&so[i], c))
			}
			ev["os"] = os
		}
	case "paid":
		class, res = w.paid(op, ev)
	case "est":
		ch := fmt.Sprintf("challenge %d", w.rng.Int63())
		ev["live"], ev["echo"] = vt.S(op, "ttl") != "past" && vt.S(op, "ttl") != "neg", false
		class, res, _ = w.rest(w.ports+rest, must(fcrmessages.EncodeClientEstablishmentRequest(nid(id32(240, w.rng)), ch, ttl(op))))
		w.signed(ev, res)
		if class == "ok" {
			g, c2, err := fcrmessages.DecodeClientEstablishmentResponse(res)
			if err != nil {
				class = "garbage"
			} else {
				ev["echo"] = g.ToString() == w.gid && c2 == ch
			}
		}
	case "adm":
		ev["what"], ev["good"] = vt.S(op, "what"), true
		who := nid(id32(241, nil))
		switch vt.S(op, "what") {
		case "getrep":
			class, res, _ = w.rest(w.ports+admin, must(fcrmessages.EncodeGatewayAdminGetReputationRequest(who)))
			if class == "ok" {
				id, _, ex, err := fcrmessages.DecodeGatewayAdminGetReputationResponse(res)
				ev["good"] = err == nil && id.ToString() == who.ToString() && !ex
			}
		case "setrep":
			class, res, _ = w.rest(w.ports+admin, must(fcrmessages.EncodeGatewayAdminSetReputationRequest(who, 17)))
			if class == "ok" {
				id, _, ex, err := fcrmessages.DecodeGatewayAdminSetReputationResponse(res)
				ev["good"] = err == nil && id.ToString() == who.ToString() && !ex
			}
		case "refresh", "norefresh":
			class, res, _ = w.rest(w.ports+admin, must(fcrmessages.EncodeGatewayAdminForceRefreshRequest(vt.S(op, "what") == "refresh")))
			if class == "ok" {
				r, err := fcrmessages.DecodeGatewayAdminForceRefreshResponse(res)
				ev["good"] = err == nil && r == (vt.S(op, "what") == "refresh")
			}
		case "list":
			class, res, _ = w.rest(w.ports+admin, must(fcrmessages.EncodeGatewayAdminListDHTOfferRequest(false)))
			if class == "ok" {
				r, err := fcrmessages.DecodeGatewayAdminListDHTOfferResponse(res)
				ev["good"] = err == nil && !r
			}
		}
		w.signed(ev, res)
	case "grp":
		class, res = w.group(op, ev)
	case "pull":
		class, res = w.pull(op, ev)
	case "relay":
		class, res = w.relay(op, ev)
	case "rekey":
		p, k := vt.I(op, "p"), vt.I(op, "k")
		w.regKey[p] = k
		w.listings()
		if w.inited {
			w.refresh()
		}
		ev["p"], ev["k"] = p, k
		ev["t1"] = w.ms()
		return ev
	case "restart":
		w.p.Kill()
		w.inited = false
		w.start()
		ev["t1"] = w.ms()
		return ev
	case "par", "rush":
		ths := vt.L(op, "th")
		out := make([][]vt.M, len(ths))
		var wg sync.WaitGroup
		w.par = true
		for i, th := range ths {
			i, th := i, th.([]interface{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.parMu.Lock()
				defer w.parMu.Unlock()
				for _, x := range th {
					out[i] = append(out[i], w.do(x.(map[string]interface{})))
				}
			}()
		}
		wg.Wait()
		w.par = false
		ev["th"] = out
		ev["t1"] = w.ms()
		return ev
	case "wait":
		time.Sleep(time.Duration(vt.I(op, "ms")) * time.Millisecond)
		ev["t1"] = w.ms()
		return ev
	default:
		panic("op " + vt.S(op, "op"))
	}
	ev["res"] = class
	ev["t1"] = w.ms()
	return ev
}

func (w *world) refresh() {
	w.rest(w.ports+admin, must(fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)))
}

func (w *world) peerID(op vt.M) *nodeid.NodeID {
	g := vt.I(op, "g")
	if g < 0 {
		return nid(id32(250, w.rng))
	}
	return nid(w.peers[g].id)
}

// a peer's request, signed as told
func (w *world) signPeer(op, ev vt.M, m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	g := vt.I(op, "g")
	k := w.keys[len(w.keys)-1]
	if g >= 0 && vt.S(op, "by") == "" {
		k = w.peers[g].key
	}
	ev["auth"] = g >= 0 && vt.S(op, "by") == "" && vt.S(op, "tamper") == ""
	return w.sign(m, k, vt.S(op, "tamper"))
}

func (w *world) publish(op, ev vt.M) {
	p, n := vt.I(op, "p"), w.nonce()
	var m *fcrmessages.FCRMessage
	os := vt.Ints(op, "os")
	if vt.S(op, "k") == "dht" {
		l := []cidoffer.CIDOffer{}
		for _, i := range os {
			l = append(l, *w.offers[i])
		}
		m = must(fcrmessages.EncodeProviderPublishDHTOfferRequest(nid(w.provs[p]), n, l))
	} else {
		m = must(fcrmessages.EncodeProviderPublishGroupOfferRequest(nid(w.provs[p]), n, w.offers[os[0]]))
	}
	m = w.sign(m, w.keys[vt.I(op, "by")], vt.S(op, "tamper"))
	class, res := w.tcp(w.ports+prov, m, w.patience())
	w.signed(ev, res)
	ev["k"], ev["p"], ev["by"], ev["os"], ev["tamper"] = vt.S(op, "k"), p, vt.I(op, "by"), os, vt.S(op, "tamper")
	ev["ack"] = false
	if class == "ok" {
		if vt.S(op, "k") == "dht" {
			rn, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(res)
			ev["ack"] = err == nil && rn == n && w.ackKey(sig, m) == ev["sk"]
		} else {
			g, d, err := fcrmessages.DecodeProviderPublishGroupOfferResponse(res)
			ev["ack"] = err == nil && g.ToString() == w.gid && d == w.digest(os[0])
		}
	}
	ev["res"] = class
}

// which gateway key acknowledged a message with this signature
func (w *world) ackKey(sig string, m *fcrmessages.FCRMessage) int {
	for i, k := range w.gkeys {
		pub, _ := fcrcrypto.DecodePublicKey(k.Pub)
		if ok, err := fcrcrypto.VerifyMessage(pub, sig, m.GetMessageBody()); err == nil && ok {
			return i
		}
	}
	return -2
}

func (w *world) paid(op, ev vt.M) (string, *fcrmessages.FCRMessage) {
	c, n := vt.I(op, "c"), w.nonce()
	name, str, v := w.voucher(op)
	ev["via"], ev["c"], ev["v"], ev["auth"] = vt.S(op, "via"), c, v, true
	ev["live"] = vt.S(op, "ttl") != "past" && vt.S(op, "ttl") != "neg"
	ev["os"], ev["found"], ev["echo"] = []int{}, false, false
	ds := []string{}
	for _, i := range vt.Ints(op, "ds") {
		ds = append(ds, w.digest(i))
	}
	ev["ds"] = vt.Ints(op, "ds")
	var class string
	var res *fcrmessages.FCRMessage
	var rc *cid.ContentID
	var rn int64
	var found, need bool
	var so []cidoffer.SubCIDOffer
	var rds []string
	var err error
	C := &w.cids[c]
	switch vt.S(op, "via") {
	case "std2":
		class, res, _ = w.rest(w.ports+rest, must(fcrmessages.EncodeClientStandardDiscoverRequestV2(C, n, ttl(op), name, str)))
		if class == "ok" {
			rc, rn, found, rds, _, need, _, err = fcrmessages.DecodeClientStandardDiscoverResponseV2(res)
		}
	case "stdoffer":
		class, res, _ = w.rest(w.ports+rest, must(fcrmessages.EncodeClientStandardDiscoverOfferRequest(C, n, ttl(op), ds, name, str)))
		if class == "ok" {
			rc, rn, found, so, _, need, _, err = fcrmessages.DecodeClientStandardDiscoverOfferResponse(res)
		}
	case "peer2":
		m := must(fcrmessages.EncodeGatewayDHTDiscoverRequestV2(w.peerID(op), C, n, ttl(op), name, str))
		class, res = w.tcp(w.ports+gate, w.signPeer(op, ev, m), w.patience())
		if class == "ok" {
			rc, rn, found, rds, _, need, _, err = fcrmessages.DecodeGatewayDHTDiscoverResponseV2(res)
		}
	case "peeroffer":
		m := must(fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(C, n, ds, name, str))
		class, res = w.tcp(w.ports+gate, w.signPeer(op, ev, m), w.patience())
		ev["auth"], ev["live"] = true, true
		if class == "ok" {
			rc, rn, found, so, _, need, _, err = fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(res)
		}
	}
	w.signed(ev, res)
	if class != "ok" {
		return class, res
	}
	if err != nil {
		return "garbage", res
	}
	ev["echo"], ev["found"] = rc.ToString() == C.ToString() && rn == n, found
	os := []int{}
	for i := range so {
		os = append(os, w.subIndex(&so[i], c))
	}
	for _, d := range rds {
		os = append(os, w.digestIndex(d))
	}
	ev["os"] = os
	if need {
		class = "pay"
	}
	return class, res
}

func (w *world) group(op, ev vt.M) (string, *fcrmessages.FCRMessage) {
	ids := []nodeid.NodeID{}
	for _, p := range vt.Ints(op, "ps") {
		ids = append(ids, *nid(w.provs[p]))
	}
	ev["ps"] = vt.Ints(op, "ps")
	for _, p := range w.provFk {
		p.mu.Lock()
		p.notes = nil
		p.mu.Unlock()
	}
	class, res, _ := w.rest(w.ports+admin, must(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(nid(w.gid), ids)))
	w.signed(ev, res)
	want := 0
	for i := range w.provs {
		if w.regKey[i] >= 0 {
			want++
		}
	}
	end := time.Now().Add(4 * time.Second)
	notes := []vt.M{}
	for class == "ok" {
		notes = notes[:0]
		for _, p := range w.provFk {
			p.mu.Lock()
			notes = append(notes, p.notes...)
			p.mu.Unlock()
		}
		if len(notes) >= want || time.Now().After(end) || w.p.Dead() {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	ev["notes"] = notes
	return class, res
}

func (w *world) pull(op, ev vt.M) (string, *fcrmessages.FCRMessage) {
	type asked struct {
		p    int
		plan *pullPlan
		msgs []fcrmessages.FCRMessage
		ns   []int64
		e    vt.M
	}
	var all []*asked
	for _, x := range vt.L(op, "from") {
		f := x.(map[string]interface{})
		p := vt.I(f, "p")
		a := &asked{p: p, plan: &pullPlan{ack: make(chan *fcrmessages.FCRMessage, 1), sig: -1}}
		a.e = vt.M{"p": p, "by": vt.I(f, "by"), "tamper": vt.S(f, "tamper")}
		ms := []vt.M{}
		for _, y := range vt.L(f, "msgs") {
			q := y.(map[string]interface{})
			l := []cidoffer.CIDOffer{}
			for _, i := range vt.Ints(q, "os") {
				l = append(l, *w.offers[i])
			}
			n := w.nonce()
			m := w.sign(must(fcrmessages.EncodeProviderPublishDHTOfferRequest(nid(w.provs[vt.I(q, "p")]), n, l)), w.keys[vt.I(q, "by")], vt.S(q, "tamper"))
			a.msgs, a.ns = append(a.msgs, *m), append(a.ns, n)
			ms = append(ms, vt.M{"p": vt.I(q, "p"), "by": vt.I(q, "by"), "os": vt.Ints(q, "os"), "tamper": vt.S(q, "tamper")})
		}
		a.e["msgs"] = ms
		a.plan.resp = w.sign(must(fcrmessages.EncodeGatewayListDHTOfferResponse(a.msgs)), w.keys[vt.I(f, "by")], vt.S(f, "tamper"))
		w.provFk[p].mu.Lock()
		w.provFk[p].plan = a.plan
		w.provFk[p].mu.Unlock()
		all = append(all, a)
	}
	class, res, _ := w.rest(w.ports+admin, must(fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)))
	w.signed(ev, res)
	from := []vt.M{}
	deadline := time.After(5 * time.Second)
	for _, a := range all {
		a.e["res"], a.e["acks"], a.e["sk"], a.e["sv"] = "none", []int{}, -1, -1
		if class == "ok" {
			late := deadline
			if w.regKey[a.p] < 0 {
				// not registered: nobody is to ask it
				late = time.After(200 * time.Millisecond)
			}
			select {
			case ack := <-a.plan.ack:
				a.e["asked"] = a.plan.sig
				if ack != nil {
					w.signed(a.e, ack)
					if l, err := fcrmessages.DecodeGatewayListDHTOfferAck(ack); err == nil {
						a.e["res"] = "ok"
						acks := []int{}
						for i := range l {
							n, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&l[i])
							k := 0
							for j := range a.msgs {
								if err == nil && a.ns[j] == n && w.ackKey(sig, &a.msgs[j]) == a.e["sk"] {
									k = j + 1
								}
							}
							acks = append(acks, k)
						}
						a.e["acks"] = acks
					}
				}
			case <-late:
				if w.regKey[a.p] < 0 {
					break
				}
				deadline = time.After(time.Millisecond)
			}
		}
		w.provFk[a.p].mu.Lock()
		w.provFk[a.p].plan = nil
		w.provFk[a.p].mu.Unlock()
		from = append(from, a.e)
	}
	ev["from"] = from
	return class, res
}

func (w *world) relay(op, ev vt.M) (string, *fcrmessages.FCRMessage) {
	c, n := vt.I(op, "c"), w.nonce()
	C := &w.cids[c]
	via := vt.S(op, "via")
	ev["via"], ev["c"], ev["n"] = via, c, vt.I(op, "n")
	ev["live"] = vt.S(op, "ttl") != "past" && vt.S(op, "ttl") != "neg"
	for _, p := range w.peers {
		p.mu.Lock()
		p.got, p.sent = nil, nil
		p.mu.Unlock()
	}
	name, str, v := "", "", vt.M{}
	if via != "dht" {
		name, str, v = w.voucher(op)
	}
	ev["v"] = v
	var class string
	var res *fcrmessages.FCRMessage
	var con, unc []nodeid.NodeID
	var resp []fcrmessages.FCRMessage
	var rn int64
	var need bool
	var err error
	ev["gs"], ev["dss"] = []int{}, []int{}
	var dss [][]string
	switch via {
	case "dht":
		class, res, _ = w.rest(w.ports+rest, must(fcrmessages.EncodeClientDHTDiscoverRequest(C, n, ttl(op), int64(vt.I(op, "n")), false, "", "")))
		if class == "ok" {
			con, resp, unc, rn, need, _, err = fcrmessages.DecodeClientDHTDiscoverResponse(res)
		}
	case "dht2":
		class, res, _ = w.rest(w.ports+rest, must(fcrmessages.EncodeClientDHTDiscoverRequestV2(C, n, ttl(op), int64(vt.I(op, "n")), false, name, str)))
		if class == "ok" {
			con, resp, unc, rn, need, _, err = fcrmessages.DecodeClientDHTDiscoverResponseV2(res)
		}
	case "dhtoffer":
		gs, cnt := vt.Ints(op, "gs"), vt.Ints(op, "dss")
		ev["gs"], ev["dss"], ev["live"] = gs, cnt, true
		ids := []nodeid.NodeID{}
		for _, g := range gs {
			if g < 0 {
				ids = append(ids, *nid(id32(251, w.rng)))
			} else {
				ids = append(ids, *nid(w.peers[g].id))
			}
		}
		for _, k := range cnt {
			ds := []string{}
			for j := 0; j < k; j++ {
				ds = append(ds, w.digest(-1))
			}
			dss = append(dss, ds)
		}
		class, res, _ = w.rest(w.ports+rest, must(fcrmessages.EncodeClientDHTDiscoverOfferRequest(C, n, dss, ids, name, str)))
		if class == "ok" {
			_, rn, con, resp, need, _, err = fcrmessages.DecodeClientDHTDiscoverOfferResponse(res)
		}
	}
	w.signed(ev, res)
	ev["con"], ev["unc"], ev["own"], ev["echo"] = []int{}, []int{}, true, false
	if class == "ok" && err != nil {
		class = "garbage"
	}
	if class == "ok" {
		ev["echo"] = rn == n && !need
		ev["con"], ev["unc"] = w.peerIndexes(con), w.peerIndexes(unc)
		own := len(con) == len(resp)
		for i, g := range w.peerIndexes(con) {
			if !own || g < 0 {
				own = false
				break
			}
			p := w.peers[g]
			hit := false
			p.mu.Lock()
			for _, s := range p.sent {
				hit = hit || s == resp[i].GetSignature()+string(resp[i].GetMessageBody())
			}
			p.mu.Unlock()
			own = own && hit
		}
		ev["own"] = own
	}
	req := []vt.M{}
	for g, p := range w.peers {
		p.mu.Lock()
		for _, x := range p.got {
			q := vt.M{"g": g, "kind": x.kind, "cid": x.cid == C.ToString(), "sk": x.sig, "amt": -1, "ds": -1}
			if x.kind != "dht" {
				q["amt"] = w.paidTo(p, x)
			}
			if x.kind == "dhtoffer" {
				for i, gg := range vt.Ints(op, "gs") {
					if gg == g && i < len(dss) && strings.Join(dss[i], ",") == strings.Join(x.ds, ",") {
						q["ds"] = len(x.ds)
					}
				}
				q["nonce"] = x.nonce == n
			}
			req = append(req, q)
		}
		p.mu.Unlock()
	}
	ev["req"] = req
	return class, res
}

// the running total of a voucher that pays this peer (-1: it does not)
func (w *world) paidTo(p *peer, x seen) int {
	sv, err := paych.DecodeSignedVoucher(x.v)
	if err != nil {
		return -1
	}
	vb, _ := sv.SigningBytes()
	if sigs.Verify(sv.Signature, w.me.addr, vb) != nil || sv.ChannelAddr.String() != x.ch || sv.Lane != 0 {
		return -1
	}
	for _, c := range w.chain.Channels() {
		if c.Addr == sv.ChannelAddr && c.To == p.w.addr && c.From == w.me.addr && c.Balance.Cmp(sv.Amount.Int) >= 0 {
			return w.back(sv.Amount.Int)
		}
	}
	return -1
}

func (w *world) peerIndexes(ids []nodeid.NodeID) []int {
	r := []int{}
	for _, id := range ids {
		k := -1
		for g, p := range w.peers {
			if p.id == id.ToString() {
				k = g
			}
		}
		r = append(r, k)
	}
	return r
}

func main() {
	// the chain library wants the signature algorithm registered once
	fcrpaymentmgr.NewFCRPaymentMgr(strings.Repeat("01", 32), "http://127.0.0.1:1", "")
	vt.Main(func(s *vt.Script, t *vt.Trace) {
		w := newWorld(s, t)
		defer w.close()
		w.start()
		for _, op := range s.Ops {
			ev := w.do(op)
			t.Add(ev)
			r, _ := ev["res"].(string)
			if w.p.Dead() || (r == "none" && w.p.DeadSoon(60*time.Millisecond)) {
				t.Add(vt.M{"op": "dead", "why": w.p.Why()})
				return
			}
		}
	})
}
