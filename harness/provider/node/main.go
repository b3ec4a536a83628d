// Conformance driver for the provider program: one process per scenario, with
// a stand-in registry, gateways, clients and administrator.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/nodekit"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

const (
	far  = 1 << 30
	npk  = 3 // provider keys
	rest = 0
	gate = 1
	admn = 2
)

func id32(first int, rng *rand.Rand) string {
	b := make([]byte, 32)
	b[0] = byte(first)
	if rng != nil {
		rng.Read(b[1:])
	}
	return hex.EncodeToString(b)
}

func nid(h string) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromHexString(h)
	if err != nil {
		panic(err)
	}
	return n
}

func cidAt(pos int) cid.ContentID {
	c, err := cid.NewContentIDFromHexString(id32(pos, nil))
	if err != nil {
		panic(err)
	}
	return *c
}

func must(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	if err != nil {
		panic(err)
	}
	return m
}

type item struct {
	cids  []cid.ContentID
	price uint64
	qos   uint64
	exp   int64
	dg    string
}

type gw struct {
	n   int
	id  string
	beh string
	key int // index in gkeys
	l   *nodekit.Listener
	mu  sync.Mutex
	got []vt.M
	old *fcrmessages.FCRMessage // the first acknowledgement it gave
}

type world struct {
	s      *vt.Script
	rng    *rand.Rand
	mu     sync.Mutex // rng
	base   time.Time
	dir    string
	reg    *nodekit.Registry
	pid    string
	pks    []nodekit.Key
	gkeys  []nodekit.Key // one per gateway and two of nobody
	regKey []int
	gws    []*gw
	cids   []cid.ContentID
	items  []item // from 1
	byDg   map[string]int
	ports  int
	hold   io.Closer
	p      *nodekit.Proc
	inited bool
	par    bool // several threads make requests: nothing of the world changes meanwhile
}

func (w *world) rest(port int, m *fcrmessages.FCRMessage) (class string, res *fcrmessages.FCRMessage) {
	class, res, _ = nodekit.Rest(port, m)
	return
}

func (w *world) ms() int { return int(time.Since(w.base) / time.Millisecond) }

func (w *world) listings() {
	gs := []register.GatewayRegister{}
	for i, g := range w.gws {
		if w.regKey[i] < 0 {
			continue
		}
		k := w.gkeys[w.regKey[i]].Pub
		addr := "127.0.0.1:1"
		if g.l != nil {
			addr = g.l.Addr
		}
		gs = append(gs, register.GatewayRegister{NodeID: g.id, Address: "f0", RootSigningKey: k, SigningKey: k, RegionCode: "AU",
			NetworkInfoGateway: "127.0.0.1:1", NetworkInfoProvider: addr, NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
	}
	w.reg.Set(gs, []register.ProviderRegister{{NodeID: w.pid, Address: "f0", RootSigningKey: w.pks[0].Pub, SigningKey: w.pks[0].Pub, RegionCode: "AU",
		NetworkInfoGateway: fmt.Sprintf("127.0.0.1:%d", w.ports+gate), NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"}})
}

func (w *world) start() {
	env := []string{
		fmt.Sprintf("BIND_REST_API=%d", w.ports+rest), fmt.Sprintf("BIND_GATEWAY_API=%d", w.ports+gate), fmt.Sprintf("BIND_ADMIN_API=%d", w.ports+admn),
		"REGISTER_API_URL=" + w.reg.Srv.URL, "LOG_LEVEL=error", "LOG_TARGET=STDOUT", "LOG_SERVICE_NAME=provider", "PROVIDER_SIG_ALG=1",
		"PROVIDER_ID=" + w.pid, "TCP_INACTIVITY_TIMEOUT=" + vt.S(w.s.Hdr, "tcp"), "TCP_LONG_INACTIVITY_TIMEOUT=" + vt.S(w.s.Hdr, "tcp"),
	}
	for tries := 0; ; tries++ {
		w.reg.ResetServed()
		w.p = nodekit.Start(os.Getenv("VERIF_PROVIDER"), w.dir, env, filepath.Join(w.dir, "log"))
		for i := 0; i < 4000 && w.reg.ServedGateways() == 0 && !w.p.Dead(); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		if !w.p.Dead() && w.reg.ServedGateways() > 0 && w.listening() {
			return
		}
		if tries == 3 {
			fmt.Fprintln(os.Stderr, "the provider does not start: "+w.p.Why())
			os.Exit(4)
		}
		if !w.p.Dead() {
			w.p.Kill()
		}
	}
}

func (w *world) listening() bool {
	for i := 0; i < 3; i++ {
		ok := false
		for j := 0; j < 400 && !ok; j++ {
			c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", w.ports+i))
			if err == nil {
				c.Close()
				ok = true
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func newWorld(s *vt.Script, t *vt.Trace) *world {
	w := &world{s: s, rng: rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed")))), byDg: map[string]int{}}
	h := s.Hdr
	w.base = time.Unix(time.Now().Unix(), 0)
	dir, err := ioutil.TempDir("", "verifpv")
	if err != nil {
		panic(err)
	}
	w.dir = dir
	w.reg = nodekit.NewRegistry()
	w.pid = id32(240, w.rng)
	for i := 0; i < npk; i++ {
		w.pks = append(w.pks, nodekit.NewKey())
	}
	gs := vt.L(h, "gws")
	for range gs {
		w.gkeys = append(w.gkeys, nodekit.NewKey())
	}
	w.gkeys = append(w.gkeys, nodekit.NewKey(), nodekit.NewKey())
	for i, b := range gs {
		m := b.(map[string]interface{})
		g := &gw{n: i, id: id32(vt.I(m, "pos"), nil), beh: vt.S(m, "beh"), key: i}
		if g.beh != "refuse" {
			w.serve(g)
		}
		w.gws = append(w.gws, g)
		w.regKey = append(w.regKey, i)
	}
	for _, i := range vt.Ints(h, "unreg") {
		w.regKey[i] = -1
	}
	pos := vt.Ints(h, "cids")
	for _, k := range pos {
		w.cids = append(w.cids, cidAt(k))
	}
	w.items = []item{{}}
	tab := []vt.M{}
	for i, x := range vt.L(h, "items") {
		o := x.(map[string]interface{})
		it := item{}
		ps := []int{}
		for _, k := range vt.Ints(o, "cids") {
			it.cids = append(it.cids, w.cids[k])
			ps = append(ps, pos[k])
		}
		rel := 0
		switch vt.S(o, "exp") {
		case "past":
			it.exp, rel = w.base.Unix()-100, -100*1000
		case "huge":
			it.exp, rel = 1<<62, far
		case "soon":
			it.exp, rel = w.base.Unix()+int64(vt.I(o, "in")), vt.I(o, "in")*1000
		default:
			it.exp, rel = w.base.Unix()+3600, 3600*1000
		}
		// what tells offers apart: the price, the quality of service or the expiry; the others are all alike
		at := []uint64{1000, 0, 1<<63 + 5, 1<<53 + 1}[vt.I(h, "at")%4]
		switch vary := vt.S(h, "vary"); {
		case vary == "qos" || vary == "exp" && vt.S(o, "exp") == "soon":
			it.price, it.qos = at, uint64(42+i)
		case vary == "exp":
			n := i
			if vt.S(o, "exp") == "past" {
				n = -i
			}
			if rel != far {
				rel += n * 1000
			}
			it.price, it.qos, it.exp = at, at, it.exp+int64(n)
		default:
			it.price, it.qos = uint64(1000+i), at
		}
		of, err := cidoffer.NewCIDOffer(nid(w.pid), it.cids, it.price, it.exp, it.qos)
		if err != nil {
			panic(err)
		}
		it.dg = cidoffer.EncodeMessageDigest(of.GetMessageDigest())
		w.items = append(w.items, it)
		w.byDg[it.dg] = i + 1
		tab = append(tab, vt.M{"dg": i + 1, "cids": ps, "exp": rel})
	}
	t.Set("off", tab)
	t.Set("cids", pos)
	t.Set("gws", h["gws"])
	t.Set("unreg", vt.Ints(h, "unreg"))
	w.ports, w.hold = nodekit.Ports(3)
	w.listings()
	return w
}

func (w *world) close() {
	if w.p != nil && !w.p.Dead() {
		w.p.Kill()
	}
	w.reg.Srv.Close()
	for _, g := range w.gws {
		if g.l != nil {
			g.l.Close()
		}
	}
	w.hold.Close()
	os.RemoveAll(w.dir)
}

// which of the keys signed a message, and the version it names
func signer(ev vt.M, m *fcrmessages.FCRMessage, keys []nodekit.Key) {
	ev["sk"], ev["sv"] = -1, -1
	if m == nil {
		return
	}
	for i, k := range keys {
		pub, err := fcrcrypto.DecodePublicKey(k.Pub)
		if err == nil && m.Verify(pub) == nil {
			ev["sk"] = i
		}
	}
	if v, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature()); err == nil {
		ev["sv"] = int(v.EncodeKeyVersion() % (1 << 30))
	}
}

// an offer as [item, key of the signature]; [0, ..] if it is none of ours
func (w *world) offer(o *cidoffer.CIDOffer) []int {
	i := w.byDg[cidoffer.EncodeMessageDigest(o.GetMessageDigest())]
	if i > 0 {
		it := w.items[i]
		same := o.GetProviderID().ToString() == w.pid && o.GetPrice() == it.price && o.GetExpiry() == it.exp && o.GetQoS() == it.qos && len(o.GetCIDs()) == len(it.cids)
		for j := 0; same && j < len(it.cids); j++ {
			same = o.GetCIDs()[j].ToString() == it.cids[j].ToString()
		}
		if !same {
			i = 0
		}
	}
	for k := range w.pks {
		pub, _ := fcrcrypto.DecodePublicKey(w.pks[k].Pub)
		if o.Verify(pub) == nil {
			return []int{i, k}
		}
	}
	return []int{i, -1}
}

func (w *world) offers(os []cidoffer.CIDOffer) [][]int {
	r := [][]int{}
	for i := range os {
		r = append(r, w.offer(&os[i]))
	}
	return r
}

func (w *world) rnd(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n)
}

// a message altered after its signing
func (w *world) alter(m *fcrmessages.FCRMessage, how string) *fcrmessages.FCRMessage {
	var x map[string]interface{}
	b, _ := m.FCRMsgToBytes()
	json.Unmarshal(b, &x)
	for k, v := range x {
		s, ok := v.(string)
		if !ok || len(s) == 0 {
			continue
		}
		isSig := s == m.GetSignature()
		if how == "sig" && isSig {
			c := []byte(s)
			i := 20 + w.rnd(60)
			c[i] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", c[i])+1+w.rnd(14))%16]
			x[k] = string(c)
		}
		if how == "nosig" && isSig {
			x[k] = ""
		}
		if !isSig && (how == "trunc" || how == "body") {
			d := m.GetMessageBody()
			if how == "trunc" {
				d = d[:w.rnd(len(d))]
			} else {
				d = append(d, ' ')
			}
			x[k] = base64.StdEncoding.EncodeToString(d)
		}
	}
	j, _ := json.Marshal(x)
	r, err := fcrmessages.FCRMsgFromBytes(j)
	if err != nil {
		panic(err)
	}
	return r
}

func (w *world) sign(m *fcrmessages.FCRMessage, k nodekit.Key, tamper string) *fcrmessages.FCRMessage {
	if tamper == "nosig" {
		return m
	}
	if err := m.Sign(k.KP, fcrcrypto.InitialKeyVersion()); err != nil {
		panic(err)
	}
	if tamper == "" {
		return m
	}
	return w.alter(m, tamper)
}

// an acknowledgement of a publish message, signed by key k over it or over something else
func ackOf(m *fcrmessages.FCRMessage, k nodekit.Key, body []byte, nonce int64) *fcrmessages.FCRMessage {
	sig, err := fcrcrypto.SignMessage(k.KP, fcrcrypto.InitialKeyVersion(), body)
	if err != nil {
		panic(err)
	}
	r := must(fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig))
	if err := r.Sign(k.KP, fcrcrypto.InitialKeyVersion()); err != nil {
		panic(err)
	}
	return r
}

// does the message acknowledge m under key k
func acks(r, m *fcrmessages.FCRMessage, k nodekit.Key) bool {
	pub, _ := fcrcrypto.DecodePublicKey(k.Pub)
	if r.Verify(pub) != nil {
		return false
	}
	_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(r)
	if err != nil {
		return false
	}
	ok, err := fcrcrypto.VerifyMessage(pub, sig, m.GetMessageBody())
	return err == nil && ok
}

func (w *world) serve(g *gw) {
	other := w.gkeys[len(w.gkeys)-1]
	mine := w.gkeys[g.key]
	g.l = nodekit.Listen(func(c net.Conn, m *fcrmessages.FCRMessage) bool {
		x := vt.M{"g": g.n, "os": [][]int{}, "kind": "", "pid": false, "good": false}
		signer(x, m, w.pks)
		var r *fcrmessages.FCRMessage
		good := false
		switch m.GetMessageType() {
		case fcrmessages.ProviderPublishDHTOfferRequestType:
			id, nonce, os, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
			if err == nil {
				x["kind"], x["pid"], x["os"] = "dht", id.ToString() == w.pid, w.offers(os)
			}
			switch g.beh {
			case "badack":
				sig, _ := fcrcrypto.SignMessage(other.KP, fcrcrypto.InitialKeyVersion(), m.GetMessageBody())
				r = w.sign(must(fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)), mine, "")
			case "otherack":
				r = ackOf(m, mine, append(append([]byte{}, m.GetMessageBody()...), ' '), nonce)
			case "noack":
				r = w.sign(must(fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, "")), mine, "")
			default:
				r = ackOf(m, mine, m.GetMessageBody(), nonce)
			}
			good = true
		case fcrmessages.ProviderPublishGroupOfferRequestType:
			id, _, o, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
			d := ""
			if err == nil {
				x["kind"], x["pid"], x["os"] = "grp", id.ToString() == w.pid, [][]int{w.offer(o)}
				d = cidoffer.EncodeMessageDigest(o.GetMessageDigest())
			}
			good = true
			switch g.beh {
			case "badack", "otherack":
				d, good = strings.Repeat("ab", 32), false
			case "noack":
				d, good = "", false
			}
			r = w.sign(must(fcrmessages.EncodeProviderPublishGroupOfferResponse(*nid(g.id), d)), mine, "")
		default:
			x["kind"] = fmt.Sprint(m.GetMessageType())
			g.mu.Lock()
			g.got = append(g.got, x)
			g.mu.Unlock()
			return false
		}
		switch g.beh {
		case "badsig":
			r = w.sign(r, other, "")
			good = false
		case "nosig":
			r = w.alter(r, "nosig")
			good = false
		case "altered":
			r = w.alter(r, "body")
			good = false
		case "stale":
			// always the first answer
			g.mu.Lock()
			if g.old == nil {
				g.old = r
			} else {
				good = g.old.GetMessageType() == r.GetMessageType()
				if good && x["kind"] == "grp" {
					good = string(g.old.GetMessageBody()) == string(r.GetMessageBody())
				}
				r = g.old
			}
			g.mu.Unlock()
		case "inv":
			r = fcrmessages.CreateFCRMessage(fcrmessages.InvalidMessageResponseType, []byte("{}"))
			r = w.sign(r, mine, "")
			good = false
		case "silent", "cut":
			good = false
		}
		if x["kind"] == "dht" {
			good = good && acks(r, m, mine)
		}
		x["good"] = good
		g.mu.Lock()
		g.got = append(g.got, x)
		g.mu.Unlock()
		switch g.beh {
		case "silent":
			return true
		case "cut":
			return false
		}
		nodekit.WriteFrame(c, r)
		return true
	})
}

func (w *world) refresh() {
	nodekit.Rest(w.ports+admn, must(fcrmessages.EncodeProviderAdminForceRefreshRequest(true)))
}

func (w *world) clear() {
	for _, g := range w.gws {
		g.mu.Lock()
		g.got = nil
		g.mu.Unlock()
	}
}

func (w *world) sent() []vt.M {
	res := []vt.M{}
	for _, g := range w.gws {
		g.mu.Lock()
		res = append(res, g.got...)
		g.mu.Unlock()
	}
	return res
}

func (w *world) gid(g int) *nodeid.NodeID {
	if g < 0 {
		w.mu.Lock()
		defer w.mu.Unlock()
		return nid(id32(250, w.rng))
	}
	return nid(w.gws[g].id)
}

// the end of the requests handled one after the other on a connection
func flush(c net.Conn) {
	c.SetDeadline(time.Now().Add(30 * time.Second))
	if nodekit.WriteFrame(c, fcrmessages.CreateFCRMessage(29999, []byte("{}"))) == nil {
		nodekit.ReadFrame(c)
	}
}

func (w *world) do(op vt.M) vt.M {
	ev := vt.M{"op": op["op"], "t0": w.ms(), "sk": -1, "sv": -1}
	var res *fcrmessages.FCRMessage
	var class string
	switch vt.S(op, "op") {
	case "init":
		k := vt.I(op, "k")
		ev["v"], ev["k"], ev["ver"], ev["bad"] = vt.I(op, "v"), k, vt.I(op, "ver"), vt.S(op, "bad")
		ver := fcrcrypto.DecodeKeyVersion(uint32(vt.I(op, "ver")))
		var m *fcrmessages.FCRMessage
		if vt.I(op, "v") == 2 {
			wk := strings.Repeat("07", 32)
			if vt.S(op, "bad") == "wallet" {
				wk = "not hex"
			}
			m = must(fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(nid(w.pid), w.pks[k].KP, ver, wk, "http://127.0.0.1:1", "token"))
		} else {
			m = must(fcrmessages.EncodeProviderAdminInitialiseKeyRequest(nid(w.pid), w.pks[k].KP, ver))
		}
		if vt.S(op, "bad") == "trunc" {
			b := m.GetMessageBody()
			m = fcrmessages.CreateFCRMessage(m.GetMessageType(), b[:w.rnd(len(b))])
		}
		class, res = w.rest(w.ports+admn, m)
		signer(ev, res, w.pks)
		if class == "ok" {
			ok, err := fcrmessages.DecodeProviderAdminInitialiseKeyResponse(res)
			if err != nil || !ok {
				class = "garbage"
			}
		}
		if class == "ok" {
			w.inited = true
			w.refresh()
		}
	case "pub":
		if !w.par {
			w.clear()
		}
		os := vt.Ints(op, "os")
		ev["k"], ev["os"], ev["odd"] = vt.S(op, "k"), os, vt.S(op, "odd")
		var m *fcrmessages.FCRMessage
		if vt.S(op, "k") == "dht" {
			cs, pr, ex, q := []cid.ContentID{}, []uint64{}, []int64{}, []uint64{}
			for _, i := range os {
				it := w.items[i]
				cs, pr, ex, q = append(cs, it.cids[0]), append(pr, it.price), append(ex, it.exp), append(q, it.qos)
			}
			switch vt.S(op, "odd") {
			case "price":
				pr = append(pr, 1)
			case "exp":
				ex = ex[:len(ex)-1]
			case "qos":
				q = nil
			case "cids":
				cs = cs[:len(cs)-1]
			}
			m = must(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(cs, pr, ex, q))
		} else {
			it := w.items[os[0]]
			m = must(fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(it.cids, it.price, it.exp, it.qos))
		}
		class, res = w.rest(w.ports+admn, m)
		signer(ev, res, w.pks)
		if class == "ok" {
			var ok bool
			var err error
			if vt.S(op, "k") == "dht" {
				ok, err = fcrmessages.DecodeProviderAdminPublishDHTOfferResponse(res)
			} else {
				ok, err = fcrmessages.DecodeProviderAdminPublishGroupOfferResponse(res)
			}
			if err != nil || !ok {
				class = "garbage"
			}
		}
		if !w.par {
			ev["sent"] = w.sent()
		}
	case "got":
		gs := vt.Ints(op, "gs")
		ids := []nodeid.NodeID{}
		for _, g := range gs {
			ids = append(ids, *w.gid(g))
		}
		ev["gs"], ev["os"], ev["found"] = gs, [][]int{}, false
		class, res = w.rest(w.ports+admn, must(fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(ids)))
		signer(ev, res, w.pks)
		if class == "ok" {
			found, os, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(res)
			if err != nil {
				class = "garbage"
			} else {
				ev["found"], ev["os"] = found, w.offers(os)
			}
		}
	case "ack":
		c, g := vt.I(op, "c"), vt.I(op, "g")
		id := w.gid(g)
		ev["c"], ev["g"], ev["found"], ev["echo"], ev["os"], ev["msk"], ev["ak"] = c, g, false, false, [][]int{}, -1, -1
		class, res = w.rest(w.ports+rest, must(fcrmessages.EncodeClientDHTOfferAckRequest(&w.cids[c], id)))
		signer(ev, res, w.pks)
		if class == "ok" {
			rc, rg, found, m, a, err := fcrmessages.DecodeClientDHTOfferAckResponse(res)
			if err != nil {
				class = "garbage"
				break
			}
			ev["echo"], ev["found"] = rc.ToString() == w.cids[c].ToString() && rg.ToString() == id.ToString(), found
			if found {
				x := vt.M{}
				signer(x, m, w.pks)
				ev["msk"] = x["sk"]
				pid, _, os, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
				if err != nil || pid.ToString() != w.pid {
					class = "garbage"
					break
				}
				ev["os"] = w.offers(os)
				for i, k := range w.gkeys {
					if acks(a, m, k) {
						ev["ak"] = i
					}
				}
			}
		}
	case "list":
		class, res = w.list(op, ev)
	case "note":
		g := vt.I(op, "g")
		ev["g"], ev["on"], ev["by"], ev["tamper"], ev["good"] = g, vt.B(op, "on"), vt.I(op, "by"), vt.S(op, "tamper"), false
		m := w.sign(must(fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(w.gid(g), vt.B(op, "on"))), w.gkeys[vt.I(op, "by")], vt.S(op, "tamper"))
		class, res = nodekit.TCP(w.ports+gate, m, 30*time.Second)
		signer(ev, res, w.pks)
		if class == "ok" {
			ok, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(res)
			ev["good"] = err == nil && ok
		}
	case "adm":
		ev["what"], ev["good"] = vt.S(op, "what"), false
		class, res = w.rest(w.ports+admn, must(fcrmessages.EncodeProviderAdminForceRefreshRequest(vt.S(op, "what") == "refresh")))
		signer(ev, res, w.pks)
		if class == "ok" {
			r, err := fcrmessages.DecodeProviderAdminForceRefreshResponse(res)
			ev["good"] = err == nil && r == (vt.S(op, "what") == "refresh")
		}
	case "rekey":
		g, k := vt.I(op, "g"), vt.I(op, "k")
		w.regKey[g] = k
		w.listings()
		if w.inited {
			w.refresh()
		}
		ev["g"], ev["k"] = g, k
		ev["t1"] = w.ms()
		return ev
	case "restart":
		w.p.Kill()
		w.inited = false
		w.start()
		ev["t1"] = w.ms()
		return ev
	case "par":
		w.clear()
		ths := vt.L(op, "th")
		out := make([][]vt.M, len(ths))
		var wg sync.WaitGroup
		w.par = true
		for i, th := range ths {
			i, th := i, th.([]interface{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, x := range th {
					out[i] = append(out[i], w.do(x.(map[string]interface{})))
				}
			}()
		}
		wg.Wait()
		w.par = false
		ev["th"], ev["sent"] = out, w.sent()
		ev["t1"] = w.ms()
		return ev
	case "wait":
		time.Sleep(time.Duration(vt.I(op, "ms")) * time.Millisecond)
		ev["t1"] = w.ms()
		return ev
	default:
		panic("op " + vt.S(op, "op"))
	}
	ev["res"] = class
	ev["t1"] = w.ms()
	return ev
}

// a gateway asks for the offers in an interval and acknowledges what it gets as planned
func (w *world) list(op, ev vt.M) (string, *fcrmessages.FCRMessage) {
	g, by, plan := vt.I(op, "g"), vt.I(op, "by"), vt.S(op, "plan")
	ev["g"], ev["by"], ev["tamper"], ev["a"], ev["b"], ev["plan"] = g, by, vt.S(op, "tamper"), vt.I(op, "a"), vt.I(op, "b"), plan
	ev["msgs"], ev["acked"] = []vt.M{}, []int{}
	a, b := cidAt(vt.I(op, "a")), cidAt(vt.I(op, "b"))
	m := must(fcrmessages.EncodeGatewayListDHTOfferRequest(w.gid(g), &a, &b, "", "", "", &fcrmerkletree.FCRMerkleProof{}))
	m = w.sign(m, w.gkeys[by], vt.S(op, "tamper"))
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.ports+gate), 5*time.Second)
	if err != nil {
		return "none", nil
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	if nodekit.WriteFrame(c, m) != nil {
		return "none", nil
	}
	res, err := nodekit.ReadFrame(c)
	if err != nil {
		return "none", nil
	}
	signer(ev, res, w.pks)
	if res.GetMessageType() == fcrmessages.InvalidMessageResponseType {
		return "inv", res
	}
	got, err := fcrmessages.DecodeGatewayListDHTOfferResponse(res)
	if err != nil {
		return "garbage", res
	}
	ms := []vt.M{}
	for i := range got {
		x := vt.M{"os": [][]int{}, "pid": false}
		signer(x, &got[i], w.pks)
		id, _, os, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&got[i])
		if err == nil {
			x["os"], x["pid"] = w.offers(os), id.ToString() == w.pid
		}
		ms = append(ms, x)
	}
	ev["msgs"] = ms
	// the acknowledgements
	k, other := w.gkeys[by], w.gkeys[(by+1)%len(w.gkeys)]
	all := []fcrmessages.FCRMessage{}
	use := []int{}
	for i := range got {
		r := ackOf(&got[i], k, got[i].GetMessageBody(), 1)
		last, first := i == len(got)-1, i == 0
		bad := plan == "badlast" && last || plan == "badfirst" && first
		if bad {
			r = ackOf(&got[i], other, got[i].GetMessageBody(), 1)
		}
		if plan == "foreign" && first {
			r = ackOf(&got[i], k, append(append([]byte{}, got[i].GetMessageBody()...), ' '), 1)
		}
		if plan == "trash" && last {
			r = w.sign(fcrmessages.CreateFCRMessage(17, []byte("{}")), k, "")
		}
		if plan == "first" && !first || plan == "last" && !last || plan == "none" {
			continue
		}
		all = append(all, *r)
		use = append(use, i)
	}
	if plan == "rev" {
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
			use[i], use[j] = use[j], use[i]
		}
	}
	if plan == "extra" && len(all) > 0 {
		all, use = append(all, all[0]), append(use, use[0])
	}
	list := must(fcrmessages.EncodeGatewayListDHTOfferAck(all))
	switch plan {
	case "wrongkey":
		list = w.sign(list, other, "")
	case "nosig":
	case "altered":
		list = w.sign(list, k, "body")
	case "othertype":
		list = w.sign(fcrmessages.CreateFCRMessage(fcrmessages.GatewayListDHTOfferResponseType, list.GetMessageBody()), k, "")
	default:
		list = w.sign(list, k, "")
	}
	if plan == "hang" {
		return "ok", res
	}
	if plan != "wrongkey" && plan != "nosig" && plan != "altered" && plan != "othertype" {
		seen := map[int]bool{}
		acked := []int{}
		for j, i := range use {
			if acks(&all[j], &got[i], k) && !seen[i] {
				seen[i] = true
				acked = append(acked, i+1)
			}
		}
		ev["acked"] = acked
	}
	nodekit.WriteFrame(c, list)
	flush(c)
	return "ok", res
}

func main() {
	vt.Main(func(s *vt.Script, t *vt.Trace) {
		w := newWorld(s, t)
		defer w.close()
		w.start()
		for _, op := range s.Ops {
			ev := w.do(op)
			t.Add(ev)
			r, _ := ev["res"].(string)
			if w.p.Dead() || (r == "none" && w.p.DeadSoon(60*time.Millisecond)) {
				t.Add(vt.M{"op": "dead", "why": w.p.Why()})
				return
			}
		}
	})
}
