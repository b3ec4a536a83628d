// Conformance driver for offers, sub-offers and their Merkle proofs. CIDs and
// hashes are described as terms: ["c",i] a CID of the table, ["n",l,r] the
// hash of two terms, ["u",i] any other byte string.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

const limit = 20 * time.Second

var priv, pub []*fcrcrypto.KeyPair

func init() {
	for i := 0; i < 4; i++ {
		k, err := fcrcrypto.DecodePrivateKey("01" + strings.Repeat(fmt.Sprintf("%02x", 0x11*(i+1)), 32))
		if err != nil {
			panic(err)
		}
		p, err := k.EncodePublicKey()
		if err != nil {
			panic(err)
		}
		q, err := fcrcrypto.DecodePublicKey(p)
		if err != nil {
			panic(err)
		}
		priv, pub = append(priv, k), append(pub, q)
	}
}

type term = []interface{}

type world struct {
	rng    *rand.Rand
	offers map[int]*cidoffer.CIDOffer
	subs   map[int]*cidoffer.SubCIDOffer
	terms  map[string]term // by bytes
	cids   [][]byte
	junk   [][]byte
	prov   []string
	amount []uint64
	expiry []int64
	sigs   map[string]int
	digs   map[string]int
}

func newWorld(h vt.M) *world {
	w := &world{rng: rand.New(rand.NewSource(int64(vt.I(h, "seed")))), offers: map[int]*cidoffer.CIDOffer{}, subs: map[int]*cidoffer.SubCIDOffer{},
		terms: map[string]term{"": {"e", 0}}, sigs: map[string]int{}, digs: map[string]int{},
		amount: []uint64{0, 1, 42, math.MaxInt64, 1 << 63, math.MaxUint64},
		expiry: []int64{0, -5, time.Now().Unix() - []int64{2, 60, 3000, 80000}[vt.I(h, "seed")%4], time.Now().Unix() + []int64{1 << 31, 3600, 20000, 90000}[vt.I(h, "seed")/4%4], 9000000000, 253402300800}}
	for i := 0; i < 40; i++ {
		b := make([]byte, 32)
		switch i {
		case 0:
		case 1:
			b[31] = 1
		case 2:
			for j := range b {
				b[j] = 0xff
			}
		default:
			w.rng.Read(b)
		}
		w.cids = append(w.cids, b)
		w.terms[string(b)] = term{"c", i}
	}
	for i := 0; i < 2; i++ {
		b := make([]byte, 32)
		w.rng.Read(b)
		w.junk = append(w.junk, b)
		w.terms[string(b)] = term{"u", i}
	}
	for i := 0; i < 3; i++ {
		b := make([]byte, 32)
		w.rng.Read(b)
		w.prov = append(w.prov, hex.EncodeToString(b))
	}
	return w
}

func hash(l, r []byte) []byte {
	h := sha256.Sum256(append(append([]byte{}, l...), r...))
	return h[:]
}

// node names the hash of two byte strings.
func (w *world) node(l, r []byte) []byte {
	b := hash(l, r)
	if len(l) == 0 {
		l, r = r, l
	}
	if _, ok := w.terms[string(b)]; !ok {
		w.terms[string(b)] = term{"n", w.term(l), w.term(r)}
	}
	return b
}

func (w *world) term(b []byte) term {
	t, ok := w.terms[string(b)]
	if !ok {
		t = term{"u", len(w.junk)}
		w.junk = append(w.junk, append([]byte{}, b...))
		w.terms[string(b)] = t
	}
	return t
}

func (w *world) bytes(x interface{}) []byte {
	t := x.([]interface{})
	switch t[0].(string) {
	case "c":
		return w.cids[int(t[1].(float64))]
	case "e":
		return []byte{}
	case "u":
		return w.junk[int(t[1].(float64))]
	}
	return w.node(w.bytes(t[1]), w.bytes(t[2]))
}

// tree names every node of the tree over a list.
func (w *world) tree(l [][]byte) {
	if len(l)%2 == 1 {
		l = append(append([][]byte{}, l...), l[len(l)-1])
	}
	for len(l) > 1 {
		up := [][]byte{}
		for i := 0; i < len(l); i += 2 {
			j := i + 1
			if j == len(l) {
				j = i
			}
			up = append(up, w.node(l[i], l[j]))
		}
		l = up
	}
}

func (w *world) sig(x string, learn bool) int {
	if x == "" {
		return -1
	}
	c := "!" + x
	if b, err := hex.DecodeString(x); err == nil && len(b) >= 4 {
		if len(b) == 4+65 {
			b = b[:4+64]
		}
		c = string(b[4:])
	}
	id, ok := w.sigs[c]
	if !ok {
		if !learn {
			return -2
		}
		id = len(w.sigs)
		w.sigs[c] = id
	}
	return id
}

func (w *world) provider(s string) int {
	for i, p := range w.prov {
		if p == s {
			return i
		}
	}
	w.prov = append(w.prov, s)
	return len(w.prov) - 1
}

func (w *world) amt(x uint64) int {
	for i, a := range w.amount {
		if a == x {
			return i
		}
	}
	w.amount = append(w.amount, x)
	return len(w.amount) - 1
}

func (w *world) exp(x int64) int {
	for i, a := range w.expiry {
		if a == x {
			return i
		}
	}
	w.expiry = append(w.expiry, x)
	return len(w.expiry) - 1
}

func (w *world) seeO(ev vt.M, slot int) {
	o := w.offers[slot]
	cids := []interface{}{}
	for _, c := range o.GetCIDs() {
		cids = append(cids, w.term(c.ToBytes()))
	}
	d := o.GetMessageDigest()
	id, ok := w.digs[string(d[:])]
	if !ok {
		id = len(w.digs)
		w.digs[string(d[:])] = id
	}
	if cidoffer.DecodeMessageDigest(cidoffer.EncodeMessageDigest(d)) != d {
		id = -1
	}
	ev["slot"], ev["dig"], ev["expired"] = slot, id, o.HasExpired()
	ev["o"] = vt.M{"p": w.provider(o.GetProviderID().ToString()), "cids": cids, "price": w.amt(o.GetPrice()), "exp": w.exp(o.GetExpiry()),
		"qos": w.amt(o.GetQoS()), "sig": w.sig(o.GetSignature(), false)}
}

// proof reads the encoding of a Merkle proof.
func proof(s *cidoffer.SubCIDOffer) (path [][]byte, idx []int64) {
	j, err := s.GetMerkleProof().MarshalJSON()
	if err != nil {
		panic(err)
	}
	var b []byte
	if err := json.Unmarshal(j, &b); err != nil {
		panic(err)
	}
	n := binary.BigEndian.Uint32(b)
	if err := json.Unmarshal(b[4:4+n], &path); err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b[8+n:], &idx); err != nil {
		panic(err)
	}
	return
}

func encProof(path [][]byte, idx []int64) string {
	p, _ := json.Marshal(path)
	x, _ := json.Marshal(idx)
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(len(p)))
	b = append(b, p...)
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(x)))
	return base64.StdEncoding.EncodeToString(append(append(b, l...), x...))
}

// root names a Merkle root; one that is not lower-case hex of 32 bytes is a string of its own.
func (w *world) root(s string) term {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 32 || hex.EncodeToString(b) != s {
		return w.term([]byte("root:" + s))
	}
	return w.term(b)
}

func (w *world) seeS(ev vt.M, slot int) {
	s := w.subs[slot]
	path, idx := proof(s)
	pt, it := []interface{}{}, []interface{}{}
	for _, p := range path {
		pt = append(pt, w.term(p))
	}
	for _, i := range idx {
		if i > 1<<30 || i < -1<<30 {
			i = 99
		}
		it = append(it, i)
	}
	ev["slot"], ev["expired"] = slot, s.HasExpired()
	ev["s"] = vt.M{"p": w.provider(s.GetProviderID().ToString()), "cid": w.term(s.GetSubCID().ToBytes()), "root": w.root(s.GetMerkleRoot()),
		"path": pt, "idx": it, "price": w.amt(s.GetPrice()), "exp": w.exp(s.GetExpiry()), "qos": w.amt(s.GetQoS()), "sig": w.sig(s.GetSignature(), false)}
}

func (w *world) list(op vt.M) ([]cid.ContentID, [][]byte) {
	l, raw := []cid.ContentID{}, [][]byte{}
	for _, t := range vt.L(op, "cids") {
		b := w.bytes(t)
		c, err := cid.NewContentIDFromBytes(b)
		if err != nil {
			panic(err)
		}
		l, raw = append(l, *c), append(raw, b)
	}
	return l, raw
}

// ready tells whether the objects of an operation exist: damage may have kept one from being made.
func (w *world) ready(op vt.M) bool {
	o := func(k string) bool { return w.offers[vt.I(op, k)] != nil }
	s := func(k string) bool { return w.subs[vt.I(op, k)] != nil }
	switch vt.S(op, "op") {
	case "sign", "overify", "omangle", "sub":
		return o("slot")
	case "ocopy":
		return o("slot0") && o("from")
	case "scopy":
		return s("slot0") && s("from")
	case "sverify", "pverify", "smangle":
		return s("slot")
	}
	return true
}

func (w *world) do(op, ev vt.M) {
	slot, v := vt.I(op, "slot"), vt.I(op, "val")
	switch vt.S(op, "op") {
	case "offer":
		l, raw := w.list(op)
		p, _ := nodeid.NewNodeIDFromHexString(w.prov[vt.I(op, "p")])
		o, err := cidoffer.NewCIDOffer(p, l, w.amount[vt.I(op, "price")], w.expiry[vt.I(op, "exp")], w.amount[vt.I(op, "qos")])
		ev["ok"] = err == nil
		if err == nil {
			w.tree(raw)
			w.offers[slot] = o
			w.seeO(ev, slot)
		}
	case "sign":
		if err := w.offers[slot].Sign(priv[vt.I(op, "key")], fcrcrypto.DecodeKeyVersion(uint32(w.rng.Intn(3)))); err != nil {
			panic(err)
		}
		w.sig(w.offers[slot].GetSignature(), true)
		w.seeO(ev, slot)
	case "ocopy":
		m := fields(w.offers[vt.I(op, "slot0")])
		switch vt.S(op, "f") {
		case "p":
			m["provider_id"] = w.prov[v]
		case "price":
			m["price"] = w.amount[v]
		case "exp":
			m["expiry"] = w.expiry[v]
		case "qos":
			m["qos"] = w.amount[v]
		case "cids":
			_, raw := w.list(op)
			s := []string{}
			for _, b := range raw {
				s = append(s, hex.EncodeToString(b))
			}
			m["cids"] = s
			if len(raw) > 0 {
				w.tree(raw)
			}
		case "sig":
			m["signature"] = w.offers[vt.I(op, "from")].GetSignature()
		case "junk":
			m["signature"] = w.junkSig(fmt.Sprint(m["signature"]))
		}
		b, _ := json.Marshal(m)
		o := w.someOffer()
		err := json.Unmarshal(b, o)
		ev["ok"] = err == nil
		if err == nil {
			w.offers[slot] = o
			w.seeO(ev, slot)
		}
	case "overify":
		ev["ok"] = w.offers[slot].Verify(w.key(op)) == nil
		w.seeO(ev, slot)
	case "sub":
		c, _ := cid.NewContentIDFromBytes(w.bytes(op["cid"]))
		s, err := w.offers[slot].GenerateSubCIDOffer(c)
		ev["ok"] = err == nil
		if err == nil {
			w.subs[vt.I(op, "to")] = s
			w.seeS(ev, vt.I(op, "to"))
			ev["slot"] = slot
		}
	case "scopy":
		s := w.alter(op)
		ev["ok"] = s != nil
		if s != nil {
			w.subs[slot] = s
			w.seeS(ev, slot)
		}
	case "sverify":
		ev["ok"] = w.subs[slot].Verify(w.key(op)) == nil
		w.seeS(ev, slot)
	case "pverify":
		ev["ok"] = w.subs[slot].VerifyMerkleProof() == nil
		w.seeS(ev, slot)
	case "omangle":
		b, _ := json.Marshal(w.offers[slot])
		o := w.someOffer()
		err := json.Unmarshal(mangle(w.rng, b, vt.S(op, "how")), o)
		ev["ok"] = err == nil
		if err == nil {
			raw := [][]byte{}
			for _, c := range o.GetCIDs() {
				raw = append(raw, c.ToBytes())
			}
			if len(raw) > 0 {
				w.tree(raw)
			}
			w.offers[slot] = o
			w.seeO(ev, slot)
		}
	case "smangle":
		b, _ := json.Marshal(w.subs[slot])
		s := w.someSub()
		err := json.Unmarshal(mangle(w.rng, b, vt.S(op, "how")), s)
		ev["ok"] = err == nil
		if err == nil {
			w.subs[slot] = s
			w.seeS(ev, slot)
		}
	}
}

// someOffer is a variable to decode into: a fresh one, or one that held another offer before.
func (w *world) someOffer() *cidoffer.CIDOffer {
	o := &cidoffer.CIDOffer{}
	if w.rng.Intn(2) == 0 {
		if x := w.offers[w.rng.Intn(4)]; x != nil {
			b, _ := json.Marshal(x)
			json.Unmarshal(b, o)
		}
	}
	return o
}

func (w *world) someSub() *cidoffer.SubCIDOffer {
	s := &cidoffer.SubCIDOffer{}
	if w.rng.Intn(2) == 0 {
		if x := w.subs[w.rng.Intn(4)]; x != nil {
			b, _ := json.Marshal(x)
			json.Unmarshal(b, s)
		}
	}
	return s
}

func (w *world) key(op vt.M) *fcrcrypto.KeyPair {
	if w.rng.Intn(3) == 0 {
		return priv[vt.I(op, "key")]
	}
	return pub[vt.I(op, "key")]
}

func fields(x interface{}) map[string]interface{} {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	m := map[string]interface{}{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		panic(err)
	}
	return m
}

func (w *world) junkSig(s string) string {
	r := make([]byte, 69)
	w.rng.Read(r)
	switch w.rng.Intn(5) {
	case 0:
		return "zz"
	case 1:
		return "000"
	case 2:
		return hex.EncodeToString(r[:5+w.rng.Intn(65)])
	case 3:
		if b, err := hex.DecodeString(s); err == nil && len(b) == 69 {
			b[4+w.rng.Intn(64)] ^= 1 << uint(w.rng.Intn(8))
			return hex.EncodeToString(b)
		}
	}
	return hex.EncodeToString(r)
}

// alter decodes a sub-offer's encoding after one change.
func (w *world) alter(op vt.M) *cidoffer.SubCIDOffer {
	src, from, v := w.subs[vt.I(op, "slot0")], w.subs[vt.I(op, "from")], vt.I(op, "val")
	m := fields(src)
	path, idx := proof(src)
	f := vt.S(op, "f")
	at := 0
	if len(path) > 0 {
		at = v % len(path)
	}
	cut := func(n int) {
		if n < 0 {
			n = 0
		}
		if n < len(path) {
			path = path[:n]
		}
		if n < len(idx) {
			idx = idx[:n]
		}
	}
	behead := func() {
		if len(path) > 0 {
			path = path[1:]
		}
		if len(idx) > 0 {
			idx = idx[1:]
		}
	}
	changed := true
	switch f {
	case "p":
		m["provider_id"] = w.prov[v]
	case "price":
		m["price"] = w.amount[v]
	case "exp":
		m["expiry"] = w.expiry[v]
	case "qos":
		m["qos"] = w.amount[v]
	case "cid":
		m["sub_cid"] = hex.EncodeToString(w.bytes(op["term"]))
	case "root":
		m["merkle_root"] = hex.EncodeToString(w.bytes(op["term"]))
	case "rootfrom":
		m["merkle_root"] = from.GetMerkleRoot()
	case "sig":
		m["signature"] = from.GetSignature()
	case "junk":
		m["signature"] = w.junkSig(src.GetSignature())
	case "lift":
		if len(path) > 0 && len(idx) > 0 {
			c := src.GetSubCID().ToBytes()
			if idx[0] == 1 {
				c = w.node(c, path[0])
			} else {
				c = w.node(path[0], c)
			}
			m["sub_cid"] = hex.EncodeToString(c)
		}
		behead()
	case "behead":
		behead()
	case "cut":
		cut(len(path) - 1)
	case "proof":
		path, idx = proof(from)
	case "push":
		path, idx = append(path, w.bytes(op["term"])), append(idx, int64(v%2))
	case "elem":
		if len(path) > 0 {
			path[at] = w.bytes(op["term"])
		}
	case "flip":
		if len(path) > 0 && at < len(idx) {
			idx[at] = 1 - idx[at]
		}
	case "pathonly":
		if len(path) > 0 {
			path = path[:len(path)-1]
		}
	case "idxonly":
		if len(idx) > 0 {
			idx = idx[:len(idx)-1]
		}
	case "idxmore":
		idx = append(idx, int64(v%2))
	case "noproof":
		path, idx = [][]byte{}, []int64{}
		if w.rng.Intn(2) == 0 {
			path, idx = nil, nil
		}
	default:
		changed = false
	}
	if changed {
		m["merkle_proof"] = encProof(path, idx)
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	s := w.someSub()
	if json.Unmarshal(b, s) != nil {
		return nil
	}
	return s
}

func mangle(rng *rand.Rand, b []byte, how string) []byte {
	b = append([]byte{}, b...)
	switch how {
	case "trunc":
		return b[:rng.Intn(len(b))]
	case "flip":
		b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
	case "swap":
		i, j := rng.Intn(len(b)), rng.Intn(len(b))
		b[i], b[j] = b[j], b[i]
	case "drop":
		i := rng.Intn(len(b))
		b = append(b[:i], b[i+1:]...)
	case "null":
		return []byte([]string{"null", "{}", "[]", "7", `"x"`, "", `{"cids":7}`, `{"cids":[]}`, `{"cids":[""]}`, `{"merkle_proof":""}`,
			`{"merkle_proof":"AAAABG51bGwAAAAEbnVsbA=="}`, `{"cids":["zz"]}`, `{"provider_id":"zz","cids":["00"]}`}[rng.Intn(13)])
	case "nullify":
		var m map[string]json.RawMessage
		json.Unmarshal(b, &m)
		ks := []string{}
		for _, k := range []string{"provider_id", "cids", "price", "expiry", "qos", "signature", "sub_cid", "merkle_root", "merkle_proof"} {
			if _, ok := m[k]; ok {
				ks = append(ks, k)
			}
		}
		k := ks[rng.Intn(len(ks))]
		if rng.Intn(2) == 0 {
			delete(m, k)
		} else {
			m[k] = json.RawMessage("null")
		}
		b, _ = json.Marshal(m)
	}
	return b
}

func main() {
	vt.Main(func(sc *vt.Script, t *vt.Trace) {
		w := newWorld(sc.Hdr)
		for _, op := range sc.Ops {
			if !w.ready(op) {
				continue
			}
			ev := vt.M{}
			for k, v := range op {
				ev[k] = v
			}
			if !t.Step(vt.S(op, "op"), limit, func() { w.do(op, ev) }) {
				return
			}
			t.Add(ev)
		}
	})
}
