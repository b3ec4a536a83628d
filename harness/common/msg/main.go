// Conformance driver for protocol messages: signing and verification (mode
// "sign"), and encoding/decoding of every message kind (mode "codec").
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

const limit = 20 * time.Second

var priv, pub []*fcrcrypto.KeyPair

func init() {
	for i := 0; i < 4; i++ {
		k, err := fcrcrypto.DecodePrivateKey("01" + strings.Repeat(fmt.Sprintf("%02x", 0x11*(i+1)), 32))
		if err != nil {
			panic(err)
		}
		p, err := k.EncodePublicKey()
		if err != nil {
			panic(err)
		}
		q, err := fcrcrypto.DecodePublicKey(p)
		if err != nil {
			panic(err)
		}
		priv, pub = append(priv, k), append(pub, q)
	}
}

// wire is a message as anybody on the path sees it.
type wire struct {
	MessageType       int32   `json:"message_type"`
	ProtocolVersion   int32   `json:"protocol_version"`
	ProtocolSupported []int32 `json:"protocol_supported"`
	MessageBody       []byte  `json:"message_body"`
	Signature         string  `json:"message_signature"`
}

type signer struct {
	rng   *rand.Rand
	slots map[int]*fcrmessages.FCRMessage
	sigs  map[string]int
	body  [][]byte
	supp  [][]int32
	vers  []int32
	types []int32
}

func newSigner(h vt.M) *signer {
	rng := rand.New(rand.NewSource(int64(vt.I(h, "seed"))))
	big := make([]byte, 3000)
	rng.Read(big)
	big2 := append([]byte{}, big...)
	big2[2999] ^= 1
	return &signer{rng: rng, slots: map[int]*fcrmessages.FCRMessage{}, sigs: map[string]int{},
		body:  [][]byte{[]byte(`{"nonce":42}`), []byte(`{"nonce":43}`), {}, nil, big, big2},
		supp:  [][]int32{{1, 1}, {1}, {}, nil, {2, 1}, {1, 2}},
		vers:  []int32{1, 2, 0, -1, 1 << 30, 11},
		types: []int32{0, 1, 101, 2000, -5, 1 << 30}}
}

// find gives the index of a value in its table; a value not seen before joins the table.
func find(n int, eq func(int) bool, add func()) int {
	for i := 0; i < n; i++ {
		if eq(i) {
			return i
		}
	}
	add()
	return n
}

func (s *signer) typ(t int32) int {
	return find(len(s.types), func(i int) bool { return s.types[i] == t }, func() { s.types = append(s.types, t) })
}
func (s *signer) ver(t int32) int {
	return find(len(s.vers), func(i int) bool { return s.vers[i] == t }, func() { s.vers = append(s.vers, t) })
}
func (s *signer) bod(b []byte) int {
	return find(len(s.body), func(i int) bool { return (b == nil) == (s.body[i] == nil) && bytes.Equal(b, s.body[i]) },
		func() { s.body = append(s.body, append(b[:0:0], b...)) })
}
func (s *signer) sup(x []int32) int {
	return find(len(s.supp), func(i int) bool {
		return (x == nil) == (s.supp[i] == nil) && fmt.Sprint(x) == fmt.Sprint(s.supp[i])
	}, func() { s.supp = append(s.supp, append(x[:0:0], x...)) })
}

// core is the part of a signature that the curve computation covers.
func core(sig string) string {
	b, err := hex.DecodeString(sig)
	if err != nil || len(b) < 4 {
		return "!" + sig
	}
	if len(b) == 4+65 {
		b = b[:4+64]
	}
	return string(b[4:])
}

func (s *signer) sig(x string, learn bool) int {
	if x == "" {
		return -1
	}
	id, ok := s.sigs[core(x)]
	if !ok {
		if !learn {
			return -2
		}
		id = len(s.sigs)
		s.sigs[core(x)] = id
	}
	return id
}

func (s *signer) obs(ev vt.M, slot int) {
	m := s.slots[slot]
	x := m.GetSignature()
	kv := -1
	if k, err := fcrcrypto.ExtractKeyVersionFromMessage(x); err == nil {
		kv = int(k.EncodeKeyVersion())
	}
	ev["slot"] = slot
	ev["o"] = vt.M{"c": vt.M{"t": s.typ(m.GetMessageType()), "b": s.bod(m.GetMessageBody()), "v": s.ver(m.GetProtocolVersion()),
		"s": s.sup(m.GetProtocolSupported())}, "sig": s.sig(x, false), "kv": kv}
}

func (s *signer) wire(slot int) wire {
	b, err := s.slots[slot].FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	var w wire
	if err := json.Unmarshal(b, &w); err != nil {
		panic(err)
	}
	return w
}

func (s *signer) put(slot int, w wire) {
	b, err := json.Marshal(w)
	if err != nil {
		panic(err)
	}
	m, err := fcrmessages.FCRMsgFromBytes(b)
	if err != nil {
		panic(err)
	}
	s.slots[slot] = m
}

func (s *signer) key(op vt.M) *fcrcrypto.KeyPair {
	if vt.B(op, "pub") {
		return pub[vt.I(op, "key")]
	}
	return priv[vt.I(op, "key")]
}

func (s *signer) do(op, ev vt.M) {
	slot := vt.I(op, "slot")
	switch vt.S(op, "op") {
	case "new":
		fcrmessages.SetCurrentProtocolVersion(s.vers[vt.I(op, "v")], s.supp[vt.I(op, "s")])
		s.slots[slot] = fcrmessages.CreateFCRMessage(s.types[vt.I(op, "t")], s.body[vt.I(op, "b")])
	case "sign":
		if err := s.slots[slot].Sign(priv[vt.I(op, "key")], fcrcrypto.DecodeKeyVersion(uint32(vt.I(op, "kv")))); err != nil {
			panic(err)
		}
		s.sig(s.slots[slot].GetSignature(), true)
	case "copy":
		to := vt.I(op, "to")
		b, err := s.slots[slot].FCRMsgToBytes()
		if err != nil {
			panic(err)
		}
		m, err := fcrmessages.FCRMsgFromBytes(b)
		if err != nil {
			panic(err)
		}
		s.slots[to] = m
		ev["from0"] = slot
		slot = to
	case "set":
		w := s.wire(slot)
		v := vt.I(op, "val")
		switch vt.S(op, "f") {
		case "t":
			w.MessageType = s.types[v]
		case "b":
			w.MessageBody = s.body[v]
		case "v":
			w.ProtocolVersion = s.vers[v]
		case "s":
			w.ProtocolSupported = s.supp[v]
		}
		s.put(slot, w)
	case "sigfrom":
		w := s.wire(slot)
		w.Signature = s.slots[vt.I(op, "from")].GetSignature()
		s.put(slot, w)
	case "junk":
		w := s.wire(slot)
		b, err := hex.DecodeString(w.Signature)
		r := make([]byte, 69)
		s.rng.Read(r)
		copy(r, []byte{0, 0, 0, 7})
		switch vt.S(op, "how") {
		case "empty":
			w.Signature = ""
		case "nonhex":
			w.Signature = "zz" + w.Signature
		case "odd":
			w.Signature = "000"
		case "short":
			w.Signature = "0000" + "07"[:2*s.rng.Intn(2)]
		case "veronly":
			w.Signature = "00000007"
		case "rand":
			w.Signature = hex.EncodeToString(r[:5+s.rng.Intn(65)])
		case "rand69":
			w.Signature = hex.EncodeToString(r)
		case "bit":
			if err == nil && len(b) > 68 {
				b[4+s.rng.Intn(64)] ^= 1 << uint(s.rng.Intn(8))
				copy(b, r[:4])
				w.Signature = hex.EncodeToString(b)
			} else {
				w.Signature = hex.EncodeToString(r)
			}
		case "cut":
			if err == nil && len(b) > 68 {
				copy(b, r[:4])
				w.Signature = hex.EncodeToString(b[:67-s.rng.Intn(30)])
			} else {
				w.Signature = hex.EncodeToString(r)
			}
		case "ver":
			// the key version of a signature is not covered by it
			if err == nil && len(b) > 4 {
				copy(b, r[:4])
				w.Signature = hex.EncodeToString(b)
			}
		}
		s.put(slot, w)
	case "verify":
		ev["ok"] = s.slots[slot].Verify(s.key(op)) == nil
	case "pverify":
		ks := vt.Ints(op, "keys")
		res := make([]bool, len(ks))
		var wg sync.WaitGroup
		m := s.slots[slot]
		for i := range ks {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { recover() }()
				res[i] = m.Verify(pub[ks[i]]) == nil
			}(i)
		}
		wg.Wait()
		ev["oks"] = res
	case "mangle":
		b, err := s.slots[slot].FCRMsgToBytes()
		if err != nil {
			panic(err)
		}
		b = mangle(s.rng, b, vt.S(op, "how"))
		m, err := fcrmessages.FCRMsgFromBytes(b)
		ev["ok"] = err == nil
		if err == nil {
			slot = vt.I(op, "to")
			s.slots[slot] = m
		}
	}
	if s.slots[slot] != nil {
		s.obs(ev, slot)
	}
}

func mangle(rng *rand.Rand, b []byte, how string) []byte {
	b = append([]byte{}, b...)
	switch how {
	case "trunc":
		return b[:rng.Intn(len(b))]
	case "flip":
		b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
	case "swap":
		i, j := rng.Intn(len(b)), rng.Intn(len(b))
		b[i], b[j] = b[j], b[i]
	case "drop":
		i := rng.Intn(len(b))
		b = append(b[:i], b[i+1:]...)
	case "null":
		return []byte([]string{"null", "{}", "[]", "7", `"x"`, "", `{"message_body":7}`, `{"message_type":"x"}`, `{"message_body":"!"}`}[rng.Intn(9)])
	case "double":
		// a second copy of one field
		return append(b[:len(b)-1], []byte(`,"message_type":1}`)...)
	case "nullify":
		var m map[string]json.RawMessage
		json.Unmarshal(b, &m)
		ks := []string{"message_type", "protocol_version", "protocol_supported", "message_body", "message_signature"}
		k := ks[rng.Intn(len(ks))]
		if rng.Intn(2) == 0 {
			delete(m, k)
		} else {
			m[k] = json.RawMessage("null")
		}
		b, _ = json.Marshal(m)
	}
	return b
}

func main() {
	vt.Main(func(sc *vt.Script, t *vt.Trace) {
		if vt.S(sc.Hdr, "mode") == "codec" {
			codec(sc, t)
			return
		}
		s := newSigner(sc.Hdr)
		for _, op := range sc.Ops {
			ev := vt.M{}
			for k, v := range op {
				ev[k] = v
			}
			if !t.Step(vt.S(op, "op"), limit, func() { s.do(op, ev) }) {
				return
			}
			t.Add(ev)
		}
	})
}
