package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

func some32(r *rand.Rand) []byte {
	b := make([]byte, 32)
	switch r.Intn(6) {
	case 0:
	case 1:
		b[31] = 1
	default:
		r.Read(b)
	}
	return b
}

func someCID(r *rand.Rand) *cid.ContentID { c, _ := cid.NewContentIDFromBytes(some32(r)); return c }
func someNode(r *rand.Rand) *nodeid.NodeID {
	n, _ := nodeid.NewNodeIDFromBytes(some32(r))
	return n
}

// single makes every offer a single-CID one; multi is set by an offer that is not.
var single, multi bool

func someOffer(r *rand.Rand) *cidoffer.CIDOffer {
	cids := []cid.ContentID{*someCID(r)}
	for i := r.Intn(5); i > 0 && !single; i-- {
		cids = append(cids, *someCID(r))
		multi = true
	}
	o, err := cidoffer.NewCIDOffer(someNode(r), cids, someU(r), someI(r), someU(r))
	if err != nil {
		panic(err)
	}
	if r.Intn(3) > 0 {
		if err := o.Sign(priv[r.Intn(4)], fcrcrypto.DecodeKeyVersion(r.Uint32())); err != nil {
			panic(err)
		}
	}
	return o
}

func someSub(r *rand.Rand) *cidoffer.SubCIDOffer {
	o := someOffer(r)
	c := o.GetCIDs()[r.Intn(len(o.GetCIDs()))]
	s, err := o.GenerateSubCIDOffer(&c)
	if err != nil {
		panic(err)
	}
	return s
}

func someI(r *rand.Rand) int64 {
	return []int64{0, 1, -1, 42, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, r.Int63(), -r.Int63()}[r.Intn(10)]
}
func someU(r *rand.Rand) uint64 {
	return []uint64{0, 1, 42, math.MaxUint64, 1<<63 - 1, 1 << 63, 1<<53 + 1, r.Uint64()}[r.Intn(8)]
}
func someS(r *rand.Rand) string {
	return []string{"", "a", "00", `q"u\o`, "<&>\u2028", "日本", strings.Repeat("x", 2000), fmt.Sprint(r.Int63()), fmt.Sprint(r.Int63()), "null"}[r.Intn(10)]
}

func someMsg(r *rand.Rand, deep int) *fcrmessages.FCRMessage {
	if deep < 2 && r.Intn(2) == 0 {
		k := kinds[r.Intn(len(kinds))]
		m := encode(r, k.enc, deep+1, nil)
		m.Sign(priv[r.Intn(4)], fcrcrypto.DecodeKeyVersion(1))
		return m
	}
	b := make([]byte, r.Intn(50))
	r.Read(b)
	return fcrmessages.CreateFCRMessage(int32(someI(r)), b)
}

func some(r *rand.Rand, t reflect.Type, deep int) reflect.Value {
	switch t {
	case reflect.TypeOf(&cid.ContentID{}):
		return reflect.ValueOf(someCID(r))
	case reflect.TypeOf(cid.ContentID{}):
		return reflect.ValueOf(*someCID(r))
	case reflect.TypeOf(&nodeid.NodeID{}):
		return reflect.ValueOf(someNode(r))
	case reflect.TypeOf(nodeid.NodeID{}):
		return reflect.ValueOf(*someNode(r))
	case reflect.TypeOf(&cidoffer.CIDOffer{}):
		return reflect.ValueOf(someOffer(r))
	case reflect.TypeOf(cidoffer.CIDOffer{}):
		return reflect.ValueOf(*someOffer(r))
	case reflect.TypeOf(cidoffer.SubCIDOffer{}):
		return reflect.ValueOf(*someSub(r))
	case reflect.TypeOf(&fcrmerkletree.FCRMerkleProof{}):
		return reflect.ValueOf(someSub(r).GetMerkleProof())
	case reflect.TypeOf(fcrmessages.FCRMessage{}):
		return reflect.ValueOf(*someMsg(r, deep))
	case reflect.TypeOf(&fcrmessages.FCRMessage{}):
		return reflect.ValueOf(someMsg(r, deep))
	case reflect.TypeOf(&fcrcrypto.KeyPair{}):
		return reflect.ValueOf(priv[r.Intn(4)])
	case reflect.TypeOf(&fcrcrypto.KeyVersion{}):
		return reflect.ValueOf(fcrcrypto.DecodeKeyVersion(r.Uint32() >> uint(r.Intn(33))))
	}
	switch t.Kind() {
	case reflect.Int64:
		return reflect.ValueOf(someI(r))
	case reflect.Int32:
		return reflect.ValueOf(int32(someI(r)))
	case reflect.Uint64:
		return reflect.ValueOf(someU(r))
	case reflect.String:
		return reflect.ValueOf(someS(r))
	case reflect.Bool:
		return reflect.ValueOf(r.Intn(2) == 0)
	case reflect.Slice:
		n := r.Intn(4)
		s := reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			s = reflect.Append(s, some(r, t.Elem(), deep))
		}
		return s
	}
	panic("no values of type " + t.String())
}

// fp describes a value completely; it also uses the value as a handler would.
func fp(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case *cid.ContentID:
		return x.ToString()
	case cid.ContentID:
		return x.ToString()
	case *nodeid.NodeID:
		return x.ToString()
	case nodeid.NodeID:
		return x.ToString()
	case *cidoffer.CIDOffer:
		return fpOffer(*x)
	case cidoffer.CIDOffer:
		return fpOffer(x)
	case cidoffer.SubCIDOffer:
		b, err := x.MarshalJSON()
		return fmt.Sprint(string(b), err, x.Verify(pub[0]) == nil, x.Verify(pub[1]) == nil, x.VerifyMerkleProof() == nil, x.GetSubCID().ToString())
	case *fcrmerkletree.FCRMerkleProof:
		b, err := x.MarshalJSON()
		return fmt.Sprint(string(b), err)
	case fcrmessages.FCRMessage:
		return fpMsg(x)
	case *fcrmessages.FCRMessage:
		return fpMsg(*x)
	case *fcrcrypto.KeyPair:
		return x.EncodePrivateKey()
	case *fcrcrypto.KeyVersion:
		return fmt.Sprint(x.EncodeKeyVersion())
	}
	if v.Kind() == reflect.Slice {
		p := []string{}
		for i := 0; i < v.Len(); i++ {
			p = append(p, fp(v.Index(i)))
		}
		return "[" + strings.Join(p, "|") + "]"
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func fpOffer(x cidoffer.CIDOffer) string {
	b, err := x.MarshalJSON()
	d := x.GetMessageDigest()
	c := x.GetCIDs()
	for i := range c {
		if _, e := x.GenerateSubCIDOffer(&c[i]); e != nil {
			return "no sub offer: " + e.Error()
		}
	}
	return fmt.Sprint(string(b), err, hex.EncodeToString(d[:]), x.Verify(pub[0]) == nil, x.Verify(pub[1]) == nil)
}

func fpMsg(x fcrmessages.FCRMessage) string {
	b, err := x.FCRMsgToBytes()
	return fmt.Sprint(string(b), err, x.Verify(pub[0]) == nil)
}

func short(s string) string {
	if len(s) > 24 {
		h := sha256.Sum256([]byte(s))
		return s[:8] + ":" + hex.EncodeToString(h[:6])
	}
	return s
}

// encode calls an encoder with arbitrary arguments and describes them.
func encode(r *rand.Rand, enc interface{}, deep int, sent *[]string) *fcrmessages.FCRMessage {
	e := reflect.ValueOf(enc)
	args := []reflect.Value{}
	for i := 0; i < e.Type().NumIn(); i++ {
		v := some(r, e.Type().In(i), deep)
		args = append(args, v)
		if sent != nil {
			*sent = append(*sent, short(fp(v)))
		}
	}
	out := e.Call(args)
	if !out[1].IsNil() {
		panic(out[1].Interface())
	}
	return out[0].Interface().(*fcrmessages.FCRMessage)
}

func decode(dec interface{}, m *fcrmessages.FCRMessage) (got []string, failed bool) {
	out := reflect.ValueOf(dec).Call([]reflect.Value{reflect.ValueOf(m)})
	if !out[len(out)-1].IsNil() {
		return []string{}, true
	}
	got = []string{}
	for _, v := range out[:len(out)-1] {
		got = append(got, short(fp(v)))
	}
	return got, false
}

// damage alters one place of a JSON body.
func damage(r *rand.Rand, b []byte) []byte {
	if r.Intn(3) == 0 {
		return mangle(r, b, []string{"trunc", "flip", "swap", "drop"}[r.Intn(4)])
	}
	var x interface{}
	if json.Unmarshal(b, &x) != nil {
		return nil
	}
	bad := func() interface{} {
		return []interface{}{nil, "zz", "", strings.Repeat("ab", 33), -1.0, 1e30, true, []interface{}{}, []interface{}{"q"}, []interface{}{nil},
			map[string]interface{}{}, "AAAAAQA=", "AAAABG51bGwAAAAEbnVsbA=="}[r.Intn(13)]
	}
	n := 0
	var walk func(x interface{}, at int) interface{}
	walk = func(x interface{}, at int) interface{} {
		n++
		if n == at {
			return bad()
		}
		switch y := x.(type) {
		case map[string]interface{}:
			for _, k := range sorted(y) {
				if n+1 == at && r.Intn(4) == 0 {
					n++
					delete(y, k)
					continue
				}
				y[k] = walk(y[k], at)
			}
		case []interface{}:
			for i := range y {
				y[i] = walk(y[i], at)
			}
		}
		return x
	}
	walk(x, -1)
	total := n
	n = 0
	x = walk(x, 1+r.Intn(total))
	b, err := json.Marshal(x)
	if err != nil {
		return nil
	}
	return b
}

func sorted(m map[string]interface{}) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func codec(sc *vt.Script, t *vt.Trace) {
	r := rand.New(rand.NewSource(int64(vt.I(sc.Hdr, "seed"))))
	msgs := map[int]*fcrmessages.FCRMessage{}
	for _, op := range sc.Ops {
		ev := vt.M{}
		for k, v := range op {
			ev[k] = v
		}
		slot, k := vt.I(op, "slot"), vt.I(op, "k")
		name := vt.S(op, "op")
		if !t.Step(name+" "+kinds[k%len(kinds)].name, limit, func() {
			k = k % len(kinds)
			ev["k"] = k
			switch name {
			case "send":
				sent := []string{}
				single, multi = r.Intn(2) == 0, false
				m := encode(r, kinds[k].enc, 0, &sent)
				// a DHT publication is only for single-CID offers
				ev["refuse"] = kinds[k].name == "ProviderPublishDHTOfferRequest" && multi
				if err := m.Sign(priv[0], fcrcrypto.InitialKeyVersion()); err != nil {
					panic(err)
				}
				b, err := m.FCRMsgToBytes()
				if err != nil {
					panic(err)
				}
				m, err = fcrmessages.FCRMsgFromBytes(b)
				if err != nil {
					panic(err)
				}
				ev["genuine"] = m.Verify(pub[0]) == nil
				msgs[slot] = m
				ev["v"] = sent
			case "recv":
				got, failed := decode(kinds[k].dec, msgs[slot])
				ev["v"], ev["err"] = got, failed
			case "all":
				// every decoder on this message: which accept it?
				acc := []int{}
				for i := range kinds {
					if _, failed := decode(kinds[i].dec, msgs[slot]); !failed {
						acc = append(acc, i)
					}
				}
				ev["acc"] = acc
			case "bad":
				// a damaged body is refused or decodes to usable values
				m := msgs[slot]
				typ := m.GetMessageType()
				for i := 0; i < 12; i++ {
					if b := damage(r, m.GetMessageBody()); b != nil {
						decode(kinds[k].dec, fcrmessages.CreateFCRMessage(typ, b))
					}
				}
			}
		}) {
			return
		}
		t.Add(ev)
	}
}
