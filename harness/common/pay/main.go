// Conformance driver for the payment manager, as payer, as payee, and used
// concurrently.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"errors"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/go-address"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/lib/sigs"
	paych0 "github.com/filecoin-project/specs-actors/actors/builtin/paych"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/lotus"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

const limit = 20 * time.Second

type key struct {
	priv []byte
	hex  string
	addr address.Address
}

func newKey(n int64) key {
	p := make([]byte, 32)
	big.NewInt(n*7919 + 12345).FillBytes(p[:])
	pub, err := sigs.ToPublic(crypto2.SigTypeSecp256k1, p)
	if err != nil {
		panic(err)
	}
	a, err := address.NewSecp256k1Address(pub)
	if err != nil {
		panic(err)
	}
	return key{p, hex.EncodeToString(p), a}
}

func newMgr(k key, n *lotus.Node) *fcrpaymentmgr.FCRPaymentMgr {
	m, err := fcrpaymentmgr.NewFCRPaymentMgr(k.hex, n.URL, "token")
	if err != nil {
		panic(err)
	}
	return m
}

type unit struct{ u *big.Int }

// amounts are model units times a large number; how the number is built matters to its capacity
func (u unit) val(k, how int) *big.Int {
	v := new(big.Int).Mul(big.NewInt(int64(k)), u.u)
	switch how % 3 {
	case 0:
		r, _ := new(big.Int).SetString(v.String(), 10)
		return r
	case 1:
		r := new(big.Int).Lsh(v, 300)
		return r.Rsh(r, 300)
	}
	return new(big.Int).Set(v)
}

func (u unit) back(v *big.Int) int {
	q, r := new(big.Int).QuoRem(v, u.u, new(big.Int))
	if r.Sign() != 0 || !q.IsInt64() || q.Int64() > 1<<30 || q.Int64() < -(1<<30) {
		return -999999
	}
	return int(q.Int64())
}

func getUnit(s *vt.Script) unit {
	v, ok := new(big.Int).SetString(vt.S(s.Hdr, "unit"), 10)
	if !ok {
		panic("unit")
	}
	return unit{v}
}

// fails is set per operation: make the j-th call of a method fail
type failer struct {
	mu     sync.Mutex
	method string
	nth    int
	after  bool
	exit   int
	seen   int
	slow   int // how many times a receipt is asked for in vain; the odd ones are answered with an error
}

func (f *failer) pending() (bool, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.slow == 0 {
		return false, nil
	}
	f.slow--
	if f.slow%2 == 0 {
		return true, errors.New("injected")
	}
	return true, nil
}

func (f *failer) set(op vt.M) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.method, f.nth, f.after, f.exit, f.seen, f.slow = "", 0, false, 0, 0, vt.I(op, "slow")
	if m := vt.S(op, "fail"); m == "exit" {
		f.exit = 1
	} else if m != "" {
		f.method, f.nth, f.after = m, vt.I(op, "nth"), vt.B(op, "after")
	}
}

func (f *failer) hook(after bool) func(string) error {
	return func(m string) error {
		f.mu.Lock()
		defer f.mu.Unlock()
		if m != f.method || after != f.after {
			return nil
		}
		f.seen++
		if f.seen-1 == f.nth {
			return errors.New("injected")
		}
		return nil
	}
}

var tag int64 = 100

func fresh() key { return newKey(atomic.AddInt64(&tag, 1)) }

func chanIndex(list []*lotus.Chan, a address.Address) int {
	for i, c := range list {
		if c.Addr == a {
			return i
		}
	}
	return -1
}

func voucherEvent(u unit, voucher string, payer key, chans []*lotus.Chan) vt.M {
	sv, err := paych.DecodeSignedVoucher(voucher)
	if err != nil {
		return vt.M{"ch": -9, "lane": 0, "nonce": 0, "amt": 0, "sig": false}
	}
	vb, _ := sv.SigningBytes()
	e := vt.M{"ch": chanIndex(chans, sv.ChannelAddr), "lane": int(sv.Lane % (1 << 30)), "nonce": int(sv.Nonce), "amt": u.back(sv.Amount.Int),
		"sig": sigs.Verify(sv.Signature, payer.addr, vb) == nil}
	return e
}

// the top model nonce stands for the largest there is
func nonce(n int) uint64 {
	if n == 1000 {
		return 1<<64 - 1
	}
	return uint64(n)
}

// lanes that a shortened or a signed lane number would take for each other
var laneSets = [][]uint64{
	{0, 1, 1<<29 + 5, 77},
	{5, 5 + 1<<8, 5 + 1<<16, 5 + 1<<32},
	{0, 1 << 63, 1<<63 + 1<<31, 1<<64 - 1},
	{3, 3 + 1<<31, 3 + 1<<48, 1<<63 - 1},
}

var laneIDs = laneSets[0]

func payer(s *vt.Script, t *vt.Trace) {
	u := getUnit(s)
	me := fresh()
	nr := vt.I(s.Hdr, "recipients")
	rec := make([]key, nr)
	for i := range rec {
		rec[i] = fresh()
	}
	f := &failer{}
	n := lotus.New()
	defer n.Close()
	n.Hook, n.Done = f.hook(false), f.hook(true)
	n.Pending = f.pending
	n.Exit = func() int { f.mu.Lock(); defer f.mu.Unlock(); return f.exit }
	m := newMgr(me, n)
	reuse := vt.B(s.Hdr, "reuse")
	t.Set("role", "payer")
	vars := map[int]*big.Int{}
	for i, op := range s.Ops {
		ev := vt.M{"op": op["op"], "r": vt.I(op, "r"), "a": vt.I(op, "a")}
		amt := u.val(vt.I(op, "a"), i+vt.I(op, "a"))
		if reuse {
			// the caller keeps one variable per amount, as a configured amount is
			if vars[vt.I(op, "a")] == nil {
				vars[vt.I(op, "a")] = amt
			}
			amt = vars[vt.I(op, "a")]
		}
		want := u.val(vt.I(op, "a"), 2)
		f.set(op)
		ev["fail"] = vt.S(op, "fail")
		switch vt.S(op, "op") {
		case "topup":
			var err error
			if !t.Step("payer", limit, func() { err = m.Topup(rec[vt.I(op, "r")].addr.String(), amt) }) {
				return
			}
			ev["err"] = err != nil
			ps := []vt.M{}
			for _, p := range n.Pushes() {
				to := -1
				if p.Create {
					for j := range rec {
						if rec[j].addr == p.To {
							to = j
						}
					}
				}
				ch := -1
				if p.Chan != nil {
					ch = p.Chan.N
				}
				ps = append(ps, vt.M{"create": p.Create, "to": to, "ch": ch, "v": u.back(p.Value), "exit": p.Exit})
			}
			ev["push"] = ps
		case "pay":
			l := vt.I(op, "l")
			var ch, v string
			var need bool
			var err error
			if !t.Step("payer", limit, func() { ch, v, need, err = m.Pay(rec[vt.I(op, "r")].addr.String(), laneIDs[l], amt) }) {
				return
			}
			ev["l"] = l
			switch {
			case err != nil:
				ev["out"] = "err"
			case need:
				ev["out"] = "need"
			default:
				ev["out"] = "ok"
				e := voucherEvent(u, v, me, n.Channels())
				e["lane"] = -1
				if sv, err := paych.DecodeSignedVoucher(v); err == nil {
					for j, id := range laneIDs {
						if id == sv.Lane {
							e["lane"] = j
						}
					}
				}
				ev["v"] = e
				a, err := address.NewFromString(ch)
				ev["vch"] = -1
				if err == nil {
					ev["vch"] = chanIndex(n.Channels(), a)
				}
			}
			if (ch != "" || v != "") && ev["out"] != "ok" {
				ev["out"] = "leak"
			}
		}
		ev["kept"] = amt.Cmp(want) == 0
		if !reuse {
			// the caller goes on to use its variable for something else
			amt.SetInt64(987654321)
		}
		t.Add(ev)
	}
}

func encode(sv *paych.SignedVoucher) string {
	var b strings.Builder
	if err := sv.MarshalCBOR(&b); err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString([]byte(b.String()))
}

func voucher(u unit, v vt.M, chans []address.Address, signers []key, rng *rand.Rand) string {
	sv := &paych.SignedVoucher{ChannelAddr: chans[vt.I(v, "ch")], Lane: laneIDs[vt.I(v, "l")], Nonce: nonce(vt.I(v, "n")),
		Amount: lotusbig.NewFromGo(u.val(vt.I(v, "a"), 2))}
	// genuinely signed, but not payable as they are
	switch vt.S(v, "tamper") {
	case "merge":
		sv.Merges = []paych0.Merge{{Lane: laneIDs[(vt.I(v, "l")+vt.I(v, "d"))%len(laneIDs)], Nonce: uint64(rng.Intn(3))}}
	case "notyet":
		sv.TimeLockMin = 1 << 50
	case "over":
		sv.TimeLockMax = 1
	case "secret":
		sv.SecretPreimage = []byte{1, 2, 3}
	case "extra":
		sv.Extra = &paych.ModVerifyParams{Actor: chans[0], Method: 3, Data: []byte{7}}
	}
	vb, err := sv.SigningBytes()
	if err != nil {
		panic(err)
	}
	sv.Signature, err = sigs.Sign(crypto2.SigTypeSecp256k1, signers[vt.I(v, "by")].priv, vb)
	if err != nil {
		panic(err)
	}
	switch vt.S(v, "tamper") {
	case "sig":
		sv.Signature.Data[rng.Intn(60)] ^= byte(1 + rng.Intn(255))
	case "amount":
		sv.Amount = lotusbig.NewFromGo(u.val(vt.I(v, "a")+vt.I(v, "d"), 2))
	case "lane":
		sv.Lane = laneIDs[(vt.I(v, "l")+1)%len(laneIDs)]
	case "nonce":
		sv.Nonce += 1
	case "chan":
		sv.ChannelAddr = chans[(vt.I(v, "ch")+1)%3]
	case "nosig":
		sv.Signature = nil
	case "bls":
		sv.Signature.Type = crypto2.SigTypeBLS
	case "short":
		sv.Signature.Data = sv.Signature.Data[:rng.Intn(64)]
	case "badlen":
		sv.Signature.Data = append(sv.Signature.Data, make([]byte, 1+rng.Intn(3))...)
	case "neg":
		sv.Amount = lotusbig.NewFromGo(new(big.Int).Neg(u.u))
	}
	s := encode(sv)
	switch vt.S(v, "tamper") {
	case "b64":
		return s[:len(s)/2] + "!" + s[len(s)/2:]
	case "trunc":
		return s[:rng.Intn(len(s))]
	case "flip":
		for {
			b, _ := base64.RawURLEncoding.DecodeString(s)
			for i := 0; i < 1+rng.Intn(3); i++ {
				b[rng.Intn(len(b))] ^= byte(1 + rng.Intn(255))
			}
			c := base64.RawURLEncoding.EncodeToString(b)
			// another encoding of the same thing is not a change
			if d, err := paych.DecodeSignedVoucher(c); err == nil && same(sv, d) {
				continue
			}
			return c
		}
	case "empty":
		return ""
	}
	return s
}

func same(a, b *paych.SignedVoucher) bool {
	if b.Signature == nil || len(b.Signature.Data) < 65 || a.Signature.Type != b.Signature.Type {
		return false
	}
	x, err1 := a.SigningBytes()
	y, err2 := b.SigningBytes()
	return err1 == nil && err2 == nil && string(x) == string(y) && string(a.Signature.Data[:64]) == string(b.Signature.Data[:64])
}

type world struct {
	node    *lotus.Node
	me      key
	signers []key
	chans   []address.Address
	lch     []*lotus.Chan
	m       *fcrpaymentmgr.FCRPaymentMgr
}

// channels 0..2 pay this payee (0 and 1 from the same payer), 3 pays another one, 4 does not exist, 5 is an account
func newWorld(u unit, bal []int) *world {
	w := &world{node: lotus.New(), me: fresh(), signers: []key{fresh(), fresh()}}
	w.signers = append(w.signers, w.me)
	other := fresh()
	for i, pay := range []int{0, 0, 1, 0} {
		to := w.me.addr
		if i == 3 {
			to = other.addr
		}
		c := w.node.NewChannel(w.signers[pay].addr, to, u.val(bal[i], 2))
		w.lch = append(w.lch, c)
		w.chans = append(w.chans, c.Addr)
	}
	ghost, _ := address.NewActorAddress([]byte(w.me.hex))
	w.chans = append(w.chans, ghost, w.signers[0].addr)
	w.m = newMgr(w.me, w.node)
	return w
}

func chanName(a address.Address, how string) string {
	s := a.String()
	if how == "f" && s[0] == 't' {
		return "f" + s[1:]
	}
	return s
}

func payee(s *vt.Script, t *vt.Trace) {
	u := getUnit(s)
	bal := vt.Ints(s.Hdr, "bal")
	t.Set("bal", bal)
	t.Set("role", "payee")
	rng := rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed"))))
	w := newWorld(u, bal)
	defer w.node.Close()
	f := &failer{}
	w.node.Hook, w.node.Done = f.hook(false), f.hook(true)
	for _, op := range s.Ops {
		switch vt.S(op, "op") {
		case "dep":
			w.node.Deposit(w.lch[vt.I(op, "ch")], u.val(vt.I(op, "a"), 2))
			t.Add(vt.M{"op": "dep", "ch": vt.I(op, "ch"), "a": vt.I(op, "a")})
		case "recv":
			v := op["v"].(map[string]interface{})
			f.set(op)
			str := voucher(u, v, w.chans, w.signers, rng)
			var got *big.Int
			var err error
			if !t.Step("payee", limit, func() { got, err = w.m.Receive(chanName(w.chans[vt.I(op, "ch")], vt.S(op, "how")), str) }) {
				return
			}
			ev := vt.M{"op": "recv", "ch": vt.I(op, "ch"), "vch": vt.I(v, "ch"), "l": vt.I(v, "l"), "n": vt.I(v, "n"), "a": vt.I(v, "a"),
				"by": vt.I(v, "by"), "tamper": vt.S(v, "tamper"), "fail": vt.S(op, "fail") != "", "credit": -1}
			if err == nil {
				ev["credit"] = u.back(got)
			}
			t.Add(ev)
		}
	}
}

// barrier lines its callers up n at a time, waiting a moment for the rest
type barrier struct {
	mu   sync.Mutex
	n, k int
	ch   chan bool
}

func (b *barrier) wait() {
	b.mu.Lock()
	b.k++
	ch := b.ch
	if b.k == b.n {
		close(ch)
		b.k, b.ch = 0, make(chan bool)
	}
	b.mu.Unlock()
	select {
	case <-ch:
	case <-time.After(15 * time.Millisecond):
		b.mu.Lock()
		if ch == b.ch {
			b.k--
		}
		b.mu.Unlock()
	}
}

// conc runs the threads of a scenario at once and records begins and ends
func conc(s *vt.Script, t *vt.Trace) {
	u := getUnit(s)
	bal := vt.Ints(s.Hdr, "bal")
	t.Set("bal", bal)
	rng := rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed"))))
	w := newWorld(u, bal)
	defer w.node.Close()
	nr := 2
	rec := make([]key, nr)
	for i := range rec {
		rec[i] = fresh()
	}
	threads := s.Hdr["threads"].([]interface{})
	// the chain node answers the gated call of all threads at the same moment
	gate := vt.S(s.Hdr, "gate")
	bar := &barrier{n: len(threads), ch: make(chan bool)}
	delay := vt.S(s.Hdr, "delay")
	us := vt.I(s.Hdr, "us")
	w.node.Hook = func(m string) error {
		if m == gate {
			bar.wait()
		}
		if m == delay {
			time.Sleep(time.Duration(us) * time.Microsecond)
		}
		return nil
	}
	var vs []string
	var vl []vt.M
	for _, x := range vt.L(s.Hdr, "vouchers") {
		v := x.(map[string]interface{})
		vl = append(vl, v)
		vs = append(vs, voucher(u, v, w.chans, w.signers, rng))
	}
	var id int32
	do := func(op vt.M) {
		k := int(atomic.AddInt32(&id, 1))
		b := vt.M{"op": "B", "id": k, "k": op["op"]}
		for _, f := range []string{"r", "a", "l", "ch"} {
			b[f] = vt.I(op, f)
		}
		if vt.S(op, "op") == "recv" {
			v := vl[vt.I(op, "v")]
			b["tamper"] = ""
			b["vch"], b["l"], b["n"], b["a"], b["by"] = vt.I(v, "ch"), vt.I(v, "l"), vt.I(v, "n"), vt.I(v, "a"), vt.I(v, "by")
		}
		t.Add(b)
		e := vt.M{"op": "E", "id": k}
		switch vt.S(op, "op") {
		case "topup":
			err := w.m.Topup(rec[vt.I(op, "r")].addr.String(), u.val(vt.I(op, "a"), 0))
			e["out"] = map[bool]string{true: "err", false: "ok"}[err != nil]
			if err != nil {
				e["why"] = err.Error()
			}
		case "pay":
			_, v, need, err := w.m.Pay(rec[vt.I(op, "r")].addr.String(), laneIDs[vt.I(op, "l")], u.val(vt.I(op, "a"), 0))
			switch {
			case err != nil:
				e["out"] = "err"
			case need:
				e["out"] = "need"
			default:
				e["out"] = "ok"
				x := voucherEvent(u, v, w.me, w.node.Channels())
				e["nonce"], e["amt"], e["vch"], e["sig"] = x["nonce"], x["amt"], x["ch"], x["sig"]
			}
		case "recv":
			got, err := w.m.Receive(w.chans[vt.I(op, "ch")].String(), vs[vt.I(op, "v")])
			e["credit"] = -1
			if err == nil {
				e["credit"] = u.back(got)
			}
		}
		t.Add(e)
	}
	for _, x := range vt.L(s.Hdr, "before") {
		do(x.(map[string]interface{}))
	}
	if !t.Step("conc", limit, func() {
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, th := range threads {
			wg.Add(1)
			go func(ops []interface{}) {
				defer wg.Done()
				<-start
				for _, op := range ops {
					do(op.(map[string]interface{}))
				}
			}(th.([]interface{}))
		}
		time.Sleep(time.Millisecond)
		close(start)
		wg.Wait()
		w.node.Hook = nil
		for _, x := range vt.L(s.Hdr, "after") {
			do(x.(map[string]interface{}))
		}
	}) {
		return
	}
	// how many channels the payer opened for each recipient, and with how much
	open := []vt.M{}
	first := []int{}
	for r := range rec {
		n, sum := 0, new(big.Int)
		for _, c := range w.node.Channels() {
			if c.To == rec[r].addr && c.From == w.me.addr {
				if n == 0 {
					first = append(first, c.N)
				}
				n++
				sum.Add(sum, c.Balance)
			}
		}
		if n == 0 {
			first = append(first, -1)
		}
		open = append(open, vt.M{"n": n, "sum": u.back(sum)})
	}
	t.Set("chan", first)
	t.Add(vt.M{"op": "chain", "open": open})
}

func run(s *vt.Script, t *vt.Trace) {
	laneIDs = laneSets[vt.I(s.Hdr, "lanes")]
	switch vt.S(s.Hdr, "role") {
	case "payer":
		payer(s, t)
	case "payee":
		payee(s, t)
	default:
		conc(s, t)
	}
}

func main() {
	sigs.RegisterSignature(crypto2.SigTypeSecp256k1, fcrpaymentmgr.SecpSigner{})
	vt.Main(run)
}
