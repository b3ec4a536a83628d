// Conformance driver for the two offer stores: the provider's in-memory store
// ("mem") and the gateway's database-backed one ("sql", run in a child process
// per scenario so that it can be restarted and killed).
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

type store interface {
	AddGroupOffer(offer *cidoffer.CIDOffer) error
	AddDHTOffer(offer *cidoffer.CIDOffer) error
	GetGroupOffers(c *cid.ContentID) ([]cidoffer.CIDOffer, bool)
	GetDHTOffers(c *cid.ContentID) ([]cidoffer.CIDOffer, bool)
	GetDHTOffersWithinRange(a, b *cid.ContentID, n int) ([]cidoffer.CIDOffer, bool)
	GetOffers(c *cid.ContentID) ([]cidoffer.CIDOffer, bool)
	GetOfferByDigest(d [cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool)
}

const far = 1 << 30

// the offers of a scenario
type universe struct {
	base   int64 // unix seconds
	cids   []cid.ContentID
	offers []cidoffer.CIDOffer // index 0 unused
	dg     []int
	tab    []vt.M // what the specification is told about them
	key    map[string]int
}

func ident(o *cidoffer.CIDOffer) string {
	cs := []string{}
	for _, c := range o.GetCIDs() {
		cs = append(cs, c.ToString())
	}
	return fmt.Sprintf("%s|%s|%d|%d|%d|%s", o.GetProviderID().ToString(), strings.Join(cs, ","), o.GetPrice(), o.GetExpiry(), o.GetQoS(), o.GetSignature())
}

func build(s *vt.Script, base int64) *universe {
	u := &universe{base: base, key: map[string]int{}}
	for _, h := range vt.L(s.Hdr, "cids") {
		c, err := cid.NewContentIDFromHexString(h.(string))
		if err != nil {
			panic(err)
		}
		u.cids = append(u.cids, *c)
	}
	u.offers = make([]cidoffer.CIDOffer, 1)
	u.dg = []int{0}
	first := map[string]int{}
	for i, x := range vt.L(s.Hdr, "offers") {
		o := x.(map[string]interface{})
		b := make([]byte, 32)
		b[31] = byte(vt.I(o, "prov"))
		p, _ := nodeid.NewNodeIDFromBytes(b)
		cs := []cid.ContentID{}
		for _, k := range vt.Ints(o, "cids") {
			cs = append(cs, u.cids[k])
		}
		var exp int64
		var rel int
		switch vt.S(o, "exp") {
		case "far":
			exp, rel = base+3600, 3600*1000
		case "huge":
			exp, rel = 1<<62, far
		case "past":
			exp, rel = base-3600, -3600*1000
		case "zero":
			exp, rel = 0, -far
		case "neg":
			exp, rel = -5, -far
		default:
			exp, rel = base+int64(vt.I(o, "in")), vt.I(o, "in")*1000
		}
		var price, qos uint64
		fmt.Sscan(vt.S(o, "price"), &price)
		fmt.Sscan(vt.S(o, "qos"), &qos)
		of, err := cidoffer.NewCIDOffer(p, cs, price, exp, qos)
		if err != nil {
			panic(err)
		}
		of.SetSignature(vt.S(o, "sig"))
		d := of.GetMessageDigest()
		ds := hex.EncodeToString(d[:])
		id := i + 1
		if _, ok := first[ds]; !ok {
			first[ds] = id
		}
		u.dg = append(u.dg, first[ds])
		u.offers = append(u.offers, *of)
		u.key[ident(of)] = id
		u.tab = append(u.tab, vt.M{"dg": first[ds], "cids": vt.Ints(o, "cids"), "exp": rel})
	}
	return u
}

func (u *universe) ids(os []cidoffer.CIDOffer) []int {
	r := []int{}
	for i := range os {
		if os[i].GetProviderID() == nil {
			r = append(r, -2)
			continue
		}
		id, ok := u.key[ident(&os[i])]
		if !ok {
			id = -1
		} else if sub, err := os[i].GenerateSubCIDOffer(&u.offers[id].GetCIDs()[0]); err != nil || sub.VerifyMerkleProof() != nil {
			id = -3
		}
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

func (u *universe) ms(t time.Time) int {
	return int((t.UnixNano() - u.base*1e9) / 1e6)
}

// runs one operation against a store and returns its event
func (u *universe) do(st store, op vt.M) vt.M {
	ev := vt.M{"op": op["op"]}
	t0 := time.Now()
	switch vt.S(op, "op") {
	case "add":
		id := vt.I(op, "o")
		o := u.offers[id] // a variable of the caller's, which changes it later
		group := (len(o.GetCIDs()) > 1) != vt.B(op, "wrong")
		var err error
		if group {
			ev["k"] = "g"
			err = st.AddGroupOffer(&o)
		} else {
			ev["k"] = "d"
			err = st.AddDHTOffer(&o)
		}
		o.SetSignature("changed afterwards")
		ev["o"], ev["err"] = id, err != nil
	case "get":
		c := u.cids[vt.I(op, "c")]
		var res []cidoffer.CIDOffer
		var found bool
		switch vt.S(op, "k") {
		case "g":
			res, found = st.GetGroupOffers(&c)
		case "d":
			res, found = st.GetDHTOffers(&c)
		default:
			res, found = st.GetOffers(&c)
		}
		ev["c"], ev["k"], ev["res"], ev["found"] = vt.I(op, "c"), op["k"], u.ids(res), found
	case "dig":
		id := vt.I(op, "o")
		o, found := st.GetOfferByDigest(u.offers[id].GetMessageDigest())
		ev["d"], ev["found"] = u.dg[id], found
		if found && o != nil {
			ev["res"] = u.ids([]cidoffer.CIDOffer{*o})
			o.SetSignature("changed by the reader")
		} else {
			ev["res"] = []int{}
		}
	case "range":
		a, b := u.cids[vt.I(op, "a")], u.cids[vt.I(op, "b")]
		res, found := st.GetDHTOffersWithinRange(&a, &b, vt.I(op, "n"))
		ev["a"], ev["b"], ev["n"], ev["res"], ev["found"] = vt.I(op, "a"), vt.I(op, "b"), vt.I(op, "n"), u.ids(res), found
	}
	ev["t0"], ev["t1"] = u.ms(t0), u.ms(time.Now())
	return ev
}

func sleepUntil(u *universe, ms int) {
	d := time.Until(time.Unix(u.base, 0).Add(time.Duration(ms) * time.Millisecond))
	if d > 0 {
		time.Sleep(d)
	}
}

func expand(s *vt.Script) []vt.M {
	ops := []vt.M{}
	for _, op := range s.Ops {
		n := vt.I(op, "rep")
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			ops = append(ops, op)
		}
	}
	return ops
}

func run(s *vt.Script, t *vt.Trace) {
	now := time.Now()
	base := now.Unix()
	if now.Nanosecond() > 700e6 {
		base++
	}
	kind := vt.S(s.Hdr, "store")
	t.Set("store", kind)
	u := build(s, base)
	t.Set("off", u.tab)
	if kind == "mem" {
		mgr := fcroffermgr.NewFCROfferMgr()
		for _, op := range expand(s) {
			if vt.S(op, "op") == "tick" {
				sleepUntil(u, vt.I(op, "to"))
				t.Add(vt.M{"op": "tick"})
				continue
			}
			var ev vt.M
			if !t.Step(vt.S(op, "op"), 10*time.Second, func() { ev = u.do(mgr, op) }) {
				return
			}
			t.Add(ev)
		}
		return
	}
	runSQL(s, t, u)
}

// ---------------------------------------------------------------- sql store

type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *os.File
}

func start(s *vt.Script, u *universe, dir string) *child {
	c := &child{cmd: exec.Command("/proc/self/exe", "child")}
	c.cmd.Dir = dir
	c.cmd.Env = append(os.Environ(), "DOCKER_NAME=n", "TZ="+vt.S(s.Hdr, "tz"), "GOMAXPROCS=2")
	c.in, _ = c.cmd.StdinPipe()
	o, _ := c.cmd.StdoutPipe()
	c.out = bufio.NewReaderSize(o, 1<<16)
	c.err, _ = os.Create(filepath.Join(dir, "stderr"))
	c.cmd.Stderr = c.err
	if err := c.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	b, _ := json.Marshal(vt.M{"hdr": s.Hdr, "base": u.base})
	c.in.Write(append(b, '\n'))
	return c
}

func (c *child) stop() {
	c.in.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
	c.err.Close()
}

func runSQL(s *vt.Script, t *vt.Trace, u *universe) {
	dir, err := ioutil.TempDir("", "offers")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	defer os.RemoveAll(dir)
	c := start(s, u, dir)
	defer func() { c.stop() }()
	for _, op := range expand(s) {
		switch vt.S(op, "op") {
		case "tick":
			sleepUntil(u, vt.I(op, "to"))
			t.Add(vt.M{"op": "tick"})
			continue
		case "restart":
			c.stop()
			c = start(s, u, dir)
			t.Add(vt.M{"op": "restart"})
			continue
		}
		b, _ := json.Marshal(op)
		c.in.Write(append(b, '\n'))
		type ans struct {
			line []byte
			err  error
		}
		ch := make(chan ans, 1)
		go func() { l, e := c.out.ReadBytes('\n'); ch <- ans{l, e} }()
		var a ans
		select {
		case a = <-ch:
		case <-time.After(20 * time.Second):
			t.Add(vt.M{"op": "panic", "q": op["op"], "why": "hang"})
			return
		}
		if vt.S(op, "op") == "crashadd" {
			c.stop()
			c = start(s, u, dir)
			t.Add(vt.M{"op": "crashadd", "o": vt.I(op, "o")})
			continue
		}
		var ev vt.M
		if a.err != nil || json.Unmarshal(a.line, &ev) != nil {
			c.stop()
			why, _ := ioutil.ReadFile(filepath.Join(dir, "stderr"))
			if i := strings.Index(string(why), "panic:"); i >= 0 {
				why = why[i:]
			} else if i := strings.Index(string(why), "fatal error:"); i >= 0 {
				why = why[i:]
			} else {
				fmt.Fprintln(os.Stderr, "child died:", string(why))
				os.Exit(4)
			}
			if len(why) > 1500 {
				why = why[:1500]
			}
			t.Add(vt.M{"op": "panic", "q": op["op"], "why": string(why)})
			c = start(s, u, dir)
			return
		}
		t.Add(ev)
	}
}

func childMain() {
	// as a long-running daemon with an ordinary descriptor limit
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 120, Max: 120})
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	line, err := in.ReadBytes('\n')
	if err != nil {
		os.Exit(0)
	}
	var h struct {
		Hdr  vt.M  `json:"hdr"`
		Base int64 `json:"base"`
	}
	if json.Unmarshal(line, &h) != nil {
		os.Exit(5)
	}
	u := build(&vt.Script{Hdr: h.Hdr}, h.Base)
	mgr := offermgr.NewFCROfferMgr()
	rand.Seed(time.Now().UnixNano())
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var op vt.M
		json.Unmarshal(line, &op)
		if vt.S(op, "op") == "crashadd" {
			id := vt.I(op, "o")
			go func() {
				o := u.offers[id]
				if len(o.GetCIDs()) > 1 {
					mgr.AddGroupOffer(&o)
				} else {
					mgr.AddDHTOffer(&o)
				}
			}()
			if us := vt.I(op, "us"); us > 0 {
				e := time.Now().Add(time.Duration(us) * time.Microsecond)
				for time.Now().Before(e) {
				}
			}
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
		}
		b, _ := json.Marshal(u.do(mgr, op))
		os.Stdout.Write(append(b, '\n'))
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		childMain()
		return
	}
	vt.MainPar(48, run)
}
