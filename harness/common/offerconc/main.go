// Conformance driver for concurrent use of the offer stores. A scenario runs
// many rounds; in each round several goroutines store and look up offers with
// CIDs of that round. Rounds whose recorded histories are the same are written
// once, with a count.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

type store interface {
	AddGroupOffer(offer *cidoffer.CIDOffer) error
	AddDHTOffer(offer *cidoffer.CIDOffer) error
	GetDHTOffersWithinRange(a, b *cid.ContentID, n int) ([]cidoffer.CIDOffer, bool)
	GetOffers(c *cid.ContentID) ([]cidoffer.CIDOffer, bool)
	GetOfferByDigest(d [cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool)
}

func ident(o *cidoffer.CIDOffer) string {
	if o.GetProviderID() == nil {
		return ""
	}
	cs := []string{}
	for _, c := range o.GetCIDs() {
		cs = append(cs, c.ToString())
	}
	return fmt.Sprintf("%s|%s|%d|%d|%d|%s", o.GetProviderID().ToString(), strings.Join(cs, ","), o.GetPrice(), o.GetExpiry(), o.GetQoS(), o.GetSignature())
}

type round struct {
	cids   []cid.ContentID
	offers []cidoffer.CIDOffer
	dig    [][cidoffer.CIDOfferDigestSize]byte
	key    map[string]int
	mu     sync.Mutex
	ev     []vt.M
	nq     int
}

func (r *round) add(e vt.M) { r.mu.Lock(); r.ev = append(r.ev, e); r.mu.Unlock() }

func (r *round) ids(os []cidoffer.CIDOffer) []int {
	res := []int{}
	for i := range os {
		id, ok := r.key[ident(&os[i])]
		if !ok {
			id = -1
		}
		res = append(res, id)
	}
	sort.Ints(res)
	return res
}

func (r *round) store(st store, id int) {
	o := r.offers[id]
	r.add(vt.M{"op": "aB", "o": id})
	var err error
	if len(o.GetCIDs()) > 1 {
		err = st.AddGroupOffer(&o)
	} else {
		err = st.AddDHTOffer(&o)
	}
	r.add(vt.M{"op": "aE", "o": id, "err": err != nil})
}

func (r *round) look(st store, op vt.M) {
	r.mu.Lock()
	r.nq++
	id := r.nq
	r.ev = append(r.ev, vt.M{"op": "qB", "id": id})
	r.mu.Unlock()
	e := vt.M{"op": "qE", "id": id, "k": op["op"]}
	switch vt.S(op, "op") {
	case "get":
		k := vt.I(op, "c")
		e["x"] = k
		res, _ := st.GetOffers(&r.cids[k])
		e["res"] = r.ids(res)
	case "dig":
		k := vt.I(op, "o")
		e["x"] = k
		o, ok := st.GetOfferByDigest(r.dig[k])
		if ok && o != nil {
			e["res"] = r.ids([]cidoffer.CIDOffer{*o})
		} else {
			e["res"] = []int{}
		}
	case "range":
		a, b := vt.I(op, "a"), vt.I(op, "b")
		e["a"], e["b"] = a, b
		res, _ := st.GetDHTOffersWithinRange(&r.cids[a], &r.cids[b], 1000)
		e["res"] = r.ids(res)
	}
	r.add(e)
}

// a barrier that releases all parties within a few nanoseconds
type barrier struct{ n, cnt, gen int32 }

func (b *barrier) wait() {
	g := atomic.LoadInt32(&b.gen)
	if atomic.AddInt32(&b.cnt, 1) == b.n {
		atomic.StoreInt32(&b.cnt, 0)
		atomic.AddInt32(&b.gen, 1)
		return
	}
	for i := 0; atomic.LoadInt32(&b.gen) == g; i++ {
		if i > 200 {
			runtime.Gosched()
		}
	}
}

func toList(x interface{}) []vt.M {
	r := []vt.M{}
	for _, y := range x.([]interface{}) {
		r = append(r, y.(map[string]interface{}))
	}
	return r
}

func build(h vt.M, base int64, n int, salt uint64) *round {
	r := &round{key: map[string]int{}}
	nc := vt.I(h, "ncid")
	for k := 0; k < nc; k++ {
		b := make([]byte, 32)
		// consecutive positions, rounds scattered over the space
		binary.BigEndian.PutUint64(b, (uint64(n)+1)*0x9e3779b97f4a7c15^salt)
		b[31] = byte(k * 3)
		c, _ := cid.NewContentIDFromBytes(b)
		r.cids = append(r.cids, *c)
	}
	r.offers = make([]cidoffer.CIDOffer, 1)
	r.dig = make([][cidoffer.CIDOfferDigestSize]byte, 1)
	for i, o := range toList(h["offers"]) {
		cs := []cid.ContentID{}
		for _, k := range vt.Ints(o, "cids") {
			cs = append(cs, r.cids[k])
		}
		b := make([]byte, 32)
		b[0] = byte(i + 1)
		p, _ := nodeid.NewNodeIDFromBytes(b)
		exp := base + 3600
		if vt.B(o, "dead") {
			exp = base + 2
		}
		of, err := cidoffer.NewCIDOffer(p, cs, uint64(i+1)*7, exp, uint64(n))
		if err != nil {
			panic(err)
		}
		of.SetSignature(fmt.Sprintf("sig%d", i))
		r.offers = append(r.offers, *of)
		r.dig = append(r.dig, of.GetMessageDigest())
		r.key[ident(of)] = i + 1
	}
	return r
}

func rounds(st store, h vt.M, limit time.Duration) []vt.M {
	n := vt.I(h, "rounds")
	base := time.Now().Unix()
	threads := h["threads"].([]interface{})
	offs := toList(h["offers"])
	tab, pre, deadAny := []vt.M{}, []int{}, false
	for i, o := range offs {
		e := 1
		if vt.B(o, "dead") {
			e, deadAny = 0, true
			pre = append(pre, i+1)
		}
		tab = append(tab, vt.M{"dg": i + 1, "cids": o["cids"], "exp": e})
	}
	rs := make([]*round, n)
	for i := range rs {
		rs[i] = build(h, base, i, uint64(vt.I(h, "salt"))*0x100000001b3)
		for _, id := range pre {
			o := rs[i].offers[id]
			if len(o.GetCIDs()) > 1 {
				st.AddGroupOffer(&o)
			} else {
				st.AddDHTOffer(&o)
			}
		}
	}
	if deadAny {
		time.Sleep(time.Until(time.Unix(base+2, 50e6)))
	}
	bar := &barrier{n: int32(len(threads))}
	stop := time.Now().Add(limit)
	last := int32(n)
	var wg sync.WaitGroup
	for _, th := range threads {
		wg.Add(1)
		go func(ops []vt.M) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				bar.wait()
				if i%16 == 0 && time.Now().After(stop) {
					atomic.StoreInt32(&last, int32(i))
				}
				bar.wait()
				if int32(i) >= atomic.LoadInt32(&last) {
					return
				}
				for _, op := range ops {
					if vt.S(op, "op") == "add" {
						rs[i].store(st, vt.I(op, "o"))
					} else {
						rs[i].look(st, op)
					}
				}
			}
		}(toList(th))
	}
	wg.Wait()
	out := map[string]*vt.M{}
	keys := []string{}
	for i := 0; i < int(last); i++ {
		r := rs[i]
		for k := range r.cids {
			r.look(st, vt.M{"op": "get", "c": float64(k)})
		}
		for k := 1; k < len(r.offers); k++ {
			r.look(st, vt.M{"op": "dig", "o": float64(k)})
		}
		r.look(st, vt.M{"op": "range", "a": float64(0), "b": float64(len(r.cids) - 1)})
		b, _ := json.Marshal(r.ev)
		if m, ok := out[string(b)]; ok {
			(*m)["count"] = (*m)["count"].(int) + 1
			continue
		}
		out[string(b)] = &vt.M{"ev": r.ev, "count": 1, "off": tab, "pre": []int{}, "store": vt.S(h, "store")}
		keys = append(keys, string(b))
	}
	res := []vt.M{}
	for _, k := range keys {
		res = append(res, *out[k])
	}
	return res
}

func emit(t *vt.Trace, all []vt.M) {
	t.Set("rounds", all)
}

func run(s *vt.Script, t *vt.Trace) {
	limit := time.Duration(vt.I(s.Hdr, "ms")) * time.Millisecond
	if vt.S(s.Hdr, "store") == "mem" {
		mgr := fcroffermgr.NewFCROfferMgr()
		var all []vt.M
		if t.Step("conc", limit+6*time.Second, func() { all = rounds(mgr, s.Hdr, limit) }) {
			emit(t, all)
		}
		return
	}
	dir, err := ioutil.TempDir("", "offers")
	if err != nil {
		os.Exit(4)
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(s.Hdr)
	ioutil.WriteFile(filepath.Join(dir, "in"), b, 0644)
	cmd := exec.Command("/proc/self/exe", "child")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "DOCKER_NAME=n")
	ef, _ := os.Create(filepath.Join(dir, "err"))
	cmd.Stdout, cmd.Stderr = ef, ef
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		os.Exit(4)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit + 60*time.Second):
		cmd.Process.Kill()
		t.Add(vt.M{"op": "panic", "q": "conc", "why": "hang"})
		return
	}
	ef.Close()
	o, err := ioutil.ReadFile(filepath.Join(dir, "out"))
	if err != nil {
		why, _ := ioutil.ReadFile(filepath.Join(dir, "err"))
		w := string(why)
		i := strings.Index(w, "panic:")
		if i < 0 {
			i = strings.Index(w, "fatal error:")
		}
		if i < 0 {
			fmt.Fprintln(os.Stderr, "child died:", w)
			os.Exit(4)
		}
		w = w[i:]
		if len(w) > 1500 {
			w = w[:1500]
		}
		t.Add(vt.M{"op": "panic", "q": "conc", "why": w})
		return
	}
	var all []vt.M
	json.Unmarshal(o, &all)
	emit(t, all)
}

func childMain() {
	b, _ := ioutil.ReadFile("in")
	var h vt.M
	json.Unmarshal(b, &h)
	all := rounds(offermgr.NewFCROfferMgr(), h, time.Duration(vt.I(h, "ms"))*time.Millisecond)
	j, _ := json.Marshal(all)
	ioutil.WriteFile("out.tmp", j, 0644)
	os.Rename("out.tmp", "out")
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		childMain()
		return
	}
	vt.Main(run)
}
