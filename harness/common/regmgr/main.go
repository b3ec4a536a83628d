// Conformance driver for the register manager, against a stand-in registry.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

const limit = 6 * time.Second

type entry struct{ id, v int }

type registry struct {
	mu     sync.Mutex
	g, p   []entry
	gm, pm string
	us     int
	h      vt.M
}

func (r *registry) name(id int) string {
	switch id {
	case 1000:
		return "not hex"
	case 1001:
		return "abcd"
	case 1002:
		return strings.Repeat("0f", 33)
	}
	off, _ := new(big.Int).SetString(vt.S(r.h, "off"), 16)
	x := new(big.Int).Lsh(big.NewInt(int64(id)), uint(vt.I(r.h, "shift")))
	x.Add(x, off)
	x.Mod(x, new(big.Int).Lsh(big.NewInt(1), 256))
	return fmt.Sprintf("%064x", x)
}

func (r *registry) index(s string) int {
	for i := 0; i < vt.I(r.h, "m"); i++ {
		if r.name(i) == s {
			return i
		}
	}
	for i := 1000; i < 1003; i++ {
		if r.name(i) == s {
			return i
		}
	}
	return -7
}

// The fields of an entry: each holds one bit of the entry's version, so that
// two versions may differ in any one field only.
var gk = []string{"ga", "gr", "gs", "gc", "gg", "gp", "gl", "gd"}
var pk = []string{"pa", "pr", "ps", "pc", "pg", "pl", "pd"}

func (r *registry) fields(kinds []string, v int) []string {
	res := make([]string, len(kinds))
	for i := range kinds {
		j := (i + vt.I(r.h, "rot")) % len(kinds)
		res[j] = fmt.Sprintf("%s-%d", kinds[j], v>>uint(i)&1)
	}
	return res
}

func (r *registry) gw(name string, v int) register.GatewayRegister {
	x := r.fields(gk, v)
	return register.GatewayRegister{NodeID: name, Address: x[0], RootSigningKey: x[1], SigningKey: x[2], RegionCode: x[3],
		NetworkInfoGateway: x[4], NetworkInfoProvider: x[5], NetworkInfoClient: x[6], NetworkInfoAdmin: x[7]}
}

func (r *registry) pv(name string, v int) register.ProviderRegister {
	x := r.fields(pk, v)
	return register.ProviderRegister{NodeID: name, Address: x[0], RootSigningKey: x[1], SigningKey: x[2], RegionCode: x[3],
		NetworkInfoGateway: x[4], NetworkInfoClient: x[5], NetworkInfoAdmin: x[6]}
}

func (r *registry) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	r.mu.Lock()
	us := r.us
	r.mu.Unlock()
	time.Sleep(time.Duration(us/2) * time.Microsecond)
	r.mu.Lock()
	isG := strings.Contains(q.URL.Path, "/registers/gateway")
	list, mode := r.p, r.pm
	if isG {
		list, mode = r.g, r.gm
	}
	out := []interface{}{}
	for _, e := range list {
		if isG {
			out = append(out, r.gw(r.name(e.id), e.v))
		} else {
			out = append(out, r.pv(r.name(e.id), e.v))
		}
	}
	r.mu.Unlock()
	time.Sleep(time.Duration(us/2) * time.Microsecond)
	b, _ := json.Marshal(out)
	if q.Method != "GET" {
		return
	}
	switch mode {
	case "500":
		http.Error(w, "internal error", 500)
	case "down":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
	case "garbage":
		w.Write([]byte("<html>nothing here</html>"))
	case "object":
		w.Write([]byte(`{"message":"no"}`))
	case "trunc":
		w.Write(b[:len(b)-1])
	default:
		w.Write(b)
	}
}

func (r *registry) set(op vt.M) vt.M {
	conv := func(k string) ([]entry, []vt.M) {
		res, ev := []entry{}, []vt.M{}
		for _, x := range vt.L(op, k) {
			e := x.(map[string]interface{})
			res = append(res, entry{vt.I(e, "id"), vt.I(e, "v")})
			ev = append(ev, vt.M{"id": vt.I(e, "id"), "v": vt.I(e, "v")})
		}
		return res, ev
	}
	g, ge := conv("g")
	p, pe := conv("p")
	r.mu.Lock()
	r.g, r.p, r.gm, r.pm = g, p, vt.S(op, "gm"), vt.S(op, "pm")
	r.mu.Unlock()
	return vt.M{"op": "set", "g": ge, "p": pe, "gok": vt.S(op, "gm") == "ok", "pok": vt.S(op, "pm") == "ok"}
}

// the version an entry carries, or -2 when its fields are not those of one
func (r *registry) gver(g register.GatewayRegistrar, name string) int {
	if g == nil {
		return -1
	}
	s := g.Serialize()
	if g.GetNodeID() != s.NodeID || g.GetAddress() != s.Address || g.GetRegionCode() != s.RegionCode ||
		g.GetNetworkInfoAdmin() != s.NetworkInfoAdmin || g.GetNetworkInfoClient() != s.NetworkInfoClient ||
		g.GetNetworkInfoGateway() != s.NetworkInfoGateway || g.GetNetworkInfoProvider() != s.NetworkInfoProvider {
		return -2
	}
	for v := 0; v < 1<<uint(len(gk)); v++ {
		if s == r.gw(name, v) {
			return v
		}
	}
	return -2
}

func (r *registry) pver(p register.ProviderRegistrar, name string) int {
	if p == nil {
		return -1
	}
	s := p.Serialize()
	if p.GetNodeID() != s.NodeID || p.GetAddress() != s.Address || p.GetRegionCode() != s.RegionCode ||
		p.GetNetworkInfoAdmin() != s.NetworkInfoAdmin || p.GetNetworkInfoClient() != s.NetworkInfoClient || p.GetNetworkInfoGateway() != s.NetworkInfoGateway {
		return -2
	}
	for v := 0; v < 1<<uint(len(pk)); v++ {
		if s == r.pv(name, v) {
			return v
		}
	}
	return -2
}

func (r *registry) glist(l []register.GatewayRegistrar) []vt.M {
	res := []vt.M{}
	for _, g := range l {
		id := r.index(g.GetNodeID())
		res = append(res, vt.M{"id": id, "v": r.gver(g, g.GetNodeID())})
	}
	return res
}

type world struct {
	r   *registry
	srv *http.Server
	m   *fcrregistermgr.FCRRegisterMgr
}

func newWorld(h vt.M) *world {
	r := &registry{h: h, gm: "ok", pm: "ok"}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	w := &world{r: r, srv: &http.Server{Handler: r}}
	go w.srv.Serve(l)
	d := time.Hour
	if us := vt.I(h, "period"); us > 0 {
		d = time.Duration(us) * time.Microsecond
	}
	w.m = fcrregistermgr.NewFCRRegisterMgr("http://"+l.Addr().String(), vt.B(h, "pd"), vt.B(h, "gd"), d)
	return w
}

func (w *world) call(op vt.M, ev vt.M) {
	r, m := w.r, w.m
	switch vt.S(op, "op") {
	case "refresh":
		m.Refresh()
	case "getg":
		n := r.name(vt.I(op, "id"))
		id, err := nodeid.NewNodeIDFromHexString(n)
		if err != nil {
			panic(err)
		}
		ev["res"] = r.gver(m.GetGateway(id), n)
	case "getp":
		n := r.name(vt.I(op, "id"))
		id, err := nodeid.NewNodeIDFromHexString(n)
		if err != nil {
			panic(err)
		}
		ev["res"] = r.pver(m.GetProvider(id), n)
	case "allg":
		ev["res"] = r.glist(m.GetAllGateways())
	case "allp":
		res := []vt.M{}
		for _, p := range m.GetAllProviders() {
			res = append(res, vt.M{"id": r.index(p.GetNodeID()), "v": r.pver(p, p.GetNodeID())})
		}
		ev["res"] = res
	case "near":
		c, err := cid.NewContentIDFromHexString(r.name(vt.I(op, "c")))
		if err != nil {
			panic(err)
		}
		var x *nodeid.NodeID
		if vt.I(op, "x") >= 0 {
			x, _ = nodeid.NewNodeIDFromHexString(r.name(vt.I(op, "x")))
		}
		l, err := m.GetGatewaysNearCID(c, vt.I(op, "n"), x)
		if err == nil {
			ev["res"] = r.glist(l)
		} else {
			ev["why"] = err.Error()
		}
	case "range":
		id, _ := nodeid.NewNodeIDFromHexString(r.name(vt.I(op, "id")))
		lo, hi, err := m.GetGatewayCIDRange(id)
		ev["err"] = err != nil
		if err == nil {
			ev["lo"], ev["hi"] = r.index(lo.ToString()), r.index(hi.ToString())
		}
	}
}

func seq(s *vt.Script, t *vt.Trace) {
	w := newWorld(s.Hdr)
	defer w.srv.Close()
	for _, k := range []string{"m", "gd", "pd"} {
		t.Set(k, s.Hdr[k])
	}
	started := false
	for _, op := range s.Ops {
		if vt.S(op, "op") == "set" {
			t.Add(w.r.set(op))
			if !started {
				started = true
				w.m.Start()
				if !t.Step("start", limit, w.m.Refresh) {
					return
				}
				t.Add(vt.M{"op": "refresh"})
			}
			continue
		}
		if !started {
			continue
		}
		ev := vt.M{}
		for k, v := range op {
			ev[k] = v
		}
		if !t.Step(vt.S(op, "op"), limit, func() { w.call(op, ev) }) {
			return
		}
		t.Add(ev)
	}
}

func conc(s *vt.Script, t *vt.Trace) {
	w := newWorld(s.Hdr)
	defer w.srv.Close()
	t.Set("m", s.Hdr["m"])
	first := true
	var id int32
	for _, x := range vt.L(s.Hdr, "rounds") {
		rd := x.(map[string]interface{})
		set := func() {
			// versions only grow: recorded before the registry can show them
			for _, y := range vt.L(rd, "sets") {
				op := y.(map[string]interface{})
				if !first {
					time.Sleep(time.Duration(vt.I(op, "us")) * time.Microsecond)
				}
				w.r.mu.Lock()
				for k, l := range map[string]*[]entry{"g": &w.r.g, "p": &w.r.p} {
					for _, z := range vt.L(op, k) {
						e := z.(map[string]interface{})
						n := entry{vt.I(e, "id"), vt.I(e, "v")}
						at := -1
						for i := range *l {
							if (*l)[i].id == n.id {
								at = i
							}
						}
						if at < 0 {
							*l = append(*l, n)
						} else {
							(*l)[at] = n
						}
					}
				}
				// under the registry's lock: a fetch shows this exactly if it comes after
				t.Add(vt.M{"op": "set", "g": op["g"], "p": op["p"]})
				w.r.mu.Unlock()
			}
		}
		if first {
			set()
			w.m.Start()
			w.m.Refresh()
			first = false
			w.r.mu.Lock()
			w.r.us = vt.I(s.Hdr, "us")
			w.r.mu.Unlock()
			continue
		}
		if !t.Step("conc", limit, func() {
			var wg sync.WaitGroup
			start := make(chan bool)
			for _, th := range vt.L(rd, "threads") {
				wg.Add(1)
				go func(ops []interface{}) {
					defer wg.Done()
					<-start
					for _, o := range ops {
						op := o.(map[string]interface{})
						if u := vt.I(op, "wait"); u > 0 {
							time.Sleep(time.Duration(u) * time.Microsecond)
						}
						// unrecorded repetitions, for overlap with the updates
						for n := vt.I(op, "rep"); n > 0; n-- {
							w.call(op, vt.M{})
						}
						k := int(atomic.AddInt32(&id, 1))
						t.Add(vt.M{"op": "B", "id": k})
						ev := vt.M{}
						w.call(op, ev)
						ev["op"], ev["k"], ev["id"], ev["x"] = "E", op["op"], k, vt.I(op, "id")
						t.Add(ev)
					}
				}(th.([]interface{}))
			}
			wg.Add(1)
			go func() { defer wg.Done(); <-start; set() }()
			close(start)
			wg.Wait()
		}) {
			return
		}
	}
}

func main() {
	vt.Main(func(s *vt.Script, t *vt.Trace) {
		if vt.B(s.Hdr, "conc") {
			conc(s, t)
		} else {
			seq(s, t)
		}
	})
}
