// Conformance driver for the register service: the real program runs as a
// process in front of a stand-in Redis, which outlives it.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/fakeredis"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/nodekit"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

type world struct {
	t     *vt.Trace
	hdr   vt.M
	redis *fakeredis.Server
	proc  *nodekit.Proc
	dir   string
	port  int
	ids   []string
	mu    sync.Mutex
	known map[string]int // canonical registration -> data number
	http  *http.Client
}

var kinds = map[string]string{"g": "gateway", "p": "provider"}

func (w *world) base() string { return fmt.Sprintf("http://127.0.0.1:%d", w.port) }

func (w *world) start() {
	w.proc = nodekit.Start(os.Getenv("VERIF_REGISTER"), w.dir, []string{
		fmt.Sprintf("PORT=%d", w.port), "HOST=127.0.0.1", "SERVICE_NAME=register", "REDIS_URL=127.0.0.1",
		"REDIS_PORT=" + w.redis.Port(), "REDIS_PASSWORD=" + w.redis.Password,
	}, filepath.Join(w.dir, "log"))
	for i := 0; i < 2000; i++ {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", w.port))
		if err == nil {
			c.Close()
			return
		}
		if w.proc.Dead() {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	panic("the register does not start: " + w.proc.Why())
}

// the fields of a registration, by its data number
func (w *world) data(kind string, i, v int) map[string]string {
	r := rand.New(rand.NewSource(int64(vt.I(w.hdr, "seed")) + int64(v)*7919 + int64(i)))
	texts := []string{"t3x5", "a\"b\\c", "<b>&amp;</b>", "Ünïcödé ✓", "", "127.0.0.1:9010", "0104ab", " lead and trail ", "line\nbreak", "\u2028", "null", "%41%2f", strings.Repeat("long", 3000)}
	pick := func() string {
		if r.Intn(3) == 0 {
			return texts[r.Intn(len(texts))]
		}
		return []string{"127.0.0.1:80", "t1abc"}[r.Intn(2)]
	}
	// registrations differ in one field, and share many of the others
	f := map[string]string{"nodeId": w.ids[i]}
	fields := []string{"address", "rootSigningKey", "signingKey", "regionCode", "networkInfoGateway", "networkInfoClient", "networkInfoAdmin", "networkInfoProvider"}
	if kind == "p" {
		fields = fields[:7]
	}
	for _, k := range fields {
		f[k] = pick()
	}
	k := fields[r.Intn(len(fields))]
	f[k] = fmt.Sprintf("%s %d.%d", f[k], i, v)
	return f
}

func canon(kind string, m map[string]interface{}) string {
	c := map[string]interface{}{}
	for k, v := range m {
		if v != "" {
			c[k] = v
		}
	}
	b, _ := json.Marshal(c)
	return kind + string(b)
}

func (w *world) learn(kind string, i, v int) map[string]string {
	f := w.data(kind, i, v)
	m := map[string]interface{}{}
	for k, x := range f {
		m[k] = x
	}
	w.mu.Lock()
	w.known[canon(kind, m)] = i*1000 + v
	w.mu.Unlock()
	return f
}

func (w *world) number(kind string, m map[string]interface{}) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if d, ok := w.known[canon(kind, m)]; ok {
		return d
	}
	return -1
}

func (w *world) do(method, u string, body []byte, ctype string) (int, []byte) {
	q, err := http.NewRequest(method, u, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	if body != nil {
		q.Header.Set("Content-Type", ctype)
	}
	r, err := w.http.Do(q)
	if err != nil {
		return 0, nil
	}
	defer r.Body.Close()
	b, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return 0, nil
	}
	return r.StatusCode, b
}

// one request; gives what came back
func (w *world) request(q vt.M) (st string, ans []int) {
	ans = []int{}
	k := vt.S(q, "k")
	u := w.base() + "/registers/" + kinds[k]
	if vt.B(q, "slash") {
		u += "/"
	}
	i, v := vt.I(q, "i"), vt.I(q, "v")
	class := func(code int) string {
		switch {
		case code == 0:
			return "none"
		case code == 404 && vt.S(q, "m") == "get":
			return "absent"
		}
		return "err"
	}
	switch vt.S(q, "m") {
	case "post":
		f := w.learn(k, i, v)
		if vt.B(q, "mgr") {
			m := fcrregistermgr.NewFCRRegisterMgr(w.base(), true, true, time.Hour)
			var err error
			if k == "g" {
				err = m.RegisterGateway(register.NewGatewayRegister(f["nodeId"], f["address"], f["rootSigningKey"], f["signingKey"], f["regionCode"], f["networkInfoGateway"], f["networkInfoProvider"], f["networkInfoClient"], f["networkInfoAdmin"]))
			} else {
				err = m.RegisterProvider(register.NewProviderRegister(f["nodeId"], f["address"], f["rootSigningKey"], f["signingKey"], f["regionCode"], f["networkInfoGateway"], f["networkInfoClient"], f["networkInfoAdmin"]))
			}
			if err != nil {
				return "err", ans
			}
			return "ok", []int{i*1000 + v}
		}
		b, _ := json.Marshal(f)
		code, body := w.do("POST", u, b, "application/json")
		if code != 200 {
			return class(code), ans
		}
		m := map[string]interface{}{}
		json.Unmarshal(body, &m)
		return "ok", []int{w.number(k, m)}
	case "get":
		code, body := w.do("GET", strings.TrimSuffix(u, "/")+"/"+url.PathEscape(w.ids[i]), nil, "")
		if code != 200 {
			return class(code), ans
		}
		m := map[string]interface{}{}
		json.Unmarshal(body, &m)
		return "ok", []int{w.number(k, m)}
	case "list":
		code, body := w.do("GET", u, nil, "")
		if code != 200 {
			return class(code), ans
		}
		var l []map[string]interface{}
		if json.Unmarshal(body, &l) != nil || l == nil {
			return "ok", []int{-1}
		}
		for _, m := range l {
			ans = append(ans, w.number(k, m))
		}
		return "ok", ans
	case "del":
		code, _ := w.do("DELETE", u, nil, "")
		if code != 200 {
			return class(code), ans
		}
		return "ok", ans
	}
	panic("request " + vt.S(q, "m"))
}

func (w *world) bad(k string, n int) int {
	u := w.base() + "/registers/" + kinds[k]
	good, _ := json.Marshal(w.data(k, 0, 999))
	js := "application/json"
	var code int
	switch n {
	case 0:
		code, _ = w.do("POST", u, []byte("{nonsense"), js)
	case 1:
		code, _ = w.do("POST", u, []byte{}, js)
	case 2:
		code, _ = w.do("POST", u, []byte(`{"nodeId": 12}`), js)
	case 3:
		code, _ = w.do("POST", u, append(append([]byte("["), good...), ']'), js)
	case 4:
		code, _ = w.do("POST", u, good[:len(good)/2], js)
	case 5:
		code, _ = w.do("POST", u, good, "text/plain")
	case 6:
		code, _ = w.do("PUT", u, good, js)
	case 7:
		code, _ = w.do("GET", w.base()+"/registers/other", nil, "")
	case 8:
		code, _ = w.do("POST", u+"/"+w.ids[0], good, js)
	case 9:
		code, _ = w.do("DELETE", u+"/"+w.ids[0], nil, "")
	default:
		code, _ = w.do("PATCH", u, good, js)
	}
	return code
}

func event(q vt.M, st string, ans []int) vt.M {
	return vt.M{"k": vt.S(q, "k"), "m": vt.S(q, "m"), "i": vt.I(q, "i"), "d": vt.I(q, "i")*1000 + vt.I(q, "v"), "f": "", "st": st, "ans": ans}
}

func run(s *vt.Script, t *vt.Trace) {
	port, res := nodekit.Ports(1)
	defer res.Close()
	dir, err := ioutil.TempDir("", "verif.reg")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := &world{t: t, hdr: s.Hdr, dir: dir, port: port, known: map[string]int{}}
	w.http = &http.Client{Timeout: 25 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}
	for _, x := range vt.L(s.Hdr, "ids") {
		w.ids = append(w.ids, x.(string))
	}
	w.redis = fakeredis.New(int64(vt.I(s.Hdr, "seed")))
	w.redis.Password = vt.S(s.Hdr, "password")
	w.redis.MaxConns = vt.I(s.Hdr, "conns")
	defer w.redis.Close()
	w.start()
	defer func() { w.proc.Kill() }()
	for _, q := range s.Ops {
		q := q
		if !t.Step(vt.S(q, "op"), 120*time.Second, func() { w.op(q) }) {
			return
		}
		if w.proc.Dead() {
			t.Add(vt.M{"op": "died", "why": w.proc.Why()})
			return
		}
	}
}

func (w *world) op(q vt.M) {
	switch vt.S(q, "op") {
	case "req":
		f := vt.S(q, "f")
		if f != "" {
			w.redis.Fault(f, vt.I(q, "after"), vt.I(q, "times"))
		}
		st, ans := w.request(q)
		e := event(q, st, ans)
		if f != "" && (w.redis.Heal() > 0 || f == fakeredis.Down) {
			e["f"] = f
		}
		e["op"] = "req"
		w.t.Add(e)
	case "bad":
		w.t.Add(vt.M{"op": "bad", "k": vt.S(q, "k"), "n": vt.I(q, "n"), "code": w.bad(vt.S(q, "k"), vt.I(q, "n"))})
	case "restart":
		w.proc.Kill()
		w.start()
		w.t.Add(vt.M{"op": "restart"})
	case "later":
		w.redis.Later(400 * 24 * time.Hour)
		w.t.Add(vt.M{"op": "later"})
	case "outage":
		// the store goes away and comes back between requests
		w.redis.Fault(fakeredis.Down, 0, 0)
		w.redis.Heal()
		w.t.Add(vt.M{"op": "outage"})
	case "crash":
		w.redis.Fault(vt.S(q, "f"), vt.I(q, "after"), 0)
		type res struct {
			st  string
			ans []int
		}
		ch := make(chan res, 1)
		go func() {
			st, ans := w.request(q)
			ch <- res{st, ans}
		}()
		hit := w.redis.Hit(400 * time.Millisecond)
		w.proc.Kill()
		r := <-ch
		w.redis.Heal()
		w.start()
		e := event(q, r.st, r.ans)
		e["op"], e["f"] = "crash", vt.S(q, "f")
		if !hit && r.st == "ok" {
			e["f"] = ""
		}
		w.t.Add(e)
	case "par":
		w.redis.Slow(vt.I(q, "slow"))
		ths := vt.L(q, "th")
		out := make([][]vt.M, len(ths))
		var wg sync.WaitGroup
		for i, th := range ths {
			i, th := i, th.([]interface{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, x := range th {
					x := x.(map[string]interface{})
					st, ans := w.request(x)
					out[i] = append(out[i], event(x, st, ans))
				}
			}()
		}
		wg.Wait()
		w.redis.Slow(0)
		w.t.Add(vt.M{"op": "par", "th": out})
	case "many":
		l := vt.M{"m": "list", "k": vt.S(q, "k")}
		st, ans := w.request(l)
		want := fmt.Sprint(len(ans))
		differ := 0
		for i := 0; i < vt.I(q, "n"); i++ {
			s2, a2 := w.request(l)
			if s2 != st || fmt.Sprint(len(a2)) != want {
				differ++
			}
		}
		e := event(l, st, ans)
		e["op"], e["n"], e["differ"] = "many", vt.I(q, "n"), differ
		w.t.Add(e)
	default:
		panic("op " + vt.S(q, "op"))
	}
}

func main() { vt.Main(run) }
