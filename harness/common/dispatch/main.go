// Conformance driver for the message dispatch of the P2P and REST servers.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ant0ine/go-json-rest/rest"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

const (
	limit    = 120 * time.Second
	patience = 600 * time.Millisecond
	stall    = 950 * time.Millisecond
	wait     = 20 * time.Second
)

type body struct {
	M   int    `json:"m"`
	Pad string `json:"pad"`
}

// message types that a shortened or an unsigned type would take for each other, or for none; nothing decodes to them by default
var typeSets = [][]int32{
	{3001, 3004, 3009, 3016},
	{1, 1 + 1<<8, 1 + 1<<16, 1 + 1<<24},
	{-1, 5, -5, -3001},
	{1<<31 - 1, -1 << 31, 1<<31 - 2, -1<<31 + 1},
}

var types = typeSets[0]

func typ(t int) int32 { return types[t-1] }

func pad(m int) string { return strings.Repeat(fmt.Sprintf("%07d,", m), 60000) }

func message(m, t int, big bool) *fcrmessages.FCRMessage {
	b := body{M: m}
	if big {
		b.Pad = pad(m)
	}
	j, _ := json.Marshal(b)
	return fcrmessages.CreateFCRMessage(typ(t), j)
}

func frame(x *fcrmessages.FCRMessage) []byte {
	d, _ := x.FCRMsgToBytes()
	return framed(d)
}

func framed(d []byte) []byte {
	f := make([]byte, 4)
	binary.BigEndian.PutUint32(f, uint32(len(d)))
	return append(f, d...)
}

func decode(x *fcrmessages.FCRMessage) (m int, whole bool) {
	var b body
	if json.Unmarshal(x.GetMessageBody(), &b) != nil {
		return -1, false
	}
	return b.M, b.Pad == "" || b.Pad == pad(b.M)
}

const replyType = 2999

func reply(x *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	return fcrmessages.CreateFCRMessage(replyType, x.GetMessageBody())
}

type world struct {
	t     *vt.Trace
	port  []string
	np    int
	has   map[[2]int]string
	m     int32
	conns int32
	gap   int64 // longest time the machine kept us waiting
	mu    sync.Mutex
	due   map[int]int // connections of good messages not handled yet
}

// ports below the ephemeral range, apart for every process
func ports(n int, rng *rand.Rand) []string {
	res := []string{}
	for len(res) < n {
		p := strconv.Itoa(15000 + rng.Intn(15000))
		l, err := net.Listen("tcp", ":"+p)
		if err != nil {
			continue
		}
		l.Close()
		res = append(res, p)
	}
	return res
}

type conn struct {
	id, l int
	c     net.Conn
	resp  chan bool
	n     int32 // answers read
	gone  chan bool
}

func (w *world) dial(l int) *conn {
	var c net.Conn
	var err error
	for i := 0; i < 200; i++ {
		if c, err = net.Dial("tcp", "127.0.0.1:"+w.port[l]); err == nil {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if err != nil {
		panic("cannot connect: " + err.Error())
	}
	k := &conn{id: int(atomic.AddInt32(&w.conns, 1)), l: l, c: c, resp: make(chan bool, 1000), gone: make(chan bool)}
	go func() {
		defer close(k.gone)
		for {
			h := make([]byte, 4)
			if _, err := io.ReadFull(c, h); err != nil {
				return
			}
			d := make([]byte, binary.BigEndian.Uint32(h))
			if _, err := io.ReadFull(c, d); err != nil {
				return
			}
			x, err := fcrmessages.FCRMsgFromBytes(d)
			e := vt.M{"op": "R", "c": k.id, "kind": "other", "m": -1, "whole": false}
			if err == nil && x.GetMessageType() == fcrmessages.InvalidMessageResponseType {
				e["kind"] = "invalid"
			} else if err == nil && x.GetMessageType() == replyType {
				e["kind"] = "reply"
				e["m"], e["whole"] = decode(x)
			}
			w.t.Add(e)
			k.resp <- true
		}
	}()
	return k
}

// answers waits for n answers (or the end of the connection)
func (k *conn) answers(n int) {
	end := time.After(wait)
	for ; n > 0; n-- {
		select {
		case <-k.resp:
		case <-k.gone:
			return
		case <-end:
			return
		}
	}
}

// waited notes for how long a short sleep, or a message sent in pieces, lasted
func (w *world) waited(d time.Duration) {
	for {
		g := atomic.LoadInt64(&w.gap)
		if int64(d) <= g || atomic.CompareAndSwapInt64(&w.gap, g, int64(d)) {
			return
		}
	}
}

func (w *world) beat(done chan bool) {
	for {
		select {
		case <-done:
			return
		default:
		}
		t := time.Now()
		time.Sleep(5 * time.Millisecond)
		w.waited(time.Since(t))
	}
}

// settle waits until the good messages of a connection (0: of any) are handled
func (w *world) settle(c int) {
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		n := 0
		w.mu.Lock()
		for _, x := range w.due {
			if c == 0 || x == c {
				n++
			}
		}
		w.mu.Unlock()
		if n == 0 {
			return
		}
	}
}

func (w *world) expects(l, t int) int {
	if b, ok := w.has[[2]int{l, t}]; ok && b != "reply" {
		return 0
	}
	return 1
}

func (w *world) sent(k *conn, t int, cls, form string) int {
	m := int(atomic.AddInt32(&w.m, 1))
	w.t.Add(vt.M{"op": "S", "m": m, "c": k.id, "l": k.l, "t": t, "cls": cls, "rest": false, "form": form})
	if _, ok := w.has[[2]int{k.l, t}]; ok && cls == "good" {
		w.mu.Lock()
		w.due[m] = k.id
		w.mu.Unlock()
	}
	return m
}

// p2p sends one thing on a connection; reports whether the connection is still in step
func (w *world) p2p(k *conn, op vt.M, rng *rand.Rand) bool {
	t, form := vt.I(op, "t"), vt.S(op, "form")
	pieces := func(f []byte, pause time.Duration, cuts ...int) {
		last := 0
		start := time.Now()
		defer func() {
			if pause < stall {
				w.waited(time.Since(start))
			}
		}()
		for _, c := range append(cuts, len(f)) {
			if c > last && c <= len(f) {
				k.c.Write(f[last:c])
				last = c
				if c < len(f) {
					time.Sleep(pause)
				}
			}
		}
	}
	ok := w.has[[2]int{k.l, t}] != "err"
	switch form {
	case "whole", "big", "bytes", "split", "idle", "edge":
		cls := "good"
		if form == "idle" {
			time.Sleep(stall)
			cls = "stall"
		}
		m := w.sent(k, t, cls, form)
		f := frame(message(m, t, form == "big"))
		switch form {
		case "bytes":
			cuts := []int{}
			for i := 1; i < 12; i++ {
				cuts = append(cuts, i)
			}
			pieces(f, time.Millisecond, cuts...)
		case "edge":
			// begins just before an idle connection's reader loses patience, ends after
			time.Sleep(patience - 20*time.Millisecond)
			pieces(f, 40*time.Millisecond, rng.Intn(4)+1)
		case "split":
			pieces(f, 2*time.Millisecond, rng.Intn(4)+1, 4, 5+rng.Intn(len(f)-6))
		default:
			k.c.Write(f)
		}
		if form == "idle" {
			time.Sleep(20 * time.Millisecond)
			return false
		}
		k.answers(w.expects(k.l, t))
		return ok
	case "pipe":
		all := []byte{}
		n := 0
		ok = true
		for i := 0; i < vt.I(op, "n") && ok; i++ {
			tt := (t+i-1)%4 + 1
			ok = w.has[[2]int{k.l, tt}] != "err"
			m := w.sent(k, tt, "good", form)
			all = append(all, frame(message(m, tt, false))...)
			n += w.expects(k.l, tt)
		}
		if rng.Intn(2) == 0 {
			k.c.Write(all)
		} else {
			pieces(all, time.Millisecond, rng.Intn(len(all)-1)+1)
		}
		k.answers(n)
		return ok
	case "stall", "stallhead":
		m := w.sent(k, t, "stall", form)
		f := frame(message(m, t, false))
		at := rng.Intn(len(f)-6) + 5
		if form == "stallhead" {
			at = rng.Intn(4) + 1
		}
		pieces(f, stall, at)
	case "smuggle":
		// the length of the inner frame, a pause, and then the inner frame
		m := w.sent(k, t, "bad", form)
		f := framed(frame(message(m, t, false)))
		pieces(f, stall, 4)
	case "garbage":
		w.sent(k, t, "bad", form)
		d := make([]byte, 1+rng.Intn(300))
		rng.Read(d)
		d[0] = '<'
		k.c.Write(framed(d))
	case "null":
		// may decode, to a message of no type
		w.sent(k, 0, "odd", form)
		d := [][]byte{[]byte("null"), []byte("{}"), []byte("[]"), []byte("17"), []byte(`{"message_type":"x"}`), []byte(`{"message_type":1e99}`)}[rng.Intn(6)]
		k.c.Write(framed(d))
	case "zero":
		w.sent(k, t, "bad", form)
		k.c.Write([]byte{0, 0, 0, 0})
	case "huge":
		w.sent(k, t, "bad", form)
		k.c.Write([]byte{0xff, 0xff, 0xff, byte(rng.Intn(256)), 1, 2, 3})
		time.Sleep(5 * time.Millisecond)
	case "trunc":
		m := w.sent(k, t, "bad", form)
		f := frame(message(m, t, false))
		k.c.Write(f[:rng.Intn(len(f)-1)+1])
		k.c.(*net.TCPConn).CloseWrite()
	case "reset":
		// takes with it what was not read yet
		w.settle(k.id)
		w.sent(k, t, "bad", form)
		k.c.Write([]byte{0, 0, 1})
		k.c.(*net.TCPConn).SetLinger(0)
		k.c.Close()
	}
	time.Sleep(10 * time.Millisecond)
	return false
}

var client = &http.Client{Timeout: wait, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}

type slow struct {
	b []byte
	n int
}

func (s *slow) Read(p []byte) (int, error) {
	if s.n == len(s.b) {
		return 0, io.EOF
	}
	time.Sleep(time.Millisecond)
	k := 1 + len(s.b)/8
	k = copy(p, s.b[s.n:min(len(s.b), s.n+k)])
	s.n += k
	return k, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (w *world) rest(op vt.M, rng *rand.Rand) {
	l, t, form := vt.I(op, "l"), vt.I(op, "t"), vt.S(op, "form")
	cls := "bad"
	if form == "whole" || form == "slow" || form == "big" || form == "keep" {
		cls = "good"
	}
	m := int(atomic.AddInt32(&w.m, 1))
	w.t.Add(vt.M{"op": "S", "m": m, "c": 0, "l": l, "t": t, "cls": cls, "rest": true, "form": form})
	d, _ := message(m, t, form == "big").FCRMsgToBytes()
	url, method := "http://127.0.0.1:"+w.port[l]+"/v1", "POST"
	var rd io.Reader = bytes.NewReader(d)
	switch form {
	case "slow":
		rd = &slow{b: d}
	case "garbage":
		x := make([]byte, 1+rng.Intn(300))
		rng.Read(x)
		x[0] = '<'
		rd = bytes.NewReader(x)
	case "null":
		rd = strings.NewReader([]string{"null", "{}", "[]", "17", `{"message_type":"x"}`}[rng.Intn(5)])
	case "empty":
		rd = strings.NewReader("")
	case "get":
		method = "GET"
	case "path":
		url += []string{"/x", "2", "/../admin", "/v1"}[rng.Intn(4)]
	}
	e := vt.M{"op": "A", "m": m, "status": 0, "rm": -1, "whole": false, "form": form}
	if form == "trunc" {
		// promises more than it sends
		c, err := net.Dial("tcp", "127.0.0.1:"+w.port[l])
		if err == nil {
			fmt.Fprintf(c, "POST /v1 HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", len(d)+rng.Intn(2)*100)
			c.Write(d[:rng.Intn(len(d))])
			c.(*net.TCPConn).CloseWrite()
			if r, err := http.ReadResponse(bufio.NewReader(c), nil); err == nil {
				e["status"] = r.StatusCode
				r.Body.Close()
			}
			c.Close()
		}
		w.t.Add(e)
		return
	}
	q, err := http.NewRequest(method, url, rd)
	if err != nil {
		panic(err)
	}
	q.Header.Set("Content-Type", "application/json")
	q.Close = form != "keep"
	r, err := client.Do(q)
	if err == nil {
		b, _ := ioutil.ReadAll(r.Body)
		r.Body.Close()
		e["status"] = r.StatusCode
		if x, err := fcrmessages.FCRMsgFromBytes(b); err == nil && x.GetMessageType() == replyType {
			e["rm"], e["whole"] = decode(x)
		}
	} else {
		e["why"] = err.Error()
	}
	w.t.Add(e)
}

func run(s *vt.Script, t *vt.Trace) {
	types = typeSets[vt.I(s.Hdr, "types")]
	rng := rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed"))))
	w := &world{t: t, np: vt.I(s.Hdr, "p2ps"), has: map[[2]int]string{}, due: map[int]int{}}
	nr := vt.I(s.Hdr, "rests")
	tab := vt.L(s.Hdr, "table")
	t.Set("table", tab)
	for _, x := range tab {
		r := x.(map[string]interface{})
		w.has[[2]int{vt.I(r, "l"), vt.I(r, "t")}] = vt.S(r, "beh")
	}
	prng := rand.New(rand.NewSource(time.Now().UnixNano() + int64(os.Getpid())*7919))
	w.port = append([]string{""}, ports(w.np+nr, prng)...)
	mgr := fcrregistermgr.NewFCRRegisterMgr("http://127.0.0.1:1", false, false, time.Hour)
	ps := fcrp2pserver.NewFCRP2PServer(w.port[1:w.np+1], mgr, patience)
	rs := fcrrestserver.NewFCRRESTServer(w.port[w.np+1:])
	for k, b := range w.has {
		l, tt, beh := k[0], k[1], b
		seen := func(x *fcrmessages.FCRMessage) {
			m, whole := decode(x)
			t.Add(vt.M{"op": "H", "m": m, "l": l, "t": tt, "whole": whole && x.GetMessageType() == typ(tt)})
			w.mu.Lock()
			delete(w.due, m)
			w.mu.Unlock()
		}
		if l <= w.np {
			ps.AddHandler(w.port[l], typ(tt), func(rd *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, x *fcrmessages.FCRMessage) error {
				seen(x)
				switch beh {
				case "reply":
					return wr.Write(reply(x), wait)
				case "err":
					return errors.New("refused")
				}
				return nil
			})
		} else {
			rs.AddHandler(w.port[l], typ(tt), func(rw rest.ResponseWriter, x *fcrmessages.FCRMessage) {
				seen(x)
				if beh == "panic" {
					panic("handler")
				}
				rw.WriteJson(reply(x))
			})
		}
	}
	// handlers for addresses the servers do not listen on, or added too late, are not used
	ps.AddHandler("1", typ(1), nil)
	for i := 0; ; i++ {
		err := ps.Start()
		if err == nil {
			break
		}
		panic("cannot listen: " + err.Error())
	}
	if err := rs.Start(); err != nil {
		panic("cannot listen: " + err.Error())
	}
	for l := 1; l < len(w.port); l++ {
		w.dial(l).c.Close()
	}
	done := make(chan bool)
	go w.beat(done)
	defer close(done)
	t.Step("dispatch", limit, func() {
		byT := map[int][]vt.M{}
		for _, op := range s.Ops {
			byT[vt.I(op, "th")] = append(byT[vt.I(op, "th")], op)
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var open []*conn
		run := func(th int, ops []vt.M) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed") + th*1000)))
			conns := map[int]*conn{}
			for _, op := range ops {
				l := vt.I(op, "l")
				if l > w.np {
					w.rest(op, rng)
					continue
				}
				if conns[l] == nil || vt.B(op, "fresh") {
					conns[l] = w.dial(l)
					mu.Lock()
					open = append(open, conns[l])
					mu.Unlock()
				}
				if !w.p2p(conns[l], op, rng) {
					delete(conns, l)
				}
			}
		}
		wg.Add(len(byT))
		for th, ops := range byT {
			go run(th, ops)
		}
		wg.Wait()
		// every listener still answers
		probe := []vt.M{}
		for l := 1; l < len(w.port); l++ {
			for tt := 1; tt <= 2; tt++ {
				probe = append(probe, vt.M{"l": float64(l), "t": float64(tt), "form": "whole", "fresh": true})
			}
		}
		wg.Add(1)
		run(0, probe)
		w.settle(0)
		time.Sleep(30 * time.Millisecond)
		// an overloaded machine is an impatient server: what came late need not have been taken
		t.Add(vt.M{"op": "Q", "calm": atomic.LoadInt64(&w.gap) < int64(patience/3)})
		for _, k := range open {
			k.c.Close()
		}
	})
	rng.Intn(2)
}

func main() {
	log.SetOutput(ioutil.Discard)
	// a node's memory is not endless
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	vt.Main(run)
}
