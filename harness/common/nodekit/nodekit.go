// Package nodekit runs one of the repository's node programs as a process of
// its own, with a stand-in registry, and talks to it over its REST and TCP
// ports.
package nodekit

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

// Key is a signing key.
type Key struct {
	KP  *fcrcrypto.KeyPair
	Pub string
}

// NewKey makes a key.
func NewKey() Key {
	kp, err := fcrcrypto.GenerateRetrievalV1KeyPair()
	if err != nil {
		panic(err)
	}
	p, err := kp.EncodePublicKey()
	if err != nil {
		panic(err)
	}
	return Key{kp, p}
}

// Registry is a stand-in for the register service.
type Registry struct {
	mu     sync.Mutex
	g      []register.GatewayRegister
	p      []register.ProviderRegister
	gn, pn int
	Srv    *httptest.Server
}

// NewRegistry starts a registry.
func NewRegistry() *Registry {
	r := &Registry{}
	r.Srv = httptest.NewServer(r)
	return r
}

// Set changes what is registered.
func (r *Registry) Set(g []register.GatewayRegister, p []register.ProviderRegister) {
	r.mu.Lock()
	r.g, r.p = append([]register.GatewayRegister{}, g...), append([]register.ProviderRegister{}, p...)
	r.mu.Unlock()
}

// Served tells how often both lists were read.
func (r *Registry) Served() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.gn < r.pn {
		return r.gn
	}
	return r.pn
}

// ServedGateways tells how often the list of gateways was read.
func (r *Registry) ServedGateways() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.gn
}

// ResetServed starts counting anew.
func (r *Registry) ResetServed() { r.mu.Lock(); r.gn, r.pn = 0, 0; r.mu.Unlock() }

func (r *Registry) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if strings.Contains(q.URL.Path, "gateway") {
		r.gn++
		json.NewEncoder(w).Encode(append([]register.GatewayRegister{}, r.g...))
		return
	}
	r.pn++
	json.NewEncoder(w).Encode(append([]register.ProviderRegister{}, r.p...))
}

// Ports reserves n consecutive TCP ports, below those the system hands out.
// The reservation is a UDP socket, so that drivers running side by side keep
// out of each other's way.
func Ports(n int) (int, io.Closer) {
	rng := rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))
	for {
		base := 10000 + rng.Intn(2600)*8
		u, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", base))
		if err != nil {
			continue
		}
		ok := true
		for i := 0; i < n && ok; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", base+i))
			if err != nil {
				ok = false
				break
			}
			l.Close()
		}
		if ok {
			return base, u
		}
		u.Close()
	}
}

// Proc is a running node.
type Proc struct {
	cmd  *exec.Cmd
	done chan bool
	log  string
}

// Start runs a program.
func Start(bin, dir string, env []string, log string) *Proc {
	f, err := os.OpenFile(log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	c := exec.Command(bin)
	c.Dir = dir
	c.Env = append(env, "GOTRACEBACK=single", "HOME="+dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=2")
	c.Stdout, c.Stderr = f, f
	p := &Proc{cmd: c, done: make(chan bool), log: log}
	if err := c.Start(); err != nil {
		panic(err)
	}
	go func() { c.Wait(); f.Close(); close(p.done) }()
	return p
}

// Dead tells whether the process has ended.
func (p *Proc) Dead() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// DeadSoon is Dead with a little patience.
func (p *Proc) DeadSoon(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// Kill ends the process.
func (p *Proc) Kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// Why gives the reason of the process's end.
func (p *Proc) Why() string {
	b, _ := ioutil.ReadFile(p.log)
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := bytes.Index(b, []byte(m)); i >= 0 {
			b = b[i:]
			if len(b) > 1200 {
				b = b[:1200]
			}
			return string(b)
		}
	}
	if len(b) > 600 {
		b = b[len(b)-600:]
	}
	return string(b)
}

var client = &http.Client{Timeout: 25 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

// Rest posts a message; class is "ok" (a message came back), "err" (an HTTP
// error), "none" (nothing).
func Rest(port int, m *fcrmessages.FCRMessage) (string, *fcrmessages.FCRMessage, int) {
	b, err := m.FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	r, err := client.Post(fmt.Sprintf("http://127.0.0.1:%d/v1", port), "application/json", bytes.NewReader(b))
	if err != nil {
		return "none", nil, 0
	}
	defer r.Body.Close()
	body, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return "none", nil, r.StatusCode
	}
	if r.StatusCode >= 400 {
		return "err", nil, r.StatusCode
	}
	if len(bytes.TrimSpace(body)) == 0 {
		return "none", nil, r.StatusCode
	}
	res, err := fcrmessages.FCRMsgFromBytes(body)
	if err != nil {
		return "garbage", nil, r.StatusCode
	}
	return "ok", res, r.StatusCode
}

// WriteFrame sends a message over TCP.
func WriteFrame(c net.Conn, m *fcrmessages.FCRMessage) error {
	d, err := m.FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	f := make([]byte, 4)
	binary.BigEndian.PutUint32(f, uint32(len(d)))
	_, err = c.Write(append(f, d...))
	return err
}

// ReadFrame receives a message over TCP.
func ReadFrame(c net.Conn) (*fcrmessages.FCRMessage, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(c, h); err != nil {
		return nil, err
	}
	d := make([]byte, binary.BigEndian.Uint32(h))
	if _, err := io.ReadFull(c, d); err != nil {
		return nil, err
	}
	return fcrmessages.FCRMsgFromBytes(d)
}

// TCP sends a message on a connection of its own and reads the answer; class
// is "ok", "inv" (an invalid-message answer) or "none".
func TCP(port int, m *fcrmessages.FCRMessage, patience time.Duration) (string, *fcrmessages.FCRMessage) {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 5*time.Second)
	if err != nil {
		return "none", nil
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(patience))
	if WriteFrame(c, m) != nil {
		return "none", nil
	}
	r, err := ReadFrame(c)
	if err != nil {
		return "none", nil
	}
	if r.GetMessageType() == fcrmessages.InvalidMessageResponseType {
		return "inv", r
	}
	return "ok", r
}

// Listener is a TCP stand-in for another node: serve is called for every
// message and may answer on the connection; returning false ends it.
type Listener struct {
	mu    sync.Mutex
	ln    net.Listener
	conns map[net.Conn]bool
	Addr  string
}

// Listen starts a stand-in.
func Listen(serve func(c net.Conn, m *fcrmessages.FCRMessage) bool) *Listener {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	l := &Listener{ln: ln, conns: map[net.Conn]bool{}, Addr: ln.Addr().String()}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			l.mu.Lock()
			l.conns[c] = true
			l.mu.Unlock()
			go func() {
				defer func() {
					c.Close()
					l.mu.Lock()
					delete(l.conns, c)
					l.mu.Unlock()
				}()
				for {
					m, err := ReadFrame(c)
					if err != nil || !serve(c, m) {
						return
					}
				}
			}()
		}
	}()
	return l
}

// Close ends the stand-in.
func (l *Listener) Close() {
	l.ln.Close()
	l.mu.Lock()
	for c := range l.conns {
		c.Close()
	}
	l.mu.Unlock()
}
