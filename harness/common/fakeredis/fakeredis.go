// Package fakeredis is a stand-in for the Redis server of the register
// service: hashes and strings over RESP, with faults on demand. It outlives
// the service, as Redis does.
package fakeredis

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Faults the server can be told to show.
const (
	None = ""
	Down = "down" // connections are refused
	Err  = "err"  // commands are answered by an error and not executed
	Lost = "lost" // commands are executed, their answer never comes
	Cut  = "cut"  // connections end before a command is executed
	Hold = "hold" // commands are executed and never answered, the connection stays
	Stop = "stop" // commands are neither executed nor answered, the connection stays
)

type value struct {
	hash map[string]string
	str  string
	dies time.Duration // virtual time at which the key expires, 0 for never
}

// Server is one Redis.
type Server struct {
	Password string
	MaxConns int

	mu    sync.Mutex
	db    map[int]map[string]*value
	conns map[net.Conn]bool
	peak  int
	l     net.Listener
	addr  string
	fault string
	after int // commands still served properly before the fault shows
	times int // commands the fault hits, 0 for all
	seen  int // commands hit by the fault
	slow  int // greatest delay of a command, in microseconds
	rng   *rand.Rand
	now   time.Duration
	hit   chan bool
}

// New starts a server on a port of the system's choice.
func New(seed int64) *Server {
	s := &Server{db: map[int]map[string]*value{}, conns: map[net.Conn]bool{}, rng: rand.New(rand.NewSource(seed)), hit: make(chan bool, 1024)}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.addr = l.Addr().String()
	s.serve(l)
	return s
}

// Port gives the port.
func (s *Server) Port() string { return s.addr[strings.LastIndex(s.addr, ":")+1:] }

func (s *Server) serve(l net.Listener) {
	s.mu.Lock()
	s.l = l
	s.mu.Unlock()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			full := s.MaxConns > 0 && len(s.conns) >= s.MaxConns
			if !full {
				s.conns[c] = true
				if len(s.conns) > s.peak {
					s.peak = len(s.conns)
				}
			}
			s.mu.Unlock()
			if full {
				io.WriteString(c, "-ERR max number of clients reached\r\n")
				c.Close()
				continue
			}
			go s.talk(c)
		}
	}()
}

// Conns is the number of open connections.
func (s *Server) Conns() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.conns) }

// Later moves the clock.
func (s *Server) Later(d time.Duration) { s.mu.Lock(); s.now += d; s.mu.Unlock() }

// Slow sets the greatest delay of a command.
func (s *Server) Slow(us int) { s.mu.Lock(); s.slow = us; s.mu.Unlock() }

// Fault makes the server misbehave after a number of further commands, for a
// number of commands (0: until healed).
func (s *Server) Fault(f string, after, times int) {
	s.mu.Lock()
	s.fault, s.after, s.times, s.seen = f, after, times, 0
	for len(s.hit) > 0 {
		<-s.hit
	}
	l := s.l
	var cs []net.Conn
	if f == Down {
		for c := range s.conns {
			cs = append(cs, c)
		}
		s.l = nil
	}
	s.mu.Unlock()
	if f == Down {
		if l != nil {
			l.Close()
		}
		for _, c := range cs {
			c.Close()
		}
	}
}

// Heal ends a fault; it tells how many commands it hit.
func (s *Server) Heal() int {
	s.mu.Lock()
	n := s.seen
	s.fault = None
	gone := s.l == nil
	s.mu.Unlock()
	if gone {
		for {
			l, err := net.Listen("tcp", s.addr)
			if err == nil {
				s.serve(l)
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	return n
}

// Hit waits for the fault to hit a command.
func (s *Server) Hit(d time.Duration) bool {
	select {
	case <-s.hit:
		return true
	case <-time.After(d):
		return false
	}
}

// Keys is the number of keys.
func (s *Server) Keys() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, d := range s.db {
		n += len(d)
	}
	return n
}

// Close ends the server.
func (s *Server) Close() { s.Fault(Down, 0, 0) }

func read(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if line == "" {
		return nil, nil
	}
	if line[0] != '*' {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 0 || n > 1<<20 {
		return nil, errors.New("protocol")
	}
	var out []string
	for i := 0; i < n; i++ {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimRight(h[1:], "\r\n"))
		if err != nil || k < 0 || k > 1<<29 {
			return nil, errors.New("protocol")
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

type session struct {
	db    int
	auth  bool
	multi bool
	queue [][]string
}

func (s *Server) talk(c net.Conn) {
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	r := bufio.NewReader(c)
	ss := &session{auth: s.Password == ""}
	for {
		q, err := read(r)
		if err != nil {
			return
		}
		if len(q) == 0 {
			continue
		}
		q[0] = strings.ToLower(q[0])
		s.mu.Lock()
		d := 0
		if s.slow > 0 {
			d = s.rng.Intn(s.slow)
		}
		s.mu.Unlock()
		time.Sleep(time.Duration(d/2) * time.Microsecond)
		// connection management is no command of the service
		setup := q[0] == "auth" || q[0] == "select" || q[0] == "hello" || q[0] == "ping" || q[0] == "client"
		s.mu.Lock()
		f := None
		if !setup {
			if s.fault != None && s.after <= 0 && (s.times == 0 || s.seen < s.times) {
				f = s.fault
				s.seen++
			}
			s.after--
		}
		var ans string
		if f != Err && f != Cut && f != Down && f != Stop {
			ans = s.exec(ss, q)
		}
		s.mu.Unlock()
		if f != None {
			select {
			case s.hit <- true:
			default:
			}
		}
		switch f {
		case Err:
			ans = "-MISCONF Redis is configured to save RDB snapshots, but it is currently not able to persist on disk.\r\n"
		case Lost, Cut, Down:
			return
		case Hold, Stop:
			io.Copy(io.Discard, r)
			return
		}
		time.Sleep(time.Duration(d-d/2) * time.Microsecond)
		if _, err := io.WriteString(c, ans); err != nil {
			return
		}
		if q[0] == "quit" {
			return
		}
	}
}

func bulk(v string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v) }
func num(n int) string     { return fmt.Sprintf(":%d\r\n", n) }
func list(vs []string) string {
	b := strings.Builder{}
	fmt.Fprintf(&b, "*%d\r\n", len(vs))
	for _, v := range vs {
		b.WriteString(bulk(v))
	}
	return b.String()
}

const (
	null  = "$-1\r\n"
	ok    = "+OK\r\n"
	wrong = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"
	args  = "-ERR wrong number of arguments\r\n"
)

func (s *Server) exec(ss *session, q []string) string {
	if !ss.auth && q[0] != "auth" && q[0] != "quit" {
		return "-NOAUTH Authentication required.\r\n"
	}
	if ss.multi && q[0] != "exec" && q[0] != "discard" && q[0] != "multi" {
		ss.queue = append(ss.queue, q)
		return "+QUEUED\r\n"
	}
	d := s.db[ss.db]
	if d == nil {
		d = map[string]*value{}
		s.db[ss.db] = d
	}
	for k, v := range d {
		if v.dies > 0 && v.dies <= s.now {
			delete(d, k)
		}
	}
	a := q[1:]
	hash := func(make bool) (map[string]string, bool) {
		v := d[a[0]]
		if v == nil {
			if !make {
				return nil, true
			}
			v = &value{hash: map[string]string{}}
			d[a[0]] = v
		}
		return v.hash, v.hash != nil
	}
	need := map[string]int{"get": 1, "set": 2, "del": 1, "unlink": 1, "exists": 1, "expire": 2, "pexpire": 2, "persist": 1, "ttl": 1, "keys": 1,
		"hset": 3, "hmset": 3, "hsetnx": 3, "hget": 2, "hmget": 2, "hgetall": 1, "hkeys": 1, "hvals": 1, "hlen": 1, "hdel": 2, "hexists": 2, "hscan": 2, "rename": 2, "mget": 1}
	if len(a) < need[q[0]] {
		return args
	}
	switch q[0] {
	case "auth":
		if a[len(a)-1] != s.Password || s.Password == "" {
			return "-ERR invalid password\r\n"
		}
		ss.auth = true
		return ok
	case "ping":
		return "+PONG\r\n"
	case "select":
		ss.db, _ = strconv.Atoi(a[0])
		return ok
	case "client", "quit":
		return ok
	case "multi":
		ss.multi = true
		return ok
	case "discard":
		ss.multi, ss.queue = false, nil
		return ok
	case "watch", "unwatch":
		return ok
	case "exec":
		ss.multi = false
		b := fmt.Sprintf("*%d\r\n", len(ss.queue))
		for _, x := range ss.queue {
			b += s.exec(ss, x)
		}
		ss.queue = nil
		return b
	case "get":
		v := d[a[0]]
		if v == nil {
			return null
		}
		if v.hash != nil {
			return wrong
		}
		return bulk(v.str)
	case "mget":
		b := fmt.Sprintf("*%d\r\n", len(a))
		for _, k := range a {
			if v := d[k]; v != nil && v.hash == nil {
				b += bulk(v.str)
			} else {
				b += null
			}
		}
		return b
	case "set":
		v := &value{str: a[1]}
		for i := 2; i+1 < len(a); i++ {
			n, _ := strconv.Atoi(a[i+1])
			switch strings.ToLower(a[i]) {
			case "ex":
				v.dies = s.now + time.Duration(n)*time.Second
			case "px":
				v.dies = s.now + time.Duration(n)*time.Millisecond
			}
		}
		d[a[0]] = v
		return ok
	case "del", "unlink":
		n := 0
		for _, k := range a {
			if d[k] != nil {
				n++
			}
			delete(d, k)
		}
		return num(n)
	case "exists":
		n := 0
		for _, k := range a {
			if d[k] != nil {
				n++
			}
		}
		return num(n)
	case "rename":
		if d[a[0]] == nil {
			return "-ERR no such key\r\n"
		}
		d[a[1]] = d[a[0]]
		delete(d, a[0])
		return ok
	case "keys":
		var ks []string
		for k := range d {
			if m, _ := path.Match(a[0], k); m {
				ks = append(ks, k)
			}
		}
		return list(ks)
	case "expire", "pexpire":
		v := d[a[0]]
		if v == nil {
			return num(0)
		}
		n, _ := strconv.Atoi(a[1])
		u := time.Second
		if q[0] == "pexpire" {
			u = time.Millisecond
		}
		v.dies = s.now + time.Duration(n)*u
		return num(1)
	case "persist":
		if v := d[a[0]]; v != nil && v.dies > 0 {
			v.dies = 0
			return num(1)
		}
		return num(0)
	case "ttl":
		v := d[a[0]]
		if v == nil {
			return num(-2)
		}
		if v.dies == 0 {
			return num(-1)
		}
		return num(int((v.dies - s.now) / time.Second))
	case "hset", "hmset", "hsetnx":
		if len(a)%2 != 1 {
			return args
		}
		h, fine := hash(true)
		if !fine {
			return wrong
		}
		n := 0
		for i := 1; i < len(a); i += 2 {
			_, there := h[a[i]]
			if !there {
				n++
			}
			if !there || q[0] != "hsetnx" {
				h[a[i]] = a[i+1]
			}
		}
		if q[0] == "hmset" {
			return ok
		}
		return num(n)
	case "hget", "hexists":
		h, fine := hash(false)
		if !fine {
			return wrong
		}
		v, there := h[a[1]]
		if q[0] == "hexists" {
			if there {
				return num(1)
			}
			return num(0)
		}
		if !there {
			return null
		}
		return bulk(v)
	case "hmget":
		h, fine := hash(false)
		if !fine {
			return wrong
		}
		b := fmt.Sprintf("*%d\r\n", len(a)-1)
		for _, k := range a[1:] {
			if v, there := h[k]; there {
				b += bulk(v)
			} else {
				b += null
			}
		}
		return b
	case "hgetall", "hkeys", "hvals", "hlen", "hscan":
		h, fine := hash(false)
		if !fine {
			return wrong
		}
		if q[0] == "hlen" {
			return num(len(h))
		}
		var ks []string
		for k := range h {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		if q[0] == "hscan" {
			sort.Strings(ks)
			cur, _ := strconv.Atoi(a[1])
			n, pat := 10, "*"
			for i := 2; i+1 < len(a); i += 2 {
				switch strings.ToLower(a[i]) {
				case "count":
					n, _ = strconv.Atoi(a[i+1])
				case "match":
					pat = a[i+1]
				}
			}
			if len(h) <= 128 {
				n = len(h) // a small hash comes in one piece
			}
			var out []string
			i := cur
			for ; i < len(ks) && i < cur+n; i++ {
				if m, _ := path.Match(pat, ks[i]); m || pat == "*" {
					out = append(out, ks[i], h[ks[i]])
				}
			}
			if i >= len(ks) {
				i = 0
			}
			return "*2\r\n" + bulk(strconv.Itoa(i)) + list(out)
		}
		var out []string
		for _, k := range ks {
			if q[0] != "hvals" {
				out = append(out, k)
			}
			if q[0] != "hkeys" {
				out = append(out, h[k])
			}
		}
		return list(out)
	case "hdel":
		h, fine := hash(false)
		if !fine {
			return wrong
		}
		n := 0
		for _, k := range a[1:] {
			if _, there := h[k]; there {
				n++
			}
			delete(h, k)
		}
		if h != nil && len(h) == 0 {
			delete(d, a[0])
		}
		return num(n)
	case "flushdb", "flushall":
		s.db[ss.db] = map[string]*value{}
		return ok
	}
	return fmt.Sprintf("-ERR unknown command '%s'\r\n", q[0])
}
