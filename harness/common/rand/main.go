// Conformance driver for the random number generators, and for the keys and
// identifiers drawn from them.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

// names gives every value seen a number; 0 is what a buffer held before.
type names struct {
	mu sync.Mutex
	m  map[string]int
}

func (n *names) of(b []byte) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	// what came before comes again wherever it begins
	for i := 0; i+win <= len(b); i++ {
		if x := n.m[string(b[i:i+win])]; x != 0 {
			return x
		}
	}
	x := len(n.m) + 1
	for i := 0; i+win <= len(b); i += 4 {
		n.m[string(b[i:i+win])] = x
	}
	return x
}

const chunk = 16

// win bytes are enough to know a part by
const win = 8

// cut names the parts of what was read; a part shorter than eight bytes says too little.
func (n *names) cut(b, was []byte) []int {
	r := []int{}
	for i := 0; i < len(b); i += chunk {
		j := i + chunk
		if j > len(b) {
			j = len(b)
		}
		if j-i < win {
			break
		}
		if was != nil && bytes.Equal(b[i:j], was[i:j]) {
			r = append(r, 0)
			continue
		}
		r = append(r, n.of(b[i:j]))
	}
	return r
}

type world struct {
	n   names
	mu  sync.Mutex
	own map[int]fcrcrypto.Random
}

func (w *world) gen(g int) fcrcrypto.Random {
	switch g {
	case 0:
		return fcrcrypto.GetPublicPRNG()
	case 1:
		return fcrcrypto.GetPrivatePRNG()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.own[g] == nil {
		w.own[g] = fcrcrypto.NewPrivatePRNG([]byte("own"))
	}
	return w.own[g]
}

func (w *world) fill(g, how int, b []byte) {
	switch {
	case g == 0 && how == 0:
		fcrcrypto.GeneratePublicRandomBytes(b)
	case g == 1 && how == 0:
		fcrcrypto.GeneratePrivateRandomBytes(b)
	case how == 1:
		if k, err := io.ReadFull(w.gen(g).GetReader(), b); err != nil || k != len(b) {
			panic(fmt.Sprint("read ", k, " of ", len(b), ": ", err))
		}
	default:
		w.gen(g).ReadBytes(b)
	}
}

// key draws a key pair and tries it.
func key(t string) (b []byte, ok bool) {
	f := fcrcrypto.GenerateRetrievalV1KeyPair
	if t == "bc" {
		f = fcrcrypto.GenerateBlockchainKeyPair
	}
	k, err := f()
	if err != nil {
		return nil, false
	}
	raw, err := hex.DecodeString(k.EncodePrivateKey())
	if err != nil || len(raw) != 33 {
		return nil, false
	}
	b = raw[1:]
	pub, err := k.EncodePublicKey()
	if err != nil {
		return b, false
	}
	k2, err := fcrcrypto.DecodePrivateKey(k.EncodePrivateKey())
	if err != nil {
		return b, false
	}
	k3, err := fcrcrypto.DecodePublicKey(pub)
	if err != nil {
		return b, false
	}
	p2, err := k2.EncodePublicKey()
	if err != nil || p2 != pub {
		return b, false
	}
	s, err := k2.Sign(b)
	if err != nil {
		return b, false
	}
	good, err := k3.Verify(s, b)
	return b, err == nil && good
}

func (w *world) one(o vt.M) vt.M {
	e := vt.M{"op": vt.S(o, "op")}
	switch vt.S(o, "op") {
	case "read":
		n, g := vt.I(o, "n"), vt.I(o, "g")
		out := []int{}
		for i := 0; i < vt.I(o, "k"); i++ {
			// what lies around the buffer stays as it is
			buf := bytes.Repeat([]byte{byte(0xa5 * (i % 2))}, n+64)
			was := append([]byte{}, buf...)
			w.fill(g, vt.I(o, "how"), buf[32:32+n:32+n])
			if !bytes.Equal(buf[:32], was[:32]) || !bytes.Equal(buf[32+n:], was[32+n:]) {
				out = append(out, 0)
			}
			out = append(out, w.n.cut(buf[32:32+n], was[32:32+n])...)
		}
		// the last byte is drawn as well: it does not stay as it was every time
		still := n > 0
		for i := 0; i < 8 && still; i++ {
			buf := bytes.Repeat([]byte{byte(0xa5 * (i % 2))}, n)
			last := buf[n-1]
			w.fill(g, vt.I(o, "how"), buf)
			still = buf[n-1] == last
		}
		if still {
			out = append(out, 0)
		}
		e["n"], e["k"], e["out"] = n, vt.I(o, "k"), out
	case "key":
		b, ok := key(vt.S(o, "t"))
		e["ok"], e["out"] = ok, w.n.cut(b, nil)
	case "id":
		var b []byte
		if vt.S(o, "t") == "node" {
			b = nodeid.NewRandomNodeID().ToBytes()
		} else {
			b = cid.NewRandomContentID().ToBytes()
		}
		e["out"] = w.n.cut(b, nil)
	case "new":
		// a generator takes the place of another; the name it was given stays the caller's
		dom := append(make([]byte, 0, 256), []byte(fmt.Sprint("domain", vt.I(o, "d")))...)
		was := append([]byte{}, dom[:200]...)
		p := fcrcrypto.NewPrivatePRNG(dom)
		w.mu.Lock()
		w.own[vt.I(o, "g")] = p
		w.mu.Unlock()
		e["ok"] = bytes.Equal(was, dom[:200])
	case "seed":
		w.gen(vt.I(o, "g")).Reseed(make([]byte, vt.I(o, "d")))
	case "kick":
		if vt.I(o, "g") < 0 {
			fcrcrypto.PRNGEntropyKick()
		} else {
			w.gen(vt.I(o, "g")).QuickReseedKick()
		}
	case "child":
		// other processes on this machine
		out := []int{}
		for i := 0; i < vt.I(o, "k"); i++ {
			x, err := exec.Command(os.Args[0], "-child").Output()
			if err != nil {
				panic(err)
			}
			for _, l := range strings.Fields(string(x)) {
				b, err := hex.DecodeString(l)
				if err != nil {
					panic(err)
				}
				out = append(out, w.n.cut(b, nil)...)
			}
		}
		e["out"], e["k"] = out, vt.I(o, "k")
	default:
		panic(vt.S(o, "op"))
	}
	return e
}

// storm: many readers of one generator at once; counted are parts given twice and parts not filled
func (w *world) storm(o vt.M) vt.M {
	th, each, n, g := vt.I(o, "th"), vt.I(o, "each"), vt.I(o, "n"), vt.I(o, "g")
	outs := make([][]byte, th)
	start := make(chan bool)
	bad := make(chan interface{}, th)
	for i := 0; i < th; i++ {
		go func(i int) {
			defer func() { bad <- recover() }()
			b := make([]byte, each*n)
			<-start
			for j := 0; j < each; j++ {
				switch vt.S(o, "t") {
				case "bytes":
					w.fill(g, (i+j)%3, b[j*n:(j+1)*n])
				case "key":
					k, ok := key("ret")
					if !ok {
						panic("a key pair is not usable")
					}
					copy(b[j*n:], k)
				default:
					copy(b[j*n:], nodeid.NewRandomNodeID().ToBytes())
				}
				if vt.B(o, "kick") && i == 0 {
					fcrcrypto.PRNGEntropyKick()
				}
				if vt.B(o, "more") && i == 1 && j%16 == 0 {
					fcrcrypto.NewPrivatePRNG([]byte("more"))
				}
			}
			outs[i] = b
		}(i)
	}
	close(start)
	for i := 0; i < th; i++ {
		if r := <-bad; r != nil {
			panic(r)
		}
	}
	seen, twice, unfilled := map[string]bool{}, 0, 0
	for _, b := range outs {
		for j := 0; j+win <= len(b); j += win {
			k := string(b[j : j+win])
			if seen[k] {
				twice++
			}
			if k == string(make([]byte, win)) {
				unfilled++
			}
			seen[k] = true
		}
	}
	return vt.M{"op": "storm", "twice": twice, "unfilled": unfilled}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-child" {
		b := make([]byte, 64)
		fcrcrypto.GeneratePublicRandomBytes(b)
		fmt.Println(hex.EncodeToString(b))
		fcrcrypto.GeneratePrivateRandomBytes(b)
		fmt.Println(hex.EncodeToString(b))
		fmt.Println(hex.EncodeToString(nodeid.NewRandomNodeID().ToBytes()))
		k, _ := key("ret")
		fmt.Println(hex.EncodeToString(k))
		return
	}
	// scenarios of one process share the generators, and what was seen
	w := &world{n: names{m: map[string]int{}}, own: map[int]fcrcrypto.Random{}}
	vt.Main(func(s *vt.Script, t *vt.Trace) {
		for _, o := range s.Ops {
			o := o
			evs := [][]vt.M{}
			if !t.Step(vt.S(o, "op"), 60*time.Second, func() {
				switch vt.S(o, "op") {
				case "storm":
					evs = append(evs, []vt.M{w.storm(o)})
				case "par":
					th := vt.L(o, "th")
					evs = make([][]vt.M, len(th))
					start := make(chan bool)
					bad := make(chan interface{}, len(th))
					for i := range th {
						go func(i int) {
							defer func() { bad <- recover() }()
							<-start
							for _, x := range th[i].([]interface{}) {
								evs[i] = append(evs[i], w.one(x.(vt.M)))
							}
						}(i)
					}
					close(start)
					for range th {
						if r := <-bad; r != nil {
							panic(r)
						}
					}
				default:
					evs = append(evs, []vt.M{w.one(o)})
				}
			}) {
				return
			}
			for _, l := range evs {
				for _, e := range l {
					t.Add(e)
				}
			}
		}
	})
}
