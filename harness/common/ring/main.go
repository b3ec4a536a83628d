// Conformance driver for the DHT ring.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/dhtring"
	"github.com/ConsenSys/fc-retrieval/common/verifdrv/vt"
)

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// An embedding maps model positions to 256-bit identifiers and keeps the
// circular order and all comparisons of circular distances.
type embedding struct {
	shift uint
	off   *big.Int
	upper bool
	back  map[string]int
}

func (e *embedding) hex(k int) string {
	v := new(big.Int).Lsh(big.NewInt(int64(k)), e.shift)
	v.Add(v, e.off)
	v.Mod(v, two256)
	s := fmt.Sprintf("%064x", v)
	if e.upper {
		s = strings.ToUpper(s)
	}
	e.back[s] = k
	return s
}

func (e *embedding) keys(hs []string) []int {
	r := []int{}
	for _, h := range hs {
		if k, ok := e.back[h]; ok {
			r = append(r, k)
		} else {
			r = append(r, -2)
		}
	}
	return r
}

const limit = 3 * time.Second

var zeros = strings.Repeat("0", 64)
var effs = strings.Repeat("F", 64)

func run(s *vt.Script, t *vt.Trace) {
	e := &embedding{back: map[string]int{}, upper: vt.B(s.Hdr, "upper")}
	e.shift = uint(vt.I(s.Hdr, "shift"))
	e.off, _ = new(big.Int).SetString(vt.S(s.Hdr, "off"), 16)
	t.Set("m", vt.I(s.Hdr, "m"))
	t.Set("zero", vt.I(s.Hdr, "zero"))
	every := vt.B(s.Hdr, "every")
	obsKind := vt.S(s.Hdr, "obs")
	rng := rand.New(rand.NewSource(int64(vt.I(s.Hdr, "seed"))))
	r := dhtring.CreateRing()
	// reads the whole content through the public interface
	content := func(ev vt.M) bool {
		var all []string
		var size int
		var err error
		if !t.Step("content", limit, func() {
			size = r.Size()
			lo, hi := zeros, effs
			if !e.upper {
				hi = strings.ToLower(effs)
			}
			all, err = r.GetWithinRange(lo, hi)
		}) {
			return false
		}
		ev["size"] = size
		if err == nil {
			ev["all"] = e.keys(all)
		} else {
			ev["all"] = []int{-3}
		}
		return true
	}
	for i, op := range s.Ops {
		ev := vt.M{"op": op["op"]}
		last := i == len(s.Ops)-1
		ok := true
		switch vt.S(op, "op") {
		case "ins":
			k := vt.I(op, "k")
			ev["k"] = k
			ok = t.Step("content", limit, func() { r.Insert(e.hex(k)) })
		case "del":
			k := vt.I(op, "k")
			ev["k"] = k
			ok = t.Step("content", limit, func() { r.Remove(e.hex(k)) })
		case "bad":
			bad := badHex(rng)
			ev["x"] = bad
			del := rng.Intn(2) == 0
			ok = t.Step("content", limit, func() {
				if del {
					r.Remove(bad)
				} else {
					r.Insert(bad)
				}
			})
		case "badq":
			bad := badHex(rng)
			var err error
			good := e.hex(3)
			which := rng.Intn(4)
			ev["x"] = bad
			if which < 2 {
				ev["q"] = "closest"
			} else {
				ev["q"] = "range"
			}
			ok = t.Step(ev["q"].(string), limit, func() {
				switch which {
				case 0:
					_, err = r.GetClosest(bad, 2, "")
				case 1:
					if bad == "" {
						bad = "x"
					}
					_, err = r.GetClosest(good, 2, bad)
				case 2:
					_, err = r.GetWithinRange(bad, good)
				default:
					_, err = r.GetWithinRange(good, bad)
				}
			})
			ev["err"] = err != nil
		case "obs":
			if obsKind == "closest" {
				// only the size is looked at here
				ok = t.Step("content", limit, func() { ev["size"] = r.Size() })
			} else {
				ok = content(ev)
			}
		case "closest":
			tt, n, x := vt.I(op, "t"), vt.I(op, "n"), vt.I(op, "x")
			ev["t"], ev["n"], ev["x"] = tt, n, x
			ex := ""
			if x >= 0 {
				ex = e.hex(x)
			}
			var res []string
			var err error
			ok = t.Step("closest", limit, func() { res, err = r.GetClosest(e.hex(tt), n, ex) })
			if ok && err == nil {
				ev["res"] = e.keys(res)
			}
		case "range":
			a, b := vt.I(op, "a"), vt.I(op, "b")
			ev["a"], ev["b"] = a, b
			var res []string
			var err error
			ok = t.Step("range", limit, func() { res, err = r.GetWithinRange(e.hex(a), e.hex(b)) })
			if ok && err == nil {
				ev["res"] = e.keys(res)
			}
		}
		if !ok {
			return
		}
		if every || last {
			c := vt.M{"op": "obs"}
			t.Add(ev)
			if !content(c) {
				return
			}
			t.Add(c)
		} else {
			t.Add(ev)
		}
	}
}

func badHex(rng *rand.Rand) string {
	h := fmt.Sprintf("%064x", rng.Int63())
	switch rng.Intn(6) {
	case 0:
		return h[1:]
	case 1:
		return h + "0"
	case 2:
		return "g" + h[1:]
	case 3:
		return h[:63] + " "
	case 4:
		return "-" + h[1:]
	default:
		return ""
	}
}

func main() { vt.Main(run) }
