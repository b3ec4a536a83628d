// Package vt is the frame shared by the conformance drivers: it reads
// scenario scripts, runs them one by one against the real code and writes one
// recorded trace per scenario.
package vt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

// M is one JSON object (an event, a script step, a header).
type M = map[string]interface{}

// Script is one scenario to run.
type Script struct {
	ID  string `json:"id"`
	Hdr M      `json:"hdr"`
	Ops []M    `json:"ops"`
}

// Trace is what was observed while running one scenario.
type Trace struct {
	mu  sync.Mutex
	hdr M
	ev  []M
	end bool
}

// Set adds a header field of the trace.
func (t *Trace) Set(k string, v interface{}) { t.mu.Lock(); t.hdr[k] = v; t.mu.Unlock() }

// Add appends one event; safe for concurrent use.
func (t *Trace) Add(e M) {
	t.mu.Lock()
	if !t.end {
		t.ev = append(t.ev, e)
	}
	t.mu.Unlock()
}

// Step runs one operation of the code under test. It reports false, after
// recording a "panic" event, when the operation panicked or did not return
// within the limit; the scenario must then end.
func (t *Trace) Step(q string, limit time.Duration, f func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				return
			}
		}()
		f()
		done <- ""
	}()
	select {
	case msg := <-done:
		if msg == "" {
			return true
		}
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		t.Add(M{"op": "panic", "q": q, "why": msg})
	case <-time.After(limit):
		t.Add(M{"op": "panic", "q": q, "why": "hang", "hang": true})
		t.mu.Lock()
		t.hdr["hung"] = true
		t.mu.Unlock()
	}
	t.mu.Lock()
	t.end = true
	t.mu.Unlock()
	return false
}

// I reads an integer field.
func I(m M, k string) int {
	v, ok := m[k]
	if !ok {
		return 0
	}
	return int(v.(float64))
}

// S reads a string field.
func S(m M, k string) string { v, _ := m[k].(string); return v }

// B reads a boolean field.
func B(m M, k string) bool { v, _ := m[k].(bool); return v }

// L reads a list field.
func L(m M, k string) []interface{} { v, _ := m[k].([]interface{}); return v }

// Ints reads a list of integers.
func Ints(m M, k string) []int {
	r := []int{}
	for _, x := range L(m, k) {
		r = append(r, int(x.(float64)))
	}
	return r
}

// Main runs every script of os.Args[1] and writes the traces to os.Args[2].
// A scenario that hangs ends the process (exit code 7) after its trace is
// written: the caller restarts with the remaining scenarios.
func Main(run func(s *Script, t *Trace)) {
	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	cur := os.Args[2] + ".cur"
	rd := bufio.NewReaderSize(in, 1<<20)
	w := bufio.NewWriterSize(out, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var s Script
			if e := json.Unmarshal(line, &s); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(4)
			}
			ioutil.WriteFile(cur, []byte(s.ID), 0644)
			t := &Trace{hdr: M{"id": s.ID}, ev: []M{}}
			run(&s, t)
			t.mu.Lock()
			t.end = true
			t.hdr["ev"] = t.ev
			_, hung := t.hdr["hung"]
			b, e := json.Marshal(t.hdr)
			t.mu.Unlock()
			if e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(4)
			}
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
			if hung {
				out.Close()
				os.Exit(7)
			}
		}
		if err != nil {
			break
		}
	}
	w.Flush()
	out.Close()
	os.Remove(cur)
}

// MainPar is Main for scenarios that do not share anything: n run at a time.
func MainPar(n int, run func(s *Script, t *Trace)) {
	b, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var scripts []*Script
	for _, line := range bytes.Split(b, []byte{'\n'}) {
		if len(line) < 2 {
			continue
		}
		s := &Script{}
		if e := json.Unmarshal(line, s); e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(4)
		}
		scripts = append(scripts, s)
	}
	res := make([][]byte, len(scripts))
	sem := make(chan bool, n)
	var wg sync.WaitGroup
	for i := range scripts {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			s := scripts[i]
			t := &Trace{hdr: M{"id": s.ID}, ev: []M{}}
			run(s, t)
			t.mu.Lock()
			t.end = true
			t.hdr["ev"] = t.ev
			j, e := json.Marshal(t.hdr)
			t.mu.Unlock()
			if e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(4)
			}
			res[i] = append(j, '\n')
		}(i)
	}
	wg.Wait()
	for _, r := range res {
		out.Write(r)
	}
	out.Close()
}
