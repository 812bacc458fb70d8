package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

// rich is a log whose entries vary in everything: type, sizes, chain length.
var riches = &ref.State{Issuers: map[ref.Hash][]byte{}}

func rich(n int) *ref.State {
	st := riches
	var iss [][]byte
	for i := 0; i < 5; i++ {
		b := make([]byte, []int{1, 300, 65536, 3, 800}[i])
		for k := range b {
			b[k] = byte(k*7 + i)
		}
		iss = append(iss, b)
		st.Issuers[sha256.Sum256(b)] = b
	}
	for i := len(st.Entries); i < n; i++ {
		fill := func(tag string, n int) []byte {
			h := sha256.Sum256([]byte(fmt.Sprint(tag, i)))
			b := make([]byte, n)
			for k := range b {
				b[k] = h[k%32] ^ byte(k/32)
			}
			return b
		}
		big := 0
		if i%1000 < 3 {
			big = 66000 + i%1000*65536
		}
		e := &ref.Entry{Timestamp: uint64(pki.Epoch.UnixMilli()) - 100000 + uint64(i), Index: uint64(i), Cert: fill("cert", 40+i%300+big)}
		if i%2 == 1 {
			e.Precert, e.Pre, e.IssuerKeyHash = true, fill("pre", 50+i%70+big), sha256.Sum256(fill("ikh", 8))
		}
		order := []int{0, 1, 3, 0, 1, 3, 4}
		if i%97 == 5 {
			order = []int{2, 4, 3, 1, 0}
		}
		for k := 0; k < []int{2, 0, 1, 3, 2, 1, 5}[i%7]; k++ {
			e.Chain = append(e.Chain, sha256.Sum256(iss[order[(i+k)%len(order)]]))
		}
		st.Append(e)
	}
	return st
}

// host is a read side on a store.
type host struct {
	r    *explore.Run
	w    *sim.World
	c    *sim.Conf
	st   *ref.State
	n    int
	p    *sim.Proc
	dir  string
	mons int

	base, files int // goroutines and open files before the first request
}

func newWorld(r *explore.Run, mask int) *host {
	h := &host{r: r, w: sim.New(), c: sim.DefaultConf(std)}
	h.c.Mask = mask
	h.w.Track = true
	h.w.Gate = func(*sim.Op) bool { return false }
	r.LogFn = func() []string {
		var out []string
		for _, e := range h.w.Log {
			out = append(out, fmt.Sprintf("%10.3fs %s", e.T.Seconds(), e.What))
		}
		return out
	}
	return h
}

// onURL and onDir start a read side.
func (h *host) start() {
	h.mons++
	h.p = h.w.StartMonitor(fmt.Sprint("M", h.mons), h.dir, h.c.Mask)
	h.w.Settle()
	if !h.p.Up {
		h.w.SleepAll(1e9)
	}
	h.base, h.files = len(h.w.Goroutines(h.p)), sim.OpenFiles()
	if !h.p.Up {
		h.r.Fail("no-start", "the read side does not start: %s", h.p.Exit)
	}
}

var dirN int

// toDir puts the store into a directory of its own.
func (h *host) toDir() {
	dirN++
	h.dir = filepath.Join(sim.Scratch(), fmt.Sprintf("store%d-%d", os.Getpid(), dirN))
	for k, b := range h.w.Objs {
		writeFile(h.dir, k, b)
	}
}

func writeFile(dir, k string, b []byte) {
	p := filepath.Join(dir, k)
	// "tile/0/000" may be both a file and, with partial tiles, "000.p/3"
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
}

func (h *host) close() {
	h.w.Close()
	if h.dir != "" {
		os.RemoveAll(h.dir)
	}
}

// ask sends a request and waits for the answer.
func (h *host) ask(q req) (status int, body []byte, ok bool) {
	x, done := h.w.Ask(h.p, q.method, q.target)
	h.w.Reqs = h.w.Reqs[:0]
	h.r.Evals++
	if !done {
		h.r.Fail("no-answer: "+q.kind, "%s gets no answer", q.target)
		return 0, nil, false
	}
	if h.p.Dead {
		h.r.Fail("ended: "+q.kind, "the read side ended on %s: %s", q.target, h.p.Exit)
		return 0, nil, false
	}
	if x.Status == 0 {
		h.r.Fail("broken: "+q.kind, "%s breaks the connection: %v", q.target, x.Err)
		return 0, nil, false
	}
	return x.Status, x.Body, true
}

// judge checks an answer for trees of between lo and hi entries: it must be
// right for hi, and must be given when it could be given for lo.
func (h *host) judge(q req, lo, hi int, status int, body []byte, when string) {
	switch {
	case status == 200:
		if q.open {
			if q.right(hi, body) == nil {
				return
			}
		}
		if err := q.right(hi, body); err != nil {
			h.r.Fail("wrong: "+q.kind, "%s of a log of %d entries%s: the answer is wrong: %v", q.target, hi, when, err)
		}
	case status < 400:
		h.r.Fail("status: "+q.kind, "%s of a log of %d entries%s: status %d", q.target, hi, when, status)
	case q.open:
	case q.ok(lo):
		h.r.Fail("refused: "+q.kind, "%s of a log of %d entries%s: status %d %.100q", q.target, hi, when, status, body)
	}
}

func (h *host) check(q req) {
	if status, body, ok := h.ask(q); ok {
		h.judge(q, h.n, h.n, status, body, "")
		if status >= 500 && !q.ok(h.n) && !q.open && len(q.kind) > 9 && q.kind[:9] == "malformed" {
			h.r.Fail("server-error: "+q.kind, "%s of a log of %d entries: status %d instead of a client error", q.target, h.n, status)
		}
		h.r.Outcome(fmt.Sprint(q.kind, status))
	}
}

func (h *host) leaks() {
	if l := h.w.Leaks(); len(l) > 0 {
		h.r.Fail("leak", "%d answers of the store were neither read nor closed, first: %s", len(l), l[0])
	}
	// nothing goes on for a request that was answered
	h.w.SleepAll(3e11)                               // 5 minutes
	if l := h.w.Goroutines(h.p); len(l) > h.base+4 { // some may be kept for good
		h.r.Fail("goroutines", "%d goroutines are left after all requests were answered, %d before the first: %v", len(l), h.base, l[:min(len(l), 20)])
	}
	if n := sim.OpenFiles(); n > h.files+4 {
		h.r.Fail("files", "%d files are open after all requests were answered, %d before the first", n, h.files)
	}
}
