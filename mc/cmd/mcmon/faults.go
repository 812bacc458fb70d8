package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

var faultSizes = []int{1, 3, 255, 256, 257, 513}

// sample requests of every kind, all valid.
func sample(h *host) []req {
	n, st := h.n, h.st
	docs := func(k string) func() [][]byte {
		d := [][]byte{h.w.Objs["ct/v1/"+k]}
		return func() [][]byte { return d }
	}
	l := []req{asIs("get-sth", docs("get-sth")), asIs("get-roots", docs("get-roots"))}
	if n == 0 {
		return l
	}
	l = append(l, getEntries(st, 0, 0), getEntries(st, n-1, n-1), getEntries(st, max(n-3, 0), n+3),
		proofByHash(st, 0, n), proofByHash(st, n-1, n), proofByHash(st, n/2, n/2+1), entryAndProof(st, 0, n), entryAndProof(st, n-1, n), entryAndProof(st, n/3, n/2+1),
		consistency(st, 1, n), consistency(st, n/2+1, n), consistency(st, max(n-1, 1), n))
	if n > 256 {
		l = append(l, getEntries(st, 254, 258), getEntries(st, 255, 256))
	}
	if n > 512 {
		l = append(l, getEntries(st, 255, 512))
	}
	return l
}

type fault struct {
	name string
	soft bool // the object itself is altered, in length only
	f    func(op *sim.Op, b []byte) *sim.Answer
}

func status(n int) fault {
	return fault{name: fmt.Sprint("status ", n), f: func(op *sim.Op, b []byte) *sim.Answer { return &sim.Answer{Status: n} }}
}
func cut(name string, f func(n int) int) fault {
	return fault{name: "broken off " + name, f: func(op *sim.Op, b []byte) *sim.Answer {
		return &sim.Answer{Status: 200, Body: b[:f(len(b))], Cut: true}
	}}
}
func alter(name string, f func(b []byte) []byte) fault {
	return fault{name: "object " + name, soft: true, f: func(op *sim.Op, b []byte) *sim.Answer { return &sim.Answer{Status: 200, Body: f(b)} }}
}

var faults = []fault{
	{name: "connection error", f: func(*sim.Op, []byte) *sim.Answer { return &sim.Answer{Err: errors.New("connection refused")} }},
	status(404), status(403), status(500), status(503), status(429), status(204), status(206), status(304), status(400),
	{name: "status 500 with the object", f: func(op *sim.Op, b []byte) *sim.Answer { return &sim.Answer{Status: 500, Body: b} }},
	{name: "status 404 with the object", f: func(op *sim.Op, b []byte) *sim.Answer { return &sim.Answer{Status: 404, Body: b} }},
	cut("at once", func(n int) int { return 0 }), cut("half way", func(n int) int { return n / 2 }), cut("at the end", func(n int) int { return n }), cut("one short", func(n int) int { return max(n-1, 0) }),
	alter("empty", func(b []byte) []byte { return []byte{} }), alter("one byte short", func(b []byte) []byte { return b[:max(len(b)-1, 0)] }),
	alter("32 bytes short", func(b []byte) []byte { return b[:max(len(b)-32, 0)] }), alter("half", func(b []byte) []byte { return b[:len(b)/2] }),
	alter("first byte only", func(b []byte) []byte { return b[:min(len(b), 1)] }),
	{name: "object cut between entries, one left", soft: true, f: entriesCut(func(n int) int { return 1 })},
	{name: "object cut between entries, one gone", soft: true, f: entriesCut(func(n int) int { return n - 1 })},
	{name: "object cut between entries, half", soft: true, f: entriesCut(func(n int) int { return n / 2 })},
	{name: "object 21 bytes short", soft: true, f: func(op *sim.Op, b []byte) *sim.Answer { return &sim.Answer{Status: 200, Body: b[:max(len(b)-21, 0)]} }},
}

func entriesCut(f func(n int) int) func(op *sim.Op, b []byte) *sim.Answer {
	return func(op *sim.Op, b []byte) *sim.Answer {
		if !strings.HasPrefix(op.Key, "tile/data/") {
			return nil
		}
		l, err := ref.ParseTile(b)
		if err != nil {
			return nil
		}
		var out []byte
		for _, e := range l[:f(len(l))] {
			out = append(out, e.TileLeaf()...)
		}
		return &sim.Answer{Status: 200, Body: out}
	}
}

// readFaults: one read of one request fails (or, to stay, all reads of that
// object).
func readFaults(stay bool) explore.Scenario {
	name := "one read fails"
	if stay {
		name = "one object fails"
	}
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		n := faultSizes[r.Pick("size", len(faultSizes))]
		h := newWorld(r, 1+n%3)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		defer h.close()
		qs := sample(h)
		q := qs[r.Pick("request", len(qs))]
		// the reads the request makes
		var keys []string
		h.w.Answer = func(op *sim.Op) *sim.Answer { keys = append(keys, op.Key); return nil }
		h.start()
		h.check(q)
		h.w.Answer = nil
		seen := map[string]bool{}
		last := 0
		for i := range keys {
			// of many reads of certificates, the first and the last
			if strings.HasPrefix(keys[i], "issuer/") {
				if last++; last > 4 && i < len(keys)-1 {
					continue
				}
			}
			if stay && seen[keys[i]] {
				continue
			}
			seen[keys[i]] = true
			for _, f := range faults {
				k, did := 0, ""
				h.w.Answer = func(op *sim.Op) *sim.Answer {
					k++
					if stay && op.Key == keys[i] || !stay && k == i+1 {
						b, ok := h.w.Objs[op.Key]
						if !ok {
							return nil
						}
						a := f.f(op, b)
						if a != nil {
							did = op.Key
						}
						return a
					}
					return nil
				}
				st, body, ok := h.ask(q)
				h.w.Answer = nil
				r.Outcome(fmt.Sprint(q.kind, f.name, st))
				if !ok || did == "" {
					continue
				}
				// what is handed on as it is cannot be judged
				asIs := f.soft && (strings.HasPrefix(did, "issuer/") || q.kind == "get-sth" || q.kind == "get-roots")
				if st == 200 && !asIs {
					if err := q.right(n, body); err != nil {
						r.Fail("wrong on fault: "+q.kind, "%s of a log of %d entries with %s: %s: 200 with a wrong answer: %v", q.target, n, did, f.name, err)
					}
				} else if st != 200 && st < 400 {
					r.Fail("status: "+q.kind, "%s with %s: %s: status %d", q.target, did, f.name, st)
				}
				h.check(q)
			}
		}
		h.leaks()
		r.State(uint64(n))
	}}
}

// dirFaults: a file is missing, empty, cut, or not a file.
func dirFaults() explore.Scenario {
	return explore.Scenario{Name: "one file is bad", Bubble: true, Run: func(r *explore.Run) {
		n := faultSizes[r.Pick("size", len(faultSizes))]
		h := newWorld(r, 1+n%3)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		h.toDir()
		defer h.close()
		qs := sample(h)
		q := qs[r.Pick("request", len(qs))]
		h.start()
		h.check(q)
		for _, k := range ref.SortedKeys(h.w.Objs) {
			if !strings.HasPrefix(k, "tile/") && !strings.HasPrefix(k, "ct/") {
				if k != "int/hashes/"+ref.KPath(leafOf(h, q), h.c.Mask) && !strings.HasPrefix(k, "issuer/") {
					continue
				}
			}
			path := filepath.Join(h.dir, k)
			b := h.w.Objs[k]
			for how, name := range []string{"missing", "a directory", "empty", "one byte short", "half", "a dangling link", "a link to itself"} {
				soft := how >= 2 && how <= 4
				if err := os.Remove(path); err != nil {
					panic(err)
				}
				switch how {
				case 1:
					os.Mkdir(path, 0755)
				case 2:
					os.WriteFile(path, nil, 0644)
				case 3:
					os.WriteFile(path, b[:len(b)-1], 0644)
				case 4:
					os.WriteFile(path, b[:len(b)/2], 0644)
				case 5:
					os.Symlink(path+"-none", path)
				case 6:
					os.Symlink(path, path)
				}
				st, body, ok := h.ask(q)
				os.Remove(path)
				os.WriteFile(path, b, 0644)
				r.Outcome(fmt.Sprint(q.kind, name, st))
				if !ok {
					continue
				}
				asIs := soft && (strings.HasPrefix(k, "issuer/") || q.kind == "get-sth" || q.kind == "get-roots")
				if st == 200 && !asIs {
					if err := q.right(n, body); err != nil {
						r.Fail("wrong on fault: "+q.kind, "%s of a log of %d entries with %s %s: 200 with a wrong answer: %v", q.target, n, k, name, err)
					}
				} else if st != 200 && st < 400 {
					r.Fail("status: "+q.kind, "%s with %s %s: status %d", q.target, k, name, st)
				}
			}
			h.check(q)
		}
	}}
}

func leafOf(h *host, q req) []byte {
	for i := range h.st.Entries[:h.n] {
		l := h.st.Tree.Leaf(i)
		if strings.Contains(q.target, b64(l)) {
			return l[:]
		}
	}
	return make([]byte, 32)
}

func badInput(ns []int) explore.Scenario {
	return explore.Scenario{Name: "bad input", Bubble: true, Run: func(r *explore.Run) {
		n := ns[r.Pick("size", len(ns))]
		dir := r.Pick("directory", 2) == 1
		h := newWorld(r, 1+n%3)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		if dir {
			h.toDir()
		}
		defer h.close()
		h.start()
		qs := malformed(h.st, n)
		for _, p := range []string{"get-sth", "get-roots", "get-entries?start=0&end=0", "get-sth-consistency?first=1&second=1", "get-proof-by-hash?tree_size=1&hash=" + b64(ref.Hash{}), "get-entry-and-proof?leaf_index=0&tree_size=1"} {
			for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "FROB"} {
				qs = append(qs, req{kind: "malformed: wrong method", method: m, target: "/ct/v1/" + p, ok: never, right: unwanted})
			}
		}
		good := sample(h)
		for i, q := range qs {
			h.check(q)
			if i%20 == 19 {
				h.check(good[i/20%len(good)])
			}
		}
		for _, q := range good {
			h.check(q)
		}
		h.leaks()
	}}
}

// slow: the store takes its time, and clients that share reads go away.
func slow() explore.Scenario {
	return explore.Scenario{Name: "slow", Bubble: true, Run: func(r *explore.Run) {
		n := []int{3, 257, 513}[r.Pick("size", 3)]
		h := newWorld(r, 1+n%3)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		defer h.close()
		h.start()
		qs := sample(h)
		q := qs[r.Pick("request", len(qs))]
		const ms = time.Millisecond
		reads := 0
		h.w.Answer = func(*sim.Op) *sim.Answer { reads++; return nil }
		h.check(q)
		// every read takes a while
		for _, d := range []time.Duration{30 * ms, min(700*ms, 50*time.Second/time.Duration(max(reads, 1)))} {
			h.w.Delay = d
			h.check(q)
		}
		h.w.Delay = 100 * ms
		h.w.Answer = nil
		// the client goes away during a read; another, that asks for the same
		// before, at the same time or after it, is served
		for i := 0; i < reads && i < 8; i++ {
			for _, after := range []time.Duration{0, time.Duration(i)*100*ms + 10*ms, time.Duration(i)*100*ms + 70*ms, time.Duration(i)*100*ms + 300*ms} {
				a := h.w.Do(h.p, "A", "GET", q.target, nil)
				gone := time.Duration(i)*100*ms + 50*ms
				var b *sim.Req
				if after < gone {
					h.w.SleepAll(after)
					b = h.w.Do(h.p, "B", "GET", q.target, nil)
					h.w.SleepAll(gone - after)
					a.HangUp()
				} else {
					h.w.SleepAll(gone)
					a.HangUp()
					h.w.SleepAll(after - gone)
					b = h.w.Do(h.p, "B", "GET", q.target, nil)
				}
				for k := 0; k < 100 && !b.Done; k++ {
					h.w.SleepAll(time.Second)
				}
				h.w.Reqs = h.w.Reqs[:0]
				r.Evals++
				when := fmt.Sprintf(", asked for %v after another client that went away after %v", after, gone)
				switch {
				case h.p.Dead:
					r.Fail("ended: "+q.kind, "the read side ended on %s%s: %s", q.target, when, h.p.Exit)
					return
				case !b.Done:
					r.Fail("no-answer: "+q.kind, "%s%s gets no answer", q.target, when)
				default:
					h.judge(q, n, n, b.Status, b.Body, when)
				}
			}
		}
		h.w.Delay = 0
		h.check(q)
		h.leaks()
		r.State(uint64(n)<<8 | uint64(reads))
	}}
}
