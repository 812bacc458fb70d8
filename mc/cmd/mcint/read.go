package main

import (
	"fmt"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

// kinds are requests of every kind for a log of n entries, valid and not.
func kinds(st *ref.State, n int) []req {
	zero := req{kind: "not found", target: "/ct/v1/nothing", ok: never, right: unwanted}
	return []req{
		getEntries(st, n-1, n-1),
		getEntries(st, 0, 1),
		getEntries(st, n-2, n+5),
		proofByHash(st, n-1, n),
		proofByHash(st, 1, n-1),
		entryAndProof(st, n-1, n),
		entryAndProof(st, 0, 2),
		consistency(st, 1, n),
		consistency(st, 2, n-1),
		{kind: "get-sth", target: "/ct/v1/get-sth", ok: func(int) bool { return true }},
		{kind: "get-roots", target: "/ct/v1/get-roots", ok: func(int) bool { return true }},
		getEntries(st, n, n+1),
		badHash(st, "unknown hash", ref.Hash{1}, n),
		entryAndProof(st, n, n+1),
		zero,
		{kind: "malformed", target: "/ct/v1/get-entries?start=x&end=", ok: never, right: unwanted},
	}
}

type pairing struct {
	*host
	n int
}

func newPairing(r *explore.Run, n int, onDir bool) *pairing {
	h := newWorld(r, 2)
	world = h.w
	h.st, h.n = rich(n), n
	h.w.Install(h.c, h.st, n)
	h.w.Quiet = true
	if onDir {
		h.toDir()
	}
	h.start()
	return &pairing{h, n}
}

// again replaces the read side by one that has served nothing yet.
func (h *pairing) again() {
	h.w.Kill(h.p, "replaced")
	h.start()
}

// judged holds an answer against the reference.
func (h *pairing) judged(q req, x *sim.Req, when string) {
	h.r.Evals++
	switch {
	case !x.Done:
		h.r.Fail("no-answer: "+q.kind, "%s gets no answer %s", q.target, when)
	case h.p.Dead:
		h.r.Fail("ended: "+q.kind, "the read side ended on %s %s: %s", q.target, when, h.p.Exit)
	case x.Status == 0:
		h.r.Fail("broken: "+q.kind, "%s breaks the connection %s: %v", q.target, when, x.Err)
	default:
		if q.right == nil { // handed on as it is
			if want := h.w.Objs[q.target[1:]]; x.Status != 200 || string(want) != string(x.Body) {
				h.r.Fail("wrong: "+q.kind, "%s %s: status %d %.60q", q.target, when, x.Status, x.Body)
			}
			return
		}
		h.judge(q, h.n, h.n, x.Status, x.Body, " "+when)
	}
}

func (h *pairing) send(mark string, q req) *sim.Req {
	h.w.Mark = mark
	x := h.w.Do(h.p, q.target, "GET", q.target, nil)
	h.w.Mark = ""
	h.w.Settle()
	return x
}

func (h *pairing) await(l ...*sim.Req) {
	for _, x := range l {
		for i := 0; i < 60 && !x.Done; i++ {
			h.w.SleepAll(time.Second)
		}
	}
	h.w.Reqs = h.w.Reqs[:0]
}

// alone finds the points a request comes by.
func (h *pairing) alone(q req, hits int) []point {
	s := newSched(h.r)
	p := s.party("a", point{})
	x := h.send("a", q)
	h.await(x)
	h.judged(q, x, "alone")
	s.end()
	return p.points(hits)
}

// together: the first request is stopped at a point, the second runs to a point
// of its own (zero: to its end), the first runs to its end, then the second.
func (h *pairing) together(a, b req, pa, pb point, cold int) {
	s := newSched(h.r)
	A, B := s.party("a", pa), s.party("b", pb)
	A.cold = cold
	xa := h.send("a", a)
	if cold > 0 {
		pa = A.stop
	}
	xb := h.send("b", b)
	if pb == (point{}) {
		h.await(xb)
	}
	s.free(A)
	h.w.Settle()
	if pb != (point{}) {
		h.await(xa)
	}
	s.free(B)
	h.w.Settle()
	h.await(xa, xb)
	when := fmt.Sprintf("stopped at %v while %s is served", pa, b.target)
	h.judged(a, xa, when)
	when = fmt.Sprintf("while %s is stopped at %v", a.target, pa)
	if pb != (point{}) {
		when += fmt.Sprintf(", and then stopped at %v while that is served", pb)
	}
	h.judged(b, xb, when)
	s.end()
	h.r.Steps += 2
}

// oneSwitch: every statement of the first request, all of the second there.
func oneSwitch(name string, n int, onDir bool, hits, deepHits int) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		h := newPairing(r, n, onDir)
		defer h.close()
		ks := kinds(h.st, n)
		a := ks[r.Pick("first", len(ks))]
		b := ks[r.Pick("second", len(ks))]
		if r.Tier == "thorough" {
			hits = deepHits
		}
		pts := h.alone(a, hits)
		for i, p := range pts {
			h.again()
			h.together(a, b, p, point{}, 0)
			r.State(uint64(p.site)<<8 | uint64(p.hit))
			if i == len(pts)/2 {
				r.Outcome(fmt.Sprint(a.kind, b.kind, len(pts)))
			}
			if len(r.Viol) > 0 {
				return
			}
		}
	}}
}

// twoSwitches: and every statement of the second.
func twoSwitches(name string, n int, onDir bool, only string, pick func(ks []req) []req) explore.Scenario {
	return explore.Scenario{Name: name, Only: only, Bubble: true, Run: func(r *explore.Run) {
		h := newPairing(r, n, onDir)
		defer h.close()
		ks := pick(kinds(h.st, n))
		a := ks[r.Pick("first", len(ks))]
		b := ks[r.Pick("second", len(ks))]
		part := r.Pick("part", 8)
		pa, pb := h.alone(a, 1), h.alone(b, 1)
		for i, p := range pa {
			if i%8 != part {
				continue
			}
			for _, q := range pb {
				h.again()
				h.together(a, b, p, q, 0)
				r.State(uint64(p.site)<<32 | uint64(q.site)<<8 | 1)
			}
			if len(r.Viol) > 0 {
				return
			}
		}
		r.Outcome(fmt.Sprint(a.kind, b.kind, len(pa), len(pb)))
	}}
}

// coldRead: in a process none of whose code has run before, the first request is
// stopped where it is about to write what others may see.
func coldRead(name string, n int) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Fresh: true, Run: func(r *explore.Run) {
		h := newPairing(r, n, false)
		defer h.close()
		ks := kinds(h.st, n)
		if r.Tier != "thorough" {
			ks = []req{ks[0], ks[3], ks[5], ks[7], ks[9], ks[10]}
		}
		a := r.Pick("first", len(ks))
		b := (a + r.Pick("second", 3)) % len(ks)
		k := 1 + r.Pick("write", 10)
		h.together(ks[a], ks[b], point{}, point{}, k)
		r.State(uint64(a)<<16 | uint64(b)<<8 | uint64(k))
		r.Outcome(fmt.Sprint(ks[a].kind, ks[b].kind))
	}}
}
