package main

import (
	"fmt"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/sim"
)

// A logHost is a real log with others' submissions already in it.
type logHost struct {
	*Driver
	n int // certificates used up
}

func newLogHost(r *explore.Run, n0 int) *logHost {
	h := emptyLogHost(r, n0)
	for _, s := range certs(0, 1, 2) {
		h.submit(s)
	}
	h.flow(3*time.Second, func() bool { return h.pending() == 0 })
	h.n = 4
	return h
}

func emptyLogHost(r *explore.Run, n0 int) *logHost {
	w := sim.New()
	world = w
	c := sim.DefaultConf(std)
	c.FlushMs = 200
	st := filler(n0)
	w.Install(c, st, n0)
	d := &Driver{Audit: NewAudit(w, r, c, st, n0, "tree", "head", "append", "dense", "sct", "dedupe", "index", "time", "live", "status"), plan: &Plan{NoRestart: true}, held: map[*sim.Op]time.Time{}, extra: map[string]any{}}
	w.Gate = func(*sim.Op) bool { return false }
	r.LogFn = func() []string {
		var out []string
		for _, e := range w.Log {
			out = append(out, fmt.Sprintf("%10.3fs %s", e.T.Seconds(), e.What))
		}
		return out
	}
	d.live = d.start()
	if !d.flow(100*time.Second, func() bool { return d.live.Up }) {
		r.Fail("no-start", "the log does not start: %s", d.live.Exit)
	}
	return &logHost{Driver: d}
}

// sub is a submission by kind: new ones of three types, ones that have an SCT,
// and ones that must be refused.
type act struct {
	kind   string
	sub    func(h *logHost) *pki.Sub
	refuse bool
	path   string
	body   []byte
}

func (h *logHost) fresh(typ int) *pki.Sub {
	h.n++
	for h.n%4 != typ {
		h.n++
	}
	return certs(h.n)[0]
}

func acts() []act {
	known := func(i int) func(*logHost) *pki.Sub {
		return func(*logHost) *pki.Sub { return certs(i)[0] }
	}
	pre := certs(1)[0]
	return []act{
		{kind: "certificate", sub: func(h *logHost) *pki.Sub { return h.fresh(0) }},
		{kind: "precertificate", sub: func(h *logHost) *pki.Sub { return h.fresh(1) }},
		{kind: "precertificate by a signing certificate", sub: func(h *logHost) *pki.Sub { return h.fresh(2) }},
		{kind: "logged certificate", sub: known(0)},
		{kind: "logged precertificate", sub: known(2)},
		{kind: "precertificate at the wrong place", refuse: true, path: "/ct/v1/add-chain", body: pre.Body()},
		{kind: "garbage", refuse: true, path: "/ct/v1/add-pre-chain", body: []byte(`{"chain":["AAAA"]}`)},
	}
}

type sent struct {
	a act
	q *sim.Req
	s *pki.Sub
}

func (h *logHost) send(mark string, a act, s *pki.Sub) *sent {
	h.w.Mark = mark
	defer func() { h.w.Mark = "" }()
	x := &sent{a: a, s: s}
	if a.refuse {
		x.q = h.w.Do(h.live, a.kind, "POST", a.path, a.body)
	} else {
		x.q = h.submit(s).q
	}
	h.w.Settle()
	return x
}

// finish waits for the answers and judges what the audit does not.
func (h *logHost) finish(when string, l ...*sent) {
	ok := h.flow(20*time.Second, func() bool {
		for _, x := range l {
			if !x.q.Done {
				return false
			}
		}
		return true
	})
	for _, x := range l {
		h.r.Evals++
		switch {
		case h.live.Dead:
			h.r.Fail("ended: "+x.a.kind, "the log ends with %s %s: %s", x.a.kind, when, h.live.Exit)
			return
		case !ok && !x.q.Done:
			h.r.Fail("no-answer: "+x.a.kind, "%s gets no answer %s", x.a.kind, when)
		case x.a.refuse && (x.q.Status < 400 || x.q.Status >= 500):
			h.r.Fail("not-refused: "+x.a.kind, "%s gets %d %s", x.a.kind, x.q.Status, when)
		case !x.a.refuse && x.q.Status != 200:
			h.r.Fail("refused: "+x.a.kind, "%s gets %d %q %s", x.a.kind, x.q.Status, x.q.Body, when)
		}
	}
}

func (h *logHost) pause(d time.Duration) {
	h.flow(d, func() bool { return false })
}

// pairs: one submission is stopped at each of its statements; another is sent
// and served, and the log goes on; then the first goes on.
func submitPairs(name string, hits, deepHits int) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		as := acts()
		a := as[r.Pick("first", len(as))]
		k := r.Pick("second", len(as)+1)
		wait := r.Pick("publication between", 2)
		if r.Tier == "thorough" {
			hits = deepHits
		}
		h := newLogHost(r, 3)
		defer h.w.Close()
		pick := func(x act) *pki.Sub {
			if x.refuse {
				return nil
			}
			return x.sub(h)
		}
		s := newSched(r)
		p := s.party("a", point{})
		h.finish("alone", h.send("a", a, pick(a)))
		s.end()
		pts := p.points(hits)
		for i, at := range pts {
			if i%40 == 39 { // a new log, so that it does not grow
				h.Final()
				h.w.Close()
				h = newLogHost(r, 3)
			}
			s := newSched(r)
			p := s.party("a", at)
			sa := pick(a)
			b, sb := a, sa // the same once more
			if k < len(as) {
				b = as[k]
				sb = pick(b)
			}
			s.party("b", point{})
			x := h.send("a", a, sa)
			y := h.send("b", b, sb)
			when := fmt.Sprintf("(%s stopped at %v while %s is sent)", a.kind, at, b.kind)
			if wait == 1 { // the first may hold what the second needs
				h.flow(3*time.Second, func() bool { return y.q.Done })
			}
			s.free(p)
			h.finish(when, x, y)
			s.end()
			h.r.Steps += 2
			r.State(uint64(at.site)<<8 | uint64(at.hit) | uint64(wait)<<60)
			if len(r.Viol) > 0 {
				return
			}
		}
		r.Outcome(fmt.Sprint(a.kind, k, wait, len(pts)))
		h.Final()
	}}
}

// sequencer: one goroutine of the log that serves no request is stopped at a
// statement; submissions come, and everything else goes on for a while.
func sequencer(name string, n0, parts, hits, deepHits int, wait time.Duration) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		part := r.Pick("part", parts)
		if r.Tier == "thorough" {
			hits = deepHits
		}
		var pts []point
		run := func(at point) {
			h := newLogHost(r, n0)
			defer h.w.Close()
			as := acts()
			s := newSched(r)
			defer s.end()
			p := newParty(at)
			s.rest = p
			var l []*sent
			send := func(k ...int) {
				for _, i := range k {
					l = append(l, h.send("", as[i], as[i].sub(h)))
				}
			}
			send(0, 1)
			h.pause(250 * time.Millisecond)
			send(2, 0, 3)
			h.pause(wait)
			send(1)
			h.pause(wait)
			s.free(p)
			h.finish(fmt.Sprintf("(the log stopped at %v for %v)", at, wait), l...)
			if at == (point{}) {
				pts = p.points(hits)
			}
			s.end()
			h.pause(time.Second)
			h.Final()
			r.Steps++
			r.State(h.w.Sum ^ uint64(at.site)<<8 ^ uint64(at.hit))
		}
		run(point{})
		for i, at := range pts {
			if i%parts == part {
				run(at)
			}
			if len(r.Viol) > 0 {
				return
			}
		}
		r.Outcome(fmt.Sprint(part, len(pts)))
	}}
}

// coldSubmit: in a process none of whose code has run before, the first
// submission is stopped where it is about to write what others may see.
func coldSubmit(name string) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Fresh: true, Run: func(r *explore.Run) {
		as := acts()
		as = []act{as[0], as[1], as[2], as[6]}
		i := r.Pick("first", len(as)+1) // the last one: what serves no request
		a := as[i%len(as)]
		j := r.Pick("second", len(as)+1)
		k := 1 + r.Pick("write", 16)
		h := emptyLogHost(r, 3)
		defer h.w.Close()
		pick := func(x act) *pki.Sub {
			if x.refuse {
				return nil
			}
			return x.sub(h)
		}
		s := newSched(r)
		p := s.party("a", point{})
		if i == len(as) {
			p = newParty(point{})
			s.rest = p
		}
		p.cold = k
		sa := pick(a)
		b, sb := a, sa
		if j < len(as) {
			b = as[j]
			sb = pick(b)
		}
		s.party("b", point{})
		x := h.send("a", a, sa)
		h.flow(2*time.Second, func() bool { return s.stopped(p) || i < len(as) && x.q.Done })
		when := fmt.Sprintf("(%s stopped at %v while %s is sent)", a.kind, p.stop, b.kind)
		y := h.send("b", b, sb)
		h.flow(3*time.Second, func() bool { return y.q.Done })
		s.free(p)
		h.finish(when, x, y)
		s.end()
		h.Final()
		r.State(uint64(i)<<16 | uint64(j)<<8 | uint64(k))
		r.Outcome(fmt.Sprint(a.kind, b.kind))
	}}
}
