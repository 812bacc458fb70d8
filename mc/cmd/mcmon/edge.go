package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/configstore"
	"github.com/fastly/compute-sdk-go/fsthttp"
	"itko.dev/internal/ctmonitor"
	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

const edgeMask = 5   // built into the edge deployment
const edgeLimit = 10 // backend requests per request

// edge stands in for the platform: configuration, cache, backends.
type edge struct {
	r     *explore.Run
	hosts map[string]string            // host name to backend
	objs  map[string]map[string][]byte // by backend
	cache map[string]cached
	cc    string // cache-control of the backends; "-": none
	local bool
	sends []string
	fail  func(n int, key string, b []byte, ok bool) *sim.Answer
	open  int                                         // bodies not closed
	cold  bool                                        // the cache never has anything
	gets  int                                         // objects asked of the cache
	spoil func(n int, key string, b []byte) io.Reader // what of an object the cache hands on; nil: it fails
}

type cached struct {
	body []byte
	end  time.Time
}

type edgeBody struct {
	io.Reader
	closed func()
}

func (b *edgeBody) Close() error {
	if b.closed != nil {
		b.closed()
		b.closed = nil
	}
	return nil
}

func newEdge(r *explore.Run) *edge {
	e := &edge{r: r, hosts: map[string]string{"ct.example": "store"}, objs: map[string]map[string][]byte{}, cache: map[string]cached{}, cc: "max-age=60"}
	configstore.VerifConfig = func(key string) (string, error) {
		if b, ok := e.hosts[key]; ok {
			return b, nil
		}
		return "", configstore.ErrKeyNotFound
	}
	fsthttp.VerifSend = func(ctx context.Context, req *fsthttp.Request, backend string) (*fsthttp.Response, error) {
		key := strings.TrimPrefix(req.URL.Path, "/")
		e.sends = append(e.sends, key)
		objs, have := e.objs[backend]
		if !have {
			return nil, errors.New("no such backend: " + backend)
		}
		b, ok := objs[key]
		st, cut := 200, false
		if !ok {
			st, b = 404, []byte("not here\n")
		}
		if e.fail != nil {
			if a := e.fail(len(e.sends), key, b, ok); a != nil {
				if a.Err != nil {
					return nil, a.Err
				}
				st, b, cut = a.Status, a.Body, a.Cut
			}
		}
		h := fsthttp.NewHeader()
		if e.cc != "-" {
			h.Set("Cache-Control", e.cc)
		}
		var rd io.Reader = bytes.NewReader(b)
		if cut {
			rd = io.MultiReader(rd, broken{})
		}
		return &fsthttp.Response{Request: req, Backend: backend, StatusCode: st, Header: h, Body: &edgeBody{Reader: rd}}, nil
	}
	simple.VerifGetOrSet = func(key []byte, set func() (simple.CacheEntry, error)) (io.ReadCloser, error) {
		e.gets++
		hand := func(b []byte) (io.ReadCloser, error) {
			var rd io.Reader = bytes.NewReader(b)
			if e.spoil != nil {
				if rd = e.spoil(e.gets, string(key), b); rd == nil {
					return nil, errors.New("cache: internal error")
				}
			}
			e.open++
			return &edgeBody{rd, func() { e.open-- }}, nil
		}
		if c, ok := e.cache[string(key)]; ok && time.Now().Before(c.end) && !e.cold {
			return hand(c.body)
		}
		ent, err := set()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(ent.Body)
		if err != nil {
			return nil, err
		}
		e.cache[string(key)] = cached{b, time.Now().Add(ent.TTL)}
		return hand(b)
	}
	return e
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

type recorder struct {
	h      fsthttp.Header
	status int
	body   bytes.Buffer
}

func (w *recorder) Header() fsthttp.Header { return w.h }
func (w *recorder) WriteHeader(code int) {
	if w.status == 0 {
		w.status = code
	}
}
func (w *recorder) Write(p []byte) (int, error) { w.WriteHeader(200); return w.body.Write(p) }
func (w *recorder) Close() error                { w.WriteHeader(200); return nil }
func (w *recorder) SetManualFramingMode(bool)   {}
func (w *recorder) Append(other io.ReadCloser) error {
	w.WriteHeader(200)
	_, err := io.Copy(&w.body, other)
	return err
}

// ask has the edge serve one request; sends holds what it asked of backends.
func (e *edge) ask(host string, q req) (status int, body []byte, ok bool) {
	e.r.Evals++
	e.sends = nil
	m := q.method
	if m == "" {
		m = "GET"
	}
	rq, err := fsthttp.NewRequest(m, "https://"+host+q.target, nil)
	if err != nil {
		return 0, nil, false // not a request the platform would hand on
	}
	rq.Body = io.NopCloser(bytes.NewReader(nil))
	if e.local {
		os.Setenv("FASTLY_HOSTNAME", "localhost")
	} else {
		os.Setenv("FASTLY_HOSTNAME", "cache-x")
	}
	os.Setenv("FASTLY_SERVICE_VERSION", "7")
	w := &recorder{h: fsthttp.NewHeader()}
	func() {
		defer func() {
			if p := recover(); p != nil {
				e.r.Fail("crash: "+q.kind, "%s at the edge: %v", q.target, p)
				w.status = 0
			}
		}()
		ctmonitor.FastlyServe(context.Background(), w, rq)
	}()
	if w.status == 0 {
		return 0, nil, false
	}
	if q.kind == "get-entries" && len(e.sends) > edgeLimit {
		e.r.Fail("requests", "%s at the edge makes %d requests to the backend", q.target, len(e.sends))
	}
	if e.open != 0 {
		e.r.Fail("cache-leak", "%s at the edge leaves %d cache entries open", q.target, e.open)
		e.open = 0
	}
	return w.status, w.body.Bytes(), true
}

// sameAs compares an answer of the edge with the native one.
func (e *edge) sameAs(q req, n int, status int, body []byte, nst int, nbody []byte, when string) {
	what := fmt.Sprintf("%s of a log of %d entries%s", q.target, n, when)
	if status != nst {
		e.r.Fail("differs: "+q.kind, "%s: the edge answers %d (%.60q) and the read side %d (%.60q)", what, status, body, nst, nbody)
		return
	}
	if status != 200 {
		return
	}
	if q.kind == "get-entries" {
		if err := q.right(n, body); err != nil {
			e.r.Fail("wrong: "+q.kind, "%s: the edge's answer is wrong: %v", what, err)
		}
		return
	}
	if !bytes.Equal(body, nbody) {
		e.r.Fail("differs: "+q.kind, "%s: the edge answers %.80q and the read side %.80q", what, body, nbody)
	}
}

// served says whether the edge serves this at all.
func served(q req) bool {
	return q.kind != "get-sth" && q.kind != "get-roots" && !strings.Contains(q.target, "get-sth?")
}

func edgeRequests(h *host, deep bool) []req {
	st, n := h.st, h.n
	var l []req
	ps := points(n, false)
	for _, a := range ps {
		for _, b := range append(ps, n+1000) {
			if a <= b && (deep || b-a < 400 || b == n) {
				l = append(l, getEntries(st, a, b))
			}
			if !deep && a > 3 && b-a > 1 && b < n-1 {
				continue
			}
			l = append(l, consistency(st, a, b))
			l = append(l, entryAndProof(st, a, b))
			if a < n {
				l = append(l, proofByHash(st, a, b))
			}
		}
	}
	return append(l, malformed(st, n)...)
}

func edgeSame() explore.Scenario {
	return explore.Scenario{Name: "same answers", Bubble: true, Run: func(r *explore.Run) {
		ns := sizes
		n := ns[r.Pick("size", len(ns))]
		kept := r.Pick("earlier sizes", 2)
		part := r.Pick("part", 8)
		h := newWorld(r, edgeMask)
		h.st, h.n = rich(n), n
		var earlier []int
		if kept == 1 {
			for _, m := range points(n, false) {
				if m > 0 && m < n {
					earlier = append(earlier, m)
				}
			}
		}
		h.w.Install(h.c, h.st, n, earlier...)
		h.w.Track = false
		// full tiles only, as after a cleanup, in one of the parts
		if kept == 0 && part%2 == 1 {
			for k := range h.w.Objs {
				if i := strings.Index(k, ".p/"); i > 0 {
					if _, ok := h.w.Objs[k[:i]]; ok {
						delete(h.w.Objs, k)
					}
				}
			}
		}
		defer h.close()
		h.start()
		qs := edgeRequests(h, r.Tier == "thorough")
		e := newEdge(r)
		e.objs["store"] = h.w.Objs
		for i, q := range qs {
			if i%8 != part || !served(q) {
				continue
			}
			nst, nbody, ok := h.ask(q)
			if !ok {
				return
			}
			for mode := 0; mode < 4; mode++ {
				switch mode { // not cached, cached by this request, cached by others, without a cache
				case 0:
					e.cache, e.local = map[string]cached{}, false
				case 3:
					e.local = true
				}
				st, body, ok := e.ask("ct.example", q)
				if !ok {
					continue
				}
				e.sameAs(q, n, st, body, nst, nbody, []string{" (cold cache)", " (warm cache)", " (warm cache)", " (no cache)"}[mode])
			}
			e.local = false
			r.Outcome(fmt.Sprint(q.kind, nst))
		}
		// one cache for all
		e.cache = map[string]cached{}
		for round := 0; round < 2; round++ {
			for i, q := range qs {
				if i%8 == part && served(q) && q.ok(n) {
					if st, body, ok := e.ask("ct.example", q); ok {
						h.judge(q, n, n, st, body, " (edge, shared cache)")
					}
				}
			}
		}
		r.State(uint64(n)<<8 | uint64(kept)<<4 | uint64(part))
	}}
}

// edgeFaults: each backend request fails in each way; nothing wrong may be
// answered, nor remembered.
func edgeFaults() explore.Scenario {
	return explore.Scenario{Name: "backend failures", Bubble: true, Run: func(r *explore.Run) {
		n := faultSizes[r.Pick("size", len(faultSizes))]
		local := r.Pick("no cache", 2) == 1
		h := newWorld(r, edgeMask)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		defer h.close()
		qs := sample(h)[2:]
		q := qs[r.Pick("request", len(qs))]
		e := newEdge(r)
		e.local = local
		e.objs["store"] = h.w.Objs
		st, body, ok := e.ask("ct.example", q)
		if !ok {
			return
		}
		h.judge(q, n, n, st, body, " (edge)")
		keys := e.sends
		for i := range keys {
			for _, f := range faults {
				for _, stay := range []bool{false, true} {
					e.cache = map[string]cached{}
					did := ""
					e.fail = func(k int, key string, b []byte, ok bool) *sim.Answer {
						if stay && key == keys[i] || !stay && k == i+1 {
							if !ok {
								return nil
							}
							a := f.f(&sim.Op{Key: key}, b)
							if a != nil {
								did = key
							}
							return a
						}
						return nil
					}
					st, body, ok := e.ask("ct.example", q)
					e.fail = nil
					if !ok || did == "" {
						continue
					}
					asIs := f.soft && strings.HasPrefix(did, "issuer/")
					if st == 200 && !asIs {
						if err := q.right(n, body); err != nil {
							r.Fail("wrong on fault: "+q.kind, "%s of a log of %d entries with %s: %s at the edge: 200 with a wrong answer: %v", q.target, n, did, f.name, err)
						}
					} else if st != 200 && st < 400 {
						r.Fail("status: "+q.kind, "%s with %s: %s at the edge: status %d", q.target, did, f.name, st)
					}
					r.Outcome(fmt.Sprint(q.kind, f.name, st))
					if !f.soft { // what looked like an object may be kept
						st, body, ok := e.ask("ct.example", q)
						if ok {
							h.judge(q, n, n, st, body, fmt.Sprintf(" (edge, after %s: %s)", did, f.name))
						}
					}
				}
			}
		}
		if local {
			return
		}
		// the cache fails, or breaks off what it hands on
		e.cache, e.gets = map[string]cached{}, 0
		if _, _, ok := e.ask("ct.example", q); !ok {
			return
		}
		gets := e.gets
		for i := 1; i <= gets; i++ {
			for how := 0; how < 5; how++ {
				for _, warm := range []bool{false, true} {
					if !warm {
						e.cache = map[string]cached{}
					}
					e.gets = 0
					e.spoil = func(k int, key string, b []byte) io.Reader {
						if k != i {
							return bytes.NewReader(b)
						}
						if how == 4 {
							return nil
						}
						return io.MultiReader(bytes.NewReader(b[:[]int{0, len(b) / 2, max(len(b)-32, 0), len(b)}[how]]), broken{})
					}
					st, body, ok := e.ask("ct.example", q)
					e.spoil = nil
					when := fmt.Sprintf(" (edge, object %d from the cache fails in way %d)", i, how)
					if ok && st == 200 {
						if err := q.right(n, body); err != nil {
							r.Fail("wrong on fault: "+q.kind, "%s of a log of %d entries%s: 200 with a wrong answer: %v", q.target, n, when, err)
						}
					} else if ok && st < 400 {
						r.Fail("status: "+q.kind, "%s%s: status %d", q.target, when, st)
					}
					if st, body, ok := e.ask("ct.example", q); ok {
						h.judge(q, n, n, st, body, " later"+when)
					}
				}
			}
		}
		r.State(uint64(n))
	}}
}

// edgeHosts: several logs behind one service.
func edgeHosts() explore.Scenario {
	return explore.Scenario{Name: "several logs", Bubble: true, Run: func(r *explore.Run) {
		e := newEdge(r)
		e.hosts = map[string]string{"a.example": "store-a", "b.example": "store-b", "a.example.org": "store", "down.example": "gone"}
		hs := map[string]*host{}
		var qs []req
		var on []string
		for i, x := range []string{"a.example", "b.example", "a.example.org"} {
			n := []int{300, 300, 3}[i]
			h := newWorld(r, edgeMask)
			h.st, h.n = rich(n), n
			if i == 1 {
				h.st = other(n)
			}
			h.w.Install(h.c, h.st, n)
			e.objs[e.hosts[x]] = h.w.Objs
			hs[x] = h
			for _, q := range sample(h)[2:] {
				qs, on = append(qs, q), append(on, x)
			}
		}
		e.local = r.Pick("no cache", 2) == 1
		a := r.Pick("first", len(qs))
		for b := range qs {
			e.cache = map[string]cached{}
			for _, k := range []int{a, b, a} {
				st, body, ok := e.ask(on[k], qs[k])
				if ok {
					h := hs[on[k]]
					h.judge(qs[k], h.n, h.n, st, body, " (edge, several logs)")
				}
			}
			for _, x := range []string{"c.example", "down.example", ""} {
				if st, body, ok := e.ask(x, qs[b]); ok && st < 400 {
					r.Fail("unknown-host", "%s for the unknown or unreachable host %q is answered %d %.80q", qs[b].target, x, st, body)
				}
			}
			for _, m := range []string{"POST", "PUT", "DELETE", "PATCH"} {
				q := qs[b]
				q.method = m
				if st, body, ok := e.ask(on[b], q); ok && st != 405 {
					r.Fail("method", "%s %s is answered %d %.80q", m, q.target, st, body)
				}
			}
		}
		r.State(uint64(a))
	}}
}

var others *ref.State

func other(n int) *ref.State {
	if others == nil {
		others = &ref.State{Issuers: map[ref.Hash][]byte{}}
		b := []byte("another issuer")
		others.Issuers[sha256.Sum256(b)] = b
		for i := 0; i < n; i++ {
			h := sha256.Sum256([]byte(fmt.Sprint("other", i)))
			others.Append(&ref.Entry{Timestamp: 1234567 + uint64(i), Index: uint64(i), Cert: h[:], Chain: []ref.Hash{sha256.Sum256(b)}})
		}
	}
	return others
}

// edgeAging: objects cached in one state of the store are used in a later one.
func edgeAging(n0 int, left string, deep string) explore.Scenario {
	return explore.Scenario{Name: fmt.Sprintf("aging %d %s", n0, left), Only: deep, Bubble: true, Run: func(r *explore.Run) {
		maskOver = edgeMask
		pv := pending(r, n0)
		if pv.err != "" {
			r.Fail("history", "no history to read: %s", pv.err)
			return
		}
		h := hist(r, n0, strings.Repeat(left, len(pv.l)))
		if h.err != "" {
			r.Fail("history", "no history to read: %s", h.err)
			return
		}
		a := r.Pick("state", len(h.objs))
		cc := r.Pick("cache-control", 8)
		x := h.world(r)
		defer x.close()
		e := newEdge(r)
		e.cc = []string{"max-age=60", "public, max-age=60", "max-age=60,immutable", "no-transform ,max-age=60", "-", "max-age=0", "stale-if-max-age=86400, max-age=60", "max-age=7, x-max-age=86400"}[cc]
		life := []time.Duration{60, 60, 60, 60, 43200, 0, 60, 7}[cc] * time.Second
		warm := h.requests(a)[2:]
		for b := a; b < len(h.objs); b++ {
			if b != a && b != len(h.objs)-1 && h.docs[b] == h.docs[b-1] && (r.Tier != "thorough" || cc > 0) {
				continue
			}
			if cc > 0 && b < len(h.objs)-1 {
				continue
			}
			qs := h.requests(b)[2:]
			for wi := -1; wi < len(warm); wi++ {
				if cc > 0 && wi >= 0 {
					break
				}
				e.cache = map[string]cached{}
				e.objs["store"] = h.objs[a]
				for i, q := range warm {
					if wi < 0 || wi == i {
						if st, body, ok := e.ask("ct.example", q); ok {
							h.judgeAt(x, q, a, a, st, body, fmt.Sprintf(" (edge, after write %d)", a))
						}
					}
				}
				// just before and just after everything has gone stale
				e.objs["store"] = h.objs[b]
				kept := map[string]cached{}
				for k, v := range e.cache {
					kept[k] = v
				}
				if life > 0 {
					for qi, q := range qs {
						if (qi+b)%3 == 0 || r.Tier == "thorough" || wi < 0 {
							e.cache = map[string]cached{}
							for k, v := range kept {
								e.cache[k] = v
							}
							st, body, ok := e.ask("ct.example", q)
							if ok && st == 200 {
								x.judge(q, h.size[a], h.size[b], st, body, fmt.Sprintf(" (edge, write %d, cache of write %d)", b, a))
							} else if ok && st < 400 {
								r.Fail("status: "+q.kind, "%s: status %d", q.target, st)
							}
						}
					}
				}
				e.cache = kept
				if wi < 0 {
					x.w.SleepAll(life + time.Millisecond)
					for _, q := range qs {
						if st, body, ok := e.ask("ct.example", q); ok {
							h.judgeAt(x, q, b, b, st, body, fmt.Sprintf(" (edge, write %d, expired cache of write %d)", b, a))
						}
					}
				}
			}
		}
		r.State(uint64(a)<<8 | uint64(n0))
	}}
}

// edgeLimits: entries whose chains need more certificates than may be fetched.
func edgeLimits() explore.Scenario {
	return explore.Scenario{Name: "request limit", Bubble: true, Run: func(r *explore.Run) {
		firsts, seconds := []int{0, 1, 4, 5, 6, 7, 8, 9, 10, 20}, []int{0, 1, 3, 5, 6, 8, 12}
		if r.Tier == "thorough" {
			firsts, seconds = nil, nil
			for i := 0; i <= 24; i++ {
				firsts = append(firsts, i)
				if i < 13 {
					seconds = append(seconds, i)
				}
			}
		}
		first := firsts[r.Pick("first chain", len(firsts))]
		second := seconds[r.Pick("second chain", len(seconds))]
		shared := r.Pick("shared", 2) == 1
		at := []int{0, 255}[r.Pick("position", 2)]
		gone := r.Pick("partial tiles gone", 2) == 1
		h := newWorld(r, edgeMask)
		st := &ref.State{Issuers: map[ref.Hash][]byte{}}
		last := at + 3
		if gone {
			last = (last + 255) / 256 * 256
		}
		for i := 0; i < last; i++ {
			e := &ref.Entry{Timestamp: 99 + uint64(i), Index: uint64(i), Cert: []byte{byte(i), byte(i >> 8)}}
			k := map[int]int{at: first, at + 1: second, at + 2: 1}[i]
			for j := 0; j < k; j++ {
				b := []byte(fmt.Sprint("issuer", j))
				if !shared {
					b = []byte(fmt.Sprint("issuer", i, j))
				}
				st.Issuers[sha256.Sum256(b)] = b
				e.Chain = append(e.Chain, sha256.Sum256(b))
			}
			st.Append(e)
		}
		h.st, h.n = st, at+3
		h.w.Install(h.c, st, h.n)
		if gone { // an unfinished publication filled the tile up, and the parts were removed
			for k := range h.w.Objs {
				if strings.Contains(k, ".p/") {
					delete(h.w.Objs, k)
				}
			}
			for k, b := range sim.Published(h.c, st, last).Objects() {
				if strings.HasPrefix(k, "tile/") && !strings.Contains(k, ".p/") {
					h.w.Objs[k] = b
				}
			}
		}
		defer h.close()
		e := newEdge(r)
		e.objs["store"] = h.w.Objs
		for start := max(at-1, 0); start < h.n; start++ {
			for end := start; end <= h.n; end++ {
				q := getEntries(st, start, end)
				// nothing cached, all cached, and asked again and again
				for k := 0; k < 2; k++ {
					e.cache = map[string]cached{}
					if k == 1 {
						for i := 0; i < h.n; i++ {
							for j := 0; j < 4; j++ {
								if st, body, ok := e.ask("ct.example", getEntries(h.st, i, i)); ok && st == 200 {
									h.judge(getEntries(h.st, i, i), h.n, h.n, st, body, " (edge, request limit)")
								}
							}
						}
					}
					good := false
					for try := 0; try < 4 && !good; try++ {
						st, body, ok := e.ask("ct.example", q)
						if !ok {
							return
						}
						if st == 200 {
							good = true
							h.judge(q, h.n, h.n, st, body, " (edge, request limit)")
						}
						r.Outcome(fmt.Sprint(st, try))
					}
					if !good {
						r.Fail("no-progress", "%s of chains of %d and %d certificates is never answered at the edge", q.target, first, second)
					}
				}
			}
		}
		r.State(uint64(first)<<8 | uint64(second))
	}}
}

var _ = http.StatusOK

const ruleEdge = "one case is one request to the real edge entry point on a stand-in of its platform (configuration, cache with expiry, backends); its answer is compared with that of the native read side on the same store, or judged by the reference where the cache holds an earlier state of the store or a backend request fails"

func edgeCheck() *explore.Check {
	c := check("C18", ruleEdge, "16 sizes from 0 to 65537 with requests of every kind at all points near tile edges and about 300 malformed ones, with a cold, a warm, a shared and no cache, with and without partial tiles; 12 requests to logs of 6 sizes with each backend request failing in 25 ways, each object from the cache in 5; all pairs of 30 requests to three logs behind one service; caches filled in every state of a history of real log processes and used in later ones, expired or not, with 8 cache-control values; chains of 0 to 20 and 0 to 12 certificates",
		edgeSame(), edgeFaults(), edgeHosts(), edgeLimits(), edgeAging(254, "1", ""), edgeAging(3, "1", ""), edgeAging(3, "0", "thorough"), edgeAging(254, "0", "thorough"), edgeAging(252, "1", "thorough"))
	c.Assumptions = append(c.Assumptions, "the Fastly cache returns what was stored under the same key until its time to live is over and stores nothing when the callback fails; a backend response is complete or ends with an error")
	return c
}
