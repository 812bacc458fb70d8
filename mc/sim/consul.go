package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"strconv"
	"strings"
	"time"
)

type kvEntry struct {
	LockIndex, Flags, CreateIndex, ModifyIndex uint64
	Key, Session                               string
	Value                                      []byte
}

type sess struct {
	id    string
	ttl   time.Duration
	delay time.Duration
	timer *time.Timer
	proc  *Proc
}

// Consul is the part of a Consul server that itko uses: sessions with TTL and
// lock-delay, KV with acquire/release, blocking queries.
type Consul struct {
	w      *World
	idx    uint64
	kv     map[string]*kvEntry
	gone   map[string]uint64 // deletion index
	sess   map[string]*sess
	nsess  int
	delay  map[string]time.Time
	watch  chan struct{} // closed and replaced at every change
	broken map[*Proc]bool
	brokeC chan struct{}
	silent map[*Proc]int                // 1: blocking queries get no answer any more, 2: nothing does
	stale  map[*Proc]map[string]kvEntry // what reads of a process see that need not be consistent
	// Lag delays what blocking queries of a process tell it.
	Lag map[*Proc]time.Duration
	// Answer, when set, may answer a request instead; err: no answer at all.
	Answer func(p *Proc, req *http.Request) (status int, err error)
	// Holder history: who held the lock when.
	Grants []string
}

func newConsul(w *World) *Consul {
	return &Consul{w: w, idx: 10, kv: map[string]*kvEntry{}, gone: map[string]uint64{}, sess: map[string]*sess{}, delay: map[string]time.Time{},
		watch: make(chan struct{}), broken: map[*Proc]bool{}, brokeC: make(chan struct{}), Lag: map[*Proc]time.Duration{}, silent: map[*Proc]int{}, stale: map[*Proc]map[string]kvEntry{}}
}

func (c *Consul) changed() {
	close(c.watch)
	c.watch = make(chan struct{})
}

// Set stores a key from outside.
func (c *Consul) Set(key string, v []byte) {
	c.idx++
	e := c.kv[key]
	if e == nil {
		e = &kvEntry{Key: key, CreateIndex: c.idx}
		c.kv[key] = e
	}
	e.Value, e.ModifyIndex = v, c.idx
	c.changed()
}

func (c *Consul) Value(key string) []byte {
	if e := c.kv[key]; e != nil {
		return e.Value
	}
	return nil
}

// Holder is the process whose session holds the lock at key.
func (c *Consul) Holder(key string) *Proc {
	if e := c.kv[key]; e != nil && e.Session != "" {
		if s := c.sess[e.Session]; s != nil {
			return s.proc
		}
	}
	return nil
}

// Expire invalidates every session of p (TTL ran out, or an operator did it).
func (c *Consul) Expire(p *Proc) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	p.Excuse = "session lost"
	for _, s := range c.sess {
		if s.proc == p {
			c.invalidate(s)
		}
	}
}

// Break makes Consul unreachable for p: pending and future queries fail.
func (c *Consul) Break(p *Proc) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.broken[p] = true
	p.Excuse = "Consul unreachable"
	close(c.brokeC)
	c.brokeC = make(chan struct{})
}

// Silence makes Consul stop answering p: its blocking queries in flight (as
// when their connection died without notice), or also everything to come.
func (c *Consul) Silence(p *Proc, all bool) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.silent[p] = 1
	p.Excuse = "Consul silent"
	if all {
		c.silent[p] = 2
	}
	c.stale[p] = map[string]kvEntry{}
	for k, e := range c.kv {
		c.stale[p][k] = *e
	}
}

// Heal makes Consul reachable for p again.
func (c *Consul) Heal(p *Proc) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	delete(c.broken, p)
	delete(c.silent, p)
	delete(c.stale, p)
}

// noAnswer blocks until the caller gives up (called and returns with the lock).
func (c *Consul) noAnswer(p *Proc, req *http.Request) error {
	c.w.mu.Unlock()
	select {
	case <-req.Context().Done():
		c.w.mu.Lock()
		return req.Context().Err()
	case <-p.dead:
		c.w.mu.Lock()
		runtime.Goexit() // the deferred unlock in serve runs
	}
	panic("unreachable")
}

func (c *Consul) invalidate(s *sess) {
	if c.sess[s.id] == nil {
		return
	}
	delete(c.sess, s.id)
	s.timer.Stop()
	for _, e := range c.kv {
		if e.Session == s.id {
			e.Session = ""
			c.idx++
			e.ModifyIndex = c.idx
			c.delay[e.Key] = time.Now().Add(s.delay)
			c.w.Logf("consul: session of %s invalid, lock %s free after %v", s.proc.Label, e.Key, s.delay)
		}
	}
	c.changed()
}

func jsonResp(req *http.Request, status int, idx uint64, v any) *http.Response {
	b, _ := json.Marshal(v)
	h := http.Header{"Content-Type": {"application/json"}, "X-Consul-Index": {fmt.Sprint(idx)},
		"X-Consul-Knownleader": {"true"}, "X-Consul-Lastcontact": {"0"}}
	return &http.Response{Status: fmt.Sprintf("%d X", status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: req}
}

func (c *Consul) serve(p *Proc, req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.broken[p] {
		return jsonResp(req, 500, c.idx, "no cluster leader"), nil
	}
	if c.silent[p] == 2 {
		return nil, c.noAnswer(p, req)
	}
	if c.Answer != nil {
		if st, err := c.Answer(p, req); err != nil {
			return nil, err
		} else if st != 0 {
			return jsonResp(req, st, c.idx, "no"), nil
		}
	}
	q := req.URL.Query()
	path := req.URL.Path
	switch {
	case path == "/v1/session/create":
		var in struct{ TTL, LockDelay string }
		json.Unmarshal(body, &in)
		s := &sess{ttl: 15 * time.Second, delay: 15 * time.Second, proc: p}
		if d, err := time.ParseDuration(in.TTL); err == nil {
			s.ttl = d
		}
		if d, err := time.ParseDuration(in.LockDelay); err == nil && d > 0 {
			s.delay = d
		}
		c.nsess++
		s.id = fmt.Sprintf("00000000-0000-0000-0000-%012d", c.nsess)
		c.sess[s.id] = s
		p.session = s.id
		s.timer = time.AfterFunc(s.ttl, func() {
			c.w.mu.Lock()
			defer c.w.mu.Unlock()
			c.invalidate(s)
		})
		return jsonResp(req, 200, c.idx, map[string]string{"ID": s.id}), nil
	case strings.HasPrefix(path, "/v1/session/renew/"):
		s := c.sess[strings.TrimPrefix(path, "/v1/session/renew/")]
		if s == nil {
			return jsonResp(req, 404, c.idx, "no such session"), nil
		}
		s.timer.Reset(s.ttl)
		return jsonResp(req, 200, c.idx, []map[string]any{{"ID": s.id, "TTL": s.ttl.String(), "Behavior": "release"}}), nil
	case strings.HasPrefix(path, "/v1/session/destroy/"):
		if s := c.sess[strings.TrimPrefix(path, "/v1/session/destroy/")]; s != nil {
			c.invalidate(s)
		}
		return jsonResp(req, 200, c.idx, true), nil
	case strings.HasPrefix(path, "/v1/kv/"):
		key := strings.TrimPrefix(path, "/v1/kv/")
		switch req.Method {
		case "GET":
			return c.kvGet(p, req, key, q.Get("index"), q.Get("wait"))
		case "PUT":
			return jsonResp(req, 200, c.idx, c.kvPut(p, key, body, q)), nil
		case "DELETE":
			delete(c.kv, key)
			c.idx++
			c.gone[key] = c.idx
			c.changed()
			return jsonResp(req, 200, c.idx, true), nil
		}
	}
	return jsonResp(req, 404, c.idx, "sim: unsupported "+req.Method+" "+path), nil
}

func (c *Consul) kvPut(p *Proc, key string, body []byte, q map[string][]string) bool {
	get := func(k string) string {
		if v := q[k]; len(v) > 0 {
			return v[0]
		}
		return ""
	}
	e := c.kv[key]
	if e == nil {
		e = &kvEntry{Key: key}
	}
	flags, _ := strconv.ParseUint(get("flags"), 10, 64)
	if id := get("acquire"); id != "" {
		if c.sess[id] == nil || time.Now().Before(c.delay[key]) {
			return false
		}
		if e.Session != "" && e.Session != id {
			return false
		}
		if e.Session == "" {
			e.LockIndex++
		}
		e.Session = id
		c.Grants = append(c.Grants, p.Label)
		c.w.Logf("consul: %s acquires %s", p.Label, key)
	} else if id := get("release"); id != "" {
		if e.Session != id {
			return false
		}
		e.Session = ""
		c.w.Logf("consul: %s releases %s", p.Label, key)
	} else if cas := get("cas"); cas != "" {
		if n, _ := strconv.ParseUint(cas, 10, 64); n != e.ModifyIndex {
			return false
		}
	}
	c.idx++
	if e.CreateIndex == 0 {
		e.CreateIndex = c.idx
	}
	e.ModifyIndex, e.Value, e.Flags = c.idx, body, flags
	c.kv[key] = e
	c.changed()
	return true
}

func (c *Consul) kvGet(p *Proc, req *http.Request, key, index, wait string) (*http.Response, error) {
	want, _ := strconv.ParseUint(index, 10, 64)
	d := 5 * time.Minute
	if x, err := time.ParseDuration(wait); err == nil && x > 0 {
		d = x
	}
	deadline := time.NewTimer(d)
	defer deadline.Stop()
	for {
		e := c.kv[key]
		if old := c.stale[p]; old != nil && req.URL.Query().Has("stale") {
			e = nil
			if x, ok := old[key]; ok {
				e = &x
			}
		}
		at := c.gone[key]
		if e != nil {
			at = e.ModifyIndex
		}
		if at == 0 {
			at = 1
		}
		if want == 0 || at > want {
			if e == nil {
				return jsonResp(req, 404, at, nil), nil
			}
			m := map[string]any{"LockIndex": e.LockIndex, "Key": e.Key, "Flags": e.Flags, "Value": e.Value,
				"CreateIndex": e.CreateIndex, "ModifyIndex": e.ModifyIndex}
			if e.Session != "" {
				m["Session"] = e.Session
			}
			return jsonResp(req, 200, at, []any{m}), nil
		}
		watch, broke := c.watch, c.brokeC
		c.w.mu.Unlock()
		dead := false
		select {
		case <-watch:
		case <-broke:
		case <-deadline.C:
			want = 0
		case <-req.Context().Done():
			c.w.mu.Lock()
			return nil, req.Context().Err()
		case <-p.dead:
			dead = true
		}
		c.w.mu.Lock()
		if lag := c.Lag[p]; lag > 0 && !dead {
			c.w.mu.Unlock()
			time.Sleep(lag)
			dead = p.Dead
			c.w.mu.Lock()
		}
		if c.silent[p] > 0 && !dead {
			return nil, c.noAnswer(p, req)
		}
		if dead {
			runtime.Goexit() // the deferred unlock in serve runs
		}
		if c.broken[p] {
			return jsonResp(req, 500, c.idx, "no cluster leader"), nil
		}
	}
}
