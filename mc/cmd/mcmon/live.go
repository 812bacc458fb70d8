package main

import (
	"encoding/hex"
	"fmt"
	"maps"
	"slices"
	"strings"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

// A history is the sequence of all states of a store while logs write to it.
type history struct {
	err    string
	writes []write
	objs   []map[string][]byte // objs[i]: after i writes
	size   []int               // of the published tree
	sths   [][]byte            // get-sth documents in order of appearance
	docs   []int               // how many of them had appeared
	st     *ref.State
	ghosts []ref.Hash // leaves that were written but never published
	roots  []byte
	mask   int
}

type write struct {
	key  string
	body []byte
}

func subs(tag string, n int) []*pki.Sub {
	var l []*pki.Sub
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%d", tag, i)
		switch i % 4 {
		case 0:
			l = append(l, pki.Cert(name, std.I1, pki.LeafOpt{}))
		case 1:
			l = append(l, pki.Pre(name, std.I2, pki.LeafOpt{}))
		case 2:
			l = append(l, pki.Pre(name, std.P1, pki.LeafOpt{OmitRoot: true}))
		default:
			l = append(l, pki.Cert(name, std.J1, pki.LeafOpt{}))
		}
	}
	return l
}

// record runs a log on base and records its writes; groups of submissions are
// published one after the other.
func record(r *explore.Run, c *sim.Conf, base map[string][]byte, groups [][]*pki.Sub) ([]write, string) {
	w := sim.New()
	w.Consul.Set(c.KV+"/config", c.JSON())
	w.Objs = maps.Clone(base)
	w.Gate = func(op *sim.Op) bool { return op.Put() }
	var l []write
	w.OnApply = func(op *sim.Op, old []byte, had bool) { l = append(l, write{op.Key, op.Body}) }
	r.LogFn = func() []string {
		var out []string
		for _, e := range w.Log {
			out = append(out, fmt.Sprintf("%10.3fs %s", e.T.Seconds(), e.What))
		}
		return out
	}
	p := w.StartLog("A", c.KV)
	flow := func(d time.Duration, done func() bool) {
		until := time.Now().Add(d)
		for !done() {
			w.Settle()
			if l := w.Parked(); len(l) > 0 {
				w.Release(l[0])
				w.Settle()
				continue
			}
			left := time.Until(until)
			if left <= 0 {
				return
			}
			w.Sleep(min(left, 50*time.Millisecond))
		}
	}
	defer w.Close()
	flow(70*time.Second, func() bool { return p.Up || p.Dead })
	if !p.Up {
		return nil, "the log does not start: " + p.Exit
	}
	for _, g := range groups {
		var qs []*sim.Req
		for _, s := range g {
			path := "/ct/v1/add-chain"
			if s.Precert {
				path = "/ct/v1/add-pre-chain"
			}
			qs = append(qs, w.Do(p, s.Name, "POST", path, s.Body()))
		}
		flow(30*time.Second, func() bool {
			for _, q := range qs {
				if !q.Done {
					return false
				}
			}
			return true
		})
		for _, q := range qs {
			if q.Status != 200 {
				return l, fmt.Sprintf("submission %s: status %d %s", q.Name, q.Status, q.Body)
			}
		}
		flow(250*time.Millisecond, func() bool { return false })
	}
	return l, ""
}

func published(objs map[string][]byte, c *sim.Conf) (int, error) {
	h, err := ref.ParseSTH(objs["ct/v1/get-sth"], &c.Key.PublicKey)
	return int(h.Size), err
}

// parse makes the reference state of the tree of n entries in a store.
func parse(objs map[string][]byte, n int) (*ref.State, error) {
	st := ref.NewState()
	for _, t := range ref.Wanted(n) {
		if t.L >= 0 {
			continue
		}
		l, err := ref.ParseTile(objs[t.Path()])
		if err != nil {
			return nil, err
		}
		for _, e := range l {
			st.Append(e)
		}
	}
	for k, b := range objs {
		if strings.HasPrefix(k, "issuer/") {
			st.Issuers[ref.Hash(unhex(k[7:]))] = b
		}
	}
	if len(st.Entries) != n {
		return nil, fmt.Errorf("%d entries in the data tiles of a tree of %d", len(st.Entries), n)
	}
	return st, nil
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func conf(mask int) *sim.Conf {
	c := sim.DefaultConf(std)
	c.FlushMs, c.Mask = 100, mask
	return c
}

type histKey struct {
	n0   int
	left string
}

var histories = map[histKey]*history{}

// pending is what a log that started with n0 entries writes in its last
// publication up to the STH: any part of it may be what a crash leaves.
type pendingVal struct {
	base map[string][]byte // before
	l    []write
	err  string
	all  []write // everything the log wrote before
}

var pendings = map[int]*pendingVal{}

// maskOver, when set, is the mask of all histories.
var maskOver int

func mask(n0 int) int {
	if maskOver > 0 {
		return maskOver
	}
	if n0 > 200 {
		return 1
	}
	return 2
}

func base(n0 int, sizes ...int) map[string][]byte {
	w := sim.New()
	c := conf(mask(n0))
	w.Install(c, rich(n0), n0, sizes...)
	return w.Objs
}

func pending(r *explore.Run, n0 int) *pendingVal {
	if v := pendings[n0]; v != nil {
		return v
	}
	v := &pendingVal{base: base(n0)}
	l, err := record(r, conf(mask(n0)), v.base, [][]*pki.Sub{subs("first", 1), subs("lost", 4)})
	v.err = err
	// up to the end of the first publication, then to the STH that covers more
	n, _ := published(v.base, conf(mask(n0)))
	objs := maps.Clone(v.base)
	cut, end := -1, -1
	for i, x := range l {
		objs[x.key] = x.body
		if x.key == "ct/v1/get-sth" {
			if m, _ := published(objs, conf(mask(n0))); m == n+1 {
				cut = i
			} else if m > n+1 && end < 0 {
				end = i
			}
		}
	}
	if err == "" && (cut < 0 || end < 0) {
		v.err = "the publications are not where they should be"
	}
	if v.err == "" {
		// everything belonging to the first publication lands
		for _, x := range l[:end] {
			if isPartOf(x, l, cut) {
				v.base[x.key] = x.body
				v.all = append(v.all, x)
			} else {
				v.l = append(v.l, x)
			}
		}
	}
	pendings[n0] = v
	return v
}

// isPartOf says whether x was written by the first publication: everything up
// to its STH and what directly follows it (checkpoint, dedupe records).
func isPartOf(x write, l []write, cut int) bool {
	for i := range l {
		if l[i].key == x.key && &l[i].body[0] == &x.body[0] {
			if i <= cut {
				return true
			}
			for _, y := range l[cut+1 : i+1] {
				if y.key != "checkpoint" && y.key != "ct/v1/get-sth" && !strings.HasPrefix(y.key, "int/dedupe/") {
					return false
				}
			}
			return true
		}
	}
	return false
}

// leftovers are the subsets that are explored, by name.
func leftovers(m int, thorough bool) []string {
	var l []string
	l = append(l, strings.Repeat("0", m), strings.Repeat("1", m))
	add := func(b []byte) {
		if s := string(b); !slices.Contains(l, s) {
			l = append(l, s)
		}
	}
	if thorough && m <= 9 {
		for v := 0; v < 1<<m; v++ {
			b := make([]byte, m)
			for i := range b {
				b[i] = '0' + byte(v>>i&1)
			}
			add(b)
		}
		return l
	}
	for i := 0; i < m; i++ {
		one, but, pre := make([]byte, m), make([]byte, m), make([]byte, m)
		for k := 0; k < m; k++ {
			one[k], but[k], pre[k] = '0', '1', '0'
			if k == i {
				one[k], but[k] = '1', '0'
			}
			if k <= i {
				pre[k] = '1'
			}
		}
		add(one)
		add(but)
		add(pre)
	}
	if thorough {
		for i := 0; i < m; i++ {
			for j := 0; j < i; j++ {
				b := []byte(strings.Repeat("0", m))
				b[i], b[j] = '1', '1'
				add(b)
			}
		}
	}
	return l
}

// hist is the history of a log that comes up on what a crash left behind.
func hist(r *explore.Run, n0 int, left string) *history {
	k := histKey{n0, left}
	if h := histories[k]; h != nil {
		return h
	}
	pv := pending(r, n0)
	h := &history{mask: mask(n0), err: pv.err}
	histories[k] = h
	if h.err != "" {
		return h
	}
	start := maps.Clone(pv.base)
	c := conf(h.mask)
	var lost []write
	for i, x := range pv.l {
		if left[i] == '1' {
			start[x.key] = x.body
			lost = append(lost, x)
		}
	}
	h.writes, h.err = record(r, c, start, [][]*pki.Sub{subs("next", 1), subs("more", 2)})
	if h.err != "" {
		return h
	}
	h.roots = start["ct/v1/get-roots"]
	objs := start
	h.sths = append(h.sths, start["ct/v1/get-sth"])
	for i := -1; i < len(h.writes); i++ {
		if i >= 0 {
			objs = maps.Clone(objs)
			objs[h.writes[i].key] = h.writes[i].body
			if h.writes[i].key == "ct/v1/get-sth" {
				h.sths = append(h.sths, h.writes[i].body)
			}
		}
		n, err := published(objs, c)
		if err != nil {
			h.err = err.Error()
			return h
		}
		h.objs, h.size, h.docs = append(h.objs, objs), append(h.size, n), append(h.docs, len(h.sths))
	}
	st, err := parse(objs, h.size[len(h.size)-1])
	if err != nil {
		h.err = err.Error()
		return h
	}
	h.st = st
	have := map[ref.Hash]bool{}
	for i := range st.Entries {
		have[st.Tree.Leaf(i)] = true
	}
	for _, x := range append(lost, h.writes...) {
		if strings.HasPrefix(x.key, "tile/data/") {
			l, err := ref.ParseTile(x.body)
			if err != nil {
				h.err = err.Error()
				return h
			}
			for _, e := range l {
				if lh := e.LeafHash(); !have[lh] {
					have[lh] = true
					h.ghosts = append(h.ghosts, lh)
				}
			}
		}
	}
	return h
}

// requests about a log that has n entries now and will have more.
func (h *history) requests(at int) []req {
	n, last := h.size[at], h.size[len(h.size)-1]
	st := h.st
	docs := h.docs
	var l []req
	l = append(l, asIs("get-sth", func() [][]byte { return h.sths[:docs[len(docs)-1]] }), asIs("get-roots", func() [][]byte { return [][]byte{h.roots} }))
	l = append(l, getEntries(st, 0, 0), getEntries(st, max(n-4, 0), 1<<40), getEntries(st, n-1, n-1), getEntries(st, n, n), getEntries(st, max(n-2, 0), n+9), getEntries(st, last-1, last-1), getEntries(st, last, last+1))
	if n > 200 {
		l = append(l, getEntries(st, 253, 257))
	}
	for _, size := range []int{n - 1, n, n + 1, last} {
		if size < 1 || size > last {
			continue
		}
		for _, leaf := range []int{0, n - 1, n, last - 1} {
			if leaf >= 0 && leaf < size {
				l = append(l, proofByHash(st, leaf, size), entryAndProof(st, leaf, size))
			}
		}
		l = append(l, consistency(st, 1, size), consistency(st, size, size), consistency(st, max(size-1, 1), size), consistency(st, min(n, size), max(n, size)))
	}
	for i, g := range h.ghosts {
		if i < 2 || i == len(h.ghosts)-1 {
			l = append(l, badHash(st, "an unpublished entry", g, n), badHash(st, "an unpublished entry", g, last))
		}
	}
	var out []req
	seen := map[string]bool{}
	for _, q := range l {
		if !seen[q.target] {
			seen[q.target] = true
			out = append(out, q)
		}
	}
	return out
}

func (h *history) world(r *explore.Run) *host {
	x := newWorld(r, h.mask)
	x.w.Track = false
	x.st = h.st
	return x
}

// judgeAt judges an answer to a request made in state a and answered in b.
func (h *history) judgeAt(x *host, q req, a, b int, status int, body []byte, when string) {
	if q.kind == "get-sth" && status == 200 {
		for _, d := range h.sths[:h.docs[b]] {
			if string(d) == string(body) {
				return
			}
		}
		x.r.Fail("wrong: get-sth", "get-sth%s answers what was not published by then", when)
		return
	}
	x.judge(q, h.size[a], h.size[b], status, body, when)
}

// jumps: the store moves on from state a to state b before the j-th read.
func jumps(name string, n0 int, only string, kind func(m int) string, every int) explore.Scenario {
	return explore.Scenario{Name: name, Only: only, Bubble: true, Run: func(r *explore.Run) {
		pv := pending(r, n0)
		if pv.err != "" {
			r.Fail("history", "no history to read: %s", pv.err)
			return
		}
		h := hist(r, n0, kind(len(pv.l)))
		if h.err != "" {
			r.Fail("history", "no history to read: %s", h.err)
			return
		}
		a := r.Pick("state", len(h.objs))
		part := r.Pick("part", 4)
		x := h.world(r)
		qs := h.requests(a)
		for qi, q := range qs {
			if qi%4 != part {
				continue
			}
			for b := a; b < len(h.objs); b++ {
				if r.Tier != "thorough" && b > a+every && b < len(h.objs)-1 {
					continue
				}
				for j := 1; ; j++ {
					reads := 0
					x.w.Objs = h.objs[a]
					x.w.Answer = func(op *sim.Op) *sim.Answer {
						reads++
						if reads == j+1 {
							x.w.Objs = h.objs[b]
						}
						return nil
					}
					x.start()
					status, body, ok := x.ask(q)
					x.w.Answer = nil
					if ok {
						h.judgeAt(x, q, a, b, status, body, fmt.Sprintf(" (write %d to %d before read %d)", a, b, j+1))
						r.Outcome(fmt.Sprint(q.kind, status, h.size[a] == h.size[b]))
					}
					x.w.Fresh()
					if b == a || reads <= j+1 || len(r.Viol) > 0 {
						break
					}
				}
			}
		}
		r.State(uint64(n0)<<32 | uint64(a))
		x.close()
	}}
}

// rests: every state of the store, read by one process that lives through all
// of them, and by a fresh one.
func rests(n0 int, every int) explore.Scenario {
	return explore.Scenario{Name: fmt.Sprintf("leftovers %d", n0), Bubble: true, Run: func(r *explore.Run) {
		pv := pending(r, n0)
		if pv.err != "" {
			r.Fail("history", "no history to read: %s", pv.err)
			return
		}
		ls := leftovers(len(pv.l), r.Tier == "thorough")
		left := ls[r.Pick("leftovers", len(ls))]
		dir := r.Pick("directory", 2) == 1
		h := hist(r, n0, left)
		defer delete(histories, histKey{n0, left})
		if h.err != "" {
			r.Fail("history", "no history to read: %s", h.err)
			return
		}
		x := h.world(r)
		x.w.Objs = h.objs[0]
		if dir {
			x.toDir()
		}
		x.start()
		var last []req
		for at := range h.objs {
			x.w.Objs = h.objs[at]
			if at > 0 && dir {
				writeFile(x.dir, h.writes[at-1].key, h.writes[at-1].body)
			}
			// all requests when the head moved, and a few states in between
			qs := h.requests(at)
			for i, q := range append(qs, last...) {
				if at > 0 && h.docs[at] == h.docs[at-1] && (i+at)%every != 0 && r.Tier != "thorough" {
					continue
				}
				if status, body, ok := x.ask(q); ok {
					h.judgeAt(x, q, at, at, status, body, fmt.Sprintf(" (after write %d)", at))
				}
			}
			last = qs
			r.State(uint64(at))
		}
		// what it shows is up to date before long
		roots := pki.RootsJSON(std.R2)
		x.w.Objs = maps.Clone(x.w.Objs)
		x.w.Objs["ct/v1/get-roots"] = roots
		if dir {
			writeFile(x.dir, "ct/v1/get-roots", roots)
		}
		x.w.SleepAll(time.Hour)
		for _, q := range []req{asIs("get-sth", func() [][]byte { return h.sths[len(h.sths)-1:] }), asIs("get-roots", func() [][]byte { return [][]byte{roots} })} {
			if status, body, ok := x.ask(q); ok {
				x.judge(q, x.n, x.n, status, body, " (an hour after the last write)")
			}
		}
		x.close()
	}}
}
