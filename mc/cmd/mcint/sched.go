package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"sync"
	"verifpoint"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/sim"
)

// The code under test is a copy with a scheduling point before every
// statement.  A party is a request (or the rest of a process); the first of its
// goroutines that is about to execute the given statement for the given time
// stops there until it is let go.

type point struct{ site, hit int }

func (p point) String() string {
	if p.site < len(sites) {
		return fmt.Sprintf("%s (time %d)", sites[p.site], p.hit)
	}
	return fmt.Sprintf("statement %d (time %d)", p.site, p.hit)
}

var sites []string

func init() {
	if exe, err := os.Executable(); err == nil {
		if b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "ins", "sites.json")); err == nil {
			json.Unmarshal(b, &sites)
		}
	}
}

type party struct {
	hits   map[int]int
	order  []point
	stop   point
	cold   int // stop at the so many-th statement that writes to shared memory
	go_    chan struct{}
	parked bool
	proc   *sim.Proc
	acc    []touch // what it is about to touch where it is parked
	keep   any     // so that that is not used for anything else meanwhile
}

// A touch is memory that a statement reads or writes.
type touch struct {
	lo, hi uintptr
	write  bool
}

// touches evaluates the places that a statement touches.
func touches(n int, writes uint64, acc func(int) (uintptr, uintptr), onlyWrites bool) (l []touch) {
	one := func(i int) (t touch) {
		defer func() { recover() }() // the statement itself will do what that does
		lo, hi := acc(i)
		return touch{lo, hi, writes>>i&1 == 1}
	}
	for i := 0; i < n; i++ {
		if onlyWrites && writes>>i&1 == 0 {
			continue
		}
		if t := one(i); t.lo < t.hi {
			l = append(l, t)
		}
	}
	return l
}

// conflicts: a goroutine of the same process is about to execute a statement (or
// has just executed one) that touches what this one touches, and one of them
// writes: nothing orders the two.
func (s *sched) conflicts(site, n int, writes uint64, acc func(int) (uintptr, uintptr)) {
	var l []touch
	done := false
	for _, p := range s.about {
		if !p.parked || len(p.acc) == 0 {
			continue
		}
		if q := world.Self(); q == nil || q != p.proc || q.Dead {
			continue
		}
		if !done {
			l, done = touches(n, writes, acc, false), true
		}
		for _, a := range l {
			for _, b := range p.acc {
				if (a.write || b.write) && a.lo < b.hi && b.lo < a.hi {
					what := func(w bool) string {
						if w {
							return "write"
						}
						return "read"
					}
					if len(s.races) < 8 {
						s.races = append(s.races, sites[p.stop.site]+" "+sites[site],
							fmt.Sprintf("a goroutine at %s is about to %s (or has just written) memory that another of the same process, at %s, is about to %s (or has just written), and nothing orders them", p.stop, what(b.write), sites[site], what(a.write)))
					}
					return
				}
			}
		}
	}
}

type sched struct {
	r       *explore.Run
	mu      sync.Mutex
	parties map[string]*party
	rest    *party // goroutines that serve no marked request
	about   []*party
	races   []string
}

var cur *sched

func newSched(r *explore.Run) *sched {
	cur = &sched{r: r, parties: map[string]*party{}}
	return cur
}

func (s *sched) end() {
	s.mu.Lock()
	for _, p := range s.parties {
		p.free()
	}
	if s.rest != nil {
		s.rest.free()
	}
	races := s.races
	s.races, s.about = nil, nil
	s.mu.Unlock()
	for i := 0; i+1 < len(races); i += 2 {
		s.r.Fail("race: "+races[i], "%s", races[i+1])
	}
	if cur == s {
		cur = nil
	}
}

func newParty(stop point) *party {
	return &party{hits: map[int]int{}, stop: stop, go_: make(chan struct{})}
}

// party is a request by its mark; a zero stop never stops.
func (s *sched) party(mark string, stop point) *party {
	p := newParty(stop)
	s.mu.Lock()
	s.parties[mark] = p
	s.mu.Unlock()
	return p
}

func (p *party) free() {
	p.stop, p.cold = point{}, 0
	if p.parked {
		p.parked, p.acc, p.keep = false, nil, nil
		close(p.go_)
	}
}

func (s *sched) stopped(p *party) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return p.parked
}

func (s *sched) free(p *party) {
	s.mu.Lock()
	p.free()
	s.mu.Unlock()
}

// hitsKept is how often a statement is a point of its own.
const hitsKept = 8

func init() {
	verifpoint.Hook = func(site, n int, writes uint64, acc func(int) (uintptr, uintptr)) {
		s := cur
		if s == nil {
			return
		}
		s.mu.Lock()
		if n > 0 && len(s.about) > 0 && world != nil {
			s.conflicts(site, n, writes, acc)
		}
		p := s.rest
		if mark := pprof.VerifLabel("mark"); mark != "" {
			p = s.parties[mark]
		} else if p != nil && pprof.VerifLabel("proc") == "" {
			p = nil
		}
		if p == nil {
			s.mu.Unlock()
			return
		}
		p.hits[site]++
		at := point{site, p.hits[site]}
		if at.hit <= hitsKept {
			p.order = append(p.order, at)
		}
		if p.cold > 0 && n > 0 && at.hit == 1 && len(touches(n, writes, acc, true)) > 0 {
			if p.cold--; p.cold == 0 {
				p.stop = at
			}
		}
		if at != p.stop {
			s.mu.Unlock()
			return
		}
		p.parked = true
		if n > 0 && world != nil {
			p.proc, p.acc = world.Self(), touches(n, writes, acc, false)
			p.keep = acc
			s.about = append(s.about, p)
		}
		ch := p.go_
		s.mu.Unlock()
		<-ch
		if w := world; w != nil {
			if q := w.Self(); q != nil && q.Dead {
				runtime.Goexit()
			}
		}
	}
	http.VerifServe = func(req *http.Request) {
		if m := req.Header.Get(sim.MarkHeader); m != "" {
			pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("proc", pprof.VerifLabel("proc"), "mark", m)))
		}
	}
}

var world *sim.World

// points lists what a party came by, each statement its first few times.
func (p *party) points(hits int) []point {
	var l []point
	for _, x := range p.order {
		if x.hit <= hits {
			l = append(l, x)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].site != l[j].site {
			return l[i].site < l[j].site
		}
		return l[i].hit < l[j].hit
	})
	return l
}
