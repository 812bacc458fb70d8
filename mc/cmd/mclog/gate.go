package main

import (
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"

	"itko.dev/mcheck/sim"
)

// C12: the storage backends.  Every file system call of the code under test
// stops at a gate; the explorer decides which goes on, fails, or is the last.

type fsReply struct {
	err  error
	cut  int // write this much only; -1: all
	kill bool
}

type fsOp struct {
	proc     *sim.Proc
	op, path string
	n        int // bytes to write
	ch       chan fsReply
}

func (o *fsOp) mutates() bool { return o.op != "read" && o.op != "stat" && o.op != "open-read" }

type fsGate struct {
	w      *sim.World
	dir    string
	mu     sync.Mutex
	parked []*fsOp
	n      int // operations released
	decide func(n int, o *fsOp) *fsReply
	cutBy  map[*sim.Proc]bool
	closes bool            // a close of what was written stops at the gate too
	dirty  map[string]bool // open for writing
}

func newGate(w *sim.World, dir string) *fsGate {
	g := &fsGate{w: w, dir: dir, cutBy: map[*sim.Proc]bool{}, dirty: map[string]bool{}}
	pass := func(op, path string, n int) (fsReply, *sim.Proc) {
		if path != dir && !strings.HasPrefix(path, dir+"/") {
			return fsReply{cut: -1}, nil
		}
		p := w.Self()
		if p == nil {
			return fsReply{cut: -1}, nil
		}
		if p.Dead {
			runtime.Goexit()
		}
		o := &fsOp{p, op, path, n, make(chan fsReply, 1)}
		g.mu.Lock()
		g.parked = append(g.parked, o)
		g.mu.Unlock()
		w.Poke()
		select {
		case r := <-o.ch:
			if r.kill && r.cut < 0 {
				w.Kill(p, "killed")
			}
			if p.Dead && !(r.kill && r.cut >= 0) {
				runtime.Goexit()
			}
			return r, p
		case <-p.Ended():
			runtime.Goexit()
		}
		panic("unreachable")
	}
	os.VerifFS = func(op, path string, flag int) error {
		if op == "open" && flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) == 0 {
			op = "open-read"
		}
		r, _ := pass(op, path, 0)
		if op == "open" && r.err == nil && g.closes {
			g.mu.Lock()
			g.dirty[path] = true
			g.mu.Unlock()
		}
		return r.err
	}
	os.VerifFSClose = func(path string) error {
		g.mu.Lock()
		k := g.closes && g.dirty[path]
		delete(g.dirty, path)
		g.mu.Unlock()
		if !k {
			return nil
		}
		r, _ := pass("close", path, 0)
		if r.err != nil { // what was written last is lost
			if i, err := os.Lstat(path); err == nil {
				syscall.Truncate(path, i.Size()/2)
			}
		}
		return r.err
	}
	os.VerifFSWrite = func(path string, n int) (int, error) {
		r, p := pass("write", path, n)
		if r.kill && r.cut >= 0 {
			g.mu.Lock()
			g.cutBy[p] = true
			g.mu.Unlock()
			if r.cut >= n {
				r.cut = n - 1
			}
			if r.cut <= 0 {
				w.Kill(p, "killed")
				runtime.Goexit()
			}
		}
		return r.cut, r.err
	}
	os.VerifFSTorn = func(path string) {
		p := w.Self()
		g.mu.Lock()
		k := g.cutBy[p]
		g.mu.Unlock()
		if k {
			w.Kill(p, "killed")
			runtime.Goexit()
		}
	}
	return g
}

func (g *fsGate) close() {
	os.VerifFS, os.VerifFSWrite, os.VerifFSTorn, os.VerifFSClose = nil, nil, nil, nil
}

// waiting lists what is parked, in a canonical order.
func (g *fsGate) waiting() []*fsOp {
	g.mu.Lock()
	defer g.mu.Unlock()
	var l []*fsOp
	for _, o := range g.parked {
		if !o.proc.Dead {
			l = append(l, o)
		}
	}
	g.parked = l
	out := append([]*fsOp(nil), l...)
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.proc.Label != b.proc.Label {
			return a.proc.Label < b.proc.Label
		}
		if a.path != b.path {
			return a.path < b.path
		}
		return a.op < b.op
	})
	return out
}

func (g *fsGate) release(o *fsOp) {
	g.mu.Lock()
	for i, x := range g.parked {
		if x == o {
			g.parked = append(g.parked[:i:i], g.parked[i+1:]...)
			break
		}
	}
	g.mu.Unlock()
	r := fsReply{cut: -1}
	if g.decide != nil {
		if x := g.decide(g.n, o); x != nil {
			r = *x
			o.proc.Excuse = "file system"
			g.w.Logf("%s: %s %s gets %+v", o.proc.Label, o.op, strings.TrimPrefix(o.path, g.dir), r)
		}
	}
	g.n++
	o.ch <- r
	g.w.Settle()
}

// step lets the first one go.
func (g *fsGate) step() bool {
	l := g.waiting()
	if len(l) == 0 {
		return false
	}
	g.release(l[0])
	return true
}

// drain lets everything go.
func (g *fsGate) drain() {
	g.w.Settle()
	for i := 0; i < 10000 && g.step(); i++ {
	}
}
