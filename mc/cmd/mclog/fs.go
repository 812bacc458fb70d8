package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"itko.dev/internal/ctsubmit"
	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/sim"
)

// ------------------------------------------------------------- one operation

type result struct {
	done bool
	data []byte
	ok   bool
	err  error
}

// area is a storage of either kind and what should be in it.
type area struct {
	r    *explore.Run
	w    *sim.World
	g    *fsGate // nil on S3
	dir  string
	st   ctsubmit.Storage
	n    int
	want map[string][]byte
}

func newArea(r *explore.Run, onDir bool) *area {
	a := &area{r: r, w: sim.New(), want: map[string][]byte{}}
	a.w.Gate = func(*sim.Op) bool { return false }
	if onDir {
		syscall.Umask(022)
		a.dir = filepath.Join(sim.Scratch(), "area")
		os.RemoveAll(a.dir)
		os.MkdirAll(a.dir, 0755)
		a.g = newGate(a.w, a.dir)
		s := ctsubmit.NewFsStorage(a.dir)
		a.st = &s
	} else {
		s := ctsubmit.NewS3Storage("us-east-1", sim.BucketName, "http://"+sim.S3Host, "user", "pass")
		a.st = &s
	}
	r.LogFn = func() []string {
		var out []string
		for _, e := range a.w.Log {
			out = append(out, fmt.Sprintf("%10.3fs %s", e.T.Seconds(), e.What))
		}
		return out
	}
	return a
}

func (a *area) close() {
	a.w.Close()
	if a.g != nil {
		a.g.close()
	}
}

// spawn starts one operation in a process of its own.
func (a *area) spawn(op, key string, data []byte) (*result, *sim.Proc) {
	a.n++
	res := &result{}
	p := a.w.Run(fmt.Sprintf("%s%02d", op, a.n), func() {
		switch op {
		case "set":
			res.err = a.st.Set(context.Background(), key, data)
		case "get":
			res.data, res.err = a.st.Get(context.Background(), key)
		case "exists":
			res.ok, res.err = a.st.Exists(context.Background(), key)
		}
		res.done = true
	})
	a.r.Evals++
	return res, p
}

// run runs one to its end.
func (a *area) run(op, key string, data []byte) *result {
	res, p := a.spawn(op, key, data)
	for i := 0; i < 100 && !p.Dead; i++ {
		a.w.Settle()
		if a.g != nil {
			a.g.drain()
		}
		if !p.Dead {
			a.w.SleepAll(time.Second)
		}
	}
	if strings.HasPrefix(p.Exit, "panic") {
		a.r.Fail("panic: "+op, "%s of %s: %s", op, key, p.Exit)
	}
	return res
}

// same checks that key reads as one of the values (nil: missing).
func (a *area) same(key, when string, vals ...[]byte) {
	g := a.run("get", key, nil)
	e := a.run("exists", key, nil)
	for _, v := range vals {
		if v == nil && g.err != nil && e.err == nil && !e.ok {
			return
		}
		if v != nil && g.err == nil && bytes.Equal(g.data, v) && e.err == nil && e.ok {
			return
		}
	}
	var l []string
	for _, v := range vals {
		l = append(l, short(v))
	}
	a.r.Fail("read-back", "%s reads as %s (%v), exists %v (%v) %s; it should be %s", key, short(g.data), g.err, e.ok, e.err, when, strings.Join(l, " or "))
}

func short(b []byte) string {
	if b == nil {
		return "missing"
	}
	return fmt.Sprintf("%d bytes %.8x", len(b), b)
}

// fill puts a value in place from outside.
func (a *area) fill(key string, v []byte) {
	a.want[key] = v
	if a.g == nil {
		a.w.Put(key, v)
		return
	}
	os.MkdirAll(filepath.Dir(a.dir+"/"+key), 0755)
	if err := os.WriteFile(a.dir+"/"+key, v, 0644); err != nil {
		panic(err)
	}
}

// stored is what is really there.
func (a *area) stored(key string) []byte {
	if a.g == nil {
		if v, ok := a.w.Objs[key]; ok {
			return append([]byte{}, v...)
		}
		return nil
	}
	b, err := os.ReadFile(a.dir + "/" + key)
	if err != nil {
		return nil
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

func blob(n int, tag byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i>>8) ^ byte(i) ^ tag
	}
	return b
}

var keySets = [][]string{
	{"ct/v1/get-sth", "ct/v1/get-roots", "checkpoint"},
	{"tile/0/000", "tile/0/000.p/1", "tile/0/000.p/255"},
	{"tile/data/x001/234", "tile/data/x001/234.p/7", "tile/8/0/000"},
	{"issuer/00ff", "int/hashes/a/b/0", "int/dedupe/a/b/0"},
}

// readable checks that any user may read key, as what serves the directory does.
func (a *area) readable(key string) {
	if a.g == nil {
		return
	}
	for p := a.dir + "/" + key; p != a.dir; p = filepath.Dir(p) {
		i, err := os.Stat(p)
		if err != nil {
			continue
		}
		if need := os.FileMode(0444); i.Mode()&need != need {
			a.r.Fail("not-readable", "after %s was set, %s has mode %v", key, strings.TrimPrefix(p, a.dir), i.Mode())
		}
		if i.IsDir() && i.Mode()&0111 != 0111 {
			a.r.Fail("not-readable", "after %s was set, %s has mode %v", key, strings.TrimPrefix(p, a.dir), i.Mode())
		}
	}
}

// fsSequences: every sequence of writes.
func fsSequences() explore.Scenario {
	return explore.Scenario{Name: "sequences", Bubble: true, Run: func(r *explore.Run) {
		onDir := r.Pick("directory", 2) == 1
		keys := keySets[r.Pick("keys", len(keySets))]
		vals := [][]byte{{}, []byte("x"), blob(70000, 1), blob(69999, 2)}
		first, second := r.Pick("first", len(keys)*len(vals)), r.Pick("second", len(keys)*len(vals))
		deep := 1
		if r.Tier == "thorough" {
			deep = len(keys) * len(vals)
		}
		for third := 0; third < len(keys)*len(vals); third++ {
			for fourth := 0; fourth < deep; fourth++ {
				a := newArea(r, onDir)
				for i, x := range []int{first, second, third, fourth}[:3+min(deep-1, 1)] {
					k, v := keys[x/len(vals)], vals[x%len(vals)]
					in := append([]byte(nil), v...)
					res := a.run("set", k, in)
					if !res.done || res.err != nil {
						r.Fail("set-fails", "set %s to %s (step %d): %v", k, short(v), i, res.err)
					}
					for j := range in {
						in[j] = 0xee // what the caller does with its buffer later
					}
					a.want[k] = v
					if got := a.stored(k); got == nil || !bytes.Equal(got, v) {
						r.Fail("stored", "after %s was set to %s the store has %s", k, short(v), short(got))
					}
					a.readable(k)
				}
				for _, k := range keys {
					a.same(k, "after the writes", a.want[k])
					if g := a.run("get", k, nil); len(g.data) > 0 {
						g.data[0] ^= 0xff // a reader's copy is its own
						a.same(k, "after a reader changed its copy", a.want[k])
					}
				}
				r.State(uint64(first)<<24 | uint64(second)<<16 | uint64(third)<<8 | uint64(fourth))
				a.close()
			}
		}
	}}
}

// fsCrash: a write is killed before each of its steps, or within one.
func fsCrash() explore.Scenario {
	return explore.Scenario{Name: "crash in a write", Bubble: true, Run: func(r *explore.Run) {
		start := r.Pick("before", 4) // nothing, directory, old value, longer old value
		nv := vals3[r.Pick("value", len(vals3))]
		cut := []int{-1, 0, 1, 2, 3}[r.Pick("torn", 5)]
		key := []string{"ct/v1/get-sth", "tile/0/x001/000.p/3"}[r.Pick("key", 2)]
		for at := 0; at < 40; at++ {
			a := newArea(r, true)
			var old []byte
			switch start {
			case 1:
				os.MkdirAll(filepath.Dir(a.dir+"/"+key), 0755)
			case 2:
				old = []byte("old value")
				a.fill(key, old)
			case 3:
				old = blob(90000, 9)
				a.fill(key, old)
			}
			other := filepath.Dir(key) + "/other"
			a.fill(other, []byte("other"))
			hit := false
			a.g.decide = func(n int, o *fsOp) *fsReply {
				if n != at || hit {
					return nil
				}
				hit = true
				k := cut
				if o.op != "write" {
					if cut > 0 {
						return nil
					}
					k = -1
				} else if cut == 2 {
					k = o.n / 2
				} else if cut == 3 {
					k = o.n - 1
				}
				return &fsReply{err: errNet, cut: k, kill: true}
			}
			res := a.run("set", key, nv)
			a.g.decide = nil
			when := fmt.Sprintf("after a set from %s to %s was killed at step %d (torn %d)", short(old), short(nv), at, cut)
			if !hit {
				if res.err != nil {
					r.Fail("set-fails", "set of %s: %v", key, res.err)
				}
				a.same(key, "after it was set", nv)
				a.close()
				break
			}
			if res.done {
				old = nv
			}
			a.same(key, when, old, nv)
			a.same(other, when, []byte("other"))
			again := blob(500, 5)
			if res := a.run("set", key, again); res.err != nil {
				r.Fail("set-after-crash", "set of %s %s: %v", key, when, res.err)
			}
			a.same(key, when+" and it was set again", again)
			r.State(uint64(start)<<24 | uint64(len(nv))<<4 | uint64(at))
			a.close()
		}
	}}
}

var vals3 = [][]byte{{}, []byte("x"), []byte("new value"), blob(100000, 3)}

var errnos = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EMFILE, syscall.EINTR}

// fsErrors: each step of each operation fails.
func fsErrors() explore.Scenario {
	return explore.Scenario{Name: "errors on a directory", Bubble: true, Run: func(r *explore.Run) {
		op := []string{"set", "get", "exists"}[r.Pick("operation", 3)]
		start := r.Pick("before", 3)
		e := errnos[r.Pick("error", len(errnos))]
		stay := r.Pick("for good", 2) == 1
		key := "tile/data/x001/000.p/3"
		for _, nv := range vals3 {
			for at := 0; at < 40; at++ {
				a := newArea(r, true)
				a.g.closes = true
				var old []byte
				if start == 2 {
					old = blob(70000, 8)
					a.fill(key, old)
				} else if start == 1 {
					os.MkdirAll(filepath.Dir(a.dir+"/"+key), 0755)
				}
				hit := ""
				a.g.decide = func(n int, o *fsOp) *fsReply {
					if n != at && !(stay && n > at) {
						return nil
					}
					hit += " " + o.op
					rep := &fsReply{err: &os.PathError{Op: o.op, Path: o.path, Err: e}, cut: -1}
					if o.op == "write" && at%2 == 1 {
						rep.cut = o.n / 2
					}
					return rep
				}
				res := a.run(op, key, nv)
				a.g.decide = nil
				when := fmt.Sprintf("%s with %v at step %d (%s) from %s", op, e, at, hit, short(old))
				if !res.done {
					r.Fail("no-answer", "%s does not return", when)
				}
				switch {
				case op == "set" && res.err == nil:
					a.same(key, "after a successful "+when, nv)
				case op == "set":
					a.same(key, "after a failed "+when, old, nv)
				case op == "get" && res.err == nil && (old == nil || !bytes.Equal(res.data, old)):
					r.Fail("get-wrong", "%s: %s", when, short(res.data))
				case op == "exists" && res.err == nil && res.ok != (old != nil):
					r.Fail("exists-wrong", "%s: %v", when, res.ok)
				}
				if op != "set" {
					a.same(key, "after "+when, old)
				}
				if res := a.run("set", key, []byte("later")); res.err != nil {
					r.Fail("set-later", "set after %s: %v", when, res.err)
				}
				a.same(key, "when set after "+when, []byte("later"))
				r.Outcome(fmt.Sprint(op, start, hit, res.err == nil))
				r.State(uint64(start)<<24 | uint64(len(nv))<<8 | uint64(at)<<1 | 1)
				a.close()
				if hit == "" {
					break
				}
			}
			if op != "set" {
				break
			}
		}
	}}
}

// fsConcurrent: every interleaving of the steps of operations at one time.
func fsConcurrent() explore.Scenario {
	type do struct {
		op, key string
		v       []byte
	}
	k, l := "tile/0/x001/000.p/3", "tile/0/x001/000.p/4"
	va, vb := blob(50000, 1), blob(300, 2)
	progs := [][]do{
		{{"set", k, va}, {"set", l, vb}},
		{{"set", k, va}, {"set", k, va}},
		{{"set", k, va}, {"set", k, vb}},
		{{"set", k, va}, {"get", k, nil}},
		{{"set", k, vb}, {"exists", k, nil}},
		{{"set", k, va}, {"get", l, nil}},
		{{"set", k, vb}, {"set", "tile/0/x002/000", va}},
		{{"set", "checkpoint", va}, {"get", "checkpoint", nil}},
	}
	return explore.Scenario{Name: "at one time", Bubble: true, Bound: 2, Deep: 1000, Run: func(r *explore.Run) {
		prog := progs[r.Pick("program", len(progs))]
		start := r.Pick("before", 3) // nothing, directories, old values
		a := newArea(r, true)
		defer a.close()
		old := map[string][]byte{}
		for _, d := range prog {
			if start > 0 {
				os.MkdirAll(filepath.Dir(a.dir+"/"+d.key), 0755)
			}
			if start == 2 {
				old[d.key] = blob(60000, 7)
				a.fill(d.key, old[d.key])
			}
		}
		var rs []*result
		for _, d := range prog {
			res, _ := a.spawn(d.op, d.key, d.v)
			rs = append(rs, res)
		}
		a.w.Settle()
		last := ""
		for n := 0; n < 200; n++ {
			ops := a.g.waiting()
			if len(ops) == 0 {
				break
			}
			// going on with the same one is free; a switch costs
			sort.SliceStable(ops, func(i, j int) bool { return ops[i].proc.Label == last && ops[j].proc.Label != last })
			names := make([]string, len(ops))
			cost := make([]int, len(ops))
			for i, o := range ops {
				names[i] = o.proc.Label + " " + o.op
				if i > 0 && o.proc.Label != last && ops[0].proc.Label == last {
					cost[i] = 1
				}
			}
			o := ops[r.Choose("next", names, cost)]
			last = o.proc.Label
			a.g.release(o)
		}
		a.w.Settle()
		ends := map[string][][]byte{}
		for i, d := range prog {
			res := rs[i]
			what := fmt.Sprintf("%s %s together with %s %s (before: %d)", d.op, d.key, prog[1-i].op, prog[1-i].key, start)
			vals := [][]byte{old[d.key]}
			for _, o := range prog {
				if o.op == "set" && o.key == d.key {
					vals = append(vals, o.v)
				}
			}
			if !res.done {
				r.Fail("no-answer", "%s does not return", what)
				return
			}
			in := false
			for _, v := range vals {
				switch d.op {
				case "get":
					in = in || v == nil && res.err != nil || v != nil && res.err == nil && bytes.Equal(v, res.data)
				case "exists":
					in = in || res.err == nil && res.ok == (v != nil)
				case "set":
					in = res.err == nil
				}
			}
			if !in {
				r.Fail("together: "+d.op, "%s: %s, %v, %v", what, short(res.data), res.ok, res.err)
			}
			if d.op == "set" {
				ends[d.key] = vals[1:]
			} else if ends[d.key] == nil {
				ends[d.key] = vals
			}
		}
		for k, v := range ends {
			a.same(k, "after operations at one time", v...)
		}
		r.Outcome(fmt.Sprint(start, rs[0].err == nil, rs[1].err == nil, len(rs[1].data)))
		r.State(a.w.Sum ^ uint64(len(r.Notes)))
	}}
}

// s3Errors: each answer the object store may give.
func s3Errors() explore.Scenario {
	return explore.Scenario{Name: "errors on S3", Bubble: true, Run: func(r *explore.Run) {
		op := []string{"set", "get", "exists"}[r.Pick("operation", 3)]
		old := [][]byte{nil, []byte("old value")}[r.Pick("before", 2)]
		applied := r.Pick("applied", 2) == 1
		times := []int{1, 2, 1000}[r.Pick("times", 3)]
		answers := []sim.Answer{{Status: 403}, {Status: 404}, {Status: 500}, {Status: 503}, {Status: 429}, {Status: 301}, {Status: 400}, {Status: 412}, {Status: 502}, {Status: 504},
			{Err: errNet}, {Err: context.DeadlineExceeded}, {Status: 200, Body: []byte("old"), Cut: true}, {Status: 200, Body: []byte{}, Cut: true}, {Status: 304}, {Status: 401}, {Status: 405}, {Status: 410}}
		for i, ans := range answers {
			a := newArea(r, false)
			key := "tile/0/x001/000.p/3"
			if old != nil {
				a.fill(key, old)
			}
			left := times
			hits := 0
			a.w.Answer = func(o *sim.Op) *sim.Answer {
				if left == 0 || !strings.HasPrefix(o.Proc.Label, op) {
					return nil
				}
				left--
				hits++
				if o.Put() && applied {
					a.w.Put(o.Key, o.Body)
				}
				x := ans
				return &x
			}
			res := a.run(op, key, []byte("new value"))
			a.w.Answer = nil
			name := http.StatusText(ans.Status)
			if ans.Err != nil {
				name = ans.Err.Error()
			} else if ans.Cut {
				name = "cut short"
			}
			what := fmt.Sprintf("%s of %s (%s) answered %q %d times", op, key, short(old), name, times)
			if hits == 0 {
				r.Fail("no-request", "%s of %s makes no request", op, key)
			}
			if !res.done {
				r.Fail("no-answer", "%s does not return", what)
			}
			overcome := hits > times || times < 1000 // a retry may have got through
			missing := ans.Status == 404 && ans.Err == nil
			whole := ans.Status == 200 && (op == "exists" || op == "set")
			switch op {
			case "set":
				if res.err == nil && !bytes.Equal(a.stored(key), []byte("new value")) && !whole {
					r.Fail("set-lost", "%s: success, but the store has %s", what, short(a.stored(key)))
				}
				if res.err == nil && !overcome && !whole {
					r.Fail("set-error-lost", "%s: success", what)
				}
			case "get":
				if res.err == nil && (old == nil || !bytes.Equal(res.data, old)) {
					r.Fail("get-wrong", "%s: %s", what, short(res.data))
				}
			case "exists":
				if res.err == nil && res.ok != (old != nil) && !(missing && !res.ok) && !(whole && res.ok) {
					r.Fail("exists-wrong", "%s: %v", what, res.ok)
				}
				if res.err == nil && !overcome && !missing && !whole {
					r.Fail("exists-error-lost", "%s: %v", what, res.ok)
				}
			}
			r.Outcome(fmt.Sprint(op, i, old != nil, times, res.err == nil))
			r.State(uint64(i)<<8 | uint64(times)<<1 | uint64(len(old)))
			a.close()
		}
	}}
}

// -------------------------------------------------------- a log on a directory

// fsLog runs the real log on a directory and kills it, or makes a file
// operation fail, at each step.
func fsLog(name string, n0 int, kinds int, tier string) explore.Scenario {
	return explore.Scenario{Name: name, Only: tier, Bubble: true, Run: func(r *explore.Run) {
		kind := r.Pick("failure", kinds) // killed; killed within a write; EIO once; ENOSPC within a write; EIO for good
		hundreds := r.Pick("hundred", 8)
		tens := r.Pick("part", 10)
		step := 1
		for at := hundreds*100 + tens*10; at < hundreds*100+tens*10+10; at += step {
			if !fsLogRun(r, n0, kind, at) {
				break
			}
		}
	}}
}

func fsLogRun(r *explore.Run, n0, kind, at int) bool {
	dir := filepath.Join(sim.Scratch(), "log")
	os.RemoveAll(dir)
	w := sim.New()
	c := sim.DefaultConf(std)
	c.FlushMs, c.Root, c.Mask = 500, dir, 1
	st := filler(n0)
	w.Install(c, st, n0)
	for k, b := range w.Objs {
		os.MkdirAll(filepath.Dir(dir+"/"+k), 0755)
		if err := os.WriteFile(dir+"/"+k, b, 0644); err != nil {
			panic(err)
		}
	}
	d := &Driver{Audit: NewAudit(w, r, c, st, n0, "tree", "head", "append", "dense", "sct", "dedupe", "index", "time", "live"), plan: &Plan{}, extra: map[string]any{}}
	d.fs = newGate(w, dir)
	defer d.fs.close()
	defer w.Close()
	d.sync = func() { loadDir(w, dir, true) }
	r.LogFn = func() []string {
		var out []string
		for _, e := range w.Log {
			out = append(out, fmt.Sprintf("%10.3fs %s", e.T.Seconds(), e.What))
		}
		return out
	}
	w.Gate = func(*sim.Op) bool { return false }
	hit, on := false, true
	d.fs.decide = func(n int, o *fsOp) *fsReply {
		if !on || n < at || n > at && (kind != 4 || o.proc.Label != "A") {
			return nil
		}
		torn := kind == 1 || kind == 3
		if torn && (o.op != "write" || o.n < 2) || hit && kind != 4 {
			return nil
		}
		hit = true
		if strings.HasPrefix(o.path, dir+"/int/dedupe/") && kind >= 2 {
			d.dedupeFaulty = true
		}
		switch kind {
		case 0:
			return &fsReply{cut: -1, kill: true}
		case 1:
			return &fsReply{cut: o.n / 2, kill: true}
		case 3:
			return &fsReply{cut: o.n / 2, err: &os.PathError{Op: o.op, Path: o.path, Err: syscall.ENOSPC}}
		}
		return &fsReply{cut: -1, err: &os.PathError{Op: o.op, Path: o.path, Err: syscall.EIO}}
	}
	d.live = d.start()
	up := func() bool { return d.live.Up }
	send := func(l ...*pki.Sub) {
		if !d.live.Up {
			d.flow(100*time.Second, up)
		}
		for _, s := range l {
			d.submit(s)
		}
		d.flow(12*time.Second, func() bool { return d.pending() == 0 })
	}
	d.flow(100*time.Second, up)
	send(certs(0, 1)...)
	send(certs(0, 2)...)
	over := d.fs.n
	on = false
	send(certs(3)...)
	d.flow(100*time.Second, up)
	if !d.live.Up {
		r.Fail("no-recovery", "after failure %d at step %d a log on a directory of %d entries does not come up again: %s", kind, at, n0, d.live.Exit)
		return false
	}
	n := len(d.reqs)
	for _, s := range certs(0, 1, 2, 4) {
		d.submit(s)
	}
	d.flow(20*time.Second, func() bool { return d.pending() == 0 })
	for _, x := range d.reqs[n:] {
		if x.q.Status != 200 {
			r.Fail("not-accepted", "after failure %d at step %d a log on a directory answers %s with %d %q", kind, at, x.q.Name, x.q.Status, x.q.Body)
		}
	}
	d.Audit.Final()
	r.Evals++
	r.State(w.Sum)
	r.Outcome(fmt.Sprint(kind, d.sth.Size, d.procs))
	return at <= over
}

var _ = errors.Is
