package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"strings"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

// Std is the certificate hierarchy, made once per process.
var std = pki.NewStd()

// A Step is one event of a scenario's environment script.
type Step struct {
	After time.Duration // since the previous step
	Sub   []*pki.Sub    // submit these (at once)
	Name  string
	Do    func(d *Driver) // anything else
}

// Dev are the deviations a scenario explores.
type Dev struct {
	Reorder   bool          // complete store operations in another order
	Delay     bool          // a store operation takes seconds while everything else goes on
	Fail      bool          // a store operation fails (a PUT may still have been applied)
	FailReads bool          // also reads
	Crash     bool          // the process is killed; any subset of its PUTs in flight lands
	Early     bool          // the next step of the script happens now
	Stall     time.Duration // time passes while operations are in flight
	Interrupt bool
	Expire    bool // the Consul session is invalidated
	Break     bool // Consul becomes unreachable for the process
	Silence   bool // Consul stops answering the process
	HangUp    bool // the client of the oldest open request goes away
	Hold      bool // store operations are outstanding when the process exits: fate explored
}

type Plan struct {
	N0        int   // entries published before
	Sizes     []int // earlier published sizes whose partial tiles remain
	Conf      func(*sim.Conf)
	Script    []Step
	Dev       Dev
	Monitors  []string
	MaxSteps  int
	NoEpilog  bool
	NoRestart bool
	Standby   bool            // a second process waits for the lock
	Holds     []time.Duration // how long slow operations take (default: hold)
	Lag       time.Duration   // the first process hears about its lock this late
	Deaf      bool            // PUTs get no answer until Hear is called
	Settle    time.Duration   // observed after the script
	Check     func(d *Driver) // at every quiescent point
	End       func(d *Driver)
	Window    func(d *Driver) bool // deviations are only offered while it holds
	Prep      func(d *Driver)
	Orphans   func(d *Driver)       // extra objects in the store at the start
	Inline    func(op *sim.Op) bool // operations that are not worth a scheduling point
}

type Driver struct {
	*Audit
	plan    *Plan
	live    *sim.Proc // current log process
	procs   int
	reqs    []*sub
	next    int
	due     time.Time
	devs    int
	steps   int
	end     bool
	lag     time.Duration
	cut     bool // from Consul
	deaf    bool
	stalled time.Duration         // how long answers were held back by choice
	held    map[*sim.Op]time.Time // operations that take long, and until when
	extra   map[string]any
	fs      *fsGate // what takes the place of the store's operations on a directory
	sync    func()  // brings the world's store up to date with a directory
}

type sub struct {
	q       *sim.Req
	s       *pki.Sub
	seen    bool
	sct     *SCT
	stalled time.Duration // stalls until it was sent
}

var fillers = map[int]*ref.State{}

// filler returns a synthetic log of at least n entries.
func filler(n int) *ref.State {
	if s, ok := fillers[n]; ok {
		return s
	}
	ts := uint64(pki.Epoch.UnixMilli()) - 5000
	s := ref.NewState()
	if n > 100000 {
		s = ref.Large(n, ts, []int{0}, std.I1.DER, std.R1.DER)
	} else {
		s.Filler(n, ts, std.I1.DER, std.R1.DER)
	}
	fillers[n] = s
	return s
}

func (d *Driver) start() *sim.Proc {
	d.procs++
	p := d.w.StartLog(string(rune('A'+d.procs-1)), d.conf.KV)
	if d.procs == 1 && d.lag > 0 {
		d.w.Consul.Lag[p] = d.lag
	}
	return p
}

func endpoint(s *pki.Sub) string {
	if s.Precert {
		return "/ct/v1/add-pre-chain"
	}
	return "/ct/v1/add-chain"
}

func (d *Driver) submit(s *pki.Sub) *sub {
	d.expect(s)
	q := d.w.Do(d.live, s.Name, "POST", endpoint(s), s.Body())
	x := &sub{q: q, s: s, stalled: d.stalled}
	d.reqs = append(d.reqs, x)
	return x
}

// collect checks the answers that came in.
func (d *Driver) collect() {
	for _, x := range d.reqs {
		if x.seen || !x.q.Done {
			continue
		}
		x.seen = true
		if x.q.Status == 200 {
			if x.q.Proc.Dead && !x.q.At.Before(x.q.Proc.DiedAt) {
				continue // written by a goroutine of a process that is gone
			}
			x.sct = d.answer(x.q, x.s)
		} else if x.q.Status == 0 && !x.q.Hung && (!x.q.Proc.Dead || x.q.At.Before(x.q.Proc.DiedAt)) {
			d.fail("live", "connection-broken", "the connection of %s breaks: %v", x.q.Name, x.q.Err)
		} else if x.q.Status != 0 && x.q.Status != 503 {
			d.fail("status", "status", "answer to %s: %d %q", x.q.Name, x.q.Status, x.q.Body)
		}
	}
}

func (d *Driver) pending() int {
	n := 0
	for _, x := range d.reqs {
		if !x.q.Done {
			n++
		}
	}
	return n
}

func (d *Driver) state() {
	h := fnv.New64a()
	var b [8]byte
	add := func(v uint64) { binary.LittleEndian.PutUint64(b[:], v); h.Write(b[:]) }
	add(d.w.Sum)
	for _, o := range d.w.Parked() {
		h.Write([]byte(o.String()))
	}
	for _, p := range d.w.Procs {
		fmt.Fprint(h, p.Label, p.Up, p.Dead)
	}
	for _, x := range d.reqs {
		fmt.Fprint(h, x.q.Done, x.q.Status)
	}
	add(uint64(d.next))
	d.r.State(h.Sum64())
}

// landing lets the explorer decide which PUTs in flight of dead processes land.
func (d *Driver) landing() {
	var dead []*sim.Op
	for _, o := range d.w.Parked() {
		if o.Proc.Dead {
			dead = append(dead, o)
		}
	}
	var puts []*sim.Op
	for _, o := range dead {
		if o.Put() && d.plan.Dev.Hold {
			puts = append(puts, o)
		}
	}
	if len(puts) > 0 {
		sets := subsets(len(puts))
		names := make([]string, len(sets))
		for i, s := range sets {
			names[i] = "none lands"
			if len(s) > 0 {
				var l []string
				for _, k := range s {
					l = append(l, puts[k].Key)
				}
				names[i] = "lands: " + strings.Join(l, " ")
			}
		}
		cost := make([]int, len(sets))
		for i := range cost {
			if i > 0 && d.plan.Dev.Fail {
				cost[i] = 1
			}
		}
		for _, k := range sets[d.r.Choose("in flight", names, cost)] {
			d.w.Finish(puts[k], true)
		}
	}
	for _, o := range dead {
		d.w.Finish(o, false)
	}
	for _, o := range append([]*sim.Op(nil), d.w.Gone...) {
		land := 0
		if d.plan.Dev.Fail || d.plan.Dev.Hold {
			land = d.r.Choose("abandoned "+o.String(), []string{"dropped", "landed"}, nil)
		}
		d.w.Finish(o, land == 1)
	}
}

// subsets lists all subsets of 0..n-1 for small n; for larger n: none, all,
// singletons and all but one.
func subsets(n int) [][]int {
	var out [][]int
	if n <= 4 {
		for m := 0; m < 1<<n; m++ {
			var s []int
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					s = append(s, i)
				}
			}
			out = append(out, s)
		}
		return out
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	out = append(out, nil, all)
	for i := range all {
		out = append(out, []int{i})
		out = append(out, append(append([]int(nil), all[:i]...), all[i+1:]...))
	}
	return out
}

func (d *Driver) lockCheck() {
	h := d.w.Consul.Holder(d.conf.KV + "/lock")
	if d.lag > 0 {
		return
	}
	for _, p := range d.w.Procs {
		if p.Monitor || p.Dead || p == h {
			continue
		}
		if p.Puts > 0 {
			d.fail("lock", "alive-without-lock", "%s has written to the store, does not hold the lock, and is still running", p.Label)
		}
	}
}

func (d *Driver) supervise() {
	if d.live != nil && !d.live.Dead {
		if d.plan.Standby && d.live.Up && d.procs == 1 {
			d.start()
		}
		return
	}
	if d.plan.NoRestart && d.live != nil {
		return
	}
	for _, p := range d.w.Procs {
		if !p.Monitor && !p.Dead {
			d.live = p
			return
		}
	}
	if d.procs < 8 {
		d.live = d.start()
	}
}

func (d *Driver) step() {
	s := d.plan.Script[d.next]
	d.next++
	d.due = time.Now()
	if d.next < len(d.plan.Script) {
		d.due = d.due.Add(d.plan.Script[d.next].After)
	}
	for _, x := range s.Sub {
		d.submit(x)
	}
	if s.Do != nil {
		d.w.Logf("step: %s", s.Name)
		s.Do(d)
	}
}

type option struct {
	name string
	do   func()
}

func (d *Driver) devOptions(ops []*sim.Op) []option {
	v := d.plan.Dev
	var out []option
	if d.plan.Window != nil && !d.plan.Window(d) {
		return nil
	}
	// Which operation takes long only matters when its turn has come.
	if v.Delay && len(ops) > 0 && d.live != nil && d.live.Up {
		if o := ops[0]; d.held[o].IsZero() {
			for _, h := range d.plan.holds() {
				out = append(out, option{fmt.Sprintf("slow (%v) %s", h, o), func() { d.held[o] = time.Now().Add(h) }})
			}
		}
	}
	if v.Reorder {
		for i := 1; i < len(ops); i++ {
			o := ops[i]
			out = append(out, option{"first " + o.String(), func() { d.w.Release(o) }})
		}
	}
	if v.Fail {
		seen := map[string]bool{}
		for _, o := range ops {
			o := o
			if seen[o.String()] {
				continue
			}
			seen[o.String()] = true
			if o.Put() {
				out = append(out, option{"fails " + o.String(), func() { d.w.Fail(o, false) }},
					option{"fails but lands " + o.String(), func() { d.w.Fail(o, true) }})
			} else if v.FailReads || d.live.Up {
				out = append(out, option{"fails " + o.String(), func() {
					if strings.HasPrefix(o.Key, "int/dedupe/") {
						d.dedupeFaulty = true
					}
					d.w.Fail(o, false)
				}})
			}
		}
	}
	if v.Early && d.next < len(d.plan.Script) && len(ops) > 0 && d.live.Up {
		out = append(out, option{"step now", d.step})
	}
	if v.Stall > 0 && len(ops) > 0 {
		out = append(out, option{"stall", func() { d.stalled += v.Stall; d.w.SleepAll(v.Stall) }})
	}
	if v.HangUp {
		for _, x := range d.reqs {
			if x := x; !x.q.Done && !x.q.Hung {
				out = append(out, option{"client of " + x.q.Name + " goes away", func() { x.q.HangUp() }})
				break
			}
		}
	}
	if d.live != nil && !d.live.Dead {
		p := d.live
		if v.Crash {
			out = append(out, option{"crash " + p.Label, func() { d.w.Kill(p, "killed") }})
		}
		if v.Interrupt {
			out = append(out, option{"interrupt " + p.Label, func() { d.w.Interrupt(p) }})
		}
		if v.Expire {
			out = append(out, option{"session lost " + p.Label, func() { d.w.Consul.Expire(p) }})
		}
		if v.Break {
			out = append(out, option{"consul unreachable " + p.Label, func() { d.cut = true; d.w.Consul.Break(p) }})
		}
		if v.Silence {
			out = append(out, option{"consul silent " + p.Label, func() { d.cut = true; d.w.Consul.Silence(p, true) }})
			out = append(out, option{"consul watch dead, session lost " + p.Label, func() {
				d.cut = true
				d.lag = max(d.lag, 12*time.Second)
				d.w.Consul.Silence(p, false)
				d.w.Consul.Expire(p)
			}})
		}
	}
	return out
}

// ready are the pending operations that may be answered now.
func (d *Driver) ready() []*sim.Op {
	var out []*sim.Op
	for _, o := range d.w.Parked() {
		if _, slow := d.held[o]; !slow && !(d.deaf && o.Put()) {
			out = append(out, o)
		}
	}
	return out
}

// hold is how long a slow operation takes at most.
const hold = 3 * time.Second

func (p *Plan) holds() []time.Duration {
	if p.Holds == nil {
		return []time.Duration{hold}
	}
	return p.Holds
}

// wait passes time while only slow operations are pending: until something
// else happens, the next step of the script is due, or the first of them is done.
func (d *Driver) wait() bool {
	var first *sim.Op
	for _, o := range d.w.Parked() {
		if at, ok := d.held[o]; ok && (first == nil || at.Before(d.held[first])) {
			first = o
		}
	}
	if first == nil {
		return false
	}
	left := time.Until(d.held[first])
	if d.next < len(d.plan.Script) && d.live.Up {
		left = min(left, time.Until(d.due))
	}
	if left > 0 {
		d.w.Sleep(left)
	} else if !time.Now().Before(d.held[first]) {
		delete(d.held, first)
		d.w.Release(first)
	} else {
		return false // a step is due
	}
	return true
}

func (d *Driver) observe() {
	if d.sync != nil {
		d.sync()
	}
	d.collect()
	d.lockCheck()
	if d.on["live"] {
		for _, x := range d.reqs {
			if !x.q.Done && !x.q.Proc.Dead && time.Since(x.q.Sent)-(d.stalled-x.stalled) > 30*time.Second {
				d.fail("live", "unanswered", "%s has not been answered for %v", x.q.Name, time.Since(x.q.Sent))
			}
		}
	}
	for _, p := range d.w.Procs {
		if p.Dead && p.Excuse == "" && p.Exit != "killed" {
			d.fail("live", "ended", "%s ends by itself, although the store and Consul did all it asked for: %s", p.Label, p.Exit)
		}
	}
	if d.plan.Check != nil {
		d.plan.Check(d)
	}
	d.state()
}

func runPlan(r *explore.Run, plan *Plan) {
	time.Sleep(1678600 * time.Microsecond) // no round time, so that rounding shows
	w := sim.New()
	conf := sim.DefaultConf(std)
	if plan.Conf != nil {
		plan.Conf(conf)
	}
	st := filler(plan.N0)
	w.Install(conf, st, plan.N0, plan.Sizes...)
	d := &Driver{Audit: NewAudit(w, r, conf, st, plan.N0, plan.Monitors...), plan: plan, lag: plan.Lag, deaf: plan.Deaf, held: map[*sim.Op]time.Time{}, extra: map[string]any{}}
	if plan.Orphans != nil {
		plan.Orphans(d)
	}
	r.LogFn = func() []string {
		var out []string
		for _, e := range w.Log {
			out = append(out, fmt.Sprintf("%10.3fs %s", e.T.Seconds(), e.What))
		}
		return out
	}
	w.Gate = func(op *sim.Op) bool {
		if !op.Proc.Monitor && op.Put() {
			// With notices delayed, the lock-delay protects until another holds it.
			if h := w.Consul.Holder(conf.KV + "/lock"); h != op.Proc && (d.lag == 0 || h != nil) {
				key := "op-without-lock"
				if h != nil {
					key = "op-while-other-holds-lock"
				}
				d.fail("lock", key, "%s issues %s %s without holding the lock", op.Proc.Label, op.Method, op.Key)
			}
		}
		return plan.Inline == nil || !plan.Inline(op)
	}
	if plan.Prep != nil {
		plan.Prep(d)
	}
	if len(plan.Script) > 0 {
		d.due = time.Now().Add(plan.Script[0].After)
	}
	max := plan.MaxSteps
	if max == 0 {
		max = 400
	}
	var settled time.Time
	for d.steps = 0; ; d.steps++ {
		if d.steps > max {
			d.fail("live", "no-progress", "the scenario did not finish within %d steps", max)
			break
		}
		w.Settle()
		d.landing()
		d.supervise()
		w.Settle()
		d.observe()
		ops := d.ready()
		dev := d.devOptions(ops)
		if len(ops) > 0 {
			names := []string{"next"}
			for _, o := range dev {
				names = append(names, o.name)
			}
			k := r.Choose("op", names, nil)
			if k == 0 {
				w.Release(ops[0])
			} else {
				d.devs++
				dev[k-1].do()
			}
			continue
		}
		if len(dev) > 0 && !d.end && d.live.Up {
			names := []string{"go on"}
			for _, o := range dev {
				names = append(names, o.name)
			}
			if k := r.Choose("idle", names, nil); k > 0 {
				d.devs++
				dev[k-1].do()
				continue
			}
		}
		if d.wait() {
			continue
		}
		if d.next < len(plan.Script) {
			if !d.live.Up {
				if !w.Sleep(70 * time.Second) {
					d.fail("live", "no-start", "no process came up within 70s")
					break
				}
				if d.due.Before(time.Now()) {
					d.due = time.Now().Add(plan.Script[d.next].After)
				}
				continue
			}
			if wait := time.Until(d.due); wait > 0 {
				w.Sleep(wait)
				continue
			}
			d.step()
			settled = time.Time{}
			continue
		}
		// the script is done: wait for the answers, then a while longer
		if d.pending() > 0 && !d.live.Dead {
			if !w.Sleep(10 * time.Second) {
				d.fail("live", "unanswered", "requests are still unanswered: %s", d.open())
				break
			}
			continue
		}
		if settled.IsZero() {
			settled = time.Now().Add(plan.Settle)
		}
		if rest := time.Until(settled); rest > 0 {
			w.Sleep(rest)
			continue
		}
		break
	}
	d.end = true
	if d.devs == 0 && !plan.Deaf {
		for _, x := range d.reqs {
			if x.q.Done && x.q.Status != 200 {
				d.fail("live", "not-accepted", "with nothing in its way the log answers %s with %d %q", x.q.Name, x.q.Status, x.q.Body)
			}
		}
	}
	if !plan.NoEpilog {
		d.epilogue()
	}
	if plan.End != nil {
		plan.End(d)
	}
	d.Audit.Final()
	r.Evals++
	r.Outcome(fmt.Sprintf("size %d, heads %d, procs %d, %s", d.sth.Size, d.heads, d.procs, d.summary()))
	w.Close()
}

func (d *Driver) summary() string {
	m := map[string]int{}
	for _, x := range d.reqs {
		m[fmt.Sprint(x.q.Status)]++
	}
	return fmt.Sprint(m)
}

func (d *Driver) open() string {
	var l []string
	for _, x := range d.reqs {
		if !x.q.Done {
			l = append(l, fmt.Sprintf("%s (sent %v ago)", x.q.Name, time.Since(x.q.Sent)))
		}
	}
	return strings.Join(l, ", ")
}

// flow runs with every store operation answered at once until cond holds.
func (d *Driver) flow(limit time.Duration, cond func() bool) bool {
	until := time.Now().Add(limit)
	for {
		d.w.Settle()
		d.landing()
		d.supervise()
		for _, o := range d.w.Parked() {
			d.w.Release(o)
		}
		d.w.Settle()
		if d.fs != nil && d.fs.step() {
			continue
		}
		d.observe()
		if cond() {
			return true
		}
		if len(d.w.Parked()) > 0 {
			continue
		}
		left := time.Until(until)
		if left <= 0 {
			return false
		}
		d.w.Sleep(min(left, 500*time.Millisecond))
	}
}

// epilogue: whatever happened, a log is (re)started, keeps every promise, still
// accepts submissions, and hands out the same SCTs again.
func (d *Driver) epilogue() {
	g, before := d.w.Gate, d.live
	d.deaf = false
	d.w.Gate = func(op *sim.Op) bool { g(op); return false }
	d.plan = &Plan{Monitors: d.plan.Monitors, Check: d.plan.Check, Lag: d.plan.Lag}
	if d.cut { // nobody may go on when the session and the lock-delay are over
		d.flow(45*time.Second, func() bool { return false })
	}
	if d.lag > 0 {
		d.flow(d.lag+2*time.Second, func() bool { return false })
	}
	ok := d.flow(120*time.Second, func() bool { return d.live.Up && d.pending() == 0 })
	if !ok {
		d.fail("live", "no-recovery", "the log does not come (back) up: %s up=%v, open: %s", d.live.Label, d.live.Up, d.open())
		return
	}
	seen := map[*pki.Sub]bool{}
	n := len(d.reqs)
	for _, x := range d.reqs[:n] {
		if !seen[x.s] && len(seen) < 6 {
			seen[x.s] = true
			d.submit(x.s)
		}
	}
	for i := n - 1; i >= 0 && len(seen) < 9; i-- { // those refused last
		if x := d.reqs[i]; !seen[x.s] && x.q.Status == 503 {
			seen[x.s] = true
			d.submit(x.s)
		}
	}
	d.submit(pki.Cert("epilogue", std.I1, pki.LeafOpt{}))
	if !d.flow(20*time.Second, func() bool { return d.pending() == 0 }) {
		d.fail("live", "unanswered", "requests to the recovered log are not answered: %s", d.open())
		if d.live == before && !before.Dead {
			d.fail("lock", "does-not-end", "%s neither answers nor ends", before.Label)
		}
		return
	}
	for _, x := range d.reqs[n:] {
		if x.q.Status != 200 {
			if d.live == before && !before.Dead {
				d.fail("lock", "does-not-end", "%s can publish no more (it answers %s with %d) and does not end", before.Label, x.q.Name, x.q.Status)
			}
			d.fail("live", "not-accepted", "the recovered log answers %s with %d %q", x.q.Name, x.q.Status, x.q.Body)
		}
	}
	if d.on["live"] {
		d.flow(6*time.Second, func() bool { return false })
		if age := time.Since(d.lastSTH); age > 5*time.Second {
			d.fail("live", "stale-sth", "an idle log with a working store has not renewed its STH for %v (flush interval %dms)", age, d.conf.FlushMs)
		}
	}
}

var certCache = map[int]*pki.Sub{}

// certs are submissions that differ in everything that may: final certificate
// or precertificate, plain or special issuer, issuers that share a name or a
// key, root given or left out.
func certs(k ...int) []*pki.Sub {
	var l []*pki.Sub
	for _, i := range k {
		s := certCache[i]
		if s == nil {
			n := "c" + string(rune('a'+i/26)) + string(rune('a'+i%26))
			o := pki.LeafOpt{OmitRoot: i%2 == 1}
			switch i % 8 {
			case 0:
				s = pki.Cert(n, std.I1, o)
			case 1:
				s = pki.Pre(n, std.I2, o)
			case 2, 6:
				s = pki.Pre(n, std.P1, o)
			case 3:
				s = pki.Cert(n, std.I1x, o)
			case 4:
				s = pki.Cert(n, std.J1, o)
			case 5:
				s = pki.Pre(n, std.P1x, o)
			case 7:
				s = pki.Cert(n, std.I1t, o)
			}
			certCache[i] = s
		}
		l = append(l, s)
	}
	return l
}
