package main

import (
	"fmt"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/sim"
)

// leftBehind: the same again and again; what works for requests that were
// answered must not become more.
func leftBehind([]string) explore.Scenario {
	return explore.Scenario{Name: "left behind", Bubble: true, Run: func(r *explore.Run) {
		d := newLog(r, 3, nil, nil, []string{"tree", "dense", "sct", "append", "live", "status"}, nil)
		defer d.w.Close()
		what := r.Pick("what", 10)
		n := 0
		fresh := func() *pki.Sub {
			n++
			return pki.Cert(fmt.Sprint("left", n), std.I1, pki.LeafOpt{})
		}
		known := fresh()
		d.submit(known)
		d.flow(5*time.Second, func() bool { return d.pending() == 0 })
		names := []string{"new ones", "slow store", "slow reads", "client goes away at once", "client goes away late", "the same twice", "known ones", "refused ones", "not a request", "client goes away when the store is slow"}
		round := func() {
			settle := func() {
				d.flow(30*time.Second, func() bool { return d.pending() == 0 })
			}
			switch what {
			case 0:
				d.submit(fresh())
				d.submit(fresh())
			case 1, 9:
				d.w.Delay = 2 * time.Second
				x := d.submit(fresh())
				d.submit(fresh())
				if what == 9 {
					d.flow(3*time.Second, func() bool { return false })
					x.q.HangUp()
				}
				settle()
				d.flow(20*time.Second, func() bool { return false })
				d.w.Delay = 0
			case 2:
				d.w.Delay = 300 * time.Millisecond
				d.submit(fresh())
				d.submit(known)
				settle()
				d.w.Delay = 0
			case 3, 4:
				x := d.submit(fresh())
				if what == 4 {
					d.flow(50*time.Millisecond, func() bool { return false })
				}
				x.q.HangUp()
				d.submit(fresh())
			case 5:
				s := fresh()
				d.submit(s)
				d.submit(s)
			case 6:
				d.submit(known)
				d.submit(known)
			case 7:
				d.w.Do(d.live, "garbage", "POST", "/ct/v1/add-chain", []byte(`{"chain":["AAAA"]}`))
				d.w.Do(d.live, "garbage", "POST", "/ct/v1/add-pre-chain", known.Body())
			case 8:
				d.w.Do(d.live, "garbage", "GET", "/ct/v1/nothing", nil)
				d.w.Do(d.live, "garbage", "POST", "/ct/v1/add-chain", []byte("{"))
			}
			settle()
			d.flow(time.Second, func() bool { return false })
		}
		count := func() []string {
			d.flow(2*time.Minute, func() bool { return false })
			return d.w.Goroutines(d.live)
		}
		for i := 0; i < 3; i++ {
			round()
		}
		before, files := count(), sim.OpenFiles()
		const rounds = 12
		for i := 0; i < rounds; i++ {
			round()
		}
		after := count()
		r.Evals++
		if d.live.Dead {
			r.Fail("ended: "+names[what], "the log ended: %s", d.live.Exit)
			return
		}
		if len(after) > len(before)+rounds/2 {
			r.Fail("goroutines: "+names[what], "%d goroutines after %d rounds of requests (%s), all answered 2 minutes ago; %d before: %v", len(after), rounds, names[what], len(before), after[:min(len(after), 30)])
		}
		if f := sim.OpenFiles(); f > files+rounds/2 {
			r.Fail("files: "+names[what], "%d files are open after %d rounds of requests (%s), %d before", f, rounds, names[what], files)
		}
		d.submit(fresh())
		if !d.flow(10*time.Second, func() bool { return d.pending() == 0 }) {
			r.Fail("no-answer: "+names[what], "no answer after %d rounds of requests (%s)", rounds, names[what])
		}
		r.Outcome(fmt.Sprint(what, len(before)))
		d.Final()
	}}
}
