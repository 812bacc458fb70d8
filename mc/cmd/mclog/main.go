// mclog explores the submission side: the real log process against a
// controlled object store, Consul, clients, crashes and time.
package main

import (
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
)

// plan makes a scenario.  The deviation bound is quick / deep.
func plan(name string, quick, deep int, p Plan) explore.Scenario {
	return explore.Scenario{Name: name, Bound: quick, Deep: deep, Bubble: true, Run: func(r *explore.Run) {
		q := p
		runPlan(r, &q)
	}}
}

// with sets the monitors of a list of scenarios.
func with(monitors []string, l ...func([]string) explore.Scenario) []explore.Scenario {
	var out []explore.Scenario
	for _, f := range l {
		out = append(out, f(monitors))
	}
	return out
}

type scen = func([]string) explore.Scenario

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// span is certs(a..b-1), all final certificates under one issuer (cheap).
func span(a, b int) []*pki.Sub {
	var l []*pki.Sub
	for i := a; i < b; i++ {
		s := certCache[10000+i]
		if s == nil {
			s = pki.Cert("n"+string(rune('a'+i/676))+string(rune('a'+i/26%26))+string(rune('a'+i%26)), std.I1, pki.LeafOpt{})
			certCache[10000+i] = s
		}
		l = append(l, s)
	}
	return l
}

var everything = Dev{Reorder: true, Delay: true, Fail: true, Crash: true, Early: true, Stall: 6 * time.Second, HangUp: true, Hold: true}

// -------------------------------------------------------------- scenarios

func fresh(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("fresh", q, d, Plan{
			Script: []Step{{After: ms(100), Sub: certs(0)}, {After: ms(300), Sub: certs(1)}, {After: ms(1300), Sub: certs(2)}},
			Dev:    everything, Monitors: m, Settle: ms(1500)})
	}
}

// edge crosses a tile boundary, one publication at a time.
func edge(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("edge255", q, d, Plan{N0: 254, Sizes: []int{253},
			Script: []Step{{After: ms(100), Sub: certs(4)}, {After: ms(1300), Sub: certs(5)}, {After: ms(1300), Sub: certs(6, 7)}},
			Dev:    everything, Monitors: m, Settle: ms(1500)})
	}
}

// cross crosses it within one publication.
func cross(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("cross511", q, d, Plan{N0: 510, Sizes: []int{509},
			Script: []Step{{After: ms(100), Sub: certs(8, 9, 10, 11)}, {After: ms(1300), Sub: certs(12)}},
			Dev:    everything, Monitors: m, Settle: ms(1500)})
	}
}

// level2 crosses the boundary of a level-one tile.
func level2(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("level2", q, d, Plan{N0: 65535, Conf: wide,
			Script: []Step{{After: ms(100), Sub: certs(13)}, {After: ms(1300), Sub: certs(14, 15)}},
			Dev:    Dev{Delay: true, Fail: true, Crash: true, Hold: true}, Monitors: m, Settle: ms(1500)})
	}
}

// level3 crosses the boundary of a level-two tile, with an index of 24 bits.
func level3(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("level3", q, d, Plan{N0: 1<<24 - 1, Conf: wide,
			Script: []Step{{After: ms(100), Sub: certs(13)}, {After: ms(1300), Sub: certs(14, 15)}},
			Dev:    Dev{Delay: true, Fail: true, Crash: true, Hold: true}, Monitors: m, Settle: ms(1500)})
	}
}

// level4 crosses the boundary of a level-three tile, and of 32 bits.
func level4(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("level4", q, d, Plan{N0: 1<<32 - 1, Conf: wide,
			Script: []Step{{After: ms(100), Sub: certs(13)}, {After: ms(1300), Sub: certs(14, 13, 15)}},
			Dev:    Dev{Delay: true, Fail: true, Crash: true, Hold: true}, Monitors: m, Settle: ms(1500)})
	}
}

// burst is more than a pool can hold at once.
func burst(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("burst", q, d, Plan{N0: 100, Conf: wide,
			Script: []Step{{After: ms(100), Sub: span(0, 300)}, {After: ms(1300), Sub: certs(0)}},
			Dev:    Dev{Reorder: true, Delay: true, Fail: true, Crash: true, Stall: 6 * time.Second}, Monitors: m, Settle: ms(1500),
			MaxSteps: 3000, Inline: quietOps})
	}
}

// full fills more than one tile in a single publication, from a tile edge.
func full(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("full", q, d, Plan{N0: 256, Conf: wide,
			Script: []Step{{After: ms(100), Sub: span(0, 255)}, {After: ms(1300), Sub: span(255, 257)}},
			Dev:    Dev{Reorder: true, Delay: true, Fail: true, Crash: true}, Monitors: m, Settle: ms(1500),
			MaxSteps: 3000, Inline: quietOps})
	}
}

// again resubmits: while the first is under way, after it, after restarts.
func again(q, d int) scen {
	return func(m []string) explore.Scenario {
		c := certs(0, 1, 2)
		return plan("again", q, d, Plan{N0: 3, Script: []Step{
			{After: ms(100), Sub: []*pki.Sub{c[0], c[1]}},
			{After: ms(400), Sub: []*pki.Sub{c[0]}},
			{After: ms(1300), Sub: []*pki.Sub{c[0], c[1], c[2]}},
			{After: ms(1300), Sub: []*pki.Sub{c[2]}}},
			Dev: everything, Monitors: m, Settle: ms(1500)})
	}
}

// steady keeps a log going, with pauses longer than a flush.
func steady(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("steady", q, d, Plan{N0: 2, Conf: fast, Script: []Step{
			{After: ms(60), Sub: certs(0)}, {After: ms(20), Sub: certs(1)}, {After: ms(20), Sub: certs(2)}, {After: ms(220), Sub: certs(3)}, {After: ms(90), Sub: certs(4)}},
			Dev: everything, Monitors: m, Settle: ms(400)})
	}
}

// failover has a second process waiting for the lock.
func failover(q, d int, lag time.Duration) scen {
	name := "failover"
	if lag > 0 {
		name = "failover-slow-notice"
	}
	return func(m []string) explore.Scenario {
		return plan(name, q, d, Plan{N0: 255, Standby: true, Lag: lag,
			Script: []Step{{After: ms(1500), Sub: certs(0)}, {After: ms(1300), Sub: certs(1, 2)}, {After: ms(200), Sub: certs(3)}},
			Dev:    Dev{Crash: true, Interrupt: true, Expire: true, Break: true, Silence: true, Fail: true, Hold: true, Stall: 20 * time.Second}, Monitors: m, Settle: ms(1500)})
	}
}

// stall: the store stops taking writes while clients keep coming.
func stall(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("stall", q, d, Plan{N0: 3, Conf: wide, Deaf: true,
			Script: []Step{{After: ms(100), Sub: certs(0)}, {After: ms(5500), Sub: span(0, 225)}, {After: ms(100), Sub: certs(1, 2)},
				{After: 40 * time.Second, Name: "writes work again", Do: func(d *Driver) { d.deaf = false }}, {After: ms(3000), Sub: certs(3)}},
			Dev: Dev{Crash: true, Interrupt: true, HangUp: true}, Monitors: m, Settle: ms(1500), MaxSteps: 3000, Inline: quietOps})
	}
}

// trickle: each submission comes before the flush interval since the last one
// is over, for longer than a request waits.
func trickle(q, d int) scen {
	return func(m []string) explore.Scenario {
		var l []Step
		for i := 0; i < 18; i++ {
			l = append(l, Step{After: ms(400), Sub: certs(i)})
		}
		return plan("trickle", q, d, Plan{N0: 4, Script: l, Dev: Dev{Delay: true, Stall: 4 * time.Second, Crash: true}, Monitors: m, Settle: ms(1500),
			Holds: []time.Duration{ms(500), ms(1000), ms(1500), ms(2000), ms(2500), ms(3000)}, Inline: quietOps})
	}
}

// overload: publication takes longer than clients wait, others come after those
// have been refused, and then it goes on.
func overload(q, d int) scen {
	return func(m []string) explore.Scenario {
		return plan("overload", q, d, Plan{N0: 254, Deaf: true,
			Script: []Step{{After: ms(100), Sub: certs(0)}, {After: ms(1500), Sub: certs(1, 2)}, {After: ms(2000), Sub: certs(3)},
				{After: ms(5500), Sub: certs(4, 5, 6)}, {After: ms(1500), Sub: certs(1, 7)},
				{After: ms(1000), Name: "writes work again", Do: func(d *Driver) { d.deaf = false }}, {After: ms(300), Sub: certs(2, 8)}, {After: ms(3000), Sub: certs(0, 3, 4)}},
			Dev: Dev{Crash: true, Fail: true, Hold: true, Early: true, Delay: true, HangUp: true, Stall: 6 * time.Second}, Monitors: m, Settle: ms(1500), MaxSteps: 3000})
	}
}

// patient: one operation of the publication of an entry takes from a while to
// minutes, and shortly before it is over clients come back for the same entry.
func patient(q, d int) scen {
	return func(m []string) explore.Scenario {
		c := certs(0, 1, 2)
		l := []Step{{After: ms(100), Sub: []*pki.Sub{c[0], c[1]}}}
		for _, s := range []int{9000, 55000, 245000} {
			l = append(l, Step{After: ms(s - 1300), Sub: []*pki.Sub{c[0]}}, Step{After: ms(1300), Sub: []*pki.Sub{c[1], c[2]}})
		}
		return plan("patient", q, d, Plan{N0: 254, Script: l, Dev: Dev{Delay: true}, Monitors: m, Settle: ms(5000), MaxSteps: 3000,
			Window: func(d *Driver) bool { return d.next == 1 && time.Since(d.due) < -ms(3000) }, Holds: []time.Duration{10 * time.Second, 65 * time.Second, 310 * time.Second}})
	}
}
