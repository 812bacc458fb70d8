// mcint explores requests served at the same time: the real code, stopped at
// every statement, while others are served.
package main

import (
	"time"

	"itko.dev/mcheck/explore"
)

func all(ks []req) []req { return ks }
func few(ks []req) []req { return []req{ks[2], ks[3]} }

func main() {
	explore.Main([]*explore.Check{{
		ID: "C21", Level: "model_checking", QuickSecs: 240, DeepSecs: 900,
		Rule:        "one case is one answer of a real process some goroutine of which was stopped at one statement (or two requests at one each) while other requests were served; it must be right by the reference of C13-C17, or by the audit of C01-C05, C11 and C23; and meanwhile no other goroutine came to a statement that touches the memory that the stopped one is about to touch, one of them writing",
		Bounds:      "requests: every pair of 16 requests to the read side (logs of 5 and 259 entries, from a URL and a directory) and every pair of 8 submissions, the first stopped at every statement of itko's own code it comes by (the first 1-2 times, thorough: up to 8) until the second is served, or (submissions) just sent; two switches: the second stopped at every statement, too, for 2 (thorough: 16) requests; the log: every goroutine that serves no request stopped at every statement for 0.9 s and 3 s while 6 submissions come, at 3 and 251 entries; cold (a new process of the operating system each): 6 (thorough: 16) requests with 3 others, and 4 submissions and the log itself with 5 submissions, stopped at the first 10 and 16 statements that write to shared memory",
		Assumptions: []string{"a statement of itko's code between two calls is atomic but for the accesses that the monitor of conflicts sees, and memory is sequentially consistent where there are none", "at most two switches"},
		Scenarios: []explore.Scenario{
			submitPairs("submissions", 1, 3),
			sequencer("log, 3 entries", 3, 24, 2, 6, 450*time.Millisecond),
			sequencer("log, tile edge", 251, 24, 1, 4, 450*time.Millisecond),
			sequencer("log, long", 3, 24, 1, 4, 1500*time.Millisecond),
			oneSwitch("one switch", 5, false, 2, 8),
			oneSwitch("one switch, two tiles", 259, false, 1, 4),
			oneSwitch("one switch, directory", 5, true, 1, 2),
			coldRead("one switch, cold", 5),
			coldSubmit("submissions, cold"),
			twoSwitches("two switches", 5, false, "", few),
			twoSwitches("two switches, all", 5, false, "thorough", all),
		},
	}})
}
