package main

import (
	"strings"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/sim"
)

func wide(c *sim.Conf) { c.Mask = 1 }
func fast(c *sim.Conf) { c.FlushMs = 100 }

// quietOps leaves scheduling points only at what publishes the tree.
func quietOps(op *sim.Op) bool {
	return strings.HasPrefix(op.Key, "issuer/") || strings.HasPrefix(op.Key, "int/") || op.Method != "PUT"
}

const ruleLog = "one execution = one choice sequence over the real log process(es): next store operation in canonical order (free), or (1 deviation each) another operation first, an operation failing with or without effect, the process killed with any subset of its PUTs in flight landing, the next client event now, a stall of 6 s; after each execution the log is restarted, everything is resubmitted and re-checked"

var assume = []string{
	"a PUT whose caller saw an error, gave up or died takes effect before the next operation on the store or never",
	"single objects are read and written atomically by S3; reads see the last write",
	"goroutines of one process interleave at store operations, channel operations and timers in the order the Go runtime picks on one thread",
}

func log(id, bounds string, l []explore.Scenario) *explore.Check {
	return &explore.Check{ID: id, Level: "model_checking", Rule: ruleLog, Bounds: bounds, Assumptions: assume, Scenarios: l, QuickSecs: 200, DeepSecs: 780}
}

const ruleEnum = "every combination of the listed choices is one case on a freshly started real log; each answer is judged by an independent definition of validity, and every logged entry and tree head is compared with the reference"

func enum(id, bounds string, l ...explore.Scenario) *explore.Check {
	return &explore.Check{ID: id, Level: "model_checking", Rule: ruleEnum, Bounds: bounds, Scenarios: l, QuickSecs: 60, DeepSecs: 900,
		Assumptions: []string{"the store answers every operation at once and without fault"}}
}

func main() {
	explore.Main([]*explore.Check{
		log("C01", "each execution deviates from the default schedule at most once (thorough: twice in small scenarios); logs of 0, 2, 100, 254-259, 510-515, 65535-65538, 2^24-1 to 2^24+2, 2^32-1 to 2^32+2 entries; pools of 1-255; without deviations: 600 publications, pools of every size up to 60 one after the other, 130 restarts, 2400 refusals, 1200 clients that go away, 3 hours idle",
			with([]string{"tree", "head"}, overload(1, 2), fresh(1, 2), edge(1, 2), cross(1, 2), steady(1, 2), failover(1, 2, 0), full(1, 1), burst(1, 1), level2(1, 1), level3(1, 1), level4(1, 1), patient(1, 1), long)),
		log("C02", "as C01",
			with([]string{"append"}, overload(1, 2), fresh(1, 2), edge(1, 2), again(1, 2), steady(1, 2), failover(1, 2, 0), cross(1, 2), full(1, 1), level2(1, 1), level3(1, 1), level4(1, 1), patient(1, 1), long)),
		log("C03", "as C01",
			with([]string{"sct"}, overload(1, 2), fresh(1, 2), again(1, 2), edge(1, 2), steady(1, 2), failover(1, 2, 0), cross(1, 1), level4(1, 1), burst(1, 1), stall(1, 1), trickle(1, 1), patient(1, 1), long)),
		log("C04", "as C01",
			with([]string{"dense"}, overload(1, 2), fresh(1, 2), again(1, 2), cross(1, 2), steady(1, 2), failover(1, 2, 0), full(1, 1), level4(1, 1), burst(1, 1), stall(1, 1), trickle(1, 1), patient(1, 1), long)),
		log("C05", "as C01; resubmissions before, during and after publication, after a crash at any point, and to the next process; lookup files with records that differ in any one bit",
			with([]string{"dedupe"}, overload(1, 2), again(1, 2), steady(1, 2), edge(1, 2), failover(1, 2, 0), fresh(1, 2), level4(1, 1), burst(1, 1), patient(1, 1), long, near, ages)),
		enum("C06", "chains of a leaf and up to 4 (thorough: 5) of 11 certificates from 8 issuers at both endpoints; 36 expiry times x 4 windows; every byte of a certificate altered; certificates up to 94 kB; chains up to 92; 29 kinds of leaves and 23 kinds of issuers, with signatures of 8 algorithms, right and altered; 63 sets of roots; bodies sent in pieces, in chunks, in other JSON, in part, and not at all",
			chainsScenario(), windowScenario(), brokenScenario(), transportScenario(), kindsScenario(), rootsScenario()),
		enum("C07", "up to 3 (thorough: 4) of 5 extensions in every order with the poison at every position, under 13 issuers (ECDSA and RSA, precertificate-signing ones with one and several usages)",
			precertScenario(), twoIssuersScenario()),
		enum("C10", "27 sizes (12 of them from 255998 to 2^39+65536) x 6 kinds of leftovers x 3 pools; 10 sizes x every object read at the start x 14 kinds of damage; every bit of an STH and of a data tile",
			intactScenario(restartSizes, "intact"), intactScenario(largeSizes, "intact, large"), damagedScenario([]int{0, 1, 3, 255, 256, 257, 512, 65536, 65537, 1<<24 + 1}, "damaged"), bitsScenario(1, "ct/v1/get-sth", 1), bitsScenario(3, "tile/data/000.p/3", 1), bitsScenario(3, "tile/0/000.p/3", 1)),
		log("C08", "two processes, one lock; crash, interrupt, session loss, Consul unreachable, failed writes and stalls at every point, one per execution (thorough: two); with lock notices at once and 3 s late",
			with([]string{"lock"}, failover(1, 2, 0), failover(1, 2, ms(3000)), fresh(1, 2), stall(1, 1))),
		log("C09", "as C01; bursts of 300, 255 at a tile edge, and a store that takes no writes for 40 s; 10 kinds of requests 15 times over, and what is left of them",
			with([]string{"live", "status"}, overload(1, 2), fresh(1, 2), steady(1, 2), edge(1, 2), again(1, 2), failover(1, 2, 0), failover(1, 2, ms(3000)), full(1, 1), burst(1, 1), stall(1, 1), trickle(1, 1), long, leftBehind)),
		log("C11", "as C01",
			with([]string{"index"}, overload(1, 2), fresh(1, 2), again(1, 2), edge(1, 2), steady(1, 2), failover(1, 2, 0), cross(1, 2), full(1, 1), level4(1, 1), burst(1, 1), patient(1, 1), long, nearHash)),
		setupCheck(),
		storeCheck(),
		log("C23", "as C01",
			with([]string{"time"}, overload(1, 2), trickle(1, 1), fresh(1, 2), steady(1, 2), again(1, 2), edge(1, 2), failover(1, 2, 0), cross(1, 1), patient(1, 1), long)),
	})
}

func setupCheck() *explore.Check {
	c := enum("C22", "25 root files, 12 key files, 3 kinds of store (quick: not every root file with every key file); 15 sets of objects of another log there before, on both kinds of store; every request of setup to the store or to Consul failing in 6 ways, once, twice or for good, with or without effect; every file system step of setup failing in 5 ways, once or for good",
		setupScenario(), setupOver(), setupFaults(), setupDirFaults())
	c.Rule = "one execution = one run of the real setup with one combination of files, store and failure; if it reports success the real log is started on what it left and its roots, tree head and first publication are checked; if not it is repeated without the failure"
	c.Assumptions = []string{"writes are atomic on S3 and in Consul", "a key on any NIST curve is a valid key", "data written to a file is not lost later"}
	return c
}

func storeCheck() *explore.Check {
	c := enum("C12", "all sequences of 3 (thorough: 4) writes of 4 values to 3 keys of 4 kinds on both backends; a write of 4 values killed at each file system step, in 5 ways within a write; every step of every operation failing with 6 errors, once or for good; all interleavings of the steps of 8 pairs of operations with at most 2 switches (thorough: any number); 18 answers of S3, 1, 2 or any number of times; a log of 3 and 254 entries on a directory, killed or failed at each of its file system steps in 5 ways",
		fsSequences(), fsCrash(), fsErrors(), fsConcurrent(), s3Errors(), fsLog("log on a directory", 254, 3, ""), fsLog("log on a directory, more", 3, 5, "thorough"))
	c.Rule = "one execution = one choice of operations, of the order of their file system calls and of the call at which the process is killed or an error occurs, on the real storage backends (or the real log on one); afterwards every key is read back"
	c.Assumptions = []string{"a file system call that has returned stays done (no power failure)", "rename is atomic", "requests to S3 are atomic"}
	return c
}
