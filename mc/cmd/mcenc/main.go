// mcenc enumerates the encodings and the signatures of the log: every value of
// a finite space, and every small change of every encoding.
package main

import "itko.dev/mcheck/explore"

const ruleEnc = "every combination of the listed field values is one case; encodings are compared with an independent encoder, decodings with the encoded value, and every listed alteration of an encoding must be rejected or decode to a value whose encoding is exactly the altered bytes"
const ruleSig = "every combination of the listed keys, digests and hashes is one case; signatures are compared with an independent implementation of RFC 6979 and with the standard library's verification, and every listed alteration of a signed document must be rejected"

func check(id, rule, bounds string, l ...explore.Scenario) *explore.Check {
	return &explore.Check{ID: id, Level: "model_checking", Rule: rule, Bounds: bounds, Scenarios: l, QuickSecs: 240, DeepSecs: 850}
}

func main() {
	explore.Main([]*explore.Check{
		check("C19", ruleEnc, "entries of both types with 7 timestamps, 9 indexes and 9 lengths of each part, chains of 0 to 2047 certificates; all 255 other values of every byte, all truncations, insertions and deletions of a set of small tiles; extensions with every power of two and its neighbours, all byte strings up to length 3 and all changes of 2 bytes; lookup records: every number, sharing and order of up to 3 old and 3 new records at 6 mask lengths; tile paths: levels -1 to 5, all tiles up to 1100000 and around powers of 10 and 2 with all widths at the edges; STHs and checkpoints: 12 sizes, 5 timestamps, 4 roots, all bit changes",
			leafScenario(), alterScenario(), extScenario(), recordsScenario(), pathScenario(), kpathScenario(), headScenario(), checkpointScenario()),
		check("C20", ruleSig, "3 curves, about 80 keys each (smallest, largest, every byte length, typical), about 45 digests of 12 lengths (0, 1, all ones, around the order), 5 hashes; a digest whose first candidate is rejected; unsupported curves; tree heads and checkpoints under 5 keys of two kinds: all changes of one bit, all truncations, all algorithm bytes, all exchanges between 60 documents and keys; the tree heads and checkpoints of 20400 further keys",
			signScenario(), retryScenario(), curveScenario(), digitallyScenario(), verifierScenario(), exchangeScenario(), manyKeysScenario()),
	})
}
