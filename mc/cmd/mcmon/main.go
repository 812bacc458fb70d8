// mcmon explores the read side: the real monitor process against a controlled
// store, every request judged by an independent reference.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"slices"
	"sort"
	"strings"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
)

var std = pki.NewStd()

var sizes = []int{0, 1, 2, 3, 255, 256, 257, 300, 511, 512, 513, 768, 1025, 65535, 65536, 65537}

// points are the interesting numbers up to n and just beyond.
func points(n int, fine bool) []int {
	m := map[int]bool{}
	add := func(l ...int) {
		for _, x := range l {
			if x >= 0 && x <= n+1 {
				m[x] = true
			}
		}
	}
	add(0, 1, 2, n-2, n-1, n, n+1)
	for _, e := range []int{256, 512, 65536, n &^ 255, n - n%65536} {
		add(e-1, e, e+1)
		if fine {
			add(e-2, e+2)
		}
	}
	if fine {
		add(3, 4, 5, 7, 8, 9, 31, 32, 33, 64, 127, 128, 129, 1023, 1024, 1025, 2048, n/2, n/3, n-256, n-257, n-255)
	}
	if n <= 9 {
		for i := 0; i <= n; i++ {
			add(i)
		}
	}
	var l []int
	for x := range m {
		l = append(l, x)
	}
	sort.Ints(l)
	return l
}

// grid asks everything of one log: which picks the requests.
func grid(name string, ns []int, f func(h *host, part, parts int), parts int) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		n := ns[r.Pick("size", len(ns))]
		onDir := r.Pick("directory", 2) == 1
		kept := r.Pick("earlier sizes", 2)
		k := parts
		if n < 300 {
			k = 1
		}
		part := r.Pick("part", k)
		h := newWorld(r, 1+n%3)
		h.st, h.n = rich(n), n
		var earlier []int
		if kept == 1 {
			for _, m := range points(n, false) {
				if m > 0 && m < n {
					earlier = append(earlier, m)
				}
			}
		}
		h.w.Install(h.c, h.st, n, earlier...)
		if onDir {
			h.toDir()
		}
		defer h.close()
		h.start()
		f(h, part, k)
		r.State(uint64(n)<<8 | uint64(kept)<<1 | uint64(part)<<2)
	}}
}

func entriesGrid(h *host, part, parts int) {
	ps := points(h.n, h.r.Tier == "thorough")
	i := 0
	for _, a := range ps {
		for _, b := range append(ps, h.n+1000, 1<<40) {
			// more than two tiles: only to the end and beyond
			if h.r.Tier != "thorough" && b-a > 600 && b != h.n-1 && b != 1<<40 {
				continue
			}
			if i++; i%parts == part && a <= b {
				h.check(getEntries(h.st, a, b))
			}
		}
	}
	if h.n > 1 && part == 0 {
		h.check(getEntries(h.st, 1, 0))
	}
}

func proofGrid(h *host, part, parts int) {
	ps := points(h.n, true)
	i := 0
	for _, size := range ps {
		for _, leaf := range ps {
			if i++; i%parts != part {
				continue
			}
			if leaf < h.n {
				h.check(proofByHash(h.st, leaf, size))
			}
			h.check(entryAndProof(h.st, leaf, size))
		}
	}
	if part == 0 && h.n > 0 {
		for _, size := range ps {
			l := h.st.Tree.Leaf(h.n - 1)
			for _, at := range []int{0, 1, 15, 16, 17, 31} {
				x := l
				x[at] ^= 0x10
				h.check(badHash(h.st, fmt.Sprintf("an altered hash (byte %d)", at), x, size))
			}
			h.check(badHash(h.st, "no leaf", ref.Hash{}, size))
			if size > 1 && size <= h.n {
				h.check(badHash(h.st, "an inner node", h.st.Tree.Root(size), size))
			}
		}
	}
	// every leaf of a log that fits
	if h.n > 9 && h.n <= 300 {
		for leaf := 0; leaf < h.n; leaf++ {
			h.check(proofByHash(h.st, leaf, h.n))
			h.check(entryAndProof(h.st, leaf, h.n))
		}
	}
}

// staleScenario: the lookup files also hold records of entries that were
// never published, as a crash leaves them.
func staleScenario() explore.Scenario {
	return explore.Scenario{Name: "stale records", Bubble: true, Run: func(r *explore.Run) {
		n := []int{1, 3, 256, 300}[r.Pick("size", 4)]
		mask := 1 + r.Pick("mask", 3)
		onDir := r.Pick("directory", 2) == 1
		h := newWorld(r, mask)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		// a record of an entry that nobody ever saw, pointing at index i
		var ghosts []ref.Hash
		for _, i := range points(n, true) {
			g := *h.st.Entries[min(i, n-1)]
			g.Index = uint64(i)
			g.Timestamp -= 77
			gh := g.LeafHash()
			ghosts = append(ghosts, gh)
			key := "int/hashes/" + ref.KPath(gh[:], mask)
			recs, err := ref.ParseIndex(h.w.Objs[key], 21)
			if err != nil {
				panic(err)
			}
			rec := ref.Rec{Index: uint64(i)}
			copy(rec.Key[:], gh[:])
			h.w.Put(key, ref.EncodeIndex(append(recs, rec), 21))
		}
		if onDir {
			h.toDir()
		}
		defer h.close()
		h.start()
		for _, size := range points(n, false) {
			for _, g := range ghosts {
				h.check(badHash(h.st, "an unpublished entry", g, size))
			}
			for leaf := 0; leaf < n; leaf += 1 + n/40 {
				h.check(proofByHash(h.st, leaf, size))
			}
		}
	}}
}

// nearScenario: the lookup file also holds records whose keys differ from that of
// a published entry in one bit.
func nearScenario() explore.Scenario {
	return explore.Scenario{Name: "near", Bubble: true, Run: func(r *explore.Run) {
		n := []int{2, 300}[r.Pick("size", 2)]
		at := r.Pick("leaf", 4)
		other := []int{0, n - 1, n, n + 7}[r.Pick("of", 4)] // where the others point
		h := newWorld(r, 2)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		leaf := min([]int{0, 1, 150, 299}[at], n-1)
		lh := h.st.Tree.Leaf(leaf)
		key := "int/hashes/" + ref.KPath(lh[:], 2)
		recs, err := ref.ParseIndex(h.w.Objs[key], 21)
		if err != nil {
			panic(err)
		}
		var near []ref.Hash
		for bit := 8; bit < 128; bit++ {
			x := lh
			x[bit/8] ^= 0x80 >> (bit % 8)
			near = append(near, x)
			recs = append(recs, ref.Rec{Key: [16]byte(x[:16]), Index: uint64(other)})
		}
		h.w.Put(key, ref.EncodeIndex(recs, 21))
		defer h.close()
		h.start()
		for _, size := range []int{1, 2, n - 1, n} {
			h.check(proofByHash(h.st, leaf, size))
			for _, x := range near {
				h.check(badHash(h.st, "almost the hash of an entry", x, size))
			}
		}
	}}
}

// bigScenario: data tiles of up to 30 MB.
func bigScenario() explore.Scenario {
	return explore.Scenario{Name: "big", Bubble: true, Run: func(r *explore.Run) {
		n := []int{30, 256, 257}[r.Pick("size", 3)]
		each := []int{3000, 5000, 10000, 35000, 60000}[r.Pick("bytes", 5)]
		onDir := r.Pick("directory", 2) == 1
		h := newWorld(r, 1)
		h.st, h.n = ref.NewState(), n
		for i := 0; i < n; i++ {
			fill := func(tag string) []byte {
				x := sha256.Sum256([]byte(fmt.Sprint(tag, i)))
				return bytes.Repeat(x[:], each/32)
			}
			e := &ref.Entry{Timestamp: uint64(pki.Epoch.UnixMilli()) - 100000, Index: uint64(i), Cert: fill("cert")}
			if i%2 == 1 {
				e.Precert, e.Pre, e.IssuerKeyHash = true, fill("pre"), ref.Hash{1}
			}
			h.st.Append(e)
		}
		h.w.Install(h.c, h.st, n)
		if onDir {
			h.toDir()
		}
		defer h.close()
		h.start()
		for _, a := range []int{0, n / 2, n - 2, n - 1} {
			h.check(getEntries(h.st, a, n-1))
			h.check(getEntries(h.st, a, a))
			h.check(proofByHash(h.st, a, n))
			h.check(entryAndProof(h.st, a, n))
		}
		r.State(uint64(n)<<32 | uint64(each))
	}}
}

// likeScenario: the fingerprints of issuers agree in their first or last bytes.
func likeScenario() explore.Scenario {
	return explore.Scenario{Name: "like issuers", Bubble: true, Run: func(r *explore.Run) {
		first := r.Pick("agree in", 2) == 0
		onDir := r.Pick("directory", 2) == 1
		// two that agree in 4 bytes, and 300 others
		var iss [][]byte
		seen := map[[4]byte][]byte{}
		for i := 0; len(iss) == 0; i++ {
			b := []byte(fmt.Sprintf("issuer %d %v", i, first))
			x := sha256.Sum256(b)
			k := [4]byte(x[:4])
			if !first {
				k = [4]byte(x[28:])
			}
			if o := seen[k]; o != nil {
				iss = [][]byte{o, b}
			}
			seen[k] = b
		}
		for i := 0; i < 300; i++ {
			iss = append(iss, []byte(fmt.Sprint("other issuer ", i)))
		}
		const n = 40
		h := newWorld(r, 1)
		h.st, h.n = ref.NewState(), n
		for i := 0; i < n; i++ {
			e := &ref.Entry{Timestamp: uint64(pki.Epoch.UnixMilli()) - 100000, Index: uint64(i), Cert: []byte(fmt.Sprint("cert", i))}
			for k := 0; k < 8; k++ {
				e.Chain = append(e.Chain, sha256.Sum256(iss[(2+i*8+k)%len(iss)]))
			}
			e.Chain = append(e.Chain, sha256.Sum256(iss[i%2]), sha256.Sum256(iss[1-i%2]))
			h.st.Append(e)
		}
		for _, b := range iss {
			h.st.Issuers[sha256.Sum256(b)] = b
		}
		h.w.Install(h.c, h.st, n)
		if onDir {
			h.toDir()
		}
		defer h.close()
		h.start()
		for a := 0; a < n; a++ {
			h.check(getEntries(h.st, a, a))
			h.check(entryAndProof(h.st, a, n))
		}
		h.check(getEntries(h.st, 0, n-1))
		h.check(getEntries(h.st, 0, 1))
	}}
}

func masksScenario() explore.Scenario {
	return explore.Scenario{Name: "masks", Bubble: true, Run: func(r *explore.Run) {
		mask := 1 + r.Pick("mask", 8)
		n := []int{1, 40, 300}[r.Pick("size", 3)]
		h := newWorld(r, mask)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		defer h.close()
		h.start()
		for leaf := 0; leaf < n; leaf++ {
			h.check(proofByHash(h.st, leaf, n))
		}
	}}
}

func consistencyGrid(h *host, part, parts int) {
	ps := points(h.n, true)
	i := 0
	for _, a := range ps {
		for _, b := range ps {
			if i++; i%parts == part {
				h.check(consistency(h.st, a, b))
			}
		}
	}
}

// largeSizes: where paths, levels and index bytes grow.
var largeSizes = []int{255999, 256000, 256001, 300000, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<31 + 5, 1 << 32, 1<<32 + 300, 1<<39 + 65536 + 9}

// largeScenario asks around the edges of logs too large to build: only some of
// their entries exist (see ref.Large), and only those are asked for.
func largeScenario(f func(h *host, leaves, sizes []int)) explore.Scenario {
	return explore.Scenario{Name: "large", Bubble: true, Run: func(r *explore.Run) {
		n := largeSizes[r.Pick("size", len(largeSizes))]
		onDir := r.Pick("directory", 2) == 1
		kept := r.Pick("earlier sizes", 2)
		var data, leaves, sizes []int
		for _, e := range []int{256, 65536, 256000, 1 << 24, 1 << 32, n / 2 &^ 255, n / 3 &^ 65535} {
			if e < n-300 {
				data = append(data, e/256-1, e/256)
				leaves = append(leaves, e-256, e-1, e, e+1, e+255)
				sizes = append(sizes, e-255, e-1, e, e+1, e+256)
			}
		}
		b := (n - 1) &^ 255
		for i := 0; i < 4; i++ {
			leaves = append(leaves, i, b-1-i, min(b+i, n-1), max(n-1-i, b))
			sizes = append(sizes, i+1, b-i, min(b+1+i, n), max(n-i, b))
		}
		sort.Ints(leaves)
		sort.Ints(sizes)
		leaves, sizes = slices.Compact(leaves), slices.Compact(sizes)
		h := newWorld(r, 2)
		k := largeKey{n}
		if larges[k] == nil {
			larges[k] = ref.Large(n, uint64(pki.Epoch.UnixMilli())-100000, append(data, 0), std.I1.DER, std.R1.DER)
		}
		h.st, h.n = larges[k], n
		var earlier []int
		if kept == 1 {
			for _, m := range sizes {
				if m < n && m > b {
					earlier = append(earlier, m)
				}
			}
		}
		h.w.Install(h.c, h.st, n, earlier...)
		if onDir {
			h.toDir()
		}
		defer h.close()
		h.start()
		f(h, leaves, append(sizes, n+1, n+256, 2*n))
		r.State(uint64(n)<<1 | uint64(kept))
	}}
}

type largeKey struct{ n int }

var larges = map[largeKey]*ref.State{}

// largeEntries: ranges of up to two tiles that exist.
func largeEntries(h *host, leaves, _ []int) {
	for _, a := range leaves {
		for _, b := range append(leaves, h.n, h.n+1000, 1<<40) {
			if last := min(b, h.n-1); a <= b && last/256-a/256 <= 1 && len(h.st.Known(a, last+1)) == last+1-a {
				h.check(getEntries(h.st, a, b))
			}
		}
	}
	for _, a := range []int{h.n, h.n + 1, h.n + 255, 2 * h.n} {
		h.check(getEntries(h.st, a, a+3))
	}
}

func largeProofs(h *host, leaves, sizes []int) {
	for _, m := range sizes {
		for _, i := range leaves {
			h.check(proofByHash(h.st, i, m))
			h.check(entryAndProof(h.st, i, m))
		}
		h.check(entryAndProof(h.st, h.n, m))
	}
}

func largeConsistency(h *host, _, sizes []int) {
	for _, a := range sizes {
		for _, b := range sizes {
			h.check(consistency(h.st, a, b))
		}
	}
}

// allPairs asks for every pair of sizes, every proof and every range of all
// small logs.
func allScenario(name string, quick, deep int, f func(h *host, a, b int) []req) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		top := quick
		if r.Tier == "thorough" {
			top = deep
		}
		n := r.Pick("size", top+1)
		h := newWorld(r, 2)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		defer h.close()
		h.start()
		for a := 0; a <= n+1; a++ {
			for b := 0; b <= n+1; b++ {
				for _, q := range f(h, a, b) {
					h.check(q)
				}
			}
		}
		r.State(uint64(n))
	}}
}

// edgePairs asks for all pairs in a window around a tile edge.
func edgeScenario(name string, f func(h *host, a, b int) []req) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		edge := []int{256, 512, 1024, 65536}[r.Pick("edge", 4)]
		over := r.Pick("over", 4)
		n := edge + []int{-1, 0, 1, 7}[over]
		part := r.Pick("part", 4)
		h := newWorld(r, 2)
		h.st, h.n = rich(n), n
		h.w.Install(h.c, h.st, n)
		defer h.close()
		h.start()
		wide := 6
		if r.Tier == "thorough" {
			wide = 20
		}
		for a := edge - wide; a <= n+1; a++ {
			for b := edge - wide; b <= n+1; b++ {
				if (a+b)&3 == part {
					for _, q := range f(h, a, b) {
						h.check(q)
					}
				}
			}
		}
	}}
}

func pairEntries(h *host, a, b int) []req {
	if a > b {
		return nil
	}
	return []req{getEntries(h.st, a, b)}
}
func pairProofs(h *host, a, b int) []req {
	l := []req{entryAndProof(h.st, a, b)}
	if a < h.n {
		l = append(l, proofByHash(h.st, a, b))
	}
	return l
}
func pairConsistency(h *host, a, b int) []req { return []req{consistency(h.st, a, b)} }

const rule = "every combination of the listed choices is one case: the real read side on one prepared store, asked every listed request; each answer is compared with an independent reference implementation of RFC 6962"

const ruleLive = "one case is one request to a fresh read side with the store moving from one state of a recorded history of real log processes to a later one before one of its reads, or one request in one state to a process that has seen all before; an answer must be right for a tree head published by then, and given if it could be given at the start"

const ruleFault = "one case is one request, malformed or with one read or object of the store failing in one way; it must get an error or - where it is well-formed - the right answer, and the same process must then answer the same request rightly; answers of the store must not be left open"

func check(id, rule, bounds string, l ...explore.Scenario) *explore.Check {
	return &explore.Check{ID: id, Level: "model_checking", Rule: rule, Bounds: bounds, Scenarios: l, QuickSecs: 240, DeepSecs: 900,
		Assumptions: []string{"single objects are read atomically"}}
}

func main() {
	none := func(m int) string { return strings.Repeat("0", m) }
	all := func(m int) string { return strings.Repeat("1", m) }
	explore.Main([]*explore.Check{
		check("C13", rule, "16 sizes from 0 to 65537, start and end at all points near 0, tile edges, the size and far beyond, with and without earlier partial tiles, from a URL and from a directory; all ranges of all logs up to 12 (thorough: 60); all ranges in a window around 4 tile edges; 11 logs of 255999 to 2^39+65545 entries near their tile edges; data tiles of up to 23 MB; 302 issuers, two of which agree in 4 bytes of their fingerprints",
			grid("grid", sizes, entriesGrid, 8), allScenario("all ranges", 12, 60, pairEntries), edgeScenario("edges", pairEntries), largeScenario(largeEntries), bigScenario(), likeScenario()),
		check("C14", rule, "the same 16 sizes with all leaf and tree sizes at the points of C13, absent and altered hashes, all leaves of logs up to 300; all (leaf, size) of all logs up to 12 (thorough: 60); windows around 4 tile edges; lookup files with records of unpublished entries, and with records whose keys differ in any one bit; masks of 1 to 8 digits; 11 logs of 255999 to 2^39+65545 entries near their tile edges",
			grid("grid", sizes, proofGrid, 8), allScenario("all proofs", 12, 60, pairProofs), edgeScenario("edges", pairProofs), staleScenario(), nearScenario(), masksScenario(), largeScenario(largeProofs)),
		check("C15", rule, "the same 16 sizes with both sizes at the points of C13; all pairs of all logs up to 24 (thorough: 100); windows around 4 tile edges; 11 logs of 255999 to 2^39+65545 entries near their tile edges",
			grid("grid", sizes, consistencyGrid, 4), allScenario("all pairs", 24, 100, pairConsistency), edgeScenario("edges", pairConsistency), largeScenario(largeConsistency)),
		check("C16", ruleLive, "logs of 0, 3 and 254 entries with a publication of 4 that was cut short and two more publications after a restart: every pair of store states around every read of about 30 requests; every subset of leftovers of size 0, 1, all but one and all, and every prefix (thorough: all pairs)",
			jumps("jumps 254 all", 254, "", all, 8), jumps("jumps 254 none", 254, "", none, 8), jumps("jumps 3 all", 3, "", all, 12), jumps("jumps 0 all", 0, "", all, 12), jumps("jumps 510 all", 510, "thorough", all, 8),
			rests(254, 5), rests(3, 5), rests(0, 5), rests(252, 5)),
		check("C17", ruleFault, "about 300 malformed requests and wrong methods to logs of 0, 1, 3, 256 and 300 entries; 14 requests to logs of 6 sizes, with each of their reads, and each object they read, failing in 25 ways; every tile, certificate and document file spoilt in 7 ways; reads of 30 to 700 ms, with clients that go away during any of the first 8 reads while another asks for the same",
			badInput([]int{0, 1, 3, 256, 300}), readFaults(false), readFaults(true), dirFaults(), slow()),
		edgeCheck(),
	})
}
