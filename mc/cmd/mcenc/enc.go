package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"os"
	"sort"
	"strings"

	s3types "github.com/aws/aws-sdk-go-v2/service/s3/types"
	"golang.org/x/mod/sumdb/tlog"
	"itko.dev/internal/ctsubmit"
	"itko.dev/internal/sunlight"
	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
)

func fill(tag string, n int) []byte {
	h := sha256.Sum256([]byte(tag))
	b := make([]byte, n)
	for i := range b {
		b[i] = h[i%32] ^ byte(i/32)
	}
	return b
}

func real(e *ref.Entry) *sunlight.LogEntry {
	l := &sunlight.LogEntry{IsPrecert: e.Precert, Certificate: e.Cert, PreCertificate: e.Pre, IssuerKeyHash: e.IssuerKeyHash,
		Timestamp: int64(e.Timestamp), LeafIndex: e.Index}
	for _, c := range e.Chain {
		l.ChainFp = append(l.ChainFp, c)
	}
	return l
}

// caught runs f and reports whether it panicked.
func caught(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func same(l *sunlight.LogEntry, e *ref.Entry) error {
	switch {
	case l.IsPrecert != e.Precert:
		return fmt.Errorf("type")
	case uint64(l.Timestamp) != e.Timestamp:
		return fmt.Errorf("timestamp %d", l.Timestamp)
	case l.LeafIndex != e.Index:
		return fmt.Errorf("index %d", l.LeafIndex)
	case !bytes.Equal(l.Certificate, e.Cert):
		return fmt.Errorf("certificate")
	case e.Precert && (!bytes.Equal(l.PreCertificate, e.Pre) || l.IssuerKeyHash != e.IssuerKeyHash):
		return fmt.Errorf("precertificate or issuer key hash")
	case len(l.ChainFp) != len(e.Chain):
		return fmt.Errorf("chain of %d", len(l.ChainFp))
	case l.CertificateFp != sha256.Sum256(e.Submitted()):
		return fmt.Errorf("fingerprint of the submitted certificate")
	}
	for i := range e.Chain {
		if l.ChainFp[i] != e.Chain[i] {
			return fmt.Errorf("fingerprint %d", i)
		}
	}
	return nil
}

var stamps = []uint64{0, 1, 255, 1 << 32, 1700000000123, 1<<56 + 7, 1<<63 - 1}
var indexes = []uint64{0, 1, 255, 256, 65535, 1<<24 - 1, 1 << 32, 1<<39 + 3, 1<<40 - 1}
var lengths = []int{1, 2, 127, 255, 256, 4097, 65535, 65536, 100000}

// leafScenario: entries of every shape, alone and one after another.
func leafScenario() explore.Scenario {
	return explore.Scenario{Name: "entries", Run: func(r *explore.Run) {
		var e ref.Entry
		e.Precert = r.Pick("precert", 2) == 1
		e.Timestamp = stamps[r.Pick("timestamp", len(stamps))]
		e.Index = indexes[r.Pick("index", len(indexes))]
		if e.Precert {
			e.IssuerKeyHash = sha256.Sum256([]byte("ikh"))
		}
		ls := lengths
		if r.Tier == "thorough" {
			ls = append(append([]int{}, ls...), 1<<20, 1<<24-1)
		}
		pres := []int{0}
		if e.Precert {
			pres = ls
		}
		next := ref.Entry{Cert: fill("next", 9), Chain: []ref.Hash{{1}}, Timestamp: 5, Index: 6}
		for _, cl := range ls {
			for _, pl := range pres {
				for _, k := range []int{0, 1, 2, 3, 7, 8, 255, 256, 2047} {
					if k > 8 && (cl > 4097 || pl > 4097) || cl+pl > 1<<20 && k > 1 {
						continue
					}
					x := e
					x.Cert, x.Pre = fill("cert", cl), fill("pre", pl)
					if !x.Precert {
						x.Pre = nil
					}
					for i := 0; i < k; i++ {
						x.Chain = append(x.Chain, sha256.Sum256([]byte{byte(i), byte(i >> 8)}))
					}
					leafCase(r, &x, &next)
				}
			}
		}
		r.State(e.Index<<8 ^ e.Timestamp)
	}}
}

func leafCase(r *explore.Run, x, next *ref.Entry) {
	r.Evals++
	what := fmt.Sprintf("entry precert=%v timestamp=%d index=%d of %d+%d bytes with a chain of %d", x.Precert, x.Timestamp, x.Index, len(x.Cert), len(x.Pre), len(x.Chain))
	l := real(x)
	if !bytes.Equal(l.MerkleTreeLeaf(), x.Leaf()) {
		r.Fail("leaf", "%s: the Merkle tree leaf is wrong", what)
	}
	for _, pre := range [][]byte{nil, {}, []byte("something"), next.TileLeaf()} {
		got := sunlight.AppendTileLeaf(append([]byte(nil), pre...), l)
		if !bytes.Equal(got, append(append([]byte(nil), pre...), x.TileLeaf()...)) {
			r.Fail("tile-leaf", "%s: the entry in the data tile is wrong", what)
		}
	}
	enc := x.TileLeaf()
	for _, rest := range [][]byte{nil, {0}, next.TileLeaf()} {
		got, left, err := sunlight.ReadTileLeaf(append(append([]byte(nil), enc...), rest...))
		if err != nil {
			r.Fail("read", "%s: it is not read back: %v", what, err)
			continue
		}
		if err := same(got, x); err != nil {
			r.Fail("read", "%s: it is read back wrongly: %v", what, err)
		}
		if !bytes.Equal(left, rest) {
			r.Fail("read-rest", "%s: %d bytes left over after it instead of %d", what, len(left), len(rest))
		}
	}
	for _, big := range []uint64{1 << 40, 1<<40 + 1, 1<<64 - 1} {
		y := *l
		y.LeafIndex = big
		var b []byte
		if caught(func() { b = sunlight.AppendTileLeaf(nil, &y) }) == nil && b != nil {
			r.Fail("index-range", "an entry of index %d is encoded", big)
		}
	}
}

// strict: decoding all of b succeeds only for what encodes to b.
func strict(r *explore.Run, key string, b []byte) {
	r.Evals++
	rest := b
	var re []byte
	for n := 0; len(rest) > 0; n++ {
		e, left, err := sunlight.ReadTileLeaf(rest)
		if err != nil {
			es, err := ref.ParseTile(b)
			for _, e := range es {
				if e.Timestamp > 1<<63-1 { // not a time: may be refused
					return
				}
			}
			if err == nil {
				r.Fail(key+": refused", "the data tile %x is refused", b)
			}
			return
		}
		if len(left) >= len(rest) {
			r.Fail(key+": no progress", "reading an entry of %x consumes nothing", rest)
			return
		}
		re = sunlight.AppendTileLeaf(re, e)
		rest = left
	}
	if !bytes.Equal(re, b) {
		r.Fail(key, "the data tile %x decodes to entries that encode to %x", b, re)
	}
}

func alterScenario() explore.Scenario {
	return explore.Scenario{Name: "altered tiles", Run: func(r *explore.Run) {
		var es []*ref.Entry
		chain := []ref.Hash{sha256.Sum256([]byte("a")), sha256.Sum256([]byte("b")), sha256.Sum256([]byte("c"))}
		for i := 0; i < 8; i++ {
			e := &ref.Entry{Precert: i&1 == 1, Cert: fill("c", 3+i), Timestamp: uint64(pki.Epoch.UnixMilli()), Index: uint64(i), Chain: chain[:i/2]}
			if e.Precert {
				e.Pre, e.IssuerKeyHash = fill("p", 4+i), sha256.Sum256([]byte{byte(i)})
			}
			es = append(es, e)
		}
		first := r.Pick("first", len(es))
		var b []byte
		b = append(b, es[first].TileLeaf()...)
		if two := r.Pick("second", len(es)+1); two > 0 {
			b = append(b, es[two-1].TileLeaf()...)
		}
		strict(r, "tile", b)
		for i := range b {
			strict(r, "truncated tile", b[:i])
			strict(r, "tile without a byte", append(append([]byte(nil), b[:i]...), b[i+1:]...))
			old := b[i]
			for v := 0; v < 256; v++ {
				b[i] = byte(v)
				strict(r, "altered tile", b)
			}
			b[i] = old
			for _, v := range []byte{0, 1, 32, 255, old} {
				strict(r, "tile with another byte", append(append(append([]byte(nil), b[:i]...), v), b[i:]...))
			}
		}
		for n := 1; n <= 70; n++ {
			strict(r, "tile with a tail", append(append([]byte(nil), b...), make([]byte, n)...))
		}
		// two bytes of the frame of a single entry
		n := len(es[first].TileLeaf())
		if len(b) == n {
			vals := []int{0, 1, 2, 3, 5, 8, 31, 32, 33, 64, 255}
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					if j-i > 12 && r.Tier != "thorough" {
						break
					}
					a, c := b[i], b[j]
					for _, v := range vals {
						for _, w := range vals {
							b[i], b[j] = byte(v), byte(w)
							strict(r, "tile with two altered bytes", b)
						}
					}
					b[i], b[j] = a, c
				}
			}
		}
	}}
}

// wellFormed parses a CTExtensions list completely; bad: it is not one, or
// its leaf_index is missing, malformed or there twice.
func parseExt(b []byte) (idx uint64, before, all bool) {
	found := 0
	for len(b) > 0 {
		if len(b) < 3 || len(b) < 3+int(b[1])<<8+int(b[2]) {
			return idx, found > 0, false
		}
		d := b[3 : 3+int(b[1])<<8+int(b[2])]
		if b[0] == 0 {
			if len(d) != 5 {
				return idx, found > 0, false
			}
			if found == 0 {
				for _, c := range d {
					idx = idx<<8 | uint64(c)
				}
			}
			found++
		}
		b = b[3+len(d):]
	}
	return idx, found > 0, found == 1
}

func extCase(r *explore.Run, b []byte) {
	r.Evals++
	idx, before, all := parseExt(b)
	got, err := sunlight.ParseExtensions(b)
	switch {
	case err == nil && !before:
		r.Fail("ext-accepted", "the extensions %x have no valid leaf index but yield %d", b, got.LeafIndex)
	case err == nil && got.LeafIndex != idx:
		r.Fail("ext-value", "the extensions %x yield %d instead of %d", b, got.LeafIndex, idx)
	case err != nil && all:
		r.Fail("ext-refused", "the extensions %x are refused: %v", b, err)
	}
}

func extScenario() explore.Scenario {
	return explore.Scenario{Name: "extensions", Run: func(r *explore.Run) {
		part := r.Pick("part", 17)
		if part == 16 {
			var l []uint64
			for k := 0; k < 64; k++ {
				l = append(l, 1<<k-1, 1<<k, 1<<k+1, 0x5a5a5a5a5a5a5a5a>>(63-k))
			}
			for _, i := range append(l, 1<<64-1) {
				r.Evals++
				b, err := sunlight.MarshalExtensions(sunlight.Extensions{LeafIndex: i})
				if i >= 1<<40 {
					if err == nil {
						r.Fail("ext-range", "the index %d is encoded as %x", i, b)
					}
					continue
				}
				if err != nil || !bytes.Equal(b, ref.Extensions(i)) {
					r.Fail("ext", "the index %d is encoded as %x, %v", i, b, err)
					continue
				}
				extCase(r, b)
			}
			return
		}
		lo, hi := part*16, part*16+16
		for a := lo; a < hi; a++ {
			extCase(r, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				extCase(r, []byte{byte(a), byte(b)})
				for c := 0; c < 256; c++ {
					extCase(r, []byte{byte(a), byte(b), byte(c)})
				}
			}
		}
		samples := [][]byte{ref.Extensions(0x0102030405), append([]byte{7, 0, 2, 9, 9}, ref.Extensions(77)...), append([]byte{1, 0, 0}, ref.Extensions(1)...), append(ref.Extensions(3), 9, 0, 1, 1)}
		for _, s := range samples {
			extCase(r, s)
			for i := range s {
				extCase(r, s[:i])
				x := append([]byte(nil), s...)
				for a := lo; a < hi; a++ {
					x[i] = byte(a)
					extCase(r, x)
					for j := i + 1; j < len(s); j++ {
						o := x[j]
						for b := 0; b < 256; b++ {
							x[j] = byte(b)
							extCase(r, x)
						}
						x[j] = o
					}
				}
			}
		}
		if part == 0 {
			extCase(r, nil)
		}
	}}
}

// mem is a store in memory; missing objects are reported as S3 or as a file
// system reports them.
type mem struct {
	m     map[string][]byte
	files bool
}

func (m *mem) Get(_ context.Context, k string) ([]byte, error) {
	if b, ok := m.m[k]; ok {
		return append([]byte(nil), b...), nil
	}
	if m.files {
		return nil, &os.PathError{Op: "open", Path: k, Err: os.ErrNotExist}
	}
	return nil, fmt.Errorf("operation error S3: GetObject, %w", &s3types.NoSuchKey{})
}

func (m *mem) Set(_ context.Context, k string, d []byte) error {
	lock <- true
	m.m[k] = append([]byte(nil), d...)
	<-lock
	return nil
}
func (m *mem) Exists(_ context.Context, k string) (bool, error) { _, ok := m.m[k]; return ok, nil }

var lock = make(chan bool, 1)

// recordsScenario: every combination of old and new lookup records.
func recordsScenario() explore.Scenario {
	keys := [][16]byte{{}, {0x12, 0x34}, {0x12, 0x34, 1}, {0x12, 0x3f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x12, 0x34, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}
	idx := []uint64{0, 255, 256, 1<<40 - 1, 65536, 1 << 32}
	times := []int64{0, 1, 1700000000123, 1<<63 - 1, 1 << 40, 256}
	return explore.Scenario{Name: "lookup records", Run: func(r *explore.Run) {
		mask := 1 + r.Pick("mask", 6)
		size := []int{21, 29}[r.Pick("kind", 2)]
		olds := r.Pick("old", 4)
		st := &mem{m: map[string][]byte{}, files: mask%2 == 0}
		b := &ctsubmit.Bucket{S: st}
		dir := map[int]string{21: "int/hashes/", 29: "int/dedupe/"}[size]
		news := 3
		if r.Tier == "thorough" {
			news = 4
		}
		// all sequences of up to olds old and up to news new records
		var seq func(l []int, n int, f func([]int))
		seq = func(l []int, n int, f func([]int)) {
			if n == 0 {
				f(l)
				return
			}
			for k := range keys {
				dup := false
				for _, o := range l {
					dup = dup || o == k
				}
				if !dup {
					seq(append(l[:len(l):len(l)], k), n-1, f)
				}
			}
		}
		put := func(recs []ref.Rec) error {
			if size == 21 {
				var l []ctsubmit.RecordHashUpload
				for _, x := range recs {
					u, err := ctsubmit.BytesToRecord(x.HashRecord())
					if err != nil {
						return err
					}
					if !bytes.Equal(u.ToBytes(), x.HashRecord()) {
						return fmt.Errorf("a record changes from %x to %x", x.HashRecord(), u.ToBytes())
					}
					l = append(l, u)
				}
				return b.PutRecordHashes(context.Background(), l, mask)
			}
			var l []ctsubmit.DedupeUpload
			for _, x := range recs {
				u, err := ctsubmit.BytesToDedupe(x.DedupeRecord())
				if err != nil {
					return err
				}
				if !bytes.Equal(u.ToBytes(), x.DedupeRecord()) {
					return fmt.Errorf("a record changes from %x to %x", x.DedupeRecord(), u.ToBytes())
				}
				l = append(l, u)
			}
			return b.PutDedupeEntries(context.Background(), l, mask)
		}
		rec := func(k, i int) ref.Rec {
			x := ref.Rec{Key: keys[k], Index: idx[(k+i)%len(idx)]}
			if size == 29 {
				x.Time = times[(k+2*i)%len(times)]
			}
			return x
		}
		find := func(k [16]byte) ([]byte, error) {
			if size == 21 {
				u, err := b.GetRecordHash(context.Background(), k, mask)
				return u.ToBytes(), err
			}
			u, err := b.GetDedupeEntry(context.Background(), k, mask)
			return u.ToBytes(), err
		}
		enc := func(x ref.Rec) []byte {
			if size == 21 {
				return x.HashRecord()
			}
			return x.DedupeRecord()
		}
		if olds == 0 {
			bad := make([]byte, 64)
			for n := 0; n <= 64; n++ {
				var err error
				if size == 21 {
					_, err = ctsubmit.BytesToRecord(bad[:n])
				} else {
					_, err = ctsubmit.BytesToDedupe(bad[:n])
				}
				if (err == nil) != (n == size) {
					r.Fail("record-size", "a record of %d bytes: %v", n, err)
				}
			}
		}
		seq(nil, olds, func(old []int) {
			for n := 0; n <= news; n++ {
				if n == 4 && olds > 1 {
					continue
				}
				seq(old, n, func(l []int) {
					r.Evals++
					st.m = map[string][]byte{}
					files := map[string][]ref.Rec{}
					for i, k := range old {
						p := dir + ref.KPath(keys[k][:], mask)
						files[p] = append(files[p], rec(k, i))
					}
					for p, f := range files {
						st.m[p] = ref.EncodeIndex(f, size)
					}
					var add []ref.Rec
					for i, k := range l[len(old):] {
						x := rec(k, len(old)+i)
						add = append(add, x)
						p := dir + ref.KPath(keys[k][:], mask)
						files[p] = append(files[p], x)
					}
					what := fmt.Sprintf("records %v added to %v with a mask of %d", l[len(old):], old, mask)
					if err := put(add); err != nil {
						r.Fail("records", "%s: %v", what, err)
						return
					}
					if len(st.m) != len(files) {
						r.Fail("record-files", "%s: %d files instead of %d", what, len(st.m), len(files))
					}
					for p, f := range files {
						if !bytes.Equal(st.m[p], ref.EncodeIndex(f, size)) {
							r.Fail("record-file", "%s: file %s is %x", what, p, st.m[p])
						}
					}
					for k := range keys {
						at := -1
						for i, o := range l {
							if o == k {
								at = i
							}
						}
						got, err := find(keys[k])
						if at < 0 && err == nil {
							r.Fail("record-found", "%s: record %d is found but not there", what, k)
						} else if at >= 0 && (err != nil || !bytes.Equal(got, enc(rec(k, at)))) {
							r.Fail("record-lost", "%s: record %d is not found rightly: %x %v", what, k, got, err)
						}
					}
				})
			}
		})
	}}
}

func pathScenario() explore.Scenario {
	return explore.Scenario{Name: "tile paths", Run: func(r *explore.Run) {
		level := r.Pick("level", 7) - 1
		part := r.Pick("part", 4)
		seen := map[string]string{}
		try := func(n int64, w int) {
			r.Evals++
			t := tlog.Tile{H: sunlight.TileHeight, L: level, N: n, W: w}
			got := sunlight.Path(t)
			if want := ref.TilePath(level, int(n), w); got != want {
				r.Fail("path", "tile level %d number %d width %d has the path %s instead of %s", level, n, w, got, want)
			}
			if lib := strings.Replace(t.Path(), "tile/8/", "tile/", 1); lib != got {
				r.Fail("path", "tile level %d number %d width %d has the path %s instead of %s", level, n, w, got, lib)
			}
			id := fmt.Sprint(n, w)
			if w != 256 || part == 0 {
				if o, ok := seen[got]; ok && o != id {
					r.Fail("path-shared", "tiles %s and %s share the path %s", o, id, got)
				}
				seen[got] = id
			}
		}
		if part == 0 {
			for n := int64(0); n < 1100; n++ {
				for _, w := range []int{1, 2, 9, 10, 99, 100, 101, 254, 255, 256} {
					try(n, w)
				}
			}
			for n := int64(1000); n < 1<<40; n *= 10 {
				for k := int64(1); k < 10; k++ {
					for _, x := range []int64{-1, 0, 1} {
						try(n*k+x, 256)
						try(n*k+x, 7)
					}
				}
			}
			for k := 0; k < 40; k++ {
				for _, x := range []int64{-1, 0, 1} {
					if n := int64(1)<<k + x; n >= 0 {
						try(n, 256)
						for w := 1; w <= 256; w++ {
							try(n, w)
						}
					}
				}
			}
			return
		}
		top := int64(1100000)
		if level > 0 {
			top = 20000
		}
		for n := int64(part - 1); n < top; n += 3 {
			try(n, 256)
		}
	}}
}

func kpathScenario() explore.Scenario {
	return explore.Scenario{Name: "lookup paths", Run: func(r *explore.Run) {
		part := r.Pick("part", 17)
		if part == 16 {
			for k := 0; k < 40; k++ {
				h := sha256.Sum256([]byte{byte(k)})
				for mask := 1; mask <= 32; mask++ {
					for _, n := range []int{16, 32} {
						r.Evals++
						if got, want := sunlight.KAnonHashPath(h[:n], mask), ref.KPath(h[:n], mask); got != want {
							r.Fail("lookup-path", "the path of %x with a mask of %d is %s instead of %s", h[:n], mask, got, want)
						}
					}
				}
			}
			return
		}
		// every prefix of up to 5 digits has its own path
		for mask := 1; mask <= 5; mask++ {
			seen := map[string]bool{}
			n := 1 << (4 * mask)
			lo, hi := n/16*part, n/16*(part+1)
			for i := lo; i < hi; i++ {
				r.Evals++
				v := uint32(i) << (32 - 4*mask)
				h := make([]byte, 16)
				h[0], h[1], h[2], h[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
				p := sunlight.KAnonHashPath(h, mask)
				if want := ref.KPath(h, mask); p != want || seen[p] {
					r.Fail("lookup-path", "the path of %x with a mask of %d is %s instead of %s", h, mask, p, want)
				}
				seen[p] = true
			}
		}
	}}
}

var hSizes = []int64{0, 1, 9, 10, 255, 256, 65536, 1<<31 - 1, 1 << 32, 1<<40 - 1, 1 << 53, 1<<63 - 1}
var hStamps = []uint64{0, 1, 1700000000123, 1 << 53, 1<<63 - 1}
var hRoots = []ref.Hash{{}, sha256.Sum256(nil), sha256.Sum256([]byte("x")), {0: 0xff, 31: 0xff}}

func heads() []ref.Head {
	var l []ref.Head
	for _, n := range hSizes {
		for _, t := range hStamps {
			for _, h := range hRoots {
				l = append(l, ref.Head{Size: uint64(n), Timestamp: t, Root: h})
			}
		}
	}
	return l
}

var origins = []string{"log.example/test", "a", "example.com/ct/2025h1", "näme-ü", strings.Repeat("long", 60)}

func headScenario() explore.Scenario {
	return explore.Scenario{Name: "tree heads", Run: func(r *explore.Run) {
		key := pki.Key("enc" + fmt.Sprint(r.Pick("key", 3)))
		for _, h := range heads() {
			r.Evals++
			b, err := sunlight.SignTreeHead(key, h.Size, h.Timestamp, h.Root)
			if err != nil {
				r.Fail("sth", "the STH of %v is not made: %v", h, err)
				continue
			}
			if g, err := ref.ParseSTH(b, &key.PublicKey); err != nil || g != h {
				r.Fail("sth", "the STH of %v is %s: %v", h, b, err)
			}
			for _, o := range origins {
				b, err := sunlight.SignTreeHeadCheckpoint(o, key, int64(h.Size), int64(h.Timestamp), h.Root)
				if err != nil {
					r.Fail("checkpoint", "the checkpoint of %v for %s is not made: %v", h, o, err)
					continue
				}
				if g, err := ref.ParseCheckpoint(b, o, &key.PublicKey); err != nil || g != h {
					r.Fail("checkpoint", "the checkpoint of %v for %s is %s: %v", h, o, b, err)
				}
			}
		}
		for _, o := range []string{"", "a b", "a+b", "a\nb", "a\tb", "\xff", "a\u00a0b", "\u2028"} {
			if b, err := sunlight.SignTreeHeadCheckpoint(o, key, 1, 1, ref.Hash{}); err == nil {
				r.Fail("origin", "a checkpoint is made for the unusable origin %q: %q", o, b)
			}
		}
	}}
}

// lenient: what a base64 decoder that ignores line ends and padding bits reads.
func lenientRoot(s string) (ref.Hash, bool) {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil || len(b) != 32 {
		return ref.Hash{}, false
	}
	return ref.Hash(b), true
}

func cpCase(r *explore.Run, text string) {
	r.Evals++
	c, err := sunlight.ParseCheckpoint(text)
	// c2sp.org/tlog-checkpoint: origin, size, root, extension lines
	l := strings.SplitN(text, "\n", 4)
	ok := len(l) == 4 && strings.HasSuffix(text, "\n")
	var n int64
	var root ref.Hash
	exact := false
	if ok {
		var m int
		if k, e := fmt.Sscanf(l[1], "%d", &n); k != 1 || e != nil || fmt.Sprint(n) != l[1] || n < 0 {
			ok = false
		}
		_ = m
		var rok bool
		root, rok = lenientRoot(l[2])
		ok = ok && rok
		exact = base64.StdEncoding.EncodeToString(root[:]) == l[2]
		if l[3] != "" {
			for _, x := range strings.Split(strings.TrimSuffix(l[3], "\n"), "\n") {
				ok = ok && x != ""
			}
		}
	}
	switch {
	case err == nil && !ok:
		r.Fail("checkpoint-accepted", "the malformed checkpoint %q is accepted", text)
	case err == nil && (c.Origin != l[0] || c.N != n || c.Hash != tlog.Hash(root) || c.Extension != l[3]):
		r.Fail("checkpoint-value", "the checkpoint %q is read as %+v", text, c)
	case err != nil && ok && exact && l[0] != "":
		r.Fail("checkpoint-refused", "the checkpoint %q is refused: %v", text, err)
	case err == nil && exact && sunlight.FormatCheckpoint(c) != text:
		r.Fail("checkpoint-format", "the checkpoint %q is formatted as %q", text, sunlight.FormatCheckpoint(c))
	}
}

func checkpointScenario() explore.Scenario {
	return explore.Scenario{Name: "checkpoint texts", Run: func(r *explore.Run) {
		o := origins[r.Pick("origin", 3)]
		n := hSizes[r.Pick("size", len(hSizes))]
		ext := []string{"", "x\n", "one\ntwo\n"}[r.Pick("extension", 3)]
		for _, h := range hRoots {
			c := sunlight.Checkpoint{Origin: o, Tree: tlog.Tree{N: n, Hash: tlog.Hash(h)}, Extension: ext}
			want := fmt.Sprintf("%s\n%d\n%s\n%s", o, n, base64.StdEncoding.EncodeToString(h[:]), ext)
			t := sunlight.FormatCheckpoint(c)
			if t != want {
				r.Fail("checkpoint-format", "checkpoint %+v is formatted as %q", c, t)
			}
			cpCase(r, t)
			for i := range t {
				cpCase(r, t[:i])
				cpCase(r, t[:i]+t[i+1:])
				for _, v := range []string{"\n", "0", "1", "-", "+", " ", "=", "A", "\r", "/", "\x00"} {
					cpCase(r, t[:i]+v+t[i:])
				}
				x := []byte(t)
				for v := 0; v < 256; v++ {
					x[i] = byte(v)
					cpCase(r, string(x))
				}
			}
			for _, s := range []string{"", "-1", "+1", "01", "0x1", "1_0", "9223372036854775808", "18446744073709551616", " 1", "1 ", "1.0", "1e3", "-0", "00"} {
				cpCase(r, fmt.Sprintf("%s\n%s\n%s\n%s", o, s, base64.StdEncoding.EncodeToString(h[:]), ext))
			}
			for k := 0; k < 70; k++ {
				if k != 32 {
					cpCase(r, fmt.Sprintf("%s\n%d\n%s\n%s", o, n, base64.StdEncoding.EncodeToString(make([]byte, k)), ext))
				}
			}
		}
	}}
}

var _ = sort.Ints
