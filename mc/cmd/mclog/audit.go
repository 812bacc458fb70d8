package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

// An Audit watches one log: it sees every object written, every answer given,
// and holds both against the reference.
type Audit struct {
	w    *sim.World
	r    *explore.Run
	conf *sim.Conf
	on   map[string]bool // the monitors that report

	st           *ref.State // everything ever published
	sth          ref.Head   // as visible now
	cp           ref.Head
	hasCP        bool
	subs         map[ref.Hash]*pki.Sub // by fingerprint of the first certificate
	sths         map[ref.Head]bool
	answered     map[ref.Hash][]*SCT
	expectTil    map[string][]byte // published objects and their only right content
	verified     map[string]bool   // of those, found right and not touched since
	issuerOK     map[ref.Hash]bool
	issuerTo     int              // entries whose issuers were looked at
	byHash       map[string][]int // hash file -> entries
	byHashTo     int
	byFp         map[string][]int // dedupe file -> initial entries
	dirty        bool
	lastSTH      time.Time
	heads        int
	initial      int
	from         *ref.State // what it started from
	indexed      int        // entries whose hash record has been seen
	dedupeFaulty bool       // a read of a dedupe file was made to fail
	allSizes     []int
	damaged      string // an object that was damaged on purpose and not written since
}

type SCT struct {
	Index, Timestamp uint64
	Body             string
	At               time.Time
	sub              *pki.Sub
}

func NewAudit(w *sim.World, r *explore.Run, conf *sim.Conf, st *ref.State, n int, monitors ...string) *Audit {
	a := &Audit{w: w, r: r, conf: conf, on: map[string]bool{}, st: ref.NewState(), subs: map[ref.Hash]*pki.Sub{}, sths: map[ref.Head]bool{},
		answered: map[ref.Hash][]*SCT{}, expectTil: map[string][]byte{}, verified: map[string]bool{},
		issuerOK: map[ref.Hash]bool{}, byHash: map[string][]int{}, initial: n, from: st}
	for _, m := range monitors {
		a.on[m] = true
	}
	a.st = st.Cut(n)
	if b := w.Objs["ct/v1/get-sth"]; b != nil {
		a.sth, _ = ref.ParseSTH(b, &conf.Key.PublicKey)
	}
	if b := w.Objs["checkpoint"]; b != nil {
		a.cp, _ = ref.ParseCheckpoint(b, conf.Origin, &conf.Key.PublicKey)
		a.hasCP = true
	}
	a.lastSTH = time.Now()
	a.allSizes = append(a.allSizes, n)
	w.OnApply = a.applied
	return a
}

// fail reports under a monitor; key names what failed, independent of the run.
func (a *Audit) fail(monitor, key, f string, args ...any) {
	if a.on[monitor] {
		a.r.Fail(key, "at %v: "+f, append([]any{a.w.Now()}, args...)...)
	}
}

func (a *Audit) applied(op *sim.Op, old []byte, had bool) {
	if op.Method == "DELETE" {
		a.verified, a.issuerOK, a.issuerTo = map[string]bool{}, map[ref.Hash]bool{}, 0
		return
	}
	switch {
	case op.Key == "ct/v1/get-sth":
		h, err := ref.ParseSTH(op.Body, &a.conf.Key.PublicKey)
		if err != nil {
			a.fail("head", "sth-invalid", "%v", err)
			return
		}
		a.head("STH", h, a.sth)
		a.sth = h
		a.lastSTH = time.Now()
	case op.Key == "checkpoint":
		h, err := ref.ParseCheckpoint(op.Body, a.conf.Origin, &a.conf.Key.PublicKey)
		if err != nil {
			a.fail("head", "checkpoint-invalid", "%v", err)
			return
		}
		a.head("checkpoint", h, a.cp)
		a.cp, a.hasCP = h, true
	case strings.HasPrefix(op.Key, "int/hashes/"):
		a.hashFile(op.Key, op.Body)
	case strings.HasPrefix(op.Key, "int/dedupe/"):
		a.dedupeFile(op.Key, op.Body)
	case strings.HasPrefix(op.Key, "tile/"):
		delete(a.verified, op.Key)
		if op.Key == a.damaged {
			a.damaged = ""
		}
		if want, ok := a.expectTil[op.Key]; ok && !bytes.Equal(want, op.Body) {
			a.fail("tree", "published-object-changed", "%s of the published tree was overwritten with other content", op.Key)
		}
	case strings.HasPrefix(op.Key, "issuer/"):
		if fmt.Sprintf("issuer/%x", sha256.Sum256(op.Body)) != op.Key {
			a.fail("tree", "issuer-content", "%s does not hold the certificate of that hash", op.Key)
		}
	case op.Key == "ct/v1/get-roots":
		a.fail("tree", "roots-written", "the log rewrote its roots")
	}
}

// head checks a newly visible tree head against the store as it is now.
func (a *Audit) head(kind string, h, prev ref.Head) {
	a.heads++
	now := uint64(time.Now().UnixMilli())
	n := int(h.Size)
	pub := a.st.N()
	if h.Size < prev.Size {
		a.fail("append", "shrank", "%s of size %d after one of size %d", kind, h.Size, prev.Size)
		return
	}
	if h.Timestamp < prev.Timestamp {
		a.fail("time", "head-timestamp-back", "%s timestamp %d after %d", kind, h.Timestamp, prev.Timestamp)
	}
	if h.Timestamp > now {
		a.fail("time", "head-timestamp-future", "%s timestamp %d, now %d", kind, h.Timestamp, now)
	}
	if n > pub {
		a.extend(kind, n)
	}
	if a.st.N() < n {
		return // already reported
	}
	if root := a.st.Tree.Root(n); root != h.Root {
		a.fail("append", "root-mismatch", "%s of size %d has root %x; the entries published have %x", kind, n, h.Root[:4], root[:4])
	}
	if n > 0 && a.st.At(int(n-1)).Timestamp > h.Timestamp {
		a.fail("time", "head-before-entry", "%s timestamp %d is before entry %d's %d", kind, h.Timestamp, n-1, a.st.At(int(n-1)).Timestamp)
	}
	a.tiles(kind, n)
	if len(a.allSizes) == 0 || a.allSizes[len(a.allSizes)-1] != n {
		a.allSizes = append(a.allSizes, n)
	}
}

// extend reads the entries beyond those known from the data tiles.
func (a *Audit) extend(kind string, n int) {
	for a.st.N() < n {
		i := a.st.N()
		tn := i / 256
		wd := 256
		if (tn+1)*256 > n {
			wd = n - tn*256
		}
		t := ref.TileID{L: -1, N: tn, W: wd}
		b, ok := a.w.Objs[t.Path()]
		if !ok {
			a.fail("tree", "data-tile-missing", "%s of size %d is visible but %s is not there", kind, n, t.Path())
			return
		}
		es, err := ref.ParseTile(b)
		if err != nil || len(es) != wd {
			a.fail("tree", "data-tile-broken", "%s: %v, %d entries", t.Path(), err, len(es))
			return
		}
		for j := i - tn*256; j < wd; j++ {
			e := es[j]
			if e.Index != uint64(tn*256+j) {
				a.fail("dense", "leaf-index", "entry at position %d says leaf_index %d", tn*256+j, e.Index)
			}
			if k := a.st.N(); k > 0 && e.Timestamp < a.st.At(int(k-1)).Timestamp {
				a.fail("time", "entry-timestamp-back", "entry %d has timestamp %d after %d", k, e.Timestamp, a.st.At(int(k-1)).Timestamp)
			}
			s := a.subs[sha256.Sum256(e.Submitted())]
			if s == nil {
				a.fail("dense", "phantom-entry", "entry %d was never submitted", tn*256+j)
			} else if !s.Matches(e) {
				a.fail("dense", "entry-mangled", "entry %d is not what submission %s calls for: %s", tn*256+j, s.Name, diff(s.Entry(e.Index, e.Timestamp), e))
			} else {
				for _, c := range s.Chain[1:] {
					a.st.Issuers[sha256.Sum256(c)] = c
				}
			}
			a.st.Append(e)
		}
	}
}

func diff(want, got *ref.Entry) string {
	switch {
	case want.Precert != got.Precert:
		return "entry type"
	case !bytes.Equal(want.Cert, got.Cert):
		return "certificate / TBS"
	case want.IssuerKeyHash != got.IssuerKeyHash:
		return "issuer key hash"
	case !bytes.Equal(want.Pre, got.Pre):
		return "precertificate"
	case len(want.Chain) != len(got.Chain):
		return "chain length"
	}
	return "chain fingerprints"
}

func (a *Audit) tiles(kind string, n int) {
	for _, t := range a.st.Wanted(n) {
		p := t.Path()
		if a.verified[p] || p == a.damaged {
			continue
		}
		got, ok := a.w.Objs[p]
		want, known := a.expectTil[p]
		if !known {
			want = a.tile(t)
			a.expectTil[p] = want
		}
		if !ok {
			a.fail("tree", "tile-missing", "%s of size %d is visible but %s is not there", kind, n, p)
		} else if !bytes.Equal(got, want) {
			a.fail("tree", "tile-content", "%s of size %d is visible but %s has the wrong content", kind, n, p)
		} else {
			a.verified[p] = true
		}
	}
	bad := -1
	for _, i := range a.st.Known(a.issuerTo, n) {
		for _, f := range a.st.At(int(i)).Chain {
			if a.issuerOK[f] {
				continue
			}
			if _, ok := a.w.Objs[fmt.Sprintf("issuer/%x", f)]; !ok {
				a.fail("tree", "issuer-missing", "%s of size %d is visible but issuer/%x of entry %d is not there", kind, n, f[:4], i)
				bad = i
			} else {
				a.issuerOK[f] = true
			}
		}
	}
	if bad < 0 {
		a.issuerTo = max(a.issuerTo, n)
	}
	if a.on["index"] {
		from := 0
		if a.heads > 1 {
			from = a.indexed
		}
		for _, i := range a.st.Known(from, n) {
			lh := a.st.Tree.Leaf(i)
			p := "int/hashes/" + ref.KPath(lh[:], a.conf.Mask)
			rec := ref.Rec{Key: [16]byte(lh[:16]), Index: uint64(i)}.HashRecord()
			found := false
			b := a.w.Objs[p]
			for j := 0; j+21 <= len(b) && !found; j += 21 {
				found = bytes.Equal(b[j:j+21], rec)
			}
			if !found {
				a.fail("index", "hash-record-missing", "%s of size %d is visible but %s has no record of entry %d", kind, n, p, i)
			}
		}
		a.indexed = max(a.indexed, n)
	}
}

type tileKey struct {
	of *ref.State
	t  ref.TileID
}

var tileCache = map[tileKey][]byte{}

// tile is the right content of t; tiles wholly inside the (shared) initial
// entries are kept across executions.
func (a *Audit) tile(t ref.TileID) []byte {
	if span := t.W << (8 * max(t.L, 0)); t.N*256<<(8*max(t.L, 0))+span > a.initial {
		return a.st.Tile(t)
	}
	k := tileKey{a.from, t}
	b, ok := tileCache[k]
	if !ok {
		b = a.st.Tile(t)
		tileCache[k] = b
	}
	return b
}

func (a *Audit) hashFile(key string, b []byte) {
	rs, err := ref.ParseIndex(b, 21)
	if err != nil {
		a.fail("index", "hash-file-format", "%s: %v", key, err)
		return
	}
	have := map[ref.Rec]bool{}
	for _, r := range rs {
		have[r] = true
		if "int/hashes/"+ref.KPath(r.Key[:], a.conf.Mask) != key {
			a.fail("index", "hash-record-misplaced", "%s holds a record of %x", key, r.Key[:4])
		}
	}
	for _, i := range a.st.Known(a.byHashTo, a.st.N()) {
		lh := a.st.Tree.Leaf(i)
		k := "int/hashes/" + ref.KPath(lh[:], a.conf.Mask)
		a.byHash[k] = append(a.byHash[k], i)
	}
	a.byHashTo = a.st.N()
	for _, i := range a.byHash[key] {
		lh := a.st.Tree.Leaf(i)
		if !have[ref.Rec{Key: [16]byte(lh[:16]), Index: uint64(i)}] {
			a.fail("index", "hash-record-lost", "%s lost the record of published entry %d", key, i)
		}
	}
}

func (a *Audit) dedupeFile(key string, b []byte) {
	rs, err := ref.ParseIndex(b, 29)
	if err != nil {
		a.fail("index", "dedupe-file-format", "%s: %v", key, err)
		return
	}
	have := map[uint64]bool{}
	for _, r := range rs {
		have[r.Index] = true
		if "int/dedupe/"+ref.KPath(r.Key[:], a.conf.Mask) != key {
			a.fail("index", "dedupe-record-misplaced", "%s holds a record of %x", key, r.Key[:4])
		}
		// A record is what a later SCT is made from: it must describe a
		// published entry.
		i := int(r.Index)
		if i >= a.st.N() || uint64(i) >= a.sth.Size {
			a.fail("dedupe", "dedupe-unpublished", "%s points at entry %d, which is not in the published tree (size %d)", key, i, a.sth.Size)
			continue
		}
		e := a.st.At(int(i))
		fp := sha256.Sum256(e.Submitted())
		// A precertificate under a precertificate-signing issuer may make several
		// entries, so how it is looked up is up to the log.
		if !bytes.Equal(fp[:16], r.Key[:]) && !a.underPre(fp) || int64(e.Timestamp) != r.Time {
			a.fail("dedupe", "dedupe-wrong", "%s maps %x to entry %d at %d, which is another entry", key, r.Key[:4], i, r.Time)
		}
	}
	if a.byFp == nil {
		a.byFp = map[string][]int{}
		for _, i := range a.st.Known(0, a.initial) {
			fp := sha256.Sum256(a.st.At(i).Submitted())
			k := "int/dedupe/" + ref.KPath(fp[:], a.conf.Mask)
			a.byFp[k] = append(a.byFp[k], i)
		}
	}
	for _, i := range a.byFp[key] {
		if !have[uint64(i)] {
			a.fail("dedupe", "dedupe-lost", "%s lost the record of entry %d", key, i)
		}
	}
	// and records that an earlier version of the file had stay
	for fp, scts := range a.answered {
		if "int/dedupe/"+ref.KPath(fp[:], a.conf.Mask) != key || a.underPre(fp) {
			continue
		}
		ok := false
		for _, s := range scts {
			ok = ok || have[s.Index]
		}
		if !ok {
			a.fail("dedupe", "dedupe-lost", "%s lost the record of entry %d, whose SCT was handed out", key, scts[0].Index)
		}
	}
}

func (a *Audit) underPre(fp ref.Hash) bool {
	s := a.subs[fp]
	return s != nil && s.Precert && s.UnderPre
}

// expect registers a submission so that entries can be traced to it.
func (a *Audit) expect(s *pki.Sub) { a.subs[sha256.Sum256(s.Chain[0])] = s }

type sctJSON struct {
	Version    int    `json:"sct_version"`
	ID         []byte `json:"id"`
	Timestamp  uint64 `json:"timestamp"`
	Extensions string `json:"extensions"`
	Signature  []byte `json:"signature"`
}

// answer checks a 200 answer to submission s.
func (a *Audit) answer(q *sim.Req, s *pki.Sub) *SCT {
	var j sctJSON
	d := json.NewDecoder(bytes.NewReader(q.Body))
	d.DisallowUnknownFields()
	if err := d.Decode(&j); err != nil {
		a.fail("sct", "sct-json", "answer to %s: %v", q.Name, err)
		return nil
	}
	id := ref.LogID(&a.conf.Key.PublicKey)
	if j.Version != 0 || !bytes.Equal(j.ID, id[:]) {
		a.fail("sct", "sct-header", "answer to %s: version %d, log id %x", q.Name, j.Version, j.ID)
	}
	x, err := base64.StdEncoding.DecodeString(j.Extensions)
	if err != nil || len(x) != 8 || x[0] != 0 || x[1] != 0 || x[2] != 5 {
		a.fail("sct", "sct-extensions", "answer to %s: extensions %q", q.Name, j.Extensions)
		return nil
	}
	var idx uint64
	for _, c := range x[3:] {
		idx = idx<<8 | uint64(c)
	}
	e := s.Entry(idx, j.Timestamp)
	if err := ref.VerifyDS(&a.conf.Key.PublicKey, e.Leaf(), j.Signature); err != nil {
		a.fail("sct", "sct-signature", "answer to %s: %v", q.Name, err)
	}
	if idx >= a.sth.Size {
		a.fail("sct", "sct-unpublished", "answer to %s promises entry %d, the visible STH has size %d", q.Name, idx, a.sth.Size)
	} else if !a.hasCP || idx >= a.cp.Size {
		a.fail("sct", "sct-no-checkpoint", "answer to %s promises entry %d, the visible checkpoint has size %d", q.Name, idx, a.cp.Size)
	} else if idx >= uint64(a.st.N()) {
		return nil // the tree is broken, which is reported elsewhere
	} else if p := a.st.At(int(idx)); !bytes.Equal(p.Leaf(), e.Leaf()) {
		a.fail("sct", "sct-not-the-leaf", "answer to %s promises entry %d at %d, the log has another leaf there", q.Name, idx, j.Timestamp)
	}
	if j.Timestamp > uint64(q.At.UnixMilli()) {
		a.fail("time", "sct-timestamp-future", "answer to %s at %d has timestamp %d", q.Name, q.At.UnixMilli(), j.Timestamp)
	}
	sct := &SCT{idx, j.Timestamp, string(q.Body), q.At, s}
	fp := sha256.Sum256(s.Chain[0])
	earlier, same := 0, false
	for _, o := range a.answered[fp] {
		if o.At.Before(q.Sent) {
			earlier++
		}
		same = same || o.Body == sct.Body
	}
	// An SCT was out (and recorded) before this was asked for.
	if earlier > 0 && !same && !a.dedupeFaulty {
		a.fail("dedupe", "dedupe-missed", "%s resubmitted after its SCT (entry %d) gets another one (entry %d)", q.Name, a.answered[fp][0].Index, sct.Index)
	}
	a.answered[fp] = append(a.answered[fp], sct)
	return sct
}

// Final checks what must hold of the log at rest: every SCT handed out is
// still backed, and the store is complete for the current head.
func (a *Audit) Final() {
	for _, l := range a.answered {
		for _, sct := range l {
			s := sct.sub
			if sct.Index >= uint64(a.st.N()) || sct.Index >= a.sth.Size {
				a.fail("sct", "sct-lost", "the SCT of %s for entry %d is not backed by the final tree of size %d", s.Name, sct.Index, a.sth.Size)
			} else if !bytes.Equal(a.st.At(int(sct.Index)).Leaf(), s.Entry(sct.Index, sct.Timestamp).Leaf()) {
				a.fail("sct", "sct-lost", "the SCT of %s for entry %d is not backed by the final tree", s.Name, sct.Index)
			}
		}
	}
	if n := int(a.sth.Size); n <= a.st.N() {
		a.tiles("final STH", n)
	}
	// partial tiles of every size ever published stay readable
	for p, want := range a.expectTil {
		got, ok := a.w.Objs[p]
		if full, _, partial := strings.Cut(p, ".p/"); !ok && partial {
			_, ok = a.w.Objs[full] // superseded partial tiles may be removed
			got = want
		}
		if !ok || !bytes.Equal(got, want) {
			a.fail("tree", "published-object-gone", "%s, part of a published tree, is gone or changed", p)
		}
	}
	for k, v := range a.w.Objs {
		if strings.HasPrefix(k, "int/hashes/") {
			a.hashFile(k, v)
		} else if strings.HasPrefix(k, "int/dedupe/") {
			a.dedupeFile(k, v)
		}
	}
}
