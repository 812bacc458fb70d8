package ref

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/sha256"
	"fmt"
	"sort"
)

type hashOpts struct{}

func (hashOpts) HashFunc() crypto.Hash { return crypto.SHA256 }

// State is a log: its entries and the Merkle tree over them.
type State struct {
	Entries []*Entry // from Base() on
	Tree    Tree
	Issuers map[Hash][]byte
	gen     func(i int) *Entry
}

// Base is where the known entries begin; before it only those of open tiles are.
func (s *State) Base() int {
	if s.Tree.trunk == nil {
		return 0
	}
	return s.Tree.trunk.B
}

// N is the number of entries.
func (s *State) N() int { return s.Base() + len(s.Entries) }

// At is entry i.
func (s *State) At(i int) *Entry {
	if b := s.Base(); i >= b {
		return s.Entries[i-b]
	}
	return s.gen(i)
}

// Known lists the entries in [a,n) that exist.
func (s *State) Known(a, n int) []int {
	var l []int
	if u := s.Tree.trunk; u != nil {
		for _, d := range u.data {
			for i := max(a, d*256); i < min(n, d*256+256); i++ {
				l = append(l, i)
			}
		}
		a = max(a, u.B)
	}
	for i := a; i < n; i++ {
		l = append(l, i)
	}
	return l
}

// Wanted lists the tiles that a log of n entries must have, of those that exist.
func (s *State) Wanted(n int) []TileID {
	u := s.Tree.trunk
	if u == nil {
		return Wanted(n)
	}
	var out []TileID
	for l := -1; ; l++ {
		m, b := n, u.B
		if l > 0 {
			m, b = n>>(8*l), u.B>>(8*l)
		}
		if m == 0 {
			return out
		}
		seen := map[int]bool{}
		add := func(i int) {
			if w := min(m-i*256, 256); i >= 0 && w > 0 && !seen[i] {
				seen[i] = true
				out = append(out, TileID{l, i, w})
			}
		}
		for _, d := range u.data {
			add(d >> (8 * max(l, 0)))
		}
		for i := (b - 1) / 256; i*256 < m; i++ {
			add(i)
		}
	}
}

// Large is a log of n entries of which only the last ones, those of the data tile
// before them and those of the given data tiles exist.
func Large(n int, ts uint64, data []int, issuers ...[]byte) *State {
	s := NewState()
	s.gen = func(i int) *Entry { return fillerEntry(i, ts, s.fps(issuers)) }
	s.Tree.trunk = NewTrunk((n-1)&^255, func(i int) Hash { return s.gen(i).LeafHash() }, data...)
	s.Filler(n, ts, issuers...)
	return s
}

// Cut is an independent copy of the first n entries.
func (s *State) Cut(n int) *State {
	c := &State{Entries: s.Entries[: n-s.Base() : n-s.Base()], Tree: *s.Tree.Clone(n), Issuers: map[Hash][]byte{}, gen: s.gen}
	for k, v := range s.Issuers {
		c.Issuers[k] = v
	}
	return c
}

func NewState() *State { return &State{Issuers: map[Hash][]byte{}} }

func (s *State) Append(e *Entry) {
	s.Entries = append(s.Entries, e)
	s.Tree.Add(e.LeafHash())
}

func (s *State) Head(n int, ts uint64) Head {
	return Head{uint64(n), ts, s.Tree.Root(n)}
}

// DataTile is the content of data tile n with width w.
func (s *State) DataTile(n, w int) []byte {
	var b []byte
	for i := n * 256; i < n*256+w; i++ {
		b = append(b, s.At(i).TileLeaf()...)
	}
	return b
}

func (s *State) Tile(t TileID) []byte {
	if t.L < 0 {
		return s.DataTile(t.N, t.W)
	}
	return s.Tree.TileData(t)
}

// HashIndex and DedupeIndex are the index files for the first n entries.
func (s *State) HashIndex(n, mask int) map[string][]byte { return s.index(n, mask, 21) }
func (s *State) DedupeIndex(n, mask int) map[string][]byte {
	return s.index(n, mask, 29)
}
func (s *State) index(n, mask, size int) map[string][]byte {
	m := map[string][]Rec{}
	for _, i := range s.Known(0, n) {
		e := s.At(i)
		var r Rec
		h := s.Tree.Leaf(i)
		if size == 29 {
			h = sha256.Sum256(e.Submitted())
			r.Time = int64(e.Timestamp)
		}
		copy(r.Key[:], h[:])
		r.Index = uint64(i)
		p := KPath(h[:], mask)
		m[p] = append(m[p], r)
	}
	out := map[string][]byte{}
	dir := "int/hashes/"
	if size == 29 {
		dir = "int/dedupe/"
	}
	for p, rs := range m {
		out[dir+p] = EncodeIndex(rs, size)
	}
	return out
}

// Publish returns everything that a log with n entries has in its store.  sizes
// are the earlier published sizes whose partial tiles are still there.
func (s *State) Publish(n, mask int, ts uint64, origin string, key *ecdsa.PrivateKey, sizes ...int) map[string][]byte {
	o := map[string][]byte{}
	for _, m := range append(sizes, n) {
		for _, t := range s.Wanted(m) {
			o[t.Path()] = s.Tile(t)
		}
	}
	for k, v := range s.HashIndex(n, mask) {
		o[k] = v
	}
	for k, v := range s.DedupeIndex(n, mask) {
		o[k] = v
	}
	for _, i := range s.Known(0, n) {
		for _, f := range s.At(i).Chain {
			o[fmt.Sprintf("issuer/%x", f)] = s.Issuers[f]
		}
	}
	h := s.Head(n, ts)
	o["ct/v1/get-sth"] = h.STH(key)
	o["checkpoint"] = h.Checkpoint(origin, key)
	return o
}

// Filler appends small synthetic entries (the read path never parses the
// certificates themselves) until the state has n entries.
func (s *State) Filler(n int, ts uint64, issuers ...[]byte) {
	fps := s.fps(issuers)
	for i := s.N(); i < n; i++ {
		s.Append(fillerEntry(i, ts, fps))
	}
}

func (s *State) fps(issuers [][]byte) []Hash {
	var fps []Hash
	for _, c := range issuers {
		f := sha256.Sum256(c)
		s.Issuers[f] = c
		fps = append(fps, f)
	}
	return fps
}

func fillerEntry(i int, ts uint64, fps []Hash) *Entry {
	e := &Entry{Cert: []byte(fmt.Sprintf("cert-%07d", i)), Timestamp: ts, Index: uint64(i)}
	if len(fps) > 0 {
		e.Chain = fps[i%len(fps) : i%len(fps)+1]
	}
	if i%3 == 1 {
		e.Precert = true
		e.Pre = []byte(fmt.Sprintf("pre-%07d", i))
		e.IssuerKeyHash = sha256.Sum256([]byte("ikh"))
	}
	return e
}

func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
