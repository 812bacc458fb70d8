// Package ref is an independent implementation of what itko publishes: RFC 6962
// leaves, hashes and proofs, static-ct tiles, checkpoints and the two index
// formats of itko's design document.  It shares no code with /repo (nor with
// golang.org/x/mod/sumdb/tlog) and is the oracle of the checks.
package ref

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Hash = [32]byte

func LeafHash(leaf []byte) Hash { return sha256.Sum256(append([]byte{0}, leaf...)) }
func NodeHash(l, r Hash) Hash {
	var b [65]byte
	b[0] = 1
	copy(b[1:], l[:])
	copy(b[33:], r[:])
	return sha256.Sum256(b[:])
}

// Tree holds the hashes of all complete subtrees: lv[k][i] covers leaves
// [i*2^k, (i+1)*2^k).
type Tree struct {
	lv    [][]Hash
	trunk *Trunk // if set, lv[0] holds the leaves from trunk.B on, and nothing else is kept
}

// Trunk stands for the first B leaves (a multiple of 256) of a tree too large to
// build: the roots of its tiles are made up, except along the paths to some open
// data tiles, whose leaves exist.
type Trunk struct {
	B    int
	open map[[2]int]bool // {level, tile}: the tile above has its real root
	data []int           // the open data tiles, in order
	leaf func(i int) Hash
	memo map[[2]int]Hash
}

// NewTrunk is a trunk of b leaves with the last data tile and those given open.
func NewTrunk(b int, leaf func(int) Hash, data ...int) *Trunk {
	t := &Trunk{B: b, open: map[[2]int]bool{}, leaf: leaf, memo: map[[2]int]Hash{}}
	for _, d := range append(data, b/256-1) {
		if d < 0 || d >= b/256 || t.open[[2]int{0, d}] {
			continue
		}
		t.data = append(t.data, d)
		for l, n := 0, d; l < 7; l, n = l+1, n/256 {
			t.open[[2]int{l, n}] = true
		}
	}
	sort.Ints(t.data)
	return t
}

// node is the hash of leaves [i*2^k, (i+1)*2^k).
func (t *Tree) node(k, i int) Hash {
	u := t.trunk
	if u == nil {
		return t.lv[k][i]
	}
	inside := (i+1)<<k <= u.B
	if k == 0 {
		if inside {
			return u.leaf(i)
		}
		return t.lv[0][i-u.B]
	}
	if inside {
		if h, ok := u.memo[[2]int{k, i}]; ok {
			return h
		}
	}
	var h Hash
	if inside && k%8 == 0 && !u.open[[2]int{k/8 - 1, i}] {
		h = sha256.Sum256([]byte(fmt.Sprintf("made up %d %d", k, i)))
	} else {
		h = NodeHash(t.node(k-1, 2*i), t.node(k-1, 2*i+1))
	}
	if inside {
		u.memo[[2]int{k, i}] = h
	}
	return h
}

func (t *Tree) Size() int {
	n := 0
	if len(t.lv) > 0 {
		n = len(t.lv[0])
	}
	if t.trunk != nil {
		n += t.trunk.B
	}
	return n
}
func (t *Tree) Add(h Hash) {
	if t.trunk != nil {
		if len(t.lv) == 0 {
			t.lv = [][]Hash{nil}
		}
		t.lv[0] = append(t.lv[0], h)
		return
	}
	for k := 0; ; k++ {
		if k == len(t.lv) {
			t.lv = append(t.lv, nil)
		}
		t.lv[k] = append(t.lv[k], h)
		n := len(t.lv[k])
		if n%2 == 1 {
			return
		}
		h = NodeHash(t.lv[k][n-2], t.lv[k][n-1])
	}
}
func (t *Tree) Leaf(i int) Hash { return t.node(0, i) }

// Clone returns an independent copy cut to n leaves.
func (t *Tree) Clone(n int) *Tree {
	c := &Tree{trunk: t.trunk}
	if t.trunk != nil {
		if n < t.trunk.B {
			panic("cut within the trunk")
		}
		n -= t.trunk.B
	}
	for k := range t.lv {
		m := n >> k
		if m == 0 {
			break
		}
		c.lv = append(c.lv, append([]Hash(nil), t.lv[k][:m]...))
	}
	return c
}

// MTH is the Merkle tree hash of leaves [a,b), RFC 6962 section 2.1.
func (t *Tree) MTH(a, b int) Hash {
	n := b - a
	if n == 0 {
		return sha256.Sum256(nil)
	}
	if n&(n-1) == 0 {
		k := bits.TrailingZeros(uint(n))
		if a%n == 0 {
			return t.node(k, a/n)
		}
	}
	k := split(n)
	return NodeHash(t.MTH(a, a+k), t.MTH(a+k, b))
}
func (t *Tree) Root(n int) Hash { return t.MTH(0, n) }

// split is the largest power of two smaller than n (n > 1).
func split(n int) int { return 1 << (bits.Len(uint(n-1)) - 1) }

// Path is PATH(m, D[a:b]) of RFC 6962 section 2.1.1.
func (t *Tree) path(m, a, b int) []Hash {
	n := b - a
	if n == 1 {
		return []Hash{}
	}
	k := split(n)
	if m < k {
		return append(t.path(m, a, a+k), t.MTH(a+k, b))
	}
	return append(t.path(m-k, a+k, b), t.MTH(a, a+k))
}
func (t *Tree) Inclusion(m, n int) []Hash { return t.path(m, 0, n) }

// Consistency is PROOF(m, D[n]) of RFC 6962 section 2.1.2.
func (t *Tree) Consistency(m, n int) []Hash {
	if m == 0 || m == n {
		return []Hash{}
	}
	return t.subproof(m, 0, n, true)
}
func (t *Tree) subproof(m, a, b int, whole bool) []Hash {
	n := b - a
	if m == n {
		if whole {
			return []Hash{}
		}
		return []Hash{t.MTH(a, b)}
	}
	k := split(n)
	if m <= k {
		return append(t.subproof(m, a, a+k, whole), t.MTH(a+k, b))
	}
	return append(t.subproof(m-k, a+k, b, false), t.MTH(a, a+k))
}

// VerifyInclusion is the verification algorithm of RFC 9162 section 2.1.3.2.
func VerifyInclusion(leaf Hash, idx, size uint64, path []Hash, root Hash) bool {
	if idx >= size {
		return false
	}
	fn, sn, r := idx, size-1, leaf
	for _, p := range path {
		if sn == 0 {
			return false
		}
		if fn&1 == 1 || fn == sn {
			r = NodeHash(p, r)
			if fn&1 == 0 {
				for fn&1 == 0 && fn != 0 {
					fn >>= 1
					sn >>= 1
				}
			}
		} else {
			r = NodeHash(r, p)
		}
		fn >>= 1
		sn >>= 1
	}
	return sn == 0 && r == root
}

// VerifyConsistency is the verification algorithm of RFC 9162 section 2.1.4.2.
func VerifyConsistency(m, n uint64, path []Hash, rm, rn Hash) bool {
	if m > n {
		return false
	}
	if m == n {
		return len(path) == 0 && rm == rn
	}
	if m == 0 {
		return len(path) == 0
	}
	if m&(m-1) == 0 {
		path = append([]Hash{rm}, path...)
	}
	if len(path) == 0 {
		return false
	}
	fn, sn := m-1, n-1
	for fn&1 == 1 {
		fn >>= 1
		sn >>= 1
	}
	fr, sr := path[0], path[0]
	for _, c := range path[1:] {
		if sn == 0 {
			return false
		}
		if fn&1 == 1 || fn == sn {
			fr = NodeHash(c, fr)
			sr = NodeHash(c, sr)
			if fn&1 == 0 {
				for fn&1 == 0 && fn != 0 {
					fn >>= 1
					sn >>= 1
				}
			}
		} else {
			sr = NodeHash(sr, c)
		}
		fn >>= 1
		sn >>= 1
	}
	return sn == 0 && fr == rm && sr == rn
}

// ---------------------------------------------------------------- entries

type Entry struct {
	Precert       bool
	Cert          []byte // leaf certificate, or the TBS of a precertificate
	IssuerKeyHash Hash
	Pre           []byte // the precertificate as submitted
	Chain         []Hash // fingerprints of the rest of the chain
	Timestamp     uint64
	Index         uint64
}

func u24(n int) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }
func u16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

// Extensions is the static-ct leaf_index extension list.
func Extensions(idx uint64) []byte {
	return []byte{0, 0, 5, byte(idx >> 32), byte(idx >> 24), byte(idx >> 16), byte(idx >> 8), byte(idx)}
}

func (e *Entry) timestamped() []byte {
	b := binary.BigEndian.AppendUint64(nil, e.Timestamp)
	if e.Precert {
		b = append(b, 0, 1)
		b = append(b, e.IssuerKeyHash[:]...)
	} else {
		b = append(b, 0, 0)
	}
	b = append(b, u24(len(e.Cert))...)
	b = append(b, e.Cert...)
	x := Extensions(e.Index)
	b = append(b, u16(len(x))...)
	return append(b, x...)
}

// Leaf is the MerkleTreeLeaf, and also what an SCT signs.
func (e *Entry) Leaf() []byte { return append([]byte{0, 0}, e.timestamped()...) }

func (e *Entry) LeafHash() Hash { return LeafHash(e.Leaf()) }

// TileLeaf is the entry in a data tile.
func (e *Entry) TileLeaf() []byte {
	b := e.timestamped()
	if e.Precert {
		b = append(b, u24(len(e.Pre))...)
		b = append(b, e.Pre...)
	}
	b = append(b, u16(32*len(e.Chain))...)
	for _, c := range e.Chain {
		b = append(b, c[:]...)
	}
	return b
}

// Submitted is the first certificate of the submitted chain.
func (e *Entry) Submitted() []byte {
	if e.Precert {
		return e.Pre
	}
	return e.Cert
}

// ExtraData is the RFC 6962 extra_data given the certificates of the chain.
func (e *Entry) ExtraData(chain [][]byte) []byte {
	var l []byte
	for _, c := range chain {
		l = append(l, u24(len(c))...)
		l = append(l, c...)
	}
	var b []byte
	if e.Precert {
		b = append(b, u24(len(e.Pre))...)
		b = append(b, e.Pre...)
	}
	b = append(b, u24(len(l))...)
	return append(b, l...)
}

type rd struct {
	b  []byte
	ok bool
}

func (r *rd) take(n int) []byte {
	if !r.ok || n > len(r.b) {
		r.ok = false
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) num(n int) uint64 {
	var v uint64
	for _, c := range r.take(n) {
		v = v<<8 | uint64(c)
	}
	return v
}

// ParseTile decodes a data tile strictly.
func ParseTile(b []byte) ([]*Entry, error) {
	var out []*Entry
	r := &rd{b, true}
	for len(r.b) > 0 && r.ok {
		e := &Entry{}
		e.Timestamp = r.num(8)
		switch r.num(2) {
		case 0:
		case 1:
			e.Precert = true
			copy(e.IssuerKeyHash[:], r.take(32))
		default:
			return nil, fmt.Errorf("entry %d: unknown type", len(out))
		}
		e.Cert = r.take(int(r.num(3)))
		x := r.take(int(r.num(2)))
		if len(x) != 8 || x[0] != 0 || x[1] != 0 || x[2] != 5 {
			return nil, fmt.Errorf("entry %d: bad extensions %x", len(out), x)
		}
		for _, c := range x[3:] {
			e.Index = e.Index<<8 | uint64(c)
		}
		if e.Precert {
			e.Pre = r.take(int(r.num(3)))
		}
		n := int(r.num(2))
		if n%32 != 0 {
			return nil, fmt.Errorf("entry %d: chain length %d", len(out), n)
		}
		c := r.take(n)
		for i := 0; i+32 <= len(c); i += 32 {
			e.Chain = append(e.Chain, Hash(c[i:i+32]))
		}
		if !r.ok {
			return nil, fmt.Errorf("entry %d: truncated", len(out))
		}
		out = append(out, e)
	}
	return out, nil
}

// ---------------------------------------------------------------- paths

// TilePath names tile n of level l (-1: data) with width w.
func TilePath(l, n, w int) string {
	s := fmt.Sprintf("%03d", n%1000)
	for m := n / 1000; m > 0; m /= 1000 {
		s = fmt.Sprintf("x%03d/", m%1000) + s
	}
	lv := "data"
	if l >= 0 {
		lv = strconv.Itoa(l)
	}
	if w != 256 {
		s += ".p/" + strconv.Itoa(w)
	}
	return "tile/" + lv + "/" + s
}

// Wanted lists the tiles of a tree of size n: for every level the full tiles
// and the partial one, if any.
type TileID struct{ L, N, W int }

func (t TileID) Path() string { return TilePath(t.L, t.N, t.W) }

func Wanted(n int) []TileID {
	var out []TileID
	for l := -1; ; l++ {
		m := n
		if l > 0 {
			m = n >> (8 * l)
		}
		if m == 0 {
			break
		}
		for i := 0; i < m/256; i++ {
			out = append(out, TileID{l, i, 256})
		}
		if m%256 != 0 {
			out = append(out, TileID{l, m / 256, m % 256})
		}
	}
	return out
}

// TileData is the content of a hash tile.
func (t *Tree) TileData(id TileID) []byte {
	var b []byte
	for i := 0; i < id.W; i++ {
		h := t.node(8*id.L, id.N*256+i)
		b = append(b, h[:]...)
	}
	return b
}

// KPath is the k-anonymous index path: the first `mask` hex digits in groups of two.
func KPath(h []byte, mask int) string {
	s := hex.EncodeToString(h)[:mask]
	var p []string
	for len(s) > 2 {
		p = append(p, s[:2])
		s = s[2:]
	}
	return strings.Join(append(p, s), "/")
}

// ---------------------------------------------------------------- index files

type Rec struct {
	Key   [16]byte
	Index uint64
	Time  int64 // dedupe records only
}

func le40(v uint64) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32)}
}

func (r Rec) HashRecord() []byte { return append(append([]byte{}, r.Key[:]...), le40(r.Index)...) }
func (r Rec) DedupeRecord() []byte {
	return binary.LittleEndian.AppendUint64(r.HashRecord(), uint64(r.Time))
}

// ParseIndex decodes an index file with records of the given size (21 or 29).
func ParseIndex(b []byte, size int) ([]Rec, error) {
	if len(b)%size != 0 {
		return nil, fmt.Errorf("length %d is not a multiple of %d", len(b), size)
	}
	var out []Rec
	for i := 0; i < len(b); i += size {
		var r Rec
		copy(r.Key[:], b[i:])
		for j := 4; j >= 0; j-- {
			r.Index = r.Index<<8 | uint64(b[i+16+j])
		}
		if size == 29 {
			r.Time = int64(binary.LittleEndian.Uint64(b[i+21:]))
		}
		out = append(out, r)
	}
	for i := 1; i < len(out); i++ {
		if bytes.Compare(out[i-1].Key[:], out[i].Key[:]) > 0 {
			return out, errors.New("records are not sorted")
		}
	}
	return out, nil
}

// EncodeIndex sorts (stably) and encodes records.
func EncodeIndex(rs []Rec, size int) []byte {
	rs = append([]Rec(nil), rs...)
	sort.SliceStable(rs, func(i, j int) bool { return bytes.Compare(rs[i].Key[:], rs[j].Key[:]) < 0 })
	var b []byte
	for _, r := range rs {
		if size == 29 {
			b = append(b, r.DedupeRecord()...)
		} else {
			b = append(b, r.HashRecord()...)
		}
	}
	return b
}

// ---------------------------------------------------------------- heads

type Head struct {
	Size      uint64
	Timestamp uint64
	Root      Hash
}

func (h Head) signed() []byte {
	b := []byte{0, 1}
	b = binary.BigEndian.AppendUint64(b, h.Timestamp)
	b = binary.BigEndian.AppendUint64(b, h.Size)
	return append(b, h.Root[:]...)
}

// VerifyDS checks a TLS digitally-signed (sha256/ecdsa) over msg.
func VerifyDS(pub *ecdsa.PublicKey, msg, ds []byte) error {
	if len(ds) < 4 || ds[0] != 4 || ds[1] != 3 || int(ds[2])<<8|int(ds[3]) != len(ds)-4 {
		return fmt.Errorf("malformed digitally-signed %x", ds)
	}
	d := sha256.Sum256(msg)
	if !ecdsa.VerifyASN1(pub, d[:], ds[4:]) {
		return errors.New("signature does not verify")
	}
	return nil
}

// SignDS is the deterministic (RFC 6979) digitally-signed over msg.
func SignDS(key *ecdsa.PrivateKey, msg []byte) []byte {
	d := sha256.Sum256(msg)
	s, err := key.Sign(nil, d[:], hashOpts{})
	if err != nil {
		panic(err)
	}
	return append([]byte{4, 3, byte(len(s) >> 8), byte(len(s))}, s...)
}

type sthJSON struct {
	TreeSize  uint64 `json:"tree_size"`
	Timestamp uint64 `json:"timestamp"`
	Root      []byte `json:"sha256_root_hash"`
	Signature []byte `json:"tree_head_signature"`
}

func (h Head) STH(key *ecdsa.PrivateKey) []byte {
	b, _ := json.Marshal(sthJSON{h.Size, h.Timestamp, h.Root[:], SignDS(key, h.signed())})
	return b
}

// ParseSTH decodes and verifies a signed tree head.
func ParseSTH(b []byte, pub *ecdsa.PublicKey) (Head, error) {
	var j sthJSON
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if err := d.Decode(&j); err != nil {
		return Head{}, fmt.Errorf("STH %q: %w", b, err)
	}
	if len(j.Root) != 32 {
		return Head{}, fmt.Errorf("STH root has %d bytes", len(j.Root))
	}
	h := Head{j.TreeSize, j.Timestamp, Hash(j.Root)}
	if err := VerifyDS(pub, h.signed(), j.Signature); err != nil {
		return h, fmt.Errorf("STH of size %d: %w", h.Size, err)
	}
	return h, nil
}

func LogID(pub *ecdsa.PublicKey) Hash {
	spki, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	return sha256.Sum256(spki)
}

func noteKeyID(origin string, pub *ecdsa.PublicKey) []byte {
	id := LogID(pub)
	d := sha256.Sum256(append(append([]byte(origin), '\n', 5), id[:]...))
	return d[:4]
}

// Checkpoint formats a signed checkpoint (c2sp.org/static-ct-api).
func (h Head) Checkpoint(origin string, key *ecdsa.PrivateKey) []byte {
	text := fmt.Sprintf("%s\n%d\n%s\n", origin, h.Size, base64.StdEncoding.EncodeToString(h.Root[:]))
	sig := append([]byte{}, noteKeyID(origin, &key.PublicKey)...)
	sig = binary.BigEndian.AppendUint64(sig, h.Timestamp)
	sig = append(sig, SignDS(key, h.signed())...)
	return []byte(text + "\n\u2014 " + origin + " " + base64.StdEncoding.EncodeToString(sig) + "\n")
}

// ParseCheckpoint decodes and verifies a checkpoint with exactly one signature.
func ParseCheckpoint(b []byte, origin string, pub *ecdsa.PublicKey) (Head, error) {
	var h Head
	l := strings.Split(string(b), "\n")
	if len(l) != 6 || l[0] != origin || l[3] != "" || l[5] != "" {
		return h, fmt.Errorf("malformed checkpoint %q", b)
	}
	n, err := strconv.ParseUint(l[1], 10, 63)
	if err != nil || strconv.FormatUint(n, 10) != l[1] {
		return h, fmt.Errorf("malformed checkpoint size %q", l[1])
	}
	root, err := base64.StdEncoding.Strict().DecodeString(l[2])
	if err != nil || len(root) != 32 {
		return h, fmt.Errorf("malformed checkpoint root %q", l[2])
	}
	h.Size, h.Root = n, Hash(root)
	pre := "\u2014 " + origin + " "
	if !strings.HasPrefix(l[4], pre) {
		return h, fmt.Errorf("malformed checkpoint signature line %q", l[4])
	}
	sig, err := base64.StdEncoding.Strict().DecodeString(l[4][len(pre):])
	if err != nil || len(sig) < 12 {
		return h, fmt.Errorf("malformed checkpoint signature %q", l[4])
	}
	if !bytes.Equal(sig[:4], noteKeyID(origin, pub)) {
		return h, fmt.Errorf("checkpoint key id %x", sig[:4])
	}
	h.Timestamp = binary.BigEndian.Uint64(sig[4:12])
	if err := VerifyDS(pub, h.signed(), sig[12:]); err != nil {
		return h, fmt.Errorf("checkpoint of size %d: %w", h.Size, err)
	}
	return h, nil
}
