package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"strings"

	"itko.dev/mcheck/ref"
)

// A req is one request to the read side with what must come of it.
type req struct {
	target string
	kind   string
	method string // GET
	// ok says whether the request is valid for a tree of n entries.
	ok func(n int) bool
	// right says whether a 200 answer is right for a tree of n entries.
	right func(n int, body []byte) error
	open  bool // whether it is valid is left open
}

func decode(b []byte, v any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if err := d.Decode(v); err != nil {
		return fmt.Errorf("%.80q: %w", b, err)
	}
	if d.More() {
		return fmt.Errorf("trailing data in %.80q", b)
	}
	return nil
}

func b64(h ref.Hash) string { return url.QueryEscape(base64.StdEncoding.EncodeToString(h[:])) }

func samePath(got [][]byte, want []ref.Hash) error {
	if got == nil {
		return errors.New("the path is missing")
	}
	if len(got) != len(want) {
		return fmt.Errorf("the path has %d hashes and not %d", len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i][:]) {
			return fmt.Errorf("hash %d of the path is wrong", i)
		}
	}
	return nil
}

func hashes(l [][]byte) []ref.Hash {
	var out []ref.Hash
	for _, b := range l {
		var h ref.Hash
		copy(h[:], b)
		out = append(out, h)
	}
	return out
}

func chain(st *ref.State, e *ref.Entry) [][]byte {
	var l [][]byte
	for _, f := range e.Chain {
		l = append(l, st.Issuers[f])
	}
	return l
}

func sameEntry(st *ref.State, i int, leaf, extra []byte) error {
	e := st.At(i)
	if !bytes.Equal(leaf, e.Leaf()) {
		return fmt.Errorf("entry %d: wrong leaf input", i)
	}
	if !bytes.Equal(extra, e.ExtraData(chain(st, e))) {
		return fmt.Errorf("entry %d: wrong extra data", i)
	}
	return nil
}

func getEntries(st *ref.State, start, end int) req {
	return req{kind: "get-entries", target: fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", start, end),
		ok: func(n int) bool { return 0 <= start && start <= end && start < n },
		right: func(n int, body []byte) error {
			if !(0 <= start && start <= end && start < n) {
				return errors.New("the range is not valid")
			}
			var a struct {
				Entries []struct {
					Leaf  []byte `json:"leaf_input"`
					Extra []byte `json:"extra_data"`
				} `json:"entries"`
			}
			if err := decode(body, &a); err != nil {
				return err
			}
			if len(a.Entries) == 0 {
				return errors.New("no entries")
			}
			if last := start + len(a.Entries) - 1; last > end || last >= n {
				return fmt.Errorf("%d entries", len(a.Entries))
			}
			for k, e := range a.Entries {
				if err := sameEntry(st, start+k, e.Leaf, e.Extra); err != nil {
					return err
				}
			}
			return nil
		}}
}

func proofByHash(st *ref.State, i, size int) req {
	return req{kind: "get-proof-by-hash", target: fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", b64(st.Tree.Leaf(i)), size),
		ok: func(n int) bool { return i < size && size <= n },
		right: func(n int, body []byte) error {
			if !(i < size && size <= n) {
				return errors.New("there is no such proof")
			}
			var a struct {
				Index int64    `json:"leaf_index"`
				Path  [][]byte `json:"audit_path"`
			}
			if err := decode(body, &a); err != nil {
				return err
			}
			if a.Index != int64(i) {
				return fmt.Errorf("the index is %d and not %d", a.Index, i)
			}
			if err := samePath(a.Path, st.Tree.Inclusion(i, size)); err != nil {
				return err
			}
			if !ref.VerifyInclusion(st.Tree.Leaf(i), uint64(i), uint64(size), hashes(a.Path), st.Tree.Root(size)) {
				return errors.New("the path does not verify")
			}
			return nil
		}}
}

func badHash(st *ref.State, what string, h ref.Hash, size int) req {
	return req{kind: "get-proof-by-hash of " + what, target: fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", b64(h), size), ok: never, right: unwanted}
}

func never(int) bool                 { return false }
func unwanted(n int, b []byte) error { return errors.New("there is no right answer") }

func entryAndProof(st *ref.State, i, size int) req {
	return req{kind: "get-entry-and-proof", target: fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", i, size),
		ok: func(n int) bool { return 0 <= i && i < size && size <= n },
		right: func(n int, body []byte) error {
			if !(0 <= i && i < size && size <= n) {
				return errors.New("there is no such entry")
			}
			var a struct {
				Leaf  []byte   `json:"leaf_input"`
				Extra []byte   `json:"extra_data"`
				Path  [][]byte `json:"audit_path"`
			}
			if err := decode(body, &a); err != nil {
				return err
			}
			if err := sameEntry(st, i, a.Leaf, a.Extra); err != nil {
				return err
			}
			if err := samePath(a.Path, st.Tree.Inclusion(i, size)); err != nil {
				return err
			}
			if !ref.VerifyInclusion(ref.LeafHash(a.Leaf), uint64(i), uint64(size), hashes(a.Path), st.Tree.Root(size)) {
				return errors.New("the path does not verify")
			}
			return nil
		}}
}

func consistency(st *ref.State, first, second int) req {
	return req{kind: "get-sth-consistency", target: fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", first, second),
		open: first == 0,
		ok:   func(n int) bool { return 0 < first && first <= second && second <= n },
		right: func(n int, body []byte) error {
			if !(0 <= first && first <= second && second <= n) {
				return errors.New("there is no such proof")
			}
			var a struct {
				Path [][]byte `json:"consistency"`
			}
			if err := decode(body, &a); err != nil {
				return err
			}
			if err := samePath(a.Path, st.Tree.Consistency(first, second)); err != nil {
				return err
			}
			if !ref.VerifyConsistency(uint64(first), uint64(second), hashes(a.Path), st.Tree.Root(first), st.Tree.Root(second)) {
				return errors.New("the proof does not verify")
			}
			return nil
		}}
}

// asIs answers with one of the given documents, unchanged.
func asIs(name string, docs func() [][]byte) req {
	return req{kind: name, target: "/ct/v1/" + name, ok: func(int) bool { return true },
		right: func(n int, body []byte) error {
			for _, d := range docs() {
				if bytes.Equal(d, body) {
					return nil
				}
			}
			return fmt.Errorf("%.60q is not what is published", body)
		}}
}

// malformed requests, per endpoint; each must get a client error.
func malformed(st *ref.State, n int) []req {
	var l []req
	bad := func(target string) {
		kind, _, _ := strings.Cut(strings.TrimPrefix(target, "/ct/v1/"), "?")
		l = append(l, req{kind: "malformed " + kind, target: target, ok: never, right: unwanted})
	}
	nums := []string{"", "abc", "-1", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1.0", "1e0", "0x0", "0b1", "1_0", "%201", "1%20", "1,2", "%EF%BC%91", "%00", "--1", "null", "NaN", "0%00"}
	over := []string{fmt.Sprint(n), fmt.Sprint(n + 1), fmt.Sprint(n + 256), "4294967296", "1099511627776", "4611686018427387904", "9223372036854775807"}
	two := func(path, a, b, okA, okB string) {
		bad("/ct/v1/" + path)
		bad("/ct/v1/" + path + "?")
		bad("/ct/v1/" + path + "?" + a + "=" + okA)
		bad("/ct/v1/" + path + "?" + b + "=" + okB)
		bad("/ct/v1/" + path + "?" + strings.ToUpper(a) + "=" + okA + "&" + strings.ToUpper(b) + "=" + okB)
		bad("/ct/v1/" + path + "?" + a + "=" + okA + ";" + b + "=" + okB)
		for _, v := range nums {
			bad(fmt.Sprintf("/ct/v1/%s?%s=%s&%s=%s", path, a, v, b, okB))
			bad(fmt.Sprintf("/ct/v1/%s?%s=%s&%s=%s", path, a, okA, b, v))
			bad(fmt.Sprintf("/ct/v1/%s?%s=%s&%s=%s", path, a, v, b, v))
		}
	}
	last := fmt.Sprint(max(n-1, 0))
	two("get-entries", "start", "end", "0", last)
	for _, v := range over {
		bad("/ct/v1/get-entries?start=" + v + "&end=" + v)
		bad("/ct/v1/get-entries?start=" + v + "&end=9223372036854775807")
		bad("/ct/v1/get-entries?start=" + v + "&end=0")
	}
	bad("/ct/v1/get-entries?start=1&end=0")
	bad("/ct/v1/get-entries?start=9223372036854775807&end=9223372036854775806")
	two("get-sth-consistency", "first", "second", "1", fmt.Sprint(n))
	for _, v := range over[1:] {
		bad("/ct/v1/get-sth-consistency?first=1&second=" + v)
		bad("/ct/v1/get-sth-consistency?first=" + v + "&second=" + v)
		bad("/ct/v1/get-sth-consistency?first=" + v + "&second=1")
	}
	bad(fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", n+1, n))
	h := ref.Hash{1}
	if n > 0 {
		h = st.Tree.Leaf(0)
	}
	good := b64(h)
	two("get-proof-by-hash", "tree_size", "hash", fmt.Sprint(n), good)
	for _, v := range append(over[1:], "0") {
		bad("/ct/v1/get-proof-by-hash?hash=" + good + "&tree_size=" + v)
	}
	raw := base64.StdEncoding.EncodeToString(h[:])
	for _, v := range []string{raw[:43], raw[:40], raw[:4], raw + "=", raw + "AAAA", "A" + raw, base64.StdEncoding.EncodeToString(h[:31]), base64.StdEncoding.EncodeToString(append(h[:], 0)),
		base64.StdEncoding.EncodeToString(h[:16]), fmt.Sprintf("%x", h), "!" + raw[1:], raw[:20] + " " + raw[21:], strings.Repeat("A", 20000)} {
		bad("/ct/v1/get-proof-by-hash?hash=" + url.QueryEscape(v) + "&tree_size=" + fmt.Sprint(max(n, 1)))
	}
	two("get-entry-and-proof", "leaf_index", "tree_size", "0", fmt.Sprint(n))
	for _, v := range over {
		bad(fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%s&tree_size=%d", v, n))
		bad("/ct/v1/get-entry-and-proof?leaf_index=" + v + "&tree_size=" + v)
		bad("/ct/v1/get-entry-and-proof?leaf_index=" + v + "&tree_size=9223372036854775807")
	}
	for _, v := range over[1:] {
		bad("/ct/v1/get-entry-and-proof?leaf_index=0&tree_size=" + v)
	}
	bad("/ct/v1/get-entry-and-proof?leaf_index=0&tree_size=0")
	for _, p := range []string{"/", "/ct", "/ct/v1/", "/ct/v1/get-sth/", "/ct/v1/get-sth/x", "/ct/v2/get-sth", "/get-sth", "/ct/v1/get-entry", "/ct/v1/GET-STH", "/ct/v1/add-chain", "/checkpoint",
		"/tile/0/000", "/ct/v1/get-entries/?start=0&end=0", "/ct/v1/get-proof-by-hash/", "/ct/v1/get-sth%2Fx"} {
		l = append(l, req{kind: "unknown path", target: p, ok: never, right: unwanted})
	}
	return l
}
