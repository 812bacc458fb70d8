package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"testing/synctest"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

var longCache = map[int]*pki.Sub{}

func longSub(i int) *pki.Sub {
	s := longCache[i]
	if s == nil {
		n, o := fmt.Sprint("long", i), pki.LeafOpt{OmitRoot: i%2 == 1}
		switch i % 9 {
		case 1:
			s = pki.Pre(n, std.I2, o)
		case 2:
			s = pki.Cert(n, std.I1x, o)
		case 3:
			s = pki.Pre(n, std.P1, o)
		case 5:
			s = pki.Pre(n, std.P1x, o)
		case 6:
			s = pki.Cert(n, std.I1t, o)
		case 8:
			s = pki.Cert(n, std.J1, o)
		default:
			s = pki.Cert(n, std.I1, o)
		}
		longCache[i] = s
	}
	return s
}

// heavySub are certificates of about 60 kB.
func heavySub(i int) *pki.Sub {
	s := longCache[-1-i]
	if s == nil {
		o := pki.LeafOpt{Mod: func(t *x509.Certificate) {
			t.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 99999, 3}, Value: bytes.Repeat([]byte{4, 6, byte(i), byte(i >> 8), 5, 6, 7, 8}, 7500)}}
		}}
		n := fmt.Sprint("heavy", i)
		if i%2 == 0 {
			s = pki.Cert(n, std.I1, o)
		} else {
			s = pki.Pre(n, std.I2, o)
		}
		longCache[-1-i] = s
	}
	return s
}

// long is what counters, caches and buffers that outlive one publication need:
// hundreds of publications of one process, pools of every size up to 60 at every
// alignment to the tiles, hours of idleness, many restarts.
func long(m []string) explore.Scenario {
	return explore.Scenario{Name: "long", Bubble: true, Run: func(r *explore.Run) {
		kind := r.Pick("kind", 8)
		mask := 1 + r.Pick("mask", 2)*2
		d := newLog(r, []int{3, 200, 0, 254, 65500, 3, 3, 250}[kind], nil, func(c *sim.Conf) { c.Mask, c.FlushMs = mask, []int{100, 100, 100, 1000, 100, 100, 100, 100}[kind] }, m, nil)
		next, sub := 0, longSub
		if kind == 7 {
			sub = heavySub
		}
		round := func(k int) bool {
			first := len(d.reqs)
			for i := 0; i < k; i++ {
				d.submit(sub(next))
				next++
			}
			if next%7 == 3 && next > 8 {
				d.submit(sub(next - 8)) // one that is there already
			}
			if !d.flow(10*time.Second, func() bool { return d.pending() == 0 }) {
				d.fail("live", "unanswered", "after %d submissions requests are not answered: %s", next, d.open())
				return false
			}
			for _, x := range d.reqs[first:] {
				if x.q.Status != 200 {
					d.fail("live", "rejected", "submission %d is answered %d %q", next, x.q.Status, x.q.Body)
					return false
				}
			}
			return true
		}
		again := func() bool {
			d.w.Kill(d.live, "killed")
			d.landing()
			d.live = d.start()
			ok := d.flow(70*time.Second, func() bool { return d.live.Up || d.live.Dead }) && !d.live.Dead
			if !ok {
				d.fail("live", "no-start", "after %d submissions the log does not start again: %s", next, d.live.Exit)
			}
			return ok
		}
		ok := true
		switch kind {
		case 0: // one by one
			for i := 0; i < 600 && ok; i++ {
				ok = round(1)
			}
		case 1: // pools of 1, 2, 3, ...
			for i := 1; i <= 60 && ok; i++ {
				ok = round(i)
			}
		case 2: // a restart after each
			for i := 0; i < 130 && ok; i++ {
				ok = round(1+i%3) && again()
			}
		case 3: // hours of nothing, in between and twice
			for i := 0; i < 3 && ok; i++ {
				ok = round(2)
				if d.flow(time.Duration(i)*time.Hour, func() bool { return d.live.Dead }) {
					d.fail("live", "ended", "the idle log ended: %s", d.live.Exit)
					ok = false
				}
				if age := time.Since(d.lastSTH); ok && age > 5*time.Second {
					d.fail("live", "stale-sth", "an idle log has not renewed its STH for %v", age)
				}
			}
		case 4: // full pools
			for i := 0; i < 4 && ok; i++ {
				ok = round(255)
			}
			ok = ok && round(300) && again() && round(1)
		case 5: // many that are refused
			for i := 0; i < 40 && ok; i++ {
				var bad []*sim.Req
				for j := 0; j < 60; j++ {
					s := longSub(100000 + j)
					p, b := endpoint(s), s.Body()
					switch j % 6 {
					case 0:
						b = b[:len(b)-9]
					case 1:
						p = map[string]string{"/ct/v1/add-chain": "/ct/v1/add-pre-chain", "/ct/v1/add-pre-chain": "/ct/v1/add-chain"}[p]
					case 2:
						b = pki.ChainBody(s.Chain[:1])
					case 3:
						b = pki.ChainBody([][]byte{s.Chain[0], std.R2.DER})
					case 4:
						b = append(b, make([]byte, 128*1024)...)
					case 5:
						p += "x"
					}
					bad = append(bad, d.w.Do(d.live, "refused", "POST", p, b))
				}
				d.flow(10*time.Second, func() bool {
					for _, q := range bad {
						if !q.Done {
							return false
						}
					}
					return true
				})
				for j, q := range bad {
					if q.Status < 400 || q.Status >= 500 && j%6 != 4 {
						d.fail("live", "refusal", "bad submission %d is answered %d %q (%v)", i*60+j, q.Status, q.Body, q.Err)
						ok = false
					}
				}
				d.w.Reqs = d.w.Reqs[:0]
				ok = ok && round(1)
			}
		case 6: // many whose clients go away
			for i := 0; i < 40 && ok; i++ {
				first := len(d.reqs)
				for j := 0; j < 30; j++ {
					d.submit(longSub(next))
					next++
				}
				d.w.Settle()
				for _, x := range d.reqs[first:] {
					x.q.HangUp()
				}
				ok = round(1 + i%2)
			}
		case 7: // large ones
			for i := 0; i < 3 && ok; i++ {
				ok = round(80) && again()
			}
		}
		// and all of them again
		if n := next; ok && again() {
			for i := 0; i < n; i += 1 + n/300 {
				d.submit(sub(i))
				if !d.flow(10*time.Second, func() bool { return d.pending() == 0 }) {
					d.fail("live", "unanswered", "resubmissions are not answered: %s", d.open())
					break
				}
			}
		}
		d.Audit.Final()
		r.Evals++
		r.Outcome(fmt.Sprint(kind, mask, d.sth.Size, d.procs))
		d.w.Close()
	}}
}

// near: the file a resubmission is looked up in also holds records whose keys
// differ from the right one in one bit.
func near(m []string) explore.Scenario {
	return explore.Scenario{Name: "near", Bubble: true, Run: func(r *explore.Run) {
		n0 := 20
		k := r.Pick("submission", 8)
		own := r.Pick("own record", 2) == 1 // the submission was made before
		d := newLog(r, n0, nil, func(c *sim.Conf) { c.Mask = 2 }, []string{"tree", "dense", "sct"}, nil)
		s := longSub(k)
		var first *SCT
		ask := func() *SCT {
			x := d.submit(s)
			if !d.flow(10*time.Second, func() bool { return d.pending() == 0 }) || x.q.Status != 200 {
				r.Fail("rejected", "%s is answered %d %q", s.Name, x.q.Status, x.q.Body)
				return nil
			}
			return x.sct
		}
		if own {
			first = ask()
		}
		fp := sha256.Sum256(s.Chain[0])
		key := "int/dedupe/" + ref.KPath(fp[:], 2)
		recs, err := ref.ParseIndex(d.w.Objs[key], 29)
		if err != nil {
			panic(err)
		}
		for bit := 8; bit < 128; bit++ {
			x := fp
			x[bit/8] ^= 0x80 >> (bit % 8)
			i := bit % n0
			recs = append(recs, ref.Rec{Key: [16]byte(x[:16]), Index: uint64(i), Time: int64(d.st.At(i).Timestamp)})
		}
		d.w.Put(key, ref.EncodeIndex(recs, 29))
		for i := 0; i < 2; i++ {
			a := ask()
			if a != nil && first != nil && a.Body != first.Body {
				r.Fail("other-sct", "%s gets another SCT, for entry %d and not %d", s.Name, a.Index, first.Index)
			}
			if a != nil && a.Index < uint64(n0) {
				r.Fail("wrong-entry", "%s gets an SCT for entry %d, which is another one", s.Name, a.Index)
			}
			first = a
		}
		r.Evals++
		r.Outcome(fmt.Sprint(k, own, d.sth.Size))
		d.w.Close()
	}}
}

// nearHash: the file a new entry is recorded in already holds records, of
// entries that were never published, whose hashes differ from its own in one bit.
func nearHash(m []string) explore.Scenario {
	return explore.Scenario{Name: "near hashes", Run: func(r *explore.Run) {
		k := r.Pick("submission", 4)
		off := r.Pick("index", 2)
		mask := 1 + r.Pick("mask", 2)
		const n0 = 20
		run := func(h *ref.Hash) (out *ref.Hash) {
			d := newLog(r, n0, nil, func(c *sim.Conf) { c.Mask = mask }, m, func(d *Driver) {
				if h == nil {
					return
				}
				key := "int/hashes/" + ref.KPath(h[:], mask)
				recs, err := ref.ParseIndex(d.w.Objs[key], 21)
				if err != nil {
					panic(err)
				}
				for bit := 8 * mask; bit < 128; bit++ {
					x := *h
					x[bit/8] ^= 0x80 >> (bit % 8)
					recs = append(recs, ref.Rec{Key: [16]byte(x[:16]), Index: uint64(n0 + off)})
				}
				d.w.Put(key, ref.EncodeIndex(recs, 21))
			})
			d.submit(longSub(k))
			d.flow(10*time.Second, func() bool { return d.pending() == 0 })
			d.Audit.Final()
			if d.st.N() > n0 {
				x := d.st.At(n0).LeafHash()
				out = &x
			}
			if h != nil {
				r.Outcome(fmt.Sprint(k, off, mask, d.sth.Size, out != nil && *out == *h))
			}
			r.Evals++
			d.w.Close()
			return out
		}
		var h *ref.Hash
		synctest.VerifRun(func() { h = run(nil) })
		if h == nil {
			r.Fail("not-published", "the entry was not published")
			return
		}
		synctest.VerifRun(func() { run(h) })
	}}
}

// ages: entries of any age, also such that an earlier process with a clock that
// was ahead has given a timestamp of the future, are submitted again.
func ages(m []string) explore.Scenario {
	return explore.Scenario{Name: "ages", Bubble: true, Run: func(r *explore.Run) {
		n := []int{3, 240, 1000, 1<<32 + 300}[r.Pick("entries", 4)]
		mask := 1 + r.Pick("mask", 2)*2
		now := time.Now().UnixMilli()
		ts := []int64{1, 1<<31 + 7, 1 << 32, 1 << 40, now + 1, now + 1500, 1 << 45}
		for _, a := range []time.Duration{0, time.Second, time.Minute, 61 * time.Minute, 25 * time.Hour, 8 * 24 * time.Hour, 31 * 24 * time.Hour, 91 * 24 * time.Hour, 400 * 24 * time.Hour} {
			ts = append(ts, now-a.Milliseconds(), now+a.Milliseconds()+600000)
		}
		st := filler(n).Cut(n)
		var subs []*pki.Sub
		var want []*ref.Entry
		for i := 0; len(subs) < 2*len(ts); i++ {
			s := longSub(i)
			if s.Precert && len(s.Chain) > 3 { // of a precertificate-signing certificate
				continue
			}
			e := s.Entry(uint64(st.N()), uint64(ts[len(subs)/2]))
			for k, h := range e.Chain {
				st.Issuers[h] = s.Chain[1+k]
			}
			st.Append(e)
			subs, want = append(subs, s), append(want, e)
		}
		d := newLogOf(r, st, st.N(), nil, func(c *sim.Conf) { c.Mask = mask }, m, nil)
		for round := 0; round < 3; round++ {
			first := len(d.reqs)
			for _, s := range subs {
				d.submit(s)
				if round < 2 && !d.flow(10*time.Second, func() bool { return d.pending() == 0 }) {
					break
				}
			}
			d.flow(10*time.Second, func() bool { return d.pending() == 0 })
			for i, x := range d.reqs[first:] {
				r.Evals++
				if x.q.Status != 200 {
					r.Fail("rejected", "%s, which is entry %d, is answered %d %q", x.s.Name, want[i].Index, x.q.Status, x.q.Body)
				} else if x.sct != nil && (x.sct.Index != want[i].Index || x.sct.Timestamp != want[i].Timestamp) {
					r.Fail("other-sct", "%s, which is entry %d at %d, gets an SCT for entry %d at %d", x.s.Name, want[i].Index, want[i].Timestamp, x.sct.Index, x.sct.Timestamp)
				}
			}
			d.flow(time.Second, func() bool { return false })
		}
		r.Outcome(fmt.Sprint(n, mask, d.sth.Size))
		d.Audit.Final()
		d.w.Close()
	}}
}
