package main

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"strings"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

// Input enumeration: every execution is one log and one group of inputs; the
// explorer runs all groups.

// newLog starts a log whose store answers at once.
func newLog(r *explore.Run, n0 int, sizes []int, conf func(*sim.Conf), monitors []string, prep func(*Driver)) *Driver {
	return newLogOf(r, filler(n0), n0, sizes, conf, monitors, prep)
}

func newLogOf(r *explore.Run, st *ref.State, n0 int, sizes []int, conf func(*sim.Conf), monitors []string, prep func(*Driver)) *Driver {
	w := sim.New()
	c := sim.DefaultConf(std)
	c.FlushMs = 100
	if conf != nil {
		conf(c)
	}
	w.Install(c, st, n0, sizes...)
	d := &Driver{Audit: NewAudit(w, r, c, st, n0, monitors...), plan: &Plan{Monitors: monitors, NoRestart: true}, extra: map[string]any{}}
	r.LogFn = func() []string {
		var out []string
		for _, e := range w.Log {
			out = append(out, fmt.Sprintf("%10.3fs %s", e.T.Seconds(), e.What))
		}
		return out
	}
	w.Gate = func(*sim.Op) bool { return false }
	if prep != nil {
		prep(d)
	}
	d.live = d.start()
	d.flow(70*time.Second, func() bool { return d.live.Up || d.live.Dead })
	return d
}

// A try is one request and what must come of it.
type try struct {
	what   string
	method string
	path   string
	body   []byte
	sub    *pki.Sub // not nil: must be accepted, and logged as this
}

// tryAll sends the requests, in batches, and checks the answers.
func (d *Driver) tryAll(l []try) {
	for len(l) > 0 {
		n := min(len(l), 40)
		var qs []*sim.Req
		for _, t := range l[:n] {
			if t.sub != nil {
				d.expect(t.sub)
			}
			qs = append(qs, d.w.Do(d.live, t.what, t.method, t.path, t.body))
		}
		done := func() bool {
			for _, q := range qs {
				if !q.Done {
					return false
				}
			}
			return true
		}
		if !d.flow(30*time.Second, done) {
			for _, q := range qs {
				if !q.Done {
					d.r.Fail("no-answer", "%s gets no answer", q.Name)
				}
			}
			return
		}
		for i, q := range qs {
			t := l[i]
			d.r.Evals++
			if t.sub != nil {
				if q.Status != 200 {
					d.r.Fail("rejected: "+class(t.what), "%s must be accepted; the answer is %d %q", t.what, q.Status, q.Body)
				} else {
					d.answer(q, t.sub)
				}
			} else if q.Status == 200 {
				d.r.Fail("accepted: "+class(t.what), "%s must be rejected; the answer is 200 %.60q", t.what, q.Body)
			} else if q.Status < 400 {
				d.r.Fail("no-error: "+class(t.what), "%s must be rejected; the answer is %d (%v)", t.what, q.Status, q.Err)
			}
			d.r.Outcome(fmt.Sprint(class(t.what), q.Status))
		}
		l = l[n:]
	}
}

func class(s string) string { c, _, _ := strings.Cut(s, " ["); return c }

func (d *Driver) finish() {
	if !d.live.Dead {
		d.tryAll([]try{{"a good certificate afterwards", "POST", "/ct/v1/add-chain", pki.Cert("after", std.I1, pki.LeafOpt{}).Body(), pki.Cert("after", std.I1, pki.LeafOpt{})}})
	} else {
		d.r.Fail("log-stopped", "the log ended: %s", d.live.Exit)
	}
	d.Audit.Final()
	d.r.State(d.w.Sum)
	d.w.Close()
}

var logMonitors = []string{"tree", "dense", "sct", "append"}

// ---------------------------------------------------------------- C06: chains

// The alphabet of certificates a chain is put together from.
func alphabet() []*pki.CA {
	return []*pki.CA{std.J1, std.I1, std.I1x, std.R1, std.R2, std.I2, std.IX, std.RX, fakeR1, fakeI1}
}

var (
	// same names as the real ones, other keys
	fakeR1 = pki.Fake("R1", nil)
	fakeI1 = pki.Fake("I1", std.R1)
)

func sameName(a, b *pki.CA) bool { return bytes.Equal(a.X.RawSubject, b.X.RawSubject) }

// signs says whether up is a right next element after ca.
func signs(up *pki.CA, x *x509.Certificate) bool {
	return bytes.Equal(up.X.RawSubject, x.RawIssuer) && x.CheckSignatureFrom(up.X) == nil
}

// valid says whether leaf followed by seq is acceptable, and gives the full
// chain with the root.  known is false where the rules leave it open.
func valid(leaf *x509.Certificate, seq []*pki.CA, trusted []*pki.CA) (full [][]byte, ok, known bool) {
	full = [][]byte{leaf.Raw}
	x := leaf
	for i, c := range seq {
		for _, o := range seq[:i] {
			if o == c {
				return nil, false, false
			}
		}
		if !signs(c, x) || !c.X.IsCA {
			return nil, false, true
		}
		full = append(full, c.DER)
		x = c.X
	}
	var up [][]byte
	for _, t := range trusted {
		if !bytes.Equal(t.DER, x.Raw) && signs(t, x) {
			up = append(up, t.DER)
		}
	}
	for _, t := range trusted {
		if bytes.Equal(t.DER, x.Raw) {
			return full, true, len(up) == 0
		}
	}
	if len(up) == 1 {
		return append(full, up[0]), true, true
	}
	return nil, false, len(up) == 0
}

func chainsScenario() explore.Scenario {
	issuers := func() []*pki.CA {
		return []*pki.CA{std.J1, std.I1, std.R1, std.I2, std.IX, std.RX, std.P1, fakeI1}
	}
	return explore.Scenario{Name: "chains", Bubble: true, Run: func(r *explore.Run) {
		al := alphabet()
		maxLen := 4
		if r.Tier == "thorough" {
			maxLen = 5
		}
		iss := issuers()[r.Pick("issuer", len(issuers()))]
		pre := r.Pick("precert", 2) == 1
		wrong := r.Pick("other endpoint", 2) == 1
		first := r.Pick("first", len(al)+1)
		if iss == std.P1 {
			al = append([]*pki.CA{std.P1}, al[1:]...)
		}
		mk := func(name string) *pki.Sub {
			if pre {
				return pki.Pre(name, iss, pki.LeafOpt{})
			}
			return pki.Cert(name, iss, pki.LeafOpt{})
		}
		shared := mk("shared")
		path := "/ct/v1/add-chain"
		if pre != wrong {
			path = "/ct/v1/add-pre-chain"
		}
		var l []try
		add := func(seq []*pki.CA) {
			sx, _ := x509.ParseCertificate(shared.Chain[0])
			_, ok, known := valid(sx, seq, []*pki.CA{std.R1, std.R2})
			if !known {
				return
			}
			s := shared
			var names []string
			for _, c := range seq {
				names = append(names, c.Name)
			}
			what := fmt.Sprintf("chain [leaf of %s, %s, precert %v at %s]", iss.Name, strings.Join(names, ", "), pre, path)
			if ok {
				s = mk("own-" + strings.Join(names, "-") + fmt.Sprint(len(l)))
			}
			lx, err := x509.ParseCertificate(s.Chain[0])
			if err != nil {
				panic(err)
			}
			full, _, _ := valid(lx, seq, []*pki.CA{std.R1, std.R2})
			post := [][]byte{s.Chain[0]}
			for _, c := range seq {
				post = append(post, c.DER)
			}
			t := try{what, "POST", path, pki.ChainBody(post), nil}
			if ok && !wrong {
				t.sub = &pki.Sub{Name: what, Precert: pre, Posted: post, Chain: full, TBS: s.TBS, IKH: s.IKH}
			}
			l = append(l, t)
		}
		var rec func(seq []*pki.CA)
		rec = func(seq []*pki.CA) {
			add(seq)
			if len(seq) == maxLen {
				return
			}
			for _, c := range al {
				rec(append(seq[:len(seq):len(seq)], c))
			}
		}
		if first == len(al) {
			add(nil)
		} else {
			rec([]*pki.CA{al[first]})
		}
		d := newLog(r, 3, nil, nil, logMonitors, nil)
		d.tryAll(l)
		d.finish()
	}}
}

// ------------------------------------------------------------ C06: the window

func windowScenario() explore.Scenario {
	type win struct {
		name     string
		from, to time.Time
	}
	e := pki.Epoch
	wins := []win{{"usual", pki.WindowFrom, pki.WindowTo}, {"past", e.AddDate(-2, 0, 0), e.AddDate(-1, 0, 0)},
		{"around now", e.AddDate(0, 0, -1), e.AddDate(0, 0, 1)}, {"one second", e.AddDate(0, 2, 0), e.AddDate(0, 2, 0).Add(time.Second)}}
	return explore.Scenario{Name: "window", Bubble: true, Run: func(r *explore.Run) {
		w := wins[r.Pick("window", len(wins))]
		pre := r.Pick("precert", 2) == 1
		var l []try
		add := func(at time.Time) {
			o := pki.LeafOpt{NotAfter: at, Mod: func(t *x509.Certificate) { t.NotBefore = at.AddDate(0, 0, -10) }}
			name := fmt.Sprint("w", at.Unix())
			s := pki.Cert(name, std.I1, o)
			if pre {
				s = pki.Pre(name, std.I1, o)
			}
			in := !at.Before(w.from) && at.Before(w.to)
			what := fmt.Sprintf("expiry inside the window [%s: %v, precert %v]", w.name, at, pre)
			t := try{what, "POST", endpoint(s), s.Body(), s}
			if !in {
				t.what = fmt.Sprintf("expiry outside the window [%s: %v, precert %v]", w.name, at, pre)
				t.sub = nil
			}
			l = append(l, t)
		}
		seen := map[int64]bool{}
		for _, base := range []time.Time{w.from, w.to, e} {
			for _, dt := range []time.Duration{-240 * time.Hour, -time.Minute, -2 * time.Second, -time.Second, 0, time.Second, 2 * time.Second, time.Minute, 240 * time.Hour} {
				if at := base.Add(dt); !seen[at.Unix()] {
					seen[at.Unix()] = true
					add(at)
				}
			}
		}
		d := newLog(r, 3, nil, func(c *sim.Conf) { c.From, c.To = w.from, w.to }, logMonitors, nil)
		d.tryAll(l)
		if w.name == "usual" {
			d.finish()
			return
		}
		d.Audit.Final()
		d.w.Close()
	}}
}

// --------------------------------------------------------- C06: broken inputs

func brokenScenario() explore.Scenario {
	return explore.Scenario{Name: "broken", Bubble: true, Run: func(r *explore.Run) {
		group := r.Pick("group", 10)
		var l []try
		good := pki.Cert("good", std.I1, pki.LeafOpt{})
		goodPre := pki.Pre("goodpre", std.I1, pki.LeafOpt{})
		bad := func(class, detail, path string, body []byte) {
			l = append(l, try{fmt.Sprintf("%s [%s at %s]", class, detail, path), "POST", path, body, nil})
		}
		both := func(class, detail string, body []byte) {
			bad(class, detail, "/ct/v1/add-chain", body)
			bad(class, detail, "/ct/v1/add-pre-chain", body)
		}
		flip := func(s *pki.Sub, k int) {
			der := s.Chain[0]
			x, err := x509.ParseCertificate(der)
			if err != nil {
				panic(err)
			}
			// The outer copy of the signature algorithm is not covered by the signature.
			outer := bytes.Index(der, x.RawTBSCertificate) + len(x.RawTBSCertificate)
			for i := range der {
				if i%4 != k || (i >= outer && i < outer+12) {
					continue
				}
				for _, bit := range []byte{1, 0x80} {
					b := append([]byte(nil), der...)
					b[i] ^= bit
					bad("altered leaf", fmt.Sprintf("byte %d bit %d", i, bit), endpoint(s), pki.ChainBody(append([][]byte{b}, s.Chain[1:]...)))
				}
			}
		}
		switch group {
		case 0:
			g := string(good.Body())
			for _, b := range []string{"", "{", "null", "[]", "{}", "0", `""`, "true", `{"chain":null}`, `{"chain":[]}`, `{"chain":[""]}`, `{"chain":["!"]}`,
				`{"chain":"x"}`, `{"chain":{}}`, `{"chain":[1]}`, `{"chain":["AAAA"]}`, `{"chain":[null]}`, "\x00", "\xff\xfe", strings.Repeat("[", 5000), g[:len(g)-1], g + "x", g + g, g[1:],
				strings.Replace(g, `"chain"`, `"chains"`, 1), strings.Replace(g, `["`, `["=`, 1)} {
				both("malformed body", fmt.Sprintf("%.20q", b), []byte(b))
			}
			for _, n := range []int{1, 2, 10, 100, len(good.Chain[0]) - 1} {
				both("truncated leaf", fmt.Sprint(n), pki.ChainBody(append([][]byte{good.Chain[0][:n]}, good.Chain[1:]...)))
			}
			both("trailing bytes after the leaf", "", pki.ChainBody(append([][]byte{append(append([]byte(nil), good.Chain[0]...), 0)}, good.Chain[1:]...)))
			both("empty leaf", "", pki.ChainBody(append([][]byte{{}}, good.Chain[1:]...)))
			both("empty second element", "", pki.ChainBody([][]byte{good.Chain[0], {}, good.Chain[1]}))
			both("garbage at the end", "", pki.ChainBody(append(append([][]byte(nil), good.Chain...), []byte("x"))))
			both("only a root", "", pki.ChainBody([][]byte{std.R1.DER}))
			both("only an intermediate", "", pki.ChainBody([][]byte{std.I1.DER, std.R1.DER}))
		case 1:
			for _, n := range []int{128*1024 + 1, 128*1024 + 2, 200 * 1024} {
				for _, s := range []*pki.Sub{good, goodPre} {
					b := s.Body()
					bad("oversized body", fmt.Sprint("padding in front ", n), endpoint(s), append(bytes.Repeat([]byte(" "), n-len(b)), b...))
					bad("oversized body", fmt.Sprint("padding behind ", n), endpoint(s), append(append([]byte(nil), b...), bytes.Repeat([]byte(" "), n-len(b))...))
				}
			}
			// exactly the limit is fine
			fit := pki.Cert("fits", std.I1, pki.LeafOpt{})
			b := fit.Body()
			l = append(l, try{"a body of exactly the limit", "POST", endpoint(fit), append(b, bytes.Repeat([]byte(" "), 128*1024-len(b))...), fit})
		case 2:
			for _, m := range []string{"GET", "PUT", "DELETE", "PATCH", "OPTIONS"} {
				for _, s := range []*pki.Sub{good, goodPre} {
					l = append(l, try{fmt.Sprintf("wrong method [%s %s]", m, endpoint(s)), m, endpoint(s), s.Body(), nil})
				}
			}
			for _, p := range []string{"/", "/ct/v1/", "/ct/v1/add-chain/", "/ct/v1/add-chainx", "/ct/v1/add", "/ct/v2/add-chain", "/add-chain", "/ct/v1/get-sth", "/ct/v1/add-pre-chain/x", "/CT/V1/ADD-CHAIN"} {
				l = append(l, try{fmt.Sprintf("unknown path [%s]", p), "POST", p, good.Body(), nil})
			}
		case 3:
			// poison that does not count as such, and precertificates that are not
			ext := func(critical bool, value []byte) func(*x509.Certificate) {
				return func(t *x509.Certificate) {
					t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}, Critical: critical, Value: value})
				}
			}
			for i, m := range []func(*x509.Certificate){ext(false, []byte{5, 0}), ext(true, []byte{5, 1, 0}), ext(true, []byte{4, 0}), ext(true, nil), ext(false, nil), ext(true, []byte{5, 0, 0})} {
				s := pki.Cert(fmt.Sprint("poison", i), std.I1, pki.LeafOpt{Mod: m})
				both("bad poison", fmt.Sprint(i), s.Body())
			}
			// right poison at the wrong door
			s := pki.Cert("poisoned", std.I1, pki.LeafOpt{Mod: ext(true, []byte{5, 0})})
			bad("precertificate at add-chain", "", "/ct/v1/add-chain", s.Body())
			bad("certificate at add-pre-chain", "", "/ct/v1/add-pre-chain", good.Body())
			// leaf issued by something that is no CA
			sub := pki.Cert("noca", std.I1, pki.LeafOpt{})
			nx, _ := x509.ParseCertificate(sub.Chain[0])
			no := &pki.CA{Name: "noca", Key: pki.Key("leaf"), X: nx, DER: sub.Chain[0], Up: std.I1}
			both("issued by a leaf", "", pki.Cert("under-noca", no, pki.LeafOpt{}).Body())
		case 8:
			// large certificates, around where lengths take another byte
			for _, n := range []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 70000, 93000} {
				for k := -1; k < 2; k++ {
					m := func(t *x509.Certificate) {
						t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3, 4}, Value: bytes.Repeat([]byte{byte(n)}, n/(2+k))})
					}
					c := pki.Cert(fmt.Sprint("large", n, k), std.I1, pki.LeafOpt{Mod: m})
					p := pki.Pre(fmt.Sprint("largepre", n, k), std.I2, pki.LeafOpt{Mod: m})
					for _, s := range []*pki.Sub{c, p} {
						if b := s.Body(); len(b) <= 128*1024 {
							l = append(l, try{fmt.Sprintf("a large certificate [%d bytes]", len(s.Chain[0])), "POST", endpoint(s), b, s})
						} else {
							bad("oversized body", fmt.Sprint(len(b)), endpoint(s), b)
						}
					}
				}
			}
		case 9:
			// long chains
			ca := std.I1
			for i := 0; i < 90; i++ { // the library gives up at 100 signatures
				ca = deeper(ca, i)
				if i < 12 || i%10 == 9 {
					for j, s := range []*pki.Sub{pki.Cert(fmt.Sprint("deep", i), ca, pki.LeafOpt{OmitRoot: i%2 == 1}), pki.Pre(fmt.Sprint("deeppre", i), ca, pki.LeafOpt{OmitRoot: i%2 == 0})} {
						l = append(l, try{fmt.Sprintf("a long chain [%d]", len(s.Chain)), "POST", endpoint(s), s.Body(), s})
						if j == 0 { // one missing in the middle
							m := len(s.Chain) / 2
							c := append(append([][]byte(nil), s.Chain[:m]...), s.Chain[m+1:]...)
							bad("a long chain with a gap", fmt.Sprint(len(c)), endpoint(s), pki.ChainBody(c))
						}
					}
				}
			}
		default:
			if group < 6 {
				flip(good, group-4)
				flip(good, group-2)
			} else {
				flip(goodPre, group-6)
				flip(goodPre, group-4)
			}
		}
		d := newLog(r, 3, nil, nil, logMonitors, nil)
		d.tryAll(l)
		d.finish()
	}}
}

var deepCAs = map[int]*pki.CA{}

func deeper(ca *pki.CA, i int) *pki.CA {
	if deepCAs[i] == nil {
		deepCAs[i] = pki.NewCA(fmt.Sprint("D", i), ca)
	}
	return deepCAs[i]
}

// rootsScenario varies the set of trusted roots: acceptance is exactly by them.
func rootsScenario() explore.Scenario {
	return explore.Scenario{Name: "roots", Bubble: true, Run: func(r *explore.Run) {
		all := []*pki.CA{std.R1, std.R2, std.RX, std.I1, std.P1, twin}
		set := r.Pick("set", 63) + 1
		var roots []*pki.CA
		for i, c := range all {
			if set>>i&1 == 1 {
				roots = append(roots, c)
			}
		}
		d := newLog(r, 3, nil, func(c *sim.Conf) { c.Roots = roots }, logMonitors, nil)
		if !d.live.Up {
			r.Fail("no-start", "a log with %d roots does not start: %s", len(roots), d.live.Exit)
			d.w.Close()
			return
		}
		var l []try
		for _, iss := range []*pki.CA{std.R1, std.I1, std.J1, std.I2, std.IX, std.RX, std.P1, twin} {
			for _, pre := range []bool{false, true} {
				var seq []*pki.CA
				for c := iss; ; c = c.Up {
					name := fmt.Sprintf("roots-%s-%d-%v", iss.Name, len(seq), pre)
					s := pki.Cert(name, iss, pki.LeafOpt{})
					if pre {
						s = pki.Pre(name, iss, pki.LeafOpt{})
					}
					x, _ := x509.ParseCertificate(s.Chain[0])
					full, ok, known := valid(x, seq, roots)
					for i, c := range seq {
						// a trusted certificate in the middle: open
						for _, t := range roots {
							known = known && (t != c || i == len(seq)-1)
						}
					}
					if pre && iss == std.P1 {
						if ok && len(full) < 3 {
							ok, known = false, true // the issuer of the final certificate is not in the chain
						}
					}
					if known {
						t := try{fmt.Sprintf("chain under a set of roots [set %d, %s, %d given]", set, name, len(seq)), "POST", endpoint(s), nil, nil}
						post := [][]byte{s.Chain[0]}
						for _, c := range seq {
							post = append(post, c.DER)
						}
						t.body = pki.ChainBody(post)
						if ok {
							t.sub = &pki.Sub{Name: name, Precert: pre, Posted: post, Chain: full, TBS: s.TBS, IKH: s.IKH}
						}
						l = append(l, t)
					}
					if c == nil {
						break
					}
					seq = append(seq[:len(seq):len(seq)], c)
				}
			}
		}
		d.tryAll(l)
		d.Audit.Final()
		d.w.Close()
	}}
}

// ------------------------------------------------- C07: precertificate entries

func rawExt(oid []int, critical bool, v string) pkix.Extension {
	return pkix.Extension{Id: asn1.ObjectIdentifier(oid), Critical: critical, Value: []byte(v)}
}

// precertScenario: extension layouts x poison position x issuer x key identifiers.
func precertScenario() explore.Scenario {
	aki := pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 35}}
	pool := []pkix.Extension{
		rawExt([]int{2, 5, 29, 17}, false, "\x30\x09\x82\x07a.b.c.d"), // subject alternative name
		rawExt([]int{1, 2, 3, 4, 5}, false, "\x04\x03abc"),            // unknown
		rawExt([]int{2, 5, 29, 19}, true, "\x30\x00"),                 // basic constraints
		rawExt([]int{1, 2, 3, 4, 6}, false, ""),                       // empty value
		aki,
	}
	return explore.Scenario{Name: "precerts", Bubble: true, Run: func(r *explore.Run) {
		iss := []*pki.CA{std.R1, std.I1, std.J1, std.P1, std.P2, std.P1x, preRoot, preNoAKI, preJ, preTwo, preThree, rsaCA, preRSA}
		ca := iss[r.Pick("issuer", len(iss))]
		maxExt := 3
		if r.Tier == "thorough" {
			maxExt = 4
		}
		final := ca
		if pki.IsPre(ca) {
			final = ca.Up
		}
		withAKI := ca != preNoAKI // an identifier of the precertificate is that of its issuer's parent
		first := r.Pick("first extension", len(pool)+1)
		var l []try
		seen := map[string]bool{}
		add := func(seq []int) {
			has := false
			for i, k := range seq {
				for _, o := range seq[:i] {
					if o == k {
						return
					}
				}
				has = has || pool[k].Id.Equal(aki.Id)
			}
			if pki.IsPre(ca) && has != withAKI {
				return // RFC 6962 leaves open what to do
			}
			if len(seq) == 0 && !has {
				return // with only the poison it is open whether no extensions or an empty list remain
			}
			for at := 0; at <= len(seq); at++ {
				name := fmt.Sprint("p", seq, at, ca.Name)
				if seen[name] {
					continue
				}
				seen[name] = true
				s := pki.Layout(name, ca, final, at, func(issuer *pki.CA) []pkix.Extension {
					var out []pkix.Extension
					for _, k := range seq {
						x := pool[k]
						if x.Id.Equal(aki.Id) {
							x.Value = append([]byte{0x30, 22, 0x80, 20}, issuer.X.SubjectKeyId...)
						}
						out = append(out, x)
					}
					return out
				}, len(l))
				l = append(l, try{fmt.Sprintf("precertificate [extensions %v, poison at %d, issuer %s]", seq, at, ca.Name), "POST", "/ct/v1/add-pre-chain", s.Body(), s})
			}
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			add(seq)
			if len(seq) == maxExt {
				return
			}
			for k := range pool {
				rec(append(seq[:len(seq):len(seq)], k))
			}
		}
		if first == len(pool) {
			add(nil)
		} else {
			rec([]int{first})
		}
		if len(l) == 0 {
			r.Evals++
			return
		}
		d := newLog(r, 3, nil, nil, logMonitors, nil)
		d.tryAll(l)
		d.finish()
	}}
}

var (
	preRoot  = pki.NewCA("PR", std.R1, pki.PreSigning)
	preJ     = pki.NewCA("PJ", std.J1, pki.PreSigning)
	preNoAKI = pki.NewCA("PN", noSKI, pki.PreSigning)
	// usages besides that of precertificate signing
	preTwo   = pki.NewCA("P2", std.R1, pki.PreSigning, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} })
	preThree = pki.NewCA("P3", std.I2, func(t *x509.Certificate) { t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{{1, 2, 3}} }, func(t *x509.Certificate) {
		l := t.UnknownExtKeyUsage
		pki.PreSigning(t)
		t.UnknownExtKeyUsage = append(l, t.UnknownExtKeyUsage...)
	})
	rsaCA  = pki.NewKeyedCA("RSA", pki.RSAKey(0), std.R1)
	preRSA = pki.NewKeyedCA("PRSA", pki.RSAKey(1), rsaCA, pki.PreSigning)
	noSKI  = pki.WithoutSKI(pki.NewCA("NS", std.R1))
)

// twoIssuers submits one precertificate under two issuers of its
// precertificate-signing issuer: two entries, each with its own SCT.
func twoIssuersScenario() explore.Scenario {
	return explore.Scenario{Name: "two issuers", Bubble: true, Run: func(r *explore.Run) {
		order := r.Pick("order", 2)
		again := r.Pick("again", 3)
		a := pki.Pre("both", std.P1, pki.LeafOpt{})
		b := pki.Pre("both", std.P1x, pki.LeafOpt{})
		if !bytes.Equal(a.Chain[0], b.Chain[0]) {
			panic("the precertificates differ")
		}
		subs := []*pki.Sub{a, b}
		if order == 1 {
			subs = []*pki.Sub{b, a}
		}
		d := newLog(r, 3, nil, nil, []string{"tree", "append", "sct"}, nil)
		for i := 0; i <= again; i++ {
			for _, s := range subs {
				d.tryAll([]try{{"one precertificate under two issuers [" + s.Name + "]", "POST", "/ct/v1/add-pre-chain", s.Body(), s}})
			}
		}
		d.finish()
	}}
}

// ------------------------------------------------------------- C10: restarts

var restartSizes = []int{0, 1, 2, 3, 254, 255, 256, 257, 511, 512, 513, 1000, 65535, 65536, 65537}

// largeSizes: where paths, levels and index bytes grow (see ref.Large).
var largeSizes = []int{255998, 255999, 256000, 1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 255, 1<<39 + 65536}

// reads lists what a start reads from the store.
func startReads(n int) []string {
	l := []string{"ct/v1/get-sth", "ct/v1/get-roots"}
	if n == 0 {
		return l
	}
	for lv, m := 0, n; m > 0; lv, m = lv+1, m>>8 {
		// the rightmost tile of every level
		w := m % 256
		t := ref.TileID{L: lv, N: m / 256, W: w}
		if w == 0 {
			t = ref.TileID{L: lv, N: m/256 - 1, W: 256}
		}
		l = append(l, t.Path())
		if lv == 0 {
			t.L = -1
			l = append(l, t.Path())
		}
	}
	return l
}

// intactScenario: any size, leftovers of unfinished publications, goes on right.
func intactScenario(sizes []int, name string) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		n := sizes[r.Pick("size", len(sizes))]
		left := r.Pick("leftovers", 6)
		pool := []int{1, 2, 255}[r.Pick("pool", 3)]
		d := newLog(r, n, nil, wide, []string{"tree", "append", "dense", "head", "sct"}, func(d *Driver) {
			// what a publication of other entries left behind
			switch {
			case left == 0 || left > 3 && n == 0:
				return
			case left == 4: // killed between the STH and the checkpoint
				at := max(n-1, d.st.Base())
				d.w.Put("checkpoint", d.st.Head(at, uint64(time.Now().UnixMilli())-1000).Checkpoint(d.conf.Origin, d.conf.Key))
				return
			case left == 5:
				if n < 256 { // the first one
					delete(d.w.Objs, "checkpoint")
				}
				return
			}
			other := d.st.Cut(n)
			m := n + []int{0, 1, 3, 300}[left]
			for i := n; i < m; i++ {
				other.Append(&ref.Entry{Cert: []byte(fmt.Sprint("orphan", i)), Timestamp: 1, Index: uint64(i)})
			}
			for _, t := range other.Wanted(m) {
				if _, ok := d.w.Objs[t.Path()]; !ok {
					d.w.Put(t.Path(), other.Tile(t))
				}
			}
			for k, v := range other.HashIndex(m, d.conf.Mask) {
				d.w.Put(k, v)
			}
		})
		if !d.live.Up {
			r.Fail("no-start", "a log of size %d with leftovers %d does not start: %s", n, left, d.live.Exit)
			d.w.Close()
			return
		}
		var l []try
		for _, s := range span(0, pool) {
			l = append(l, try{"a submission after restart", "POST", endpoint(s), s.Body(), s})
		}
		// all at once: they make one pool
		for _, t := range l {
			d.submit(t.sub)
		}
		if !d.flow(30*time.Second, func() bool { return d.pending() == 0 }) {
			r.Fail("no-answer", "submissions after a restart at size %d are not answered", n)
		}
		for _, x := range d.reqs {
			if x.q.Status != 200 {
				r.Fail("rejected", "size %d: %s is answered %d %q", n, x.q.Name, x.q.Status, x.q.Body)
			}
		}
		if got := int(d.sth.Size); got != n+pool {
			r.Fail("size", "from size %d, %d entries make size %d", n, pool, got)
		}
		// and once more
		d.w.Kill(d.live, "killed")
		d.landing()
		d.live = d.start()
		if !d.flow(70*time.Second, func() bool { return d.live.Up || d.live.Dead }) || d.live.Dead {
			r.Fail("no-start", "a log of size %d does not start again: %s", n+pool, d.live.Exit)
			d.w.Close()
			return
		}
		d.finish()
	}}
}

// damagedScenario: each object a start depends on, damaged in each way.
func damagedScenario(sizes []int, name string) explore.Scenario {
	return explore.Scenario{Name: name, Bubble: true, Run: func(r *explore.Run) {
		n := sizes[r.Pick("size", len(sizes))]
		objs := append(startReads(n), "config", "key")
		key := objs[r.Pick("object", len(objs))]
		hows := 14
		if key == "config" || key == "ct/v1/get-roots" {
			hows = 9 // an altered but readable one is just another setting
		}
		how := r.Pick("damage", hows)
		what := ""
		damage := func(b []byte) []byte {
			c := append([]byte(nil), b...)
			switch how {
			case 0:
				what = "missing"
				return nil
			case 1:
				what = "empty"
				return []byte{}
			case 2:
				what = "one byte short"
				return c[:max(len(c)-1, 0)]
			case 3:
				what = "32 bytes short"
				return c[:max(len(c)-32, 0)]
			case 4:
				what = "half"
				return c[:len(c)/2]
			case 5:
				what = "one byte long"
				return append(c, 0)
			case 6:
				what = "32 bytes long"
				return append(c, make([]byte, 32)...)
			case 7:
				what = "zeroed"
				return make([]byte, len(c))
			case 8:
				what = "twice"
				return append(c, b...)
			case 13:
				what = "last half zeroed"
				for i := len(c) / 2; i < len(c); i++ {
					c[i] = 0
				}
				return c
			default:
				at := []int{0, len(c) / 3, len(c) / 2, max(len(c)-1, 0)}[how-9]
				what = fmt.Sprintf("byte %d altered", at)
				if at < len(c) {
					c[at] ^= 1
				}
				return c
			}
		}
		d := newLog(r, n, nil, wide, []string{"append", "dense", "tree"}, func(d *Driver) { d.damage(key, damage) })
		d.afterDamage(key, what)
	}}
}

// sthScenario alters every byte of the published STH, and of a partial data
// tile, one bit at a time.
func bitsScenario(n int, key string, step int) explore.Scenario {
	return explore.Scenario{Name: fmt.Sprintf("bits of %s, size %d", key, n), Bubble: true, Run: func(r *explore.Run) {
		st := filler(n)
		var size int
		if key == "ct/v1/get-sth" {
			size = 330
		} else {
			size = len(st.DataTile(n/256, n%256))
		}
		at := r.Pick("byte", (size+step-1)/step) * step
		bit := r.Pick("bit", 8)
		what := fmt.Sprintf("bit %d of byte %d altered", bit, at)
		d := newLog(r, n, nil, wide, []string{"append", "dense", "tree"}, func(d *Driver) {
			d.damage(key, func(b []byte) []byte {
				c := append([]byte(nil), b...)
				if at < len(c) {
					c[at] ^= 1 << bit
				}
				return c
			})
		})
		d.afterDamage(key, what)
	}}
}

func (d *Driver) damage(key string, f func([]byte) []byte) {
	switch key {
	case "config":
		d.w.Consul.Set(d.conf.KV+"/config", f(d.conf.JSON()))
	case "key":
		d.conf.KeyPath = sim.BrokenKeyFile(f(pki.KeyPEM(d.conf.Key)))
		d.w.Consul.Set(d.conf.KV+"/config", d.conf.JSON())
	default:
		b, ok := d.w.Objs[key]
		if !ok {
			panic("no object " + key)
		}
		c := f(b)
		if strings.HasPrefix(key, "tile/data/") && sameLeaves(b, c) {
			d.damaged = "" // chains and precertificates are not covered by the tree head
			return
		}
		if c == nil {
			delete(d.w.Objs, key)
		} else {
			d.w.Objs[key] = c
		}
		if strings.HasPrefix(key, "tile/") {
			d.damaged = key
		}
	}
}

func sameLeaves(a, b []byte) bool {
	x, err1 := ref.ParseTile(a)
	y, err2 := ref.ParseTile(b)
	if err1 != nil || err2 != nil || len(x) != len(y) {
		return false
	}
	for i := range x {
		if !bytes.Equal(x[i].Leaf(), y[i].Leaf()) {
			return false
		}
	}
	return true
}

// afterDamage: the log did not start, or does nothing wrong.
func (d *Driver) afterDamage(key, what string) {
	r := d.r
	r.Evals++
	defer d.w.Close()
	if !d.live.Up {
		if !d.live.Dead {
			r.Fail("neither", "with %s %s the log neither starts nor ends", key, what)
		}
		r.Outcome("refuses: " + key + what)
		return
	}
	r.Outcome("starts: " + key + what)
	for _, s := range certs(0, 1) {
		d.submit(s)
	}
	d.flow(10*time.Second, func() bool { return d.pending() == 0 || d.live.Dead })
	d.flow(time.Second, func() bool { return false })
}
