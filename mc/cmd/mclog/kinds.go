package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"strings"
	"sync"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/sim"
)

// Kinds of leaves and of hierarchies that are all acceptable: what a log looks
// at is the chain, the roots and the expiry, nothing else.

type leafKind struct {
	name string
	opt  pki.LeafOpt
}

func leafKinds() []leafKind {
	mod := func(f func(*x509.Certificate)) pki.LeafOpt { return pki.LeafOpt{Mod: f} }
	eku := func(l ...x509.ExtKeyUsage) pki.LeafOpt {
		return mod(func(t *x509.Certificate) { t.ExtKeyUsage = l })
	}
	raw := func(critical bool, oid ...int) pki.LeafOpt {
		return mod(func(t *x509.Certificate) {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: oid, Critical: critical, Value: []byte{4, 1, 1}})
		})
	}
	u, _ := url.Parse("https://a.example/b")
	return []leafKind{
		{"no key usage at all", mod(func(t *x509.Certificate) { t.KeyUsage, t.ExtKeyUsage = 0, nil })},
		{"no extended key usage", eku()},
		{"client authentication", eku(x509.ExtKeyUsageClientAuth)},
		{"server and client authentication", eku(x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth)},
		{"code signing", eku(x509.ExtKeyUsageCodeSigning)},
		{"any usage", eku(x509.ExtKeyUsageAny)},
		{"an unknown usage", mod(func(t *x509.Certificate) { t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{{1, 2, 3}} })},
		{"no names", mod(func(t *x509.Certificate) { t.DNSNames, t.Subject = nil, pkix.Name{} })},
		{"many names", mod(func(t *x509.Certificate) {
			for i := 0; i < 300; i++ {
				t.DNSNames = append(t.DNSNames, fmt.Sprintf("n%d.example", i))
			}
		})},
		{"wildcard", mod(func(t *x509.Certificate) { t.DNSNames = []string{"*.example"} })},
		{"addresses", mod(func(t *x509.Certificate) { t.IPAddresses = []net.IP{{1, 2, 3, 4}, net.ParseIP("::1")} })},
		{"mail and uri", mod(func(t *x509.Certificate) { t.EmailAddresses, t.URIs = []string{"a@b.example"}, []*url.URL{u} })},
		{"not valid yet", mod(func(t *x509.Certificate) { t.NotBefore = pki.Epoch.AddDate(0, 2, 0) })},
		{"valid for one second", mod(func(t *x509.Certificate) { t.NotBefore = t.NotAfter.Add(-time.Second) })},
		{"valid for 20 years", mod(func(t *x509.Certificate) { t.NotBefore = pki.Epoch.AddDate(-20, 0, 0) })},
		{"itself a CA", mod(func(t *x509.Certificate) { t.IsCA, t.KeyUsage = true, x509.KeyUsageCertSign })},
		{"no basic constraints", mod(func(t *x509.Certificate) { t.BasicConstraintsValid = false })},
		{"small serial number", mod(func(t *x509.Certificate) { t.SerialNumber = big.NewInt(1) })},
		{"large serial number", mod(func(t *x509.Certificate) { t.SerialNumber = new(big.Int).Lsh(big.NewInt(0x7f), 152) })},
		{"unknown extension", raw(false, 1, 2, 3)},
		{"unknown critical extension", raw(true, 1, 2, 3)},
		{"must staple", raw(false, 1, 3, 6, 1, 5, 5, 7, 1, 24)},
		{"P-384 key", pki.LeafOpt{Key: pki.CurveKey("leaf", elliptic.P384()).Public()}},
		{"P-521 key", pki.LeafOpt{Key: pki.CurveKey("leaf", elliptic.P521()).Public()}},
		{"P-224 key", pki.LeafOpt{Key: pki.CurveKey("leaf", elliptic.P224()).Public()}},
		{"RSA key", pki.LeafOpt{Key: pki.RSAKey(0).Public()}},
		{"large RSA key", pki.LeafOpt{Key: pki.RSAKey(2).Public()}},
		{"ed25519 key", pki.LeafOpt{Key: ed25519.NewKeyFromSeed(make([]byte, 32)).Public()}},
		{"outside the names its issuer may certify", pki.LeafOpt{}}, // with the constrained issuer below
	}
}

type caKind struct {
	name string
	ca   *pki.CA
	root *pki.CA
}

var v1Root = pki.NewV1CA("V1")

var caKinds = sync.OnceValue(func() []caKind {
	alg := func(a x509.SignatureAlgorithm) func(*x509.Certificate) {
		return func(t *x509.Certificate) { t.SignatureAlgorithm = a }
	}
	var l []caKind
	add := func(name string, ca *pki.CA) {
		r := ca
		for r.Up != nil {
			r = r.Up
		}
		l = append(l, caKind{name, ca, r})
	}
	rsaRoot := pki.NewKeyedCA("RR", pki.RSAKey(0), nil)
	add("RSA root", rsaRoot)
	add("RSA, SHA-256", pki.NewKeyedCA("RI", pki.RSAKey(1), rsaRoot))
	add("RSA, SHA-384", pki.NewKeyedCA("RI384", pki.RSAKey(1), rsaRoot, alg(x509.SHA384WithRSA)))
	add("RSA, SHA-512", pki.NewKeyedCA("RI512", pki.RSAKey(1), rsaRoot, alg(x509.SHA512WithRSA)))
	add("RSA, PSS", pki.NewKeyedCA("RIPSS", pki.RSAKey(1), rsaRoot, alg(x509.SHA256WithRSAPSS)))
	add("4096 bits", pki.NewKeyedCA("RI4096", pki.RSAKey(2), rsaRoot))
	ec := pki.NewKeyedCA("EI", pki.CurveKey("EI", elliptic.P384()), rsaRoot)
	add("P-384 under RSA", ec)
	add("RSA under P-384", pki.NewKeyedCA("RJ", pki.RSAKey(1), ec))
	ec521 := pki.NewKeyedCA("ER", pki.CurveKey("ER", elliptic.P521()), nil)
	add("P-521 root", ec521)
	add("P-256 under P-521, SHA-512", pki.NewCA("EJ", ec521, alg(x509.ECDSAWithSHA512)))
	add("P-256, SHA-384", pki.NewCA("EK", std.R1, alg(x509.ECDSAWithSHA384)))
	add("expired issuer", pki.NewCA("XI", std.R1, func(t *x509.Certificate) { t.NotAfter = pki.Epoch.AddDate(-1, 0, 0) }))
	add("issuer not valid yet", pki.NewCA("YI", std.R1, func(t *x509.Certificate) { t.NotBefore = pki.Epoch.AddDate(1, 0, 0) }))
	add("expired root", pki.NewCA("XR", nil, func(t *x509.Certificate) { t.NotAfter = pki.Epoch.AddDate(-1, 0, 0) }))
	add("issuer for clients only", pki.NewCA("KI", std.R1, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }))
	add("issuer with other names", pki.NewCA("CI", std.R1, func(t *x509.Certificate) {
		t.PermittedDNSDomainsCritical, t.PermittedDNSDomains = true, []string{"other.test"}
	}))
	short := pki.NewCA("LI", std.R1, func(t *x509.Certificate) { t.MaxPathLen, t.MaxPathLenZero = 0, true })
	add("path length 0", short)
	add("no key identifiers", pki.NewCA("NI", noSKI, func(t *x509.Certificate) { t.SubjectKeyId = nil }))
	add("twin names", pki.NewCA("I1", std.R1, func(t *x509.Certificate) { t.Subject.Organization = []string{"mc", "mc"} }))
	add("version 1 root", v1Root)
	add("under a version 1 root", pki.NewCA("I under V1", v1Root))
	add("unicode", pki.NewCA("Ünï", std.R1, func(t *x509.Certificate) { t.Subject.Country = []string{"DE", "FR"} }))
	add("long name", pki.NewCA(strings.Repeat("long ", 12), std.R1))
	return l
})

// kindsScenario: every kind of leaf under the usual issuers, every kind of
// issuer for the usual leaf, as certificate and precertificate, with the root
// and without; and the same chains with one bit of a signature altered.
func kindsScenario() explore.Scenario {
	return explore.Scenario{Name: "kinds", Bubble: true, Run: func(r *explore.Run) {
		group := r.Pick("leaves, issuers", 2)
		pre := r.Pick("precert", 2) == 1
		omit := r.Pick("root left out", 2) == 1
		var subs []*pki.Sub
		var names []string
		roots := []*pki.CA{std.R1, std.R2}
		mk := func(what string, ca *pki.CA, o pki.LeafOpt) {
			o.OmitRoot = omit
			name := fmt.Sprint("kind", len(subs), len(what))
			s := (*pki.Sub)(nil)
			if pre {
				s = pki.Pre(name, ca, o)
			} else {
				s = pki.Cert(name, ca, o)
			}
			subs, names = append(subs, s), append(names, what)
		}
		if group == 0 {
			for _, ca := range []*pki.CA{std.I1, std.J1, std.P1} {
				for _, k := range leafKinds() {
					mk(k.name, ca, k.opt)
				}
			}
		} else {
			for _, k := range caKinds() {
				known := false
				for _, t := range roots {
					known = known || t == k.root
				}
				if !known {
					roots = append(roots, k.root)
				}
				mk(k.name, k.ca, pki.LeafOpt{})
				p := k.ca
				if p.Up != nil {
					sub := pki.NewCA("under "+k.ca.Name, k.ca)
					if k.name != "path length 0" { // whether that may be is left open
						mk("below "+k.name, sub, pki.LeafOpt{})
					}
				}
				if pre {
					// of the same kind as the issuer's, as the algorithm is part of what is logged
					var key crypto.Signer = pki.RSAKey(1)
					if e, ok := k.ca.Key.(*ecdsa.PrivateKey); ok {
						key = pki.CurveKey("PS", e.Curve)
					}
					mk("precertificate signing below "+k.name, pki.NewKeyedCA("PS "+k.ca.Name, key, k.ca, pki.PreSigning), pki.LeafOpt{})
				}
			}
		}
		d := newLog(r, 3, nil, func(c *sim.Conf) { c.Roots = roots }, logMonitors, nil)
		var l []try
		for i, s := range subs {
			l = append(l, try{fmt.Sprintf("an unusual but good chain [%s]", names[i]), "POST", endpoint(s), s.Body(), s})
			// the last bytes of each certificate are part of its signature
			for k := range s.Posted {
				if k == len(s.Chain)-1 {
					continue // the root may be any certificate with that name and key
				}
				c := append([][]byte(nil), s.Posted...)
				b := append([]byte(nil), c[k]...)
				b[len(b)-5] ^= 4
				c[k] = b
				l = append(l, try{fmt.Sprintf("a chain with a false signature [%s, %d]", names[i], k), "POST", endpoint(s), pki.ChainBody(c), nil})
			}
		}
		d.tryAll(l)
		d.finish()
	}}
}
