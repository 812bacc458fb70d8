// Package pki makes deterministic certificates: equal inputs give equal bytes
// in every run and every process.
package pki

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"time"

	"itko.dev/mcheck/ref"
)

// Key derives a P-256 key from a name.
func Key(name string) *ecdsa.PrivateKey {
	d := sha256.Sum256([]byte("key " + name))
	d[0] &= 0x7f
	k := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(d[:])}
	k.Curve = elliptic.P256()
	k.X, k.Y = k.Curve.ScalarBaseMult(d[:])
	return k
}

func KeyPEM(k *ecdsa.PrivateKey) []byte {
	b, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
}

// detSigner signs deterministically.
type detSigner struct{ crypto.Signer }

type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	clear(b)
	return len(b), nil
}

func (d detSigner) Sign(_ io.Reader, digest []byte, o crypto.SignerOpts) ([]byte, error) {
	if _, ok := d.Signer.(*rsa.PrivateKey); ok {
		return d.Signer.Sign(zeros{}, digest, o)
	}
	return d.Signer.Sign(nil, digest, o)
}

// RSAKey is one of three fixed keys, of 2048, 2048 and 4096 bits.
func RSAKey(i int) *rsa.PrivateKey {
	b, _ := pem.Decode([]byte(rsaPEM[i]))
	k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
	if err != nil {
		panic(err)
	}
	return k
}

// CurveKey derives a key on any curve from a name.
func CurveKey(name string, c elliptic.Curve) *ecdsa.PrivateKey {
	d := sha512.Sum512([]byte("key " + name))
	k := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(d[:min(64, (c.Params().BitSize-1)/8)])}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(k.D.Bytes())
	return k
}

type CA struct {
	Name string
	Key  crypto.Signer
	X    *x509.Certificate
	DER  []byte
	Up   *CA // issuer, nil for a root
}

var (
	oidPoison  = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}
	oidPreEKU  = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4}
	Epoch      = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC) // where virtual time starts
	WindowFrom = Epoch.AddDate(0, 1, 0)
	WindowTo   = Epoch.AddDate(0, 7, 0)
	inWindow   = Epoch.AddDate(0, 3, 0)
)

func skid(name string) []byte { h := sha256.Sum256([]byte("skid" + name)); return h[:20] }

func create(t, parent *x509.Certificate, pub crypto.PublicKey, k crypto.Signer) []byte {
	der, err := x509.CreateCertificate(nil, t, parent, pub, detSigner{k})
	if err != nil {
		panic(err)
	}
	return der
}

// NewCA issues a CA; keyName lets two CA certificates share a key and name.
func NewCA(name string, up *CA, opts ...func(*x509.Certificate)) *CA {
	return NewKeyedCA(name, Key(name), up, opts...)
}

// NewKeyedCA issues a CA with the given key.
func NewKeyedCA(name string, k crypto.Signer, up *CA, opts ...func(*x509.Certificate)) *CA {
	t := &x509.Certificate{
		SerialNumber: new(big.Int).SetBytes(skid("sn" + name + upName(up))[:8]),
		Subject:      pkix.Name{CommonName: name, Organization: []string{"mc"}},
		NotBefore:    Epoch.AddDate(-5, 0, 0), NotAfter: Epoch.AddDate(20, 0, 0),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
		SubjectKeyId: skid(name),
	}
	for _, o := range opts {
		o(t)
	}
	pk, pt := k, t
	if up != nil {
		pk, pt = up.Key, up.X
	}
	der := create(t, pt, k.Public(), pk)
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &CA{name, k, x, der, up}
}

// NewCAUnparsed is a root that need not parse; X stands for it in what it signs.
func NewCAUnparsed(name string, o func(*x509.Certificate)) *CA {
	c := NewCA(name, nil)
	t := &x509.Certificate{
		SerialNumber: c.X.SerialNumber, Subject: c.X.Subject, NotBefore: c.X.NotBefore, NotAfter: c.X.NotAfter,
		IsCA: true, BasicConstraintsValid: true, KeyUsage: c.X.KeyUsage, SubjectKeyId: c.X.SubjectKeyId,
	}
	o(t)
	c.DER = create(t, t, c.Key.Public(), c.Key)
	return c
}

// NewV1CA is a root of X.509 version 1: without extensions.
func NewV1CA(name string) *CA {
	c := NewCA(name, nil)
	var cert struct {
		TBS asn1.RawValue
		Alg pkix.AlgorithmIdentifier
		Sig asn1.BitString
	}
	if _, err := asn1.Unmarshal(c.DER, &cert); err != nil {
		panic(err)
	}
	var fields []byte
	for rest := cert.TBS.Bytes; len(rest) > 0; {
		var f asn1.RawValue
		var err error
		if rest, err = asn1.Unmarshal(rest, &f); err != nil {
			panic(err)
		}
		if f.Class != asn1.ClassContextSpecific { // version and extensions
			fields = append(fields, f.FullBytes...)
		}
	}
	tbs, err := asn1.Marshal(asn1.RawValue{Tag: asn1.TagSequence, IsCompound: true, Bytes: fields})
	if err != nil {
		panic(err)
	}
	digest := sha256.Sum256(tbs)
	sig, err := detSigner{c.Key}.Sign(nil, digest[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	cert.TBS = asn1.RawValue{FullBytes: tbs}
	cert.Sig = asn1.BitString{Bytes: sig, BitLength: len(sig) * 8}
	if c.DER, err = asn1.Marshal(cert); err != nil {
		panic(err)
	}
	if c.X, err = x509.ParseCertificate(c.DER); err != nil {
		panic(err)
	}
	return c
}

func upName(c *CA) string {
	if c == nil {
		return ""
	}
	return c.Name
}

// PreSigning marks a CA as a precertificate signing certificate.
func PreSigning(t *x509.Certificate) {
	t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{oidPreEKU}
}

// Sub is a submission: the chain posted and what the log must make of it.
type Sub struct {
	Name     string
	Precert  bool
	Posted   [][]byte // as POSTed (the root may be left out)
	Chain    [][]byte // the full validated chain, root included
	TBS      []byte   // precert: what must be logged
	IKH      ref.Hash // precert: issuer key hash
	UnderPre bool     // issued by a precertificate-signing certificate
}

type LeafOpt struct {
	NotAfter time.Time
	OmitRoot bool
	Mod      func(*x509.Certificate)
	Key      crypto.PublicKey // of the leaf
}

func (o LeafOpt) pub() crypto.PublicKey {
	if o.Key != nil {
		return o.Key
	}
	return &leafKey.PublicKey
}

func leafTemplate(name string, o LeafOpt) *x509.Certificate {
	na := o.NotAfter
	if na.IsZero() {
		na = inWindow
	}
	t := &x509.Certificate{
		SerialNumber: new(big.Int).SetBytes(skid("leaf" + name)[:8]),
		Subject:      pkix.Name{CommonName: name},
		DNSNames:     []string{name + ".example"},
		NotBefore:    Epoch.AddDate(0, 0, -1), NotAfter: na,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		BasicConstraintsValid: true,
	}
	if o.Mod != nil {
		o.Mod(t)
	}
	return t
}

func chainOf(ca *CA) [][]byte {
	var out [][]byte
	for ; ca != nil; ca = ca.Up {
		out = append(out, ca.DER)
	}
	return out
}

func (s *Sub) post(o LeafOpt) *Sub {
	s.Posted = s.Chain
	if o.OmitRoot {
		s.Posted = s.Chain[:len(s.Chain)-1]
	}
	return s
}

var leafKey = Key("leaf")

// Cert is a final certificate issued by ca.
func Cert(name string, ca *CA, o LeafOpt) *Sub {
	der := create(leafTemplate(name, o), ca.X, o.pub(), ca.Key)
	s := &Sub{Name: name, Chain: append([][]byte{der}, chainOf(ca)...)}
	return s.post(o)
}

// Pre is a precertificate issued by ca.  When ca is a precertificate signing
// certificate, the entry must look as if ca's own issuer had signed it.
func Pre(name string, ca *CA, o LeafOpt) *Sub {
	t := leafTemplate(name, o)
	pre := leafTemplate(name, o)
	poison := pkix.Extension{Id: oidPoison, Critical: true, Value: []byte{5, 0}}
	pre.ExtraExtensions = append([]pkix.Extension{poison}, pre.ExtraExtensions...)
	issuer := ca
	for _, e := range ca.X.UnknownExtKeyUsage {
		if e.Equal(oidPreEKU) && ca.Up != nil {
			issuer = ca.Up
		}
	}
	der := create(pre, ca.X, o.pub(), ca.Key)
	fin, err := x509.ParseCertificate(create(t, issuer.X, o.pub(), issuer.Key))
	if err != nil {
		panic(err)
	}
	s := &Sub{Name: name, Precert: true, Chain: append([][]byte{der}, chainOf(ca)...),
		TBS: fin.RawTBSCertificate, IKH: sha256.Sum256(issuer.X.RawSubjectPublicKeyInfo), UnderPre: issuer != ca}
	return s.post(o)
}

// Entry is what the log must record for s at (index, ts).
func (s *Sub) Entry(index, ts uint64) *ref.Entry {
	e := &ref.Entry{Precert: s.Precert, Cert: s.Chain[0], Index: index, Timestamp: ts}
	if s.Precert {
		e.Cert, e.Pre, e.IssuerKeyHash = s.TBS, s.Chain[0], s.IKH
	}
	for _, c := range s.Chain[1:] {
		e.Chain = append(e.Chain, sha256.Sum256(c))
	}
	return e
}

// Body is the JSON request body.
func (s *Sub) Body() []byte { return ChainBody(s.Posted) }

func ChainBody(chain [][]byte) []byte {
	b, err := json.Marshal(map[string][][]byte{"chain": chain})
	if err != nil {
		panic(err)
	}
	return b
}

// Matches reports whether a logged entry is the one s calls for, whatever its
// index and timestamp.
func (s *Sub) Matches(e *ref.Entry) bool {
	return bytes.Equal(s.Entry(e.Index, e.Timestamp).TileLeaf(), e.TileLeaf())
}

// RootsJSON is the get-roots response.
func RootsJSON(cas ...*CA) []byte {
	var l []string
	for _, c := range cas {
		l = append(l, base64.StdEncoding.EncodeToString(c.DER))
	}
	b, _ := json.Marshal(map[string][]string{"certificates": l})
	return b
}

// Std is the usual hierarchy.
type Std struct {
	R1, R2, RX     *CA // RX is not trusted by the log
	I1, I2, IX, J1 *CA
	P1, P2         *CA // precertificate signing, under I1 and I2
	I1x            *CA // I1's name and key, cross-signed by R2
	P1x            *CA // P1's name and key, under I2
	I1t            *CA // I1's name, under the same root, with another key
}

func NewStd() *Std {
	s := &Std{}
	s.R1, s.R2, s.RX = NewCA("R1", nil), NewCA("R2", nil), NewCA("RX", nil)
	s.I1, s.I2, s.IX = NewCA("I1", s.R1), NewCA("I2", s.R2), NewCA("IX", s.RX)
	s.J1 = NewCA("J1", s.I1)
	s.P1, s.P2 = NewCA("P1", s.I1, PreSigning), NewCA("P2", s.I2, PreSigning)
	s.I1x = NewCA("I1", s.R2)
	s.P1x = NewCA("P1", s.I2, PreSigning)
	s.I1t = Fake("I1", s.R1)
	return s
}

func (s *Std) Cert(i int) *Sub { return Cert(fmt.Sprintf("c%d", i), s.I1, LeafOpt{OmitRoot: i%2 == 1}) }

// Fake is a CA with the name of another one and its own key.
func Fake(name string, up *CA) *CA {
	var k crypto.Signer = Key("fake " + name)
	t := &x509.Certificate{
		SerialNumber: new(big.Int).SetBytes(skid("fake" + name)[:8]),
		Subject:      pkix.Name{CommonName: name, Organization: []string{"mc"}},
		NotBefore:    Epoch.AddDate(-5, 0, 0), NotAfter: Epoch.AddDate(20, 0, 0),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
		SubjectKeyId: skid("fake" + name),
	}
	pk, pt := k, t
	if up != nil {
		pk, pt = up.Key, up.X
	}
	der := create(t, pt, k.Public(), pk)
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &CA{"fake" + name, k, x, der, up}
}

// WithoutSKI is ca seen as having no key identifier by what it issues.
func WithoutSKI(ca *CA) *CA {
	c := *ca
	x := *ca.X
	x.SubjectKeyId = nil
	c.X = &x
	return &c
}

// IsPre says whether ca is a precertificate signing certificate.
func IsPre(ca *CA) bool {
	for _, e := range ca.X.UnknownExtKeyUsage {
		if e.Equal(oidPreEKU) {
			return true
		}
	}
	return false
}

// Layout is a precertificate issued by ca with exactly the extensions that
// exts gives, the poison at position at, and the TBS that the same certificate
// issued by final has with no poison.
func Layout(name string, ca, final *CA, at int, exts func(*CA) []pkix.Extension, variant int) *Sub {
	tmpl := func() *x509.Certificate {
		t := &x509.Certificate{
			SerialNumber: new(big.Int).SetBytes(skid("layout" + name)[:8]),
			Subject:      pkix.Name{CommonName: name},
			NotBefore:    Epoch.AddDate(0, 0, -1), NotAfter: inWindow,
		}
		switch variant % 4 {
		case 1:
			t.SerialNumber = new(big.Int).SetBytes(append([]byte{0x7f}, skid("layout" + name)[1:]...))
		case 2:
			t.Subject = pkix.Name{}
		case 3:
			t.Subject = pkix.Name{CommonName: "\u00fc" + name, Country: []string{"DE", "AT"}, OrganizationalUnit: []string{"x"}}
		}
		return t
	}
	var pub any = &leafKey.PublicKey
	if variant%5 == 4 {
		pub = ed25519.NewKeyFromSeed(bytes.Repeat([]byte{7}, 32)).Public()
	}
	mk := func(by *CA, l []pkix.Extension) []byte {
		t := tmpl()
		t.ExtraExtensions = l
		by = WithoutSKI(by)
		der, err := x509.CreateCertificate(nil, t, by.X, pub, detSigner{by.Key})
		if err != nil {
			panic(err)
		}
		return der
	}
	poison := pkix.Extension{Id: oidPoison, Critical: true, Value: []byte{5, 0}}
	pre := exts(ca)
	pre = append(pre[:at:at], append([]pkix.Extension{poison}, pre[at:]...)...)
	fin, err := x509.ParseCertificate(mk(final, exts(final)))
	if err != nil {
		panic(err)
	}
	s := &Sub{Name: name, Precert: true, Chain: append([][]byte{mk(ca, pre)}, chainOf(ca)...),
		TBS: fin.RawTBSCertificate, IKH: sha256.Sum256(final.X.RawSubjectPublicKeyInfo)}
	s.Posted = s.Chain
	return s
}
