package sim

import (
	"crypto/ecdsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
)

// Conf is a log configuration.
type Conf struct {
	KV       string
	Origin   string
	Key      *ecdsa.PrivateKey
	Mask     int
	FlushMs  int
	From, To time.Time
	Root     string // directory; empty: S3
	Roots    []*pki.CA
	KeyPath  string
}

var scratch string

// Scratch is this process's scratch directory; the explorer removes it.
func Scratch() string {
	if scratch == "" {
		scratch = os.Getenv("VERIF_SCRATCH")
		if scratch == "" {
			d, err := os.MkdirTemp("", "mc")
			if err != nil {
				panic(err)
			}
			scratch = d
		}
	}
	return scratch
}

var LogKey = pki.Key("log")

func KeyFile(k *ecdsa.PrivateKey) string {
	p := filepath.Join(Scratch(), "key-"+base64.RawURLEncoding.EncodeToString(k.X.Bytes()[:6])+".pem")
	if _, err := os.Stat(p); err != nil {
		if err := os.WriteFile(p, pki.KeyPEM(k), 0600); err != nil {
			panic(err)
		}
	}
	return p
}

func DefaultConf(std *pki.Std) *Conf {
	return &Conf{KV: "logs/mc", Origin: "log.mc/2000", Key: LogKey, Mask: 2, FlushMs: 1000,
		From: pki.WindowFrom, To: pki.WindowTo, Roots: []*pki.CA{std.R1, std.R2}, KeyPath: KeyFile(LogKey)}
}

// JSON is the configuration as stored in Consul.
func (c *Conf) JSON() []byte {
	id := ref.LogID(&c.Key.PublicKey)
	b, _ := json.Marshal(map[string]any{
		"name": c.Origin, "keyPath": c.KeyPath, "logID": base64.StdEncoding.EncodeToString(id[:]),
		"listenAddress": "", "maskSize": c.Mask, "rootDirectory": c.Root,
		"s3Bucket": BucketName, "s3Region": "us-east-1", "s3EndpointUrl": "http://" + S3Host,
		"s3StaticCredentialUserName": "user", "s3StaticCredentialPassword": "pass",
		"notAfterStart": c.From.Format(time.RFC3339), "notAfterLimit": c.To.Format(time.RFC3339), "flushMs": c.FlushMs,
	})
	return b
}

// Install puts the configuration, the roots and the published state st (with n
// entries) in place.
func (w *World) Install(c *Conf, st *ref.State, n int, sizes ...int) {
	w.Consul.Set(c.KV+"/config", c.JSON())
	w.Put("ct/v1/get-roots", pki.RootsJSON(c.Roots...))
	if n == 0 {
		// What itko-setup leaves: an empty STH and nothing else.
		w.Put("ct/v1/get-sth", st.Head(0, uint64(time.Now().UnixMilli())).STH(c.Key))
		return
	}
	w.Fill(Published(c, st, n, sizes...))
}

type pubKey struct {
	st   *ref.State
	n    int
	mask int
	orig string
	key  *ecdsa.PrivateKey
	sz   string
	at   int64
}
type pubVal struct {
	objs map[string][]byte
	sum  uint64
}

var published = map[pubKey]*pubVal{}

// Published is a store with n entries (cached: equal arguments, equal objects).
func Published(c *Conf, st *ref.State, n int, sizes ...int) *pubVal {
	now := time.Now().UnixMilli()
	k := pubKey{st, n, c.Mask, c.Origin, c.Key, fmt.Sprint(sizes), now}
	v := published[k]
	if v == nil {
		v = &pubVal{objs: st.Publish(n, c.Mask, uint64(now), c.Origin, c.Key, sizes...)}
		for key, b := range v.objs {
			v.sum ^= mix(key, b)
		}
		published[k] = v
	}
	return v
}

// Objects are the objects of a prepared store (not to be changed).
func (v *pubVal) Objects() map[string][]byte { return v.objs }

// Fill adds a prepared store.
func (w *World) Fill(v *pubVal) {
	for k, b := range v.objs {
		w.Objs[k] = b
	}
	w.Sum ^= v.sum
}

// BrokenKeyFile writes b (nil: nothing) as a key file and returns its path.
func BrokenKeyFile(b []byte) string {
	p := filepath.Join(Scratch(), "broken.pem")
	os.Remove(p)
	if b != nil {
		if err := os.WriteFile(p, b, 0600); err != nil {
			panic(err)
		}
	}
	return p
}
