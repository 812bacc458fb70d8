package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io/fs"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/ref"
	"itko.dev/mcheck/sim"
)

// C22: the real setup, then the real log.

func pemOf(typ string, b []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}))
}
func certPEM(c *pki.CA) string { return pemOf("CERTIFICATE", c.DER) }

// odd is a root that the CT libraries accept with reservations: one of its
// alternative names is an IP address of five bytes.
var odd = func() *pki.CA {
	return pki.NewCAUnparsed("odd", func(t *x509.Certificate) {
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: []int{2, 5, 29, 17}, Value: []byte{0x30, 7, 0x87, 5, 1, 2, 3, 4, 5}})
	})
}()

// twin has the name of a root and another key, renewed its name and key.
var (
	twin    = pki.Fake("R1", nil)
	renewed = pki.NewCA("R2", nil, func(t *x509.Certificate) {
		t.SerialNumber = big.NewInt(77)
		t.NotAfter = t.NotAfter.AddDate(1, 0, 0)
	})
)

type rootsFile struct {
	name  string
	text  string
	roots []*pki.CA // nil: setup must fail
}

func rootFiles() []rootsFile {
	r1, r2, rx, i1 := std.R1, std.R2, std.RX, std.I1
	var many []*pki.CA
	all := ""
	for i := 0; i < 40; i++ {
		c := manyRoots(i)
		many = append(many, c)
		all += certPEM(c)
	}
	bad := append([]byte(nil), r2.DER...)
	bad[1] ^= 0x10
	return []rootsFile{
		{"one", certPEM(r1), []*pki.CA{r1}},
		{"three", certPEM(r2) + certPEM(r1) + certPEM(rx), []*pki.CA{r1, r2, rx}},
		{"one twice", certPEM(r1) + certPEM(r2) + certPEM(r1), []*pki.CA{r1, r2}},
		{"with text", "# roots\nSubject: CN=R1\n" + certPEM(r1) + "\n\nsomething else\n" + certPEM(r2) + "end", []*pki.CA{r1, r2}},
		{"with other blocks", pemOf("EC PARAMETERS", []byte{6, 1, 1}) + certPEM(r1) + string(pki.KeyPEM(pki.Key("other"))) + certPEM(r2), []*pki.CA{r1, r2}},
		{"CRLF", strings.ReplaceAll(certPEM(r1)+certPEM(r2), "\n", "\r\n"), []*pki.CA{r1, r2}},
		{"no last line end", strings.TrimSuffix(certPEM(r1)+certPEM(r2), "\n"), []*pki.CA{r1, r2}},
		{"an intermediate", certPEM(i1), []*pki.CA{i1}},
		{"intermediate and root", certPEM(i1) + certPEM(r1), []*pki.CA{i1, r1}},
		{"forty", all, many},
		{"an odd one", certPEM(r1) + certPEM(odd), []*pki.CA{r1, odd}},
		{"two of the same name", certPEM(r1) + certPEM(twin) + certPEM(r2), []*pki.CA{r1, twin, r2}},
		{"one of version 1", certPEM(r1) + certPEM(v1Root), []*pki.CA{r1, v1Root}},
		{"one that is no CA", certPEM(r2) + certPEM(noCA), []*pki.CA{r2, noCA}},
		{"one for signing only", certPEM(signOnly) + certPEM(r2), []*pki.CA{signOnly, r2}},
		{"one without usages", certPEM(noUsage) + certPEM(r2), []*pki.CA{noUsage, r2}},
		{"one that is over", certPEM(r2) + certPEM(over), []*pki.CA{r2, over}},
		{"renewed with the same key", certPEM(r2) + certPEM(renewed), []*pki.CA{r2, renewed}},
		{"empty", "", nil},
		{"only text", "no certificates here\n", nil},
		{"only a key", string(pki.KeyPEM(pki.Key("other"))), nil},
		{"damaged", pemOf("CERTIFICATE", bad), nil},
		{"one damaged", certPEM(r1) + pemOf("CERTIFICATE", bad), nil},
		{"cut", pemOf("CERTIFICATE", r1.DER[:100]), nil},
		{"missing", "-", nil},
	}
}

// unusual roots
var (
	noCA     = pki.NewCA("no CA", nil, func(t *x509.Certificate) { t.IsCA = false })
	signOnly = pki.NewCA("sign only", nil, func(t *x509.Certificate) { t.KeyUsage = x509.KeyUsageCertSign })
	noUsage  = pki.NewCA("no usage", nil, func(t *x509.Certificate) { t.KeyUsage = 0 })
	over     = pki.NewCA("over", nil, func(t *x509.Certificate) { t.NotAfter = pki.Epoch.AddDate(-1, 0, 0) })
)

var manyCache = map[int]*pki.CA{}

func manyRoots(i int) *pki.CA {
	if manyCache[i] == nil {
		manyCache[i] = pki.NewCA(fmt.Sprintf("many%d", i), nil)
	}
	return manyCache[i]
}

func keyOn(c elliptic.Curve, name string) *ecdsa.PrivateKey {
	d := sha256.Sum256([]byte("key " + name))
	k := &ecdsa.PrivateKey{D: new(big.Int).Rsh(new(big.Int).SetBytes(d[:]), 40)}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(k.D.Bytes())
	return k
}

type keyFile struct {
	name string
	key  *ecdsa.PrivateKey // nil: setup must fail
	text []byte
}

func keyFiles() []keyFile {
	l := []keyFile{}
	for _, k := range []*ecdsa.PrivateKey{sim.LogKey, pki.Key("another"), keyOn(elliptic.P384(), "a"), keyOn(elliptic.P521(), "b")} {
		l = append(l, keyFile{"P-" + fmt.Sprint(k.Params().BitSize), k, pki.KeyPEM(k)})
	}
	k := sim.LogKey
	l = append(l, keyFile{"key with text", k, append([]byte("# key\n\n"), append(pki.KeyPEM(k), "\nend"...)...)})
	p8, _ := x509.MarshalPKCS8PrivateKey(k)
	b := pki.KeyPEM(k)
	return append(l,
		keyFile{"empty", nil, []byte{}}, keyFile{"missing", nil, nil}, keyFile{"text", nil, []byte("not a key\n")},
		keyFile{"cut", nil, b[:len(b)/2]}, keyFile{"a certificate", nil, []byte(certPEM(std.R1))},
		keyFile{"DER cut", nil, []byte(pemOf("EC PRIVATE KEY", p8[:20]))}, keyFile{"zero", nil, []byte(pemOf("EC PRIVATE KEY", make([]byte, 40)))})
}

// site is where a log is going to be set up.
type site struct {
	w     *sim.World
	c     *sim.Conf
	r     *explore.Run
	dir   string
	roots string // file
	key   string // file
	n     int
}

func newSite(r *explore.Run, onDir bool) *site {
	s := &site{w: sim.New(), c: sim.DefaultConf(std), r: r}
	s.w.Gate = func(*sim.Op) bool { return false }
	s.c.FlushMs = 100
	if onDir {
		s.dir = filepath.Join(sim.Scratch(), "site")
		os.RemoveAll(s.dir)
		s.c.Root = s.dir
	}
	s.roots = filepath.Join(sim.Scratch(), "roots.pem")
	r.LogFn = func() []string {
		var out []string
		for _, e := range s.w.Log {
			out = append(out, fmt.Sprintf("%10.3fs %s", e.T.Seconds(), e.What))
		}
		return out
	}
	return s
}

func (s *site) files(rf rootsFile, kf keyFile) {
	os.Remove(s.roots)
	if rf.text != "-" {
		if err := os.WriteFile(s.roots, []byte(rf.text), 0600); err != nil {
			panic(err)
		}
	}
	s.key = filepath.Join(sim.Scratch(), "site-key.pem")
	os.Remove(s.key)
	if kf.text != nil {
		if err := os.WriteFile(s.key, kf.text, 0600); err != nil {
			panic(err)
		}
	}
	s.c.KeyPath = s.key
	if kf.key != nil {
		s.c.Key = kf.key
	}
	s.c.Roots = rf.roots
}

// setup runs the real setup and says how it ended ("done": success).
func (s *site) setup() string {
	var gc ctsubmit.GlobalConfig
	if err := json.Unmarshal(s.c.JSON(), &gc); err != nil {
		panic(err)
	}
	s.n++
	p := s.w.Run(fmt.Sprint("setup", s.n), func() {
		ctsetup.MainMain(context.Background(), sim.ConsulAddr, s.c.KV, s.roots, s.key, gc)
	})
	for i := 0; i < 300 && !p.Dead; i++ {
		s.w.SleepAll(time.Second)
	}
	s.r.Evals++
	if !p.Dead {
		s.w.Kill(p, "hangs")
	}
	s.w.Settle()
	return p.Exit
}

// load takes the files into the world's store: what is published last, last.
func (s *site) load(apply bool) { loadDir(s.w, s.dir, apply) }

func loadDir(w *sim.World, dir string, apply bool) {
	var keys []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		// what a killed write left under another name is not a key
		if err == nil && d.Type().IsRegular() && !strings.HasPrefix(d.Name(), ".") && !strings.Contains(d.Name(), "tmp") {
			keys = append(keys, strings.TrimPrefix(p, dir+"/"))
		}
		return nil
	})
	rank := func(k string) int {
		switch {
		case strings.HasPrefix(k, "int/dedupe/"):
			return 3 // written after the heads
		case k == "checkpoint":
			return 2
		case k == "ct/v1/get-sth":
			return 1
		}
		return 0
	}
	sort.SliceStable(keys, func(i, j int) bool { return rank(keys[i]) < rank(keys[j]) })
	for _, k := range keys {
		b, err := os.ReadFile(filepath.Join(dir, k))
		old, had := w.Objs[k]
		if err != nil || had && bytes.Equal(old, b) {
			continue
		}
		w.Put(k, b)
		if apply && w.OnApply != nil {
			w.OnApply(&sim.Op{Method: "PUT", Key: k, Body: b}, old, had)
		}
	}
}

// works checks everything that must hold once setup said that it is done.
func (s *site) works(what string) {
	w, c, r := s.w, s.c, s.r
	if s.dir != "" {
		w.Objs = map[string][]byte{}
		s.load(false)
	}
	var got struct {
		Certificates [][]byte `json:"certificates"`
	}
	dec := json.NewDecoder(bytes.NewReader(w.Objs["ct/v1/get-roots"]))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&got); err != nil {
		r.Fail("roots", "after setup with %s get-roots is %.80q: %v", what, w.Objs["ct/v1/get-roots"], err)
		return
	}
	have := map[string]int{}
	for _, b := range got.Certificates {
		have[string(b)]++
	}
	for _, c := range c.Roots {
		if have[string(c.DER)] != 1 {
			r.Fail("roots", "after setup with %s get-roots has the root %s %d times", what, c.Name, have[string(c.DER)])
		}
	}
	if len(have) != len(c.Roots) {
		r.Fail("roots", "after setup with %s get-roots has %d roots instead of %d", what, len(have), len(c.Roots))
	}
	h, err := ref.ParseSTH(w.Objs["ct/v1/get-sth"], &c.Key.PublicKey)
	if err != nil || h.Size != 0 || h.Root != sha256.Sum256(nil) {
		r.Fail("sth", "after setup with %s the tree head is %.200q: %v", what, w.Objs["ct/v1/get-sth"], err)
		return
	}
	if h.Timestamp > uint64(time.Now().UnixMilli()) {
		r.Fail("sth", "after setup with %s the tree head is from the future", what)
	}
	d := &Driver{Audit: NewAudit(w, r, c, ref.NewState(), 0, "tree", "head", "append", "dense", "sct", "time"), plan: &Plan{NoRestart: true}, extra: map[string]any{}}
	if s.dir != "" {
		d.sync = func() { s.load(true) }
	}
	d.live = d.start()
	d.flow(70*time.Second, func() bool { return d.live.Up || d.live.Dead })
	if !d.live.Up {
		r.Fail("no-start", "after setup with %s the log does not start: %s", what, d.live.Exit)
		return
	}
	var l []try
	for i, root := range append(append([]*pki.CA{}, c.Roots...), pki.NewCA("stranger", nil)) {
		if i > 3 && i < len(c.Roots)-1 {
			continue
		}
		if root == noCA {
			continue // it is listed, no more
		}
		sub := pki.Cert(fmt.Sprintf("first-%d", i), root, pki.LeafOpt{})
		if root.Up != nil {
			sub.Chain = sub.Chain[:2] // the intermediate is the anchor
			for _, x := range c.Roots {
				if x == root.Up {
					sub.Chain = nil
				}
			}
			if sub.Chain == nil {
				continue // either will do
			}
			sub.Posted = sub.Chain
		}
		t := try{"a chain to a root given to setup", "POST", endpoint(sub), sub.Body(), sub}
		if i == len(c.Roots) {
			t = try{"a chain to a root not given to setup", "POST", endpoint(sub), sub.Body(), nil}
		}
		l = append(l, t)
	}
	d.tryAll(l)
	out := pki.Cert("too-late", c.Roots[0], pki.LeafOpt{NotAfter: c.To})
	out.Posted = out.Chain[:2]
	d.tryAll([]try{{"a certificate outside the configured window", "POST", endpoint(out), out.Body(), nil}})
	if len(l) > 1 && d.sth.Size == 0 {
		r.Fail("size", "after setup with %s and accepted submissions the tree is empty", what)
	}
	d.Audit.Final()
	r.State(w.Sum)
}

func setupScenario() explore.Scenario {
	return explore.Scenario{Name: "configurations", Bubble: true, Run: func(r *explore.Run) {
		where := r.Pick("store", 3) // S3, directory to be made, directory there
		rfs, kfs := rootFiles(), keyFiles()
		ri, ki := r.Pick("roots", len(rfs)), r.Pick("key", len(kfs))
		if r.Tier != "thorough" && ri > 1 && ki > 1 && (ri+ki)%4 != 0 {
			return
		}
		rf, kf := rfs[ri], kfs[ki]
		s := newSite(r, where > 0)
		defer s.w.Close()
		if where == 2 {
			os.MkdirAll(s.dir, 0755)
		}
		s.c.KV = []string{"testlog", "logs/2025/h1"}[(len(rf.name)+len(kf.name))%2]
		s.c.Mask = 1 + len(kf.name)%3
		s.files(rf, kf)
		what := fmt.Sprintf("the roots %q and the key %q", rf.name, kf.name)
		exit := s.setup()
		good := rf.roots != nil && kf.key != nil
		r.Outcome(fmt.Sprint(good, exit))
		switch {
		case good && exit != "done":
			r.Fail("refused", "setup with %s does not succeed: %s", what, exit)
		case !good && exit == "done":
			r.Fail("no-failure", "setup with %s reports success", what)
		case exit == "hangs":
			r.Fail("hangs", "setup with %s does not end", what)
		case good:
			s.works(what)
		}
	}}
}

// setupOver: something of an earlier log, or of an earlier try with another
// configuration, is there already.
func setupOver() explore.Scenario {
	return explore.Scenario{Name: "over something else", Bubble: true, Run: func(r *explore.Run) {
		onDir := r.Pick("store", 2) == 1
		what := r.Pick("there already", 15) + 1
		kf := keyFiles()[r.Pick("key", 3)]
		rf := rootFiles()[1+r.Pick("roots", 2)*3]
		s := newSite(r, onDir)
		defer s.w.Close()
		put := func(k string, b []byte) {
			if !onDir {
				s.w.Put(k, b)
				return
			}
			p := filepath.Join(s.dir, k)
			if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(p, b, 0644); err != nil {
				panic(err)
			}
		}
		old := *s.c
		old.Origin, old.Mask, old.FlushMs, old.Key = "old.mc/1999", 3, 5000, pki.Key("old")
		old.From, old.To = old.From.AddDate(-1, 0, 0), old.To.AddDate(-1, 0, 0)
		old.KeyPath = sim.KeyFile(old.Key)
		s.files(rf, kf)
		if what&1 != 0 {
			s.w.Consul.Set(s.c.KV+"/config", old.JSON())
		}
		if what&2 != 0 {
			put("ct/v1/get-roots", pki.RootsJSON(std.RX))
		}
		if what&4 != 0 {
			put("ct/v1/get-sth", ref.NewState().Head(0, uint64(time.Now().UnixMilli())-5000).STH(old.Key))
		}
		if what&8 != 0 { // longer and shorter than what is going to be written
			put("ct/v1/get-roots", append(pki.RootsJSON(std.RX, std.R1, std.R2, std.I1, std.J1, twin), make([]byte, 100)...))
			put("ct/v1/get-sth", []byte("{}"))
			s.w.Consul.Set(s.c.KV+"/config", []byte("{}"))
		}
		desc := fmt.Sprintf("other objects there (%d), the roots %q and the key %q", what, rf.name, kf.name)
		exit := s.setup()
		r.Outcome(fmt.Sprint(exit))
		if exit != "done" {
			r.Fail("refused", "setup with %s does not succeed: %s", desc, exit)
			return
		}
		s.works(desc)
	}}
}

var errNet = errors.New("connection reset by peer")

// setupFaults: every request of setup to the store and to Consul fails, once
// or for good, or setup is killed there.
func setupFaults() explore.Scenario {
	return explore.Scenario{Name: "failures", Bubble: true, Run: func(r *explore.Run) {
		at := r.Pick("request", 3) // roots, configuration, tree head
		kind := r.Pick("failure", 6)
		for_ := []int{1, 2, 1000}[r.Pick("times", 3)]
		applied := r.Pick("applied", 2) == 1
		s := newSite(r, false)
		defer s.w.Close()
		s.files(rootFiles()[1], keyFiles()[0])
		statuses := []int{403, 500, 503, 404, 0, -1}
		left := for_
		status := func(p *sim.Proc) (st int, err error, hit bool) {
			if left == 0 {
				return 0, nil, false
			}
			left--
			switch st := statuses[kind]; st {
			case 0:
				return 0, errNet, true
			case -1:
				s.w.Kill(p, "killed")
				return 0, errNet, true
			default:
				return st, nil, true
			}
		}
		s.w.Answer = func(op *sim.Op) *sim.Answer {
			if !op.Put() || strings.HasPrefix(op.Proc.Label, "setup") == false || (op.Key == "ct/v1/get-roots") != (at == 0) || (op.Key == "ct/v1/get-sth") != (at == 2) {
				return nil
			}
			if statuses[kind] == -1 && left > 0 {
				left = 0
				if applied {
					s.w.Objs[op.Key] = op.Body
				}
				p := op.Proc
				go s.w.Kill(p, "killed")
				return &sim.Answer{Err: errNet}
			}
			st, err, hit := status(op.Proc)
			if !hit {
				return nil
			}
			if applied {
				s.w.Objs[op.Key] = op.Body
			}
			return &sim.Answer{Status: st, Err: err}
		}
		s.w.Consul.Answer = func(p *sim.Proc, req *http.Request) (int, error) {
			if at != 1 || req.Method != "PUT" || !strings.HasPrefix(p.Label, "setup") {
				return 0, nil
			}
			if statuses[kind] == -1 {
				if left > 0 {
					left = 0
					go s.w.Kill(p, "killed")
					return 0, errNet
				}
				return 0, nil
			}
			st, err, _ := status(p)
			return st, err
		}
		what := fmt.Sprintf("request %d failing (kind %d, %d times, applied %v)", at, kind, for_, applied)
		exit := s.setup()
		r.Outcome(fmt.Sprint(at, kind, for_, exit))
		failed := left < for_
		if exit == "hangs" {
			r.Fail("hangs", "setup with %s does not end", what)
			return
		}
		if !failed {
			r.Fail("nothing-written", "setup made no such request (%d)", at)
			return
		}
		if exit == "done" && for_ == 1000 && statuses[kind] != -1 {
			r.Fail("no-failure", "setup with %s reports success", what)
			return
		}
		s.w.Answer, s.w.Consul.Answer = nil, nil
		if exit != "done" {
			// a log started now either refuses or is a right one
			s.halfway(what)
			if exit := s.setup(); exit != "done" {
				r.Fail("refused", "setup repeated after %s does not succeed: %s", what, exit)
				return
			}
			what = "a repetition after " + what
		}
		s.works(what)
	}}
}

// halfway starts a log after a setup that did not end well.
func (s *site) halfway(what string) {
	_, roots := s.w.Objs["ct/v1/get-roots"]
	_, sth := s.w.Objs["ct/v1/get-sth"]
	if s.dir != "" {
		_, e1 := os.Stat(s.dir + "/ct/v1/get-roots")
		_, e2 := os.Stat(s.dir + "/ct/v1/get-sth")
		roots, sth = e1 == nil, e2 == nil
	}
	p := s.w.StartLog("early", s.c.KV)
	for i := 0; i < 40 && !p.Up && !p.Dead; i++ {
		s.w.SleepAll(time.Second)
	}
	if p.Up && (!roots || !sth) {
		s.r.Fail("started-halfway", "a log starts after setup with %s although roots are there: %v, tree head: %v", what, roots, sth)
	}
	s.w.Kill(p, "stopped")
	s.w.SleepAll(40 * time.Second) // its lock is free again
}

// setupDirFaults is setupFaults for the steps of writing files.
func setupDirFaults() explore.Scenario {
	return explore.Scenario{Name: "failures on a directory", Bubble: true, Run: func(r *explore.Run) {
		kind := r.Pick("failure", 5)
		forGood := r.Pick("for good", 2) == 1
		at := r.Pick("step", 24)
		s := newSite(r, true)
		defer s.w.Close()
		defer func() { os.VerifFS, os.VerifFSWrite, os.VerifFSTorn = nil, nil, nil }()
		s.files(rootFiles()[1], keyFiles()[0])
		n, hit := 0, false
		within := func(p string) bool { return p == s.dir || strings.HasPrefix(p, s.dir+"/") }
		due := func() bool {
			n++
			if n-1 == at || forGood && n-1 > at {
				hit = true
				return true
			}
			return false
		}
		kill := func() error {
			for _, p := range s.w.Procs {
				if strings.HasPrefix(p.Label, "setup") && !p.Dead {
					p := p
					go s.w.Kill(p, "killed")
				}
			}
			return syscall.EIO
		}
		os.VerifFS = func(op, path string, flag int) error {
			if !within(path) || op == "read" || op == "stat" || op == "open" && flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) == 0 || !due() {
				return nil
			}
			switch kind {
			case 0, 3:
				return &os.PathError{Op: op, Path: path, Err: syscall.EIO}
			case 1:
				return &os.PathError{Op: op, Path: path, Err: syscall.EACCES}
			case 2:
				return &os.PathError{Op: op, Path: path, Err: syscall.ENOSPC}
			}
			return kill()
		}
		os.VerifFSWrite = func(path string, k int) (int, error) {
			if !within(path) || !due() {
				return -1, nil
			}
			switch kind {
			case 0, 1:
				return 0, &os.PathError{Op: "write", Path: path, Err: syscall.EIO}
			case 2, 3:
				return k / 2, &os.PathError{Op: "write", Path: path, Err: syscall.ENOSPC}
			}
			return k / 2, kill()
		}
		what := fmt.Sprintf("step %d failing (kind %d, for good %v)", at, kind, forGood)
		exit := s.setup()
		os.VerifFS, os.VerifFSWrite, os.VerifFSTorn = nil, nil, nil
		r.Outcome(fmt.Sprint(hit, kind, forGood, exit))
		if !hit {
			if exit != "done" {
				r.Fail("refused", "setup on a directory does not succeed: %s", exit)
			}
			return
		}
		if exit == "done" && forGood {
			r.Fail("no-failure", "setup with %s reports success", what)
			return
		}
		if exit == "hangs" {
			r.Fail("hangs", "setup with %s does not end", what)
			return
		}
		if exit != "done" {
			s.halfway(what)
			if exit := s.setup(); exit != "done" {
				r.Fail("refused", "setup repeated after %s does not succeed: %s", what, exit)
				return
			}
			what = "a repetition after " + what
		}
		s.works(what)
	}}
}
