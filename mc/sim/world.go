// Package sim runs the real itko processes (ctsubmit.MainMain,
// ctmonitor.MainMain) inside one synctest bubble, with the object store, Consul,
// the clients, signals, process death and time under the control of a driver.
package sim

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsubmit"
)

const (
	S3Host     = "s3.mc"
	BucketName = "bkt"
	TileHost   = "tiles.mc"
	ConsulAddr = "consul.mc:8500"
)

type Op struct {
	Proc   *Proc
	Method string
	Key    string
	Body   []byte
	N      int // arrival number
	ctx    context.Context
	ch     chan reply
}

func (o *Op) Put() bool { return o.Method == "PUT" || o.Method == "DELETE" }
func (o *Op) String() string {
	s := fmt.Sprintf("%s %s %s", o.Proc.Label, o.Method, o.Key)
	if o.Put() {
		h := sha256.Sum256(o.Body)
		s += fmt.Sprintf(" #%x", h[:3])
	}
	return s
}

type reply struct {
	status int
	body   []byte
	err    error
	cut    bool
}

// Answer is an answer to an operation other than the store's own.
type Answer struct {
	Status int
	Body   []byte
	Err    error // no answer at all
	Cut    bool  // the connection breaks after Body
}

// A body is one answer handed to a process.
type body struct {
	op  *Op
	r   *bytes.Reader
	cut bool
	end bool // read to its end, closed, or empty
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.end = true
		if b.cut {
			err = io.ErrUnexpectedEOF
		}
	}
	return n, err
}
func (b *body) Close() error { b.end = true; return nil }

// Leaks lists the answers that were neither read to the end nor closed: each
// holds on to a connection.
func (w *World) Leaks() []string {
	var l []string
	for _, b := range w.bodies {
		if !b.end {
			l = append(l, b.op.String())
		}
	}
	return l
}

// Goroutines are those that work for p, one line each.
func (w *World) Goroutines(p *Proc) []string {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	var l []string
	_, records, _ := strings.Cut(b.String(), "\n") // after the total
	for _, rec := range strings.Split(records, "\n\n") {
		if !strings.Contains(rec, fmt.Sprintf("\n# labels: {\"proc\":%q", p.Label)) && !strings.Contains(rec, fmt.Sprintf(", \"proc\":%q", p.Label)) {
			continue
		}
		lines := strings.Split(rec, "\n")
		n := 0
		fmt.Sscanf(lines[0], "%d @", &n)
		at := "?"
		for _, x := range lines[1:] {
			if f := strings.Fields(x); len(f) > 2 && f[0] == "#" && strings.HasPrefix(f[1], "0x") {
				at = f[2]
				if strings.Contains(at, "itko.dev/internal/") {
					break
				}
			}
		}
		for ; n > 0; n-- {
			l = append(l, at)
		}
	}
	sort.Strings(l)
	return l
}

// OpenFiles counts them in all.
func OpenFiles() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

// Fault kinds for Fail.
const (
	Denied = 403
)

type Event struct {
	T    time.Duration // virtual time since the epoch
	What string
}

type Proc struct {
	w       *World
	Label   string
	Monitor bool
	Up      bool // serving
	Dead    bool
	Exit    string // why it ended
	DiedAt  time.Time
	dead    chan struct{}
	lis     *listener
	sigs    []chan<- os.Signal
	session string // last Consul session it created
	HoldsT  time.Time
	Inline  bool   // its store operations are answered at once
	Ops     int    // store operations issued
	Puts    int    // writes among them
	Excuse  string // something was done to it that may end it
}

type World struct {
	mu      sync.Mutex
	logMu   sync.Mutex
	Objs    map[string][]byte
	Start   time.Time
	Procs   []*Proc
	parked  []*Op
	Gone    []*Op // PUTs whose caller gave up; fate undecided
	arrive  chan struct{}
	opN     int
	Consul  *Consul
	Reqs    []*Req
	Log     []Event
	Quiet   bool
	OnApply func(op *Op, old []byte, had bool)
	// Gate, when set, decides whether an operation is parked (true) or answered
	// at once.
	Gate  func(op *Op) bool
	Delay time.Duration // every operation that is not parked takes as long
	Sum   uint64        // running digest of the store
	// Answer, when set, may answer an operation instead of the store.
	Answer func(op *Op) *Answer
	// Mark is the mark of the requests sent from now on.
	Mark string
	// Track makes the world remember answers for Leaks.
	Track  bool
	bodies []*body
}

var cur *World

func New() *World {
	w := &World{Objs: map[string][]byte{}, Start: time.Now(), arrive: make(chan struct{}, 1)}
	w.Consul = newConsul(w)
	cur = w
	return w
}

func init() {
	http.VerifRoundTrip = func(t *http.Transport, req *http.Request) (*http.Response, error) {
		return cur.roundTrip(req)
	}
	os.VerifExit = func(code int) {
		w := cur
		if w == nil {
			return
		}
		p := w.self()
		if p == nil {
			return
		}
		w.Kill(p, fmt.Sprintf("exit %d", code))
		runtime.Goexit()
	}
	signal.VerifNotify = func(c chan<- os.Signal, sig ...os.Signal) {
		if p := cur.self(); p != nil {
			p.sigs = append(p.sigs, c)
		}
	}
	log.SetOutput(io.Discard)
	log.SetFlags(0)
}

func (w *World) Now() time.Duration { return time.Since(w.Start) }

func (w *World) Logf(f string, a ...any) {
	if !w.Quiet {
		w.logMu.Lock()
		defer w.logMu.Unlock()
		w.Log = append(w.Log, Event{w.Now(), fmt.Sprintf(f, a...)})
	}
}

// Self is the process that the calling goroutine belongs to.
func (w *World) Self() *Proc { return w.self() }

// Ended is closed when p ends.
func (p *Proc) Ended() <-chan struct{} { return p.dead }

// Poke wakes up a sleeping driver.
func (w *World) Poke() { w.poke() }

func (w *World) self() *Proc {
	l := pprof.VerifLabel("proc")
	if l == "" {
		return nil
	}
	for _, p := range w.Procs {
		if p.Label == l {
			return p
		}
	}
	return nil
}

func (w *World) spawn(p *Proc, f func()) {
	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("proc", p.Label)))
		f()
	}()
}

func (w *World) newProc(label string) *Proc {
	p := &Proc{w: w, Label: label, dead: make(chan struct{})}
	p.lis = newListener(p)
	w.Procs = append(w.Procs, p)
	return p
}

// StartLog starts a submission process.
func (w *World) StartLog(label, kvpath string) *Proc {
	p := w.newProc(label)
	w.Logf("start %s", label)
	up := make(chan struct{}, 1)
	w.spawn(p, func() {
		ctsubmit.MainMain(context.Background(), p.lis, kvpath, ConsulAddr, up)
		w.Kill(p, "main returned")
	})
	go func() {
		select {
		case <-up:
			p.Up = true
			w.Logf("%s is up", p.Label)
			w.poke()
		case <-p.dead:
		}
	}()
	return p
}

// Run starts a process that runs f.
func (w *World) Run(label string, f func()) *Proc {
	p := w.newProc(label)
	w.Logf("start %s", label)
	w.spawn(p, func() {
		defer func() {
			if x := recover(); x != nil {
				w.Kill(p, fmt.Sprint("panic: ", x))
			}
		}()
		f()
		w.Kill(p, "done")
	})
	return p
}

// StartMonitor starts a monitor process reading the store over HTTP, or from dir.
func (w *World) StartMonitor(label, dir string, mask int) *Proc {
	p := w.newProc(label)
	p.Monitor = true
	up := make(chan struct{}, 1)
	addr := "http://" + TileHost + "/"
	if dir != "" {
		addr = ""
	}
	w.spawn(p, func() {
		ctmonitor.MainMain(p.lis, dir, addr, mask, up)
		w.Kill(p, "main returned")
	})
	go func() {
		select {
		case <-up:
			p.Up = true
			w.poke()
		case <-p.dead:
		}
	}()
	return p
}

// Kill ends a process.  Its parked operations stay for the driver to decide.
func (w *World) Kill(p *Proc, why string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if p.Dead {
		return
	}
	p.Dead, p.Up, p.Exit, p.DiedAt = true, false, why, time.Now()
	w.Logf("%s ends: %s", p.Label, why)
	close(p.dead)
	p.lis.shut()
	w.poke()
}

func (w *World) poke() {
	select {
	case w.arrive <- struct{}{}:
	default:
	}
}

// Settle waits until every process is blocked.
func (w *World) Settle() { synctest.Wait() }

// Sleep lets virtual time pass until something new is parked (or changes
// state), but no longer than d; it reports whether something happened.
func (w *World) Sleep(d time.Duration) bool {
	select {
	case <-w.arrive:
	default:
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-w.arrive:
		synctest.Wait()
		return true
	case <-t.C:
		synctest.Wait()
		return false
	}
}

// SleepAll lets exactly d pass.
func (w *World) SleepAll(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

// Interrupt delivers SIGINT.
func (w *World) Interrupt(p *Proc) {
	w.Logf("SIGINT %s", p.Label)
	p.Excuse = "interrupted"
	for _, c := range p.sigs {
		select {
		case c <- os.Interrupt:
		default:
		}
	}
}

// ------------------------------------------------------------ store operations

func (w *World) roundTrip(req *http.Request) (*http.Response, error) {
	p := w.self()
	if p == nil {
		return nil, errors.New("sim: request from outside every process: " + req.URL.String())
	}
	if p.Dead {
		runtime.Goexit()
	}
	if req.URL.Host == ConsulAddr {
		return w.Consul.serve(p, req)
	}
	var key string
	switch req.URL.Host {
	case S3Host:
		key = strings.TrimPrefix(req.URL.Path, "/"+BucketName+"/")
	case TileHost:
		key = strings.TrimPrefix(req.URL.Path, "/")
	default:
		return nil, fmt.Errorf("sim: dial %s: no such host", req.URL.Host)
	}
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	if p.Dead {
		runtime.Goexit()
	}
	op := &Op{Proc: p, Method: req.Method, Key: key, Body: body, ctx: req.Context(), ch: make(chan reply, 1)}
	w.mu.Lock()
	p.Ops++
	if op.Put() {
		p.Puts++
	}
	w.opN++
	op.N = w.opN
	inline := p.Inline || (w.Gate != nil && !w.Gate(op))
	if inline && w.Delay > 0 {
		w.mu.Unlock()
		t := time.NewTimer(w.Delay)
		defer t.Stop()
		select {
		case <-t.C:
		case <-req.Context().Done():
			return nil, req.Context().Err()
		case <-p.dead:
			runtime.Goexit()
		}
		w.mu.Lock()
	}
	if inline {
		r := w.perform(op)
		w.mu.Unlock()
		if r.err != nil {
			return nil, r.err
		}
		return w.response(req, op, r), nil
	}
	w.parked = append(w.parked, op)
	w.poke()
	w.mu.Unlock()
	var ctxDone = req.Context().Done()
	select {
	case r := <-op.ch:
		if p.Dead {
			runtime.Goexit()
		}
		if r.err != nil {
			return nil, r.err
		}
		return w.response(req, op, r), nil
	case <-ctxDone:
		w.mu.Lock()
		if w.unpark(op) {
			p.Excuse = "gave up " + op.String()
			if op.Put() {
				w.Gone = append(w.Gone, op)
				w.poke()
			}
		}
		w.mu.Unlock()
		if p.Dead {
			runtime.Goexit()
		}
		return nil, req.Context().Err()
	case <-p.dead:
		runtime.Goexit()
	}
	panic("unreachable")
}

func (w *World) unpark(op *Op) bool {
	for i, o := range w.parked {
		if o == op {
			w.parked = append(w.parked[:i:i], w.parked[i+1:]...)
			return true
		}
	}
	return false
}

// Parked lists the pending operations in a canonical order: by process, PUTs of
// signed heads last, then by name.
func (w *World) Parked() []*Op {
	out := append([]*Op(nil), w.parked...)
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].String(), out[j].String()
		if a != b {
			return a < b
		}
		return out[i].N < out[j].N
	})
	return out
}

func mix(key string, v []byte) uint64 {
	h := sha256.New()
	io.WriteString(h, key)
	h.Write([]byte{0})
	h.Write(v)
	var s [32]byte
	return binary.LittleEndian.Uint64(h.Sum(s[:0]))
}

// Put stores an object from outside (set-up).
func (w *World) Put(key string, v []byte) {
	if old, ok := w.Objs[key]; ok {
		w.Sum ^= mix(key, old)
	}
	w.Sum ^= mix(key, v)
	w.Objs[key] = v
}

func (w *World) perform(op *Op) reply {
	if w.Answer != nil {
		if a := w.Answer(op); a != nil {
			return reply{a.Status, a.Body, a.Err, a.Cut}
		}
	}
	switch op.Method {
	case "PUT":
		old, had := w.Objs[op.Key]
		w.Put(op.Key, op.Body)
		if w.OnApply != nil {
			w.OnApply(op, old, had)
		}
		return reply{status: 200, body: nil}
	case "GET", "HEAD":
		b, ok := w.Objs[op.Key]
		if !ok {
			return reply{status: 404, body: nil}
		}
		return reply{status: 200, body: b}
	}
	if op.Method == "DELETE" {
		if old, had := w.Objs[op.Key]; had {
			w.Sum ^= mix(op.Key, old)
			delete(w.Objs, op.Key)
			if w.OnApply != nil {
				w.OnApply(op, old, had)
			}
		}
		return reply{status: 204, body: nil}
	}
	return reply{status: 405, body: nil}
}

// Release performs op and answers it.
func (w *World) Release(op *Op) {
	w.mu.Lock()
	if w.unpark(op) {
		w.Logf("%s", op)
		op.ch <- w.perform(op)
	}
	w.mu.Unlock()
}

// Fail answers op with a non-retryable error; a PUT may have been applied.
func (w *World) Fail(op *Op, applied bool) {
	w.mu.Lock()
	if w.unpark(op) {
		w.Logf("%s FAILS applied=%v", op, applied)
		op.Proc.Excuse = "failed " + op.String()
		if applied {
			w.perform(op)
		}
		op.ch <- reply{status: Denied, body: nil}
	}
	w.mu.Unlock()
}

// Finish decides the fate of an operation whose process died or whose caller
// gave up.
func (w *World) Finish(op *Op, applied bool) {
	w.mu.Lock()
	w.unpark(op)
	for i, o := range w.Gone {
		if o == op {
			w.Gone = append(w.Gone[:i:i], w.Gone[i+1:]...)
			break
		}
	}
	if applied && op.Put() {
		w.Logf("%s lands", op)
		w.perform(op)
	}
	w.mu.Unlock()
}

func (w *World) response(req *http.Request, op *Op, r reply) *http.Response {
	h := http.Header{}
	b := r.body
	switch {
	case r.status == 404 && req.Method != "HEAD" && req.URL.Host == S3Host:
		b = []byte(`<?xml version="1.0" encoding="UTF-8"?><Error><Code>NoSuchKey</Code><Message>The specified key does not exist.</Message></Error>`)
		h.Set("Content-Type", "application/xml")
	case r.status == 403 && req.Method != "HEAD":
		b = []byte(`<?xml version="1.0" encoding="UTF-8"?><Error><Code>AccessDenied</Code><Message>denied</Message></Error>`)
		h.Set("Content-Type", "application/xml")
	case r.status != 200 && b == nil && op.Method == "GET":
		b = []byte(http.StatusText(r.status) + "\n")
	case op.Method == "PUT":
		h.Set("ETag", `"x"`)
	}
	n := int64(len(b))
	if req.Method == "HEAD" {
		h.Set("Content-Length", fmt.Sprint(n))
		b = nil
	}
	bd := &body{op: op, r: bytes.NewReader(b), cut: r.cut, end: len(b) == 0}
	if r.cut {
		n++
		bd.end = false
	}
	if w.Track {
		w.mu.Lock()
		w.bodies = append(w.bodies, bd)
		w.mu.Unlock()
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", r.status, http.StatusText(r.status)), StatusCode: r.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: bd, ContentLength: n, Request: req}
}

// Fresh ends every process and forgets it.
func (w *World) Fresh() {
	for _, p := range w.Procs {
		w.Kill(p, "replaced")
	}
	w.Settle()
	for _, r := range w.Reqs {
		r.closeConn()
	}
	w.Settle()
	w.Procs, w.Reqs, w.bodies = nil, nil, nil
}

// Close ends every process and lets their goroutines finish.
func (w *World) Close() {
	w.Quiet = true
	for _, p := range w.Procs {
		w.Kill(p, "end of run")
	}
	w.Settle()
	for _, r := range w.Reqs {
		r.closeConn()
	}
	time.Sleep(time.Minute)
	w.Settle()
}

// ------------------------------------------------------------ connections

type listener struct {
	p    *Proc
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
	mu   sync.Mutex
	all  []net.Conn
}

func newListener(p *Proc) *listener {
	return &listener{p: p, ch: make(chan net.Conn), done: make(chan struct{})}
}
func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error { l.shut(); return nil }
func (l *listener) shut() {
	l.once.Do(func() {
		close(l.done)
		l.mu.Lock()
		defer l.mu.Unlock()
		for _, c := range l.all {
			c.Close()
		}
	})
}

type addr struct{}

func (addr) Network() string       { return "tcp" }
func (addr) String() string        { return "10.0.0.1:443" }
func (l *listener) Addr() net.Addr { return addr{} }
func (l *listener) dial() (net.Conn, error) {
	c, s := net.Pipe()
	select {
	case <-l.done:
		return nil, errors.New("connection refused")
	default:
	}
	l.mu.Lock()
	l.all = append(l.all, c, s)
	l.mu.Unlock()
	select {
	case l.ch <- s:
		return c, nil
	case <-l.done:
		return nil, errors.New("connection refused")
	}
}
