package sim

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"time"
)

// Req is one client request.
type Req struct {
	Name   string
	Proc   *Proc
	Sent   time.Time
	Done   bool
	At     time.Time
	Status int // 0: the connection broke
	Header http.Header
	Body   []byte
	Err    error
	Tag    any
	Mark   string // names the goroutines that serve it
	Hung   bool   // the client went away
	conn   net.Conn
}

// MarkHeader carries the mark of a request.
const MarkHeader = "X-Verif-Mark"

func (r *Req) closeConn() {
	if r.conn != nil {
		r.conn.Close()
	}
}

// HangUp is the client going away.
func (r *Req) HangUp() {
	r.Hung = true
	r.closeConn()
}

// Do sends a request to p; the answer arrives asynchronously.
func (w *World) Do(p *Proc, name, method, target string, body []byte) *Req {
	r := &Req{Name: name, Proc: p, Sent: time.Now(), Mark: w.Mark}
	w.Reqs = append(w.Reqs, r)
	w.Logf("request %s -> %s", name, p.Label)
	go func() {
		err := r.run(method, target, body)
		r.Done, r.At, r.Err = true, time.Now(), err
		if err != nil {
			r.Status = 0
		}
		if !w.Quiet {
			w.Logf("answer %s: %d (%v)", name, r.Status, err)
		}
		w.poke()
	}()
	return r
}

func (r *Req) run(method, target string, body []byte) error {
	c, err := r.Proc.lis.dial()
	if err != nil {
		return err
	}
	r.conn = c
	defer c.Close()
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: log.mc\r\nConnection: close\r\n", method, target)
	if r.Mark != "" {
		fmt.Fprintf(&b, "%s: %s\r\n", MarkHeader, r.Mark)
	}
	if body != nil {
		fmt.Fprintf(&b, "Content-Type: application/json\r\nContent-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	// The server may answer before it has read everything.
	go c.Write(b.Bytes())
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return err
	}
	r.Header = resp.Header
	rb, err := io.ReadAll(resp.Body)
	if err != nil {
		return err
	}
	r.Status, r.Body = resp.StatusCode, rb
	return nil
}

// Get asks p and waits for the answer, for processes whose operations are not
// parked; ok is false when none came within 60 virtual seconds.
func (w *World) Get(p *Proc, target string) (r *Req, ok bool) { return w.Ask(p, "GET", target) }

// Ask is Get with another method.
func (w *World) Ask(p *Proc, method, target string) (r *Req, ok bool) {
	if method == "" {
		method = "GET"
	}
	r = w.Do(p, method+" "+target, method, target, nil)
	w.Settle()
	for i := 0; i < 60 && !r.Done; i++ {
		w.SleepAll(time.Second)
	}
	return r, r.Done
}

// A Piece is a part of what a client sends, some time after the one before.
type Piece struct {
	After time.Duration
	B     []byte
}

// Raw sends pieces as they are; the client then waits for an answer or, to
// leave, goes away.
func (w *World) Raw(p *Proc, name string, pieces []Piece, leave bool) *Req {
	r := &Req{Name: name, Proc: p, Sent: time.Now()}
	w.Reqs = append(w.Reqs, r)
	w.Logf("request %s -> %s", name, p.Label)
	go func() {
		err := func() error {
			c, err := p.lis.dial()
			if err != nil {
				return err
			}
			r.conn = c
			defer c.Close()
			write := func() {
				for _, x := range pieces {
					time.Sleep(x.After)
					c.Write(x.B)
				}
			}
			if leave {
				write()
				return errors.New("left")
			}
			go write()
			resp, err := http.ReadResponse(bufio.NewReader(c), nil)
			if err != nil {
				return err
			}
			r.Header = resp.Header
			rb, err := io.ReadAll(resp.Body)
			if err != nil {
				return err
			}
			r.Status, r.Body = resp.StatusCode, rb
			return nil
		}()
		r.Done, r.At, r.Err = true, time.Now(), err
		if err != nil {
			r.Status = 0
		}
		w.Logf("answer %s: %d (%v)", name, r.Status, err)
		w.poke()
	}()
	return r
}
