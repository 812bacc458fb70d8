package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"itko.dev/mcheck/explore"
	"itko.dev/mcheck/pki"
	"itko.dev/mcheck/sim"
)

// transportScenario: the same bodies, sent in other ways, in whole or in part.
func transportScenario() explore.Scenario {
	return explore.Scenario{Name: "transport", Bubble: true, Run: func(r *explore.Run) {
		pre := r.Pick("precertificate", 2) == 1
		part := r.Pick("part", 3)
		n := 0
		mk := func() *pki.Sub {
			n++
			if pre {
				return pki.Pre(fmt.Sprint("sent", part, n), std.I1, pki.LeafOpt{})
			}
			return pki.Cert(fmt.Sprint("sent", part, n), std.I1, pki.LeafOpt{})
		}
		d := newLog(r, 3, nil, nil, logMonitors, nil)
		head := func(s *pki.Sub, proto string, h ...string) []byte {
			return []byte("POST " + endpoint(s) + " HTTP/" + proto + "\r\nHost: log.mc\r\nConnection: close\r\n" + strings.Join(append(h, ""), "\r\n") + "\r\n")
		}
		length := func(b []byte) string { return fmt.Sprint("Content-Length: ", len(b)) }
		whole := func(h []byte, b []byte) []sim.Piece { return []sim.Piece{{0, append(append([]byte(nil), h...), b...)}} }
		pieces := func(b []byte, k int, gap time.Duration) (l []sim.Piece) {
			for i := 0; i < k; i++ {
				l = append(l, sim.Piece{After: gap, B: b[i*len(b)/k : (i+1)*len(b)/k]})
			}
			return l
		}
		chunked := func(b []byte, k int, gap time.Duration, end bool) (l []sim.Piece) {
			for _, p := range pieces(b, k, gap) {
				l = append(l, sim.Piece{After: gap, B: []byte(fmt.Sprintf("%x\r\n%s\r\n", len(p.B), p.B))})
			}
			if end {
				l = append(l, sim.Piece{B: []byte("0\r\n\r\n")})
			}
			return l
		}
		type sent struct {
			what string
			q    *sim.Req
			s    *pki.Sub
			left bool
		}
		var l []sent
		good := func(what string, s *pki.Sub, p []sim.Piece) {
			d.expect(s)
			l = append(l, sent{what, d.w.Raw(d.live, what, p, false), s, false})
		}
		// what is not sent to its end; then the client goes away, or asks for an answer all the same
		cut := func(what string, p []sim.Piece, leave bool) {
			l = append(l, sent{what, d.w.Raw(d.live, what, p, leave), nil, leave})
		}
		const js, second = "Content-Type: application/json", time.Second
		switch part {
		case 0:
			for _, h := range [][]string{{}, {js}, {js + "; charset=utf-8"}, {"Content-Type: text/plain"}, {"Content-Type: application/x-www-form-urlencoded"}, {"Content-Type: multipart/form-data; boundary=x"},
				{"Accept: text/html"}, {"Accept-Encoding: gzip"}, {"User-Agent: x"}, {"Traceparent: 00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"}, {"Expect: 100-continue"}} {
				s := mk()
				if strings.HasPrefix(strings.Join(h, ""), "Expect") {
					// the interim answer would be read as the answer
					continue
				}
				good(fmt.Sprintf("a submission with headers %q", h), s, whole(head(s, "1.1", append(h, length(s.Body()))...), s.Body()))
			}
			s := mk()
			good("a submission in HTTP/1.0", s, whole(head(s, "1.0", js, length(s.Body())), s.Body()))
			for _, k := range []int{2, 7, 100} {
				for _, gap := range []time.Duration{0, 10 * time.Millisecond, second / 10} {
					s := mk()
					good(fmt.Sprintf("a submission in %d pieces, one each %v", k, gap), s, append(whole(head(s, "1.1", js, length(s.Body())), nil), pieces(s.Body(), k, gap)...))
					s = mk()
					good(fmt.Sprintf("a submission in %d chunks, one each %v", k, gap), s, append(whole(head(s, "1.1", js, "Transfer-Encoding: chunked"), nil), chunked(s.Body(), k, gap, true)...))
				}
			}
			s = mk()
			good("a submission in one chunk", s, append(whole(head(s, "1.1", js, "Transfer-Encoding: chunked"), nil), chunked(s.Body(), 1, 0, true)...))
			for i, f := range []func(b []byte) []byte{
				func(b []byte) []byte { return append([]byte(" \r\n\t"), append(b, " \n"...)...) },
				func(b []byte) []byte { return bytes.ReplaceAll(b, []byte("/"), []byte(`\/`)) },
				func(b []byte) []byte { return bytes.ReplaceAll(b, []byte("+"), []byte(`\u002b`)) },
				func(b []byte) []byte { return bytes.ReplaceAll(b, []byte(`","`), []byte("\" ,\n\t\"")) },
			} {
				s := mk()
				b := f(s.Body())
				good(fmt.Sprint("a submission in other JSON ", i), s, whole(head(s, "1.1", js, length(b)), b))
			}
		case 1:
			for i := 0; i < 40; i++ {
				s := mk()
				b := s.Body()
				k := len(b) * i / 40
				for _, leave := range []bool{true, false} {
					cut(fmt.Sprintf("%d of %d bytes", k, len(b)), whole(head(s, "1.1", js, length(b)), b[:k]), leave)
					cut(fmt.Sprintf("a chunk of %d of %d bytes", k, len(b)), append(whole(head(s, "1.1", js, "Transfer-Encoding: chunked"), nil), chunked(b[:max(k, 1)], 1, 0, !leave)...), leave)
				}
				cut(fmt.Sprintf("a body of %d of %d bytes", k, len(b)), whole(head(s, "1.1", js, length(b[:k])), b[:k]), false)
				h := head(s, "1.1", js, length(b))
				cut(fmt.Sprintf("%d of the %d bytes of the header", len(h)*i/40, len(h)), whole(h[:len(h)*i/40], nil), true)
			}
		case 2:
			// too long, and not announced
			for _, n := range []int{128*1024 + 1, 200 * 1024} {
				s := mk()
				b := append(bytes.Repeat([]byte(" "), n-len(s.Body())), s.Body()...)
				cut(fmt.Sprintf("%d bytes in chunks", n), append(whole(head(s, "1.1", js, "Transfer-Encoding: chunked"), nil), chunked(b, 4, 0, true)...), false)
			}
			for _, t := range []string{"Transfer-Encoding: gzip", "Transfer-Encoding: identity", "Content-Encoding: gzip"} {
				if strings.HasPrefix(t, "Content") {
					continue // what that calls for is not settled
				}
				s := mk()
				cut(t, whole(head(s, "1.1", js, t, length(s.Body())), s.Body()), false)
			}
			// many that never end, and others in between
			for i := 0; i < 300; i++ {
				s := mk()
				b := s.Body()
				l = append(l, sent{"a client that stalls", d.w.Raw(d.live, "a client that stalls", whole(head(s, "1.1", js, length(b)), b[:len(b)*i/300]), false), nil, true})
			}
			for i := 0; i < 5; i++ {
				s := mk()
				good("a submission next to clients that stall", s, whole(head(s, "1.1", js, length(s.Body())), s.Body()))
			}
		}
		over := func() bool {
			for _, x := range l {
				if x.s != nil && !x.q.Done {
					return false
				}
			}
			return true
		}
		d.flow(40*second, over)
		d.flow(5*second, func() bool { return false })
		for _, x := range l {
			d.r.Evals++
			switch {
			case x.s != nil && !x.q.Done:
				r.Fail("no-answer", "%s gets no answer", x.what)
			case x.s != nil && x.q.Status != 200:
				r.Fail("rejected: transport", "%s must be accepted; the answer is %d %q (%v)", x.what, x.q.Status, x.q.Body, x.q.Err)
			case x.s != nil:
				d.answer(x.q, x.s)
			case x.q.Status == 200:
				r.Fail("accepted: transport", "%s must be rejected; the answer is 200 %.60q", x.what, x.q.Body)
			}
			if !x.q.Done {
				x.q.HangUp()
			}
		}
		d.flow(5*second, func() bool { return false })
		d.finish()
	}}
}
