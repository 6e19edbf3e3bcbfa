// Package trk is a tracker on the loopback interface whose every reply the
// check decides.
package trk

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/url"
	"strings"
	"sync"
)

// Request is an announce as it came over the wire.
type Request struct {
	Method string
	URI    string
	Host   string
	Raw    string
}

// Tracker answers every request with Reply's bytes; Close makes it close the
// connection after that.
type Tracker struct {
	Addr string
	ln   net.Listener

	mu    sync.Mutex
	reqs  []Request
	reply func(Request) (raw []byte, close bool)
}

// Start listens on a free loopback port.
func Start() *Tracker {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	t := &Tracker{Addr: ln.Addr().String(), ln: ln}
	t.Body("d8:intervali1e8:completei0e10:incompletei0e5:peers0:e")
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go t.serve(c)
		}
	}()
	return t
}

func (t *Tracker) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	if p, err := r.Peek(1); err != nil || p[0] < ' ' {
		return // not HTTP
	}
	for {
		var raw strings.Builder
		var rq Request
		for i := 0; ; i++ {
			l, err := r.ReadString('\n')
			if err != nil {
				return
			}
			raw.WriteString(l)
			l = strings.TrimRight(l, "\r\n")
			if i == 0 {
				f := strings.SplitN(l, " ", 3)
				if len(f) == 3 {
					rq.Method, rq.URI = f[0], f[1]
				}
			} else if l == "" {
				break
			} else if strings.HasPrefix(strings.ToLower(l), "host:") {
				rq.Host = strings.TrimSpace(l[5:])
			}
		}
		rq.Raw = raw.String()
		t.mu.Lock()
		t.reqs = append(t.reqs, rq)
		f := t.reply
		t.mu.Unlock()
		b, cl := f(rq)
		if _, err := c.Write(b); err != nil || cl {
			if tc, ok := c.(*net.TCPConn); ok && cl {
				tc.CloseWrite()
				_, _ = io.CopyN(io.Discard, c, 1)
			}
			return
		}
	}
}

// Body sets the reply's body.
func (t *Tracker) Body(body string) {
	t.Raw([]byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n%s", len(body), body)), false)
}

// Raw sets the whole reply.
func (t *Tracker) Raw(b []byte, close bool) {
	t.mu.Lock()
	t.reply = func(Request) ([]byte, bool) { return b, close }
	t.mu.Unlock()
}

// Func makes the reply's body from the request.
func (t *Tracker) Func(f func(Request) string) {
	t.mu.Lock()
	t.reply = func(r Request) ([]byte, bool) {
		body := f(r)
		return []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n%s", len(body), body)), false
	}
	t.mu.Unlock()
}

// Take returns the requests since the last call.
func (t *Tracker) Take() []Request {
	t.mu.Lock()
	defer t.mu.Unlock()
	r := t.reqs
	t.reqs = nil
	return r
}

// Query decodes a raw query into its pairs, in order; pairs that cannot be
// decoded stay as they are.
func Query(raw string) (ps [][2]string) {
	for _, p := range strings.Split(raw, "&") {
		if p == "" {
			continue
		}
		k, v, _ := strings.Cut(p, "=")
		dk, e1 := url.QueryUnescape(k)
		dv, e2 := url.QueryUnescape(v)
		if e1 != nil || e2 != nil {
			dk, dv = k, v
		}
		ps = append(ps, [2]string{dk, dv})
	}
	return ps
}

// Close stops listening.
func (t *Tracker) Close() { _ = t.ln.Close() }
