// C35: no peer can hold up the others. A real started swarm serves good peers
// while others misbehave in every combination; the good ones must get their
// answers at once, at any time and under every schedule up to the bound.
package main

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"syscall"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"gotor/zv/vnet"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/sw"
	"vh/tor"
	"vh/wire"
)

const sec = int64(time.Second)

func main() {
	run.Main(run.Spec{
		ID:    "C35",
		Level: "model_checking",
		Rule:  "a started swarm with two good peers (one incoming, one dialled) and every combination of up to 2 (thorough 3) of 14 misbehaving ones (takes nothing, takes part of a reply, floods requests, sends half a message or half a handshake, says nothing, does not take our handshake, sends garbage or a hostile length, resets, leaves with requests open, repeats bitfields, takes bytes one at a time, cannot be dialled), with requests of the good ones after 0, 1, 61, 118, 125, 250 and 400 seconds, a good newcomer at each of these times, everything held or only a part, and with an upload limit; crowds of 5 to 220 (thorough 520) peers that misbehave in the same way at the same time; every schedule up to the bound of delays of selected combinations. Without a limit a good peer's request must be answered within a second, with one within the seconds its bytes and the admitted ones take",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range bads {
				i := i
				if !vs.RaceEnabled {
					bs = append(bs, run.Block{Name: "combinations/" + bads[i], Fn: func(b *run.B) { combos(b, i) }})
					bs = append(bs, run.Block{Name: "crowd/" + bads[i], Fn: func(b *run.B) { crowd(b, i) }})
				}
				bs = append(bs, run.Block{Name: "schedules/" + bads[i], Fn: func(b *run.B) { schedules(b, i) }})
			}
			return bs
		},
	})
}

var bads = []string{"takes nothing", "takes part", "flood", "half message", "half handshake", "silent", "takes no handshake", "garbage", "hostile", "reset", "leaves", "bitfields", "drip", "undiallable"}

var (
	lay   = tor.New(4, 6, 9)
	helds = [][]bool{{true, true, true, true}, {true, false, true, false}}
	disks [2]*sim.Disk
	// the pieces held in both cases
	good = []wire.Msg{{Type: wire.Request, Index: 0, ReqLen: 4}, {Type: wire.Request, Index: 2, Begin: 1, ReqLen: 3}}
)

// member is a connected peer.
type member struct {
	how  string
	c    *sim.Conn
	base int // judged so far
	reqs int
}

type world struct {
	d    *sim.Disk
	held []bool
	s    *swarm.Swarm
	l    *sim.Listener
	dial map[string]func() (net.Conn, error)
	few  bool // a flood is a small one
	n    int
	good []*member
	bad  []*member
	rate int64
}

func newWorld(h int, rate int64) *world {
	sw.Setup()
	if disks[h] == nil {
		disks[h] = sim.NewDisk(lay, helds[h])
	}
	vos.Sched = false
	w := &world{d: disks[h], held: helds[h], l: &sim.Listener{}, dial: map[string]func() (net.Conn, error){}, rate: rate}
	w.s = w.d.Swarm(w.held)
	if rate > 0 {
		w.s.RLIO.SetWriteRate(rate)
	}
	vnet.ListenHook = func(string, string) (net.Listener, error) { return w.l, nil }
	vnet.DialHook = func(_, a string, _ time.Duration) (net.Conn, error) { return w.dial[a]() }
	return w
}

func (w *world) conn(label string) *sim.Conn {
	w.n++
	c := sim.New(label, fmt.Sprintf("10.0.%d.%d", w.n/200, w.n%200+1), 5000+w.n)
	c.NoTime = true
	return c
}

func (w *world) hello() []byte {
	return sim.Handshake(w.d.Tor.Infohash(), "-XX0001-zyxwvutsrqpo")
}

// dialled is a peer known from the tracker.
func (w *world) dialled(c *sim.Conn, hang bool) {
	ip, port := fmt.Sprintf("10.2.%d.%d", len(w.dial)/200, len(w.dial)%200+1), uint16(7000+len(w.dial))
	w.s.Peers = append(w.s.Peers, peer.MakePeer("", net.ParseIP(ip), port))
	w.dial[fmt.Sprintf("%s:%d", ip, port)] = func() (net.Conn, error) {
		if hang {
			vs.SleepNS(200 * sec)
			return nil, syscall.ETIMEDOUT
		}
		return c, nil
	}
}

func all() []byte {
	return wire.Msg{Type: wire.Bitfield, Data: sim.Wire([]bool{true, true, true, true})}.Encode()
}

func ask(k int) []byte {
	var b []byte
	for i := 0; i < k; i++ {
		b = append(b, good[i%2].Encode()...)
	}
	return b
}

// misbehave prepares the connection of a misbehaving peer, an incoming one or
// one that we dial.
func (w *world) misbehave(how string, out bool) {
	c := w.conn(how)
	m := &member{how: how, c: c}
	w.bad = append(w.bad, m)
	hs := w.hello()
	switch how {
	case "takes nothing":
		c.Cap = 68 + 6 + 5 // handshake, bitfield, unchoke
		c.Send(hs, ask(3))
	case "takes part":
		c.Cap, c.Partial = 68+6+5+9, true
		c.Send(hs, append(all(), ask(4)...))
	case "flood":
		if w.few {
			c.Send(hs, ask(30))
		} else {
			c.Send(hs, ask(300))
		}
	case "half message":
		c.Send(hs, ask(1)[:9])
	case "half handshake":
		c.Send(hs[:40])
	case "silent":
	case "takes no handshake":
		c.Cap = 10
		c.Send(hs, ask(1))
	case "garbage":
		c.Send(bytes.Repeat([]byte("GET / HTTP/1.1\r\n"), 100))
	case "hostile":
		c.Send(hs, append(all(), 0xff, 0xff, 0xff, 0xff, 7, 0, 0))
	case "reset":
		c.Send(hs, ask(2))
		c.Break(syscall.ECONNRESET)
	case "leaves":
		c.Send(hs, all(), ask(5))
		c.SendEOF()
	case "bitfields":
		c.Send(hs, bytes.Repeat(all(), 20))
	case "drip":
		c.Cap, c.Partial = 68+6+5, true
		c.Send(hs, append(all(), ask(10)...))
	case "undiallable":
		w.dialled(c, true)
		return
	}
	if out {
		w.dialled(c, false)
	} else {
		w.l.Push(c, nil)
	}
}

// drip makes the dripping peers take a little more.
func (w *world) drip() {
	for _, m := range w.bad {
		if m.how == "drip" {
			m.c.Limit(1)
		}
	}
}

func (w *world) addGood(label string, out bool) *member {
	m := &member{how: label, c: w.conn(label)}
	m.c.Send(w.hello(), all())
	w.good = append(w.good, m)
	if out {
		w.dialled(m.c, false)
	} else {
		w.l.Push(m.c, nil)
	}
	return m
}

// answered judges what a good peer has got: every request once, in order.
func (w *world) answered(m *member, k int) error {
	st := m.c.Stream()
	if m.c.Closed() {
		return fmt.Errorf("was dropped")
	}
	if len(st) < 68 || !bytes.Equal(st[:68], sim.Handshake(w.d.Tor.Infohash(), w.s.Id)) {
		return fmt.Errorf("has no handshake but %.80x", st)
	}
	ms, rest, err := wire.Split(st[68:])
	if err != nil || len(rest) > 0 {
		return fmt.Errorf("got %x", st[68:])
	}
	n := 0
	for _, x := range ms {
		if x.Type != wire.Piece {
			continue
		}
		q := good[n%2]
		lo, _ := lay.Range(int64(q.Index))
		lo += int64(q.Begin)
		if x.Index != q.Index || x.Begin != q.Begin || !bytes.Equal(x.Data, lay.Content[lo:lo+int64(q.ReqLen)]) {
			return fmt.Errorf("got %v for %v", x, q)
		}
		n++
	}
	if n != k {
		return fmt.Errorf("has %d answers to %d requests", n, k)
	}
	return nil
}

// soon wants all requests of m answered now, or a second later.
func (w *world) soon(m *member) error {
	if w.answered(m, m.reqs) == nil {
		return nil
	}
	vs.SleepNS(sec)
	vs.Settle()
	return w.answered(m, m.reqs)
}

var times = []int64{0, 1, 60, 57, 7, 125, 150} // seconds in between

func (w *world) round(t *sim.T, when string, idle int64) {
	for _, m := range w.good {
		if len(m.c.Stream()) == 0 && w.rate == 0 {
			t.Failf("%s: %s has not even got a handshake", when, m.how)
			return
		}
	}
	for _, m := range w.good {
		m.c.Send(good[m.reqs%2].Encode())
		m.reqs++
		vs.Settle()
		if w.rate == 0 {
			if err := w.soon(m); err != nil {
				t.Failf("%s: %s %v", when, m.how, err)
				return
			}
		}
	}
	if w.rate > 0 {
		vs.SleepNS(idle * sec)
		vs.Settle()
		for _, m := range w.good {
			if err := w.answered(m, m.reqs); err != nil {
				t.Failf("%s and %d seconds: %s %v", when, idle, m.how, err)
				return
			}
		}
	}
}

type scenario struct {
	bad  []string
	out  bool // misbehaving peers are dialled ones
	held int
	rate int64
	all  bool // all of them incoming, or dialled
	few  bool // floods are small
}

func (sc *scenario) desc() string {
	if len(sc.bad) > 3 {
		return fmt.Sprintf("%d times %s (dialled: %v)", len(sc.bad), sc.bad[0], sc.out)
	}
	return fmt.Sprintf("%s (dialled: %v), held %v, upload limit %d", strings.Join(sc.bad, " + "), sc.out, helds[sc.held], sc.rate)
}

func (sc *scenario) run(t *sim.T, explore bool) {
	vs.Quiet(true)
	w := newWorld(sc.held, sc.rate)
	w.few = explore || sc.few
	for i, how := range sc.bad {
		w.misbehave(how, sc.out != (i%2 == 1 && !sc.all))
	}
	w.addGood("incoming good peer", false)
	w.addGood("dialled good peer", true)
	if explore {
		vs.Quiet(false)
		for _, m := range w.good {
			m.c.Send(good[0].Encode())
			m.reqs++
		}
		vs.GoNamed("start", w.s.Start)
		vs.Settle()
		vs.Quiet(true)
		for _, m := range w.good {
			if err := w.soon(m); err != nil {
				t.Failf("%s %v", m.how, err)
				return
			}
		}
		vs.SleepNS(sec)
		vs.Settle()
		w.round(t, "a second later", 0)
		return
	}
	vs.GoNamed("start", w.s.Start)
	vs.Settle()
	// how long the limiter may take for what the others are asking
	idle := int64(0)
	if sc.rate > 0 {
		idle = 60
		vs.SleepNS(30 * sec)
		vs.Settle()
	}
	at := int64(0)
	for k, d := range times {
		// good peers don't fall silent
		for d > 100 {
			vs.SleepNS(100 * sec)
			at, d = at+100, d-100
			for _, m := range w.good {
				m.c.Send([]byte{0, 0, 0, 0})
			}
		}
		if d > 0 {
			vs.SleepNS(d * sec)
			at += d
		}
		w.drip()
		vs.Settle()
		w.round(t, fmt.Sprintf("after %d seconds", at), idle)
		if t.Err != nil {
			return
		}
		w.addGood(fmt.Sprintf("newcomer after %d seconds", at), false)
		vs.Settle()
		w.round(t, fmt.Sprintf("after %d seconds", at), idle)
		if t.Err != nil {
			return
		}
		if sc.rate > 0 {
			at += 2 * idle
			if k == 1 {
				return
			}
		}
	}
}

func once(b *run.B, sc *scenario) {
	bd, oracle := sim.Body(func(t *sim.T) { sc.run(t, false) })
	b.Once(sc.desc(), vs.Config{MaxSteps: 5000000}, bd, oracle)
}

func combos(b *run.B, i int) {
	for h := range helds {
		for _, out := range []bool{false, true} {
			for _, rate := range []int64{0, 500} {
				if h > 0 && rate > 0 {
					continue
				}
				once(b, &scenario{bad: []string{bads[i]}, out: out, held: h, rate: rate})
				for j := range bads {
					if b.Expired() {
						return
					}
					once(b, &scenario{bad: []string{bads[i], bads[j]}, out: out, held: h, rate: rate})
					if !b.Thorough() {
						continue
					}
					for k := range bads {
						if b.Expired() {
							return
						}
						once(b, &scenario{bad: []string{bads[i], bads[j], bads[k]}, out: out, held: h, rate: rate})
					}
				}
			}
		}
	}
}

// crowd: many peers misbehave in the same way, at the same time.
func crowd(b *run.B, i int) {
	ns := []int{5, 17, 70, 220}
	if b.Thorough() {
		ns = append(ns, 33, 130, 520)
	}
	for _, n := range ns {
		for _, out := range []bool{false, true} {
			if b.Expired() {
				return
			}
			sc := &scenario{out: out}
			for k := 0; k < n; k++ {
				sc.bad = append(sc.bad, bads[i])
			}
			sc.all, sc.few = true, n > 17
			once(b, sc)
		}
	}
}

func schedules(b *run.B, i int) {
	n := 1
	js := []int{i, (i + 1) % len(bads), (i + 5) % len(bads)}
	if b.Thorough() {
		n = 2
		js = js[:0]
		for j := range bads {
			js = append(js, j)
		}
	}
	if vs.RaceEnabled {
		js = js[:1]
		n = 1
	}
	for _, j := range js {
		if b.Expired() {
			return
		}
		sc := &scenario{bad: []string{bads[i], bads[j]}, out: i%2 == 1, held: j % 2}
		if bads[i] == "flood" && j == i {
			sc.bad = sc.bad[:1]
		}
		bd, oracle := sim.Body(func(t *sim.T) { sc.run(t, true) })
		b.Explore(sc.desc(), vs.Config{Bound: n, Delay: true, MaxSteps: 5000000}, bd, oracle)
	}
}
