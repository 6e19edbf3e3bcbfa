// C28: idle connections are kept alive and silent ones dropped. Whole sessions
// run in virtual time; when the keep-alives go out and when the connection is
// dropped is judged.
package main

import (
	"fmt"
	"net"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"gotor/zv/vnet"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

const (
	sec     = int64(time.Second)
	timeout = 120 * sec
	every   = 120 * sec // keep-alives at least this often
	slack   = 10 * sec
)

func main() {
	run.Main(run.Spec{
		ID:    "C28",
		Level: "model_checking",
		Rule:  "every sequence of up to 4 (6) gaps of 1, 59, 60, 61, 100 or 119 seconds between messages (keep-alive, request, have, a complete bitfield, single bytes of a message) of the peer, then silence; for connections set up from incoming, outgoing and directly; complete and incomplete swarm; up to 5 peers of one swarm at once, each idle, active or silent, in every combination (5 peers: a part of them in the quick tier); replies of 1000 to 65536 bytes with gaps of up to 119 seconds; sessions of 20 minutes idle, busy with requests every second, and with an upload limit of a few bytes a second; peers that stop taking data at every point and are silent or not; all schedules with up to 3 (5) delays of a session with ticks and timeout",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for _, how := range hows {
				how := how
				for k := range kinds {
					k := k
					bs = append(bs, run.Block{Name: fmt.Sprintf("gaps/%s/%s", how, kinds[k].name), Fn: func(b *run.B) { gaps(b, how, k) }})
				}
				bs = append(bs, run.Block{Name: "busy/" + how, Fn: func(b *run.B) { busy(b, how) }},
					run.Block{Name: "large/" + how, Fn: func(b *run.B) { large(b, how) }},
					run.Block{Name: "several/" + how, Fn: func(b *run.B) { several(b, how) }},
					run.Block{Name: "stuck/" + how, Fn: func(b *run.B) { stuck(b, how) }})
			}
			for k := 0; k < 4; k++ {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("schedules/%d", k), Fn: func(b *run.B) { schedules(b, k) }})
			}
			return bs
		},
	})
}

var hows = []string{"incoming", "outgoing", "direct"}

var lay = tor.New(4, 6, 3)

// kinds of what the peer sends at each of its turns.
var kinds = []struct {
	name string
	msg  func(turn int) []byte
}{
	{"keepalive", func(int) []byte { return []byte{0, 0, 0, 0} }},
	{"request", func(i int) []byte {
		return wire.Msg{Type: wire.Request, Index: uint32(i % 2 * 2), Begin: 0, ReqLen: 1}.Encode()
	}},
	{"have", func(int) []byte { return wire.Msg{Type: wire.Have, Index: 1}.Encode() }},
	{"complete", func(i int) []byte {
		if i > 0 {
			return []byte{0, 0, 0, 0}
		}
		return wire.Msg{Type: wire.Bitfield, Data: sim.Wire(heldAll)}.Encode()
	}},
	{"bytes", func(i int) []byte {
		x := wire.Msg{Type: wire.Request, Index: 0, Begin: 0, ReqLen: 2}.Encode()
		return x[i%len(x) : i%len(x)+1]
	}},
}

type session struct {
	c     *sim.Conn
	how   string
	s     *swarm.Swarm
	ended bool
	endAt int64
	setup int64 // when the handler began
	err   error
	begun bool
}

// open sets the connection up and starts the handler.
func open(d *sim.Disk, held []bool, how string, quiet bool) *session {
	return join(d.Swarm(held), d, how, 1)
}

// join does that for one more peer of the swarm.
func join(s *swarm.Swarm, d *sim.Disk, how string, n int) *session {
	ip := fmt.Sprintf("10.0.0.%d", n)
	x := &session{c: sim.New(fmt.Sprintf("p%d", n), ip, 5000+n), s: s, how: how}
	hs := sim.Handshake(d.Tor.Infohash(), "-XX0001-zyxwvutsrqpo")
	vs.GoNamed("handler", func() {
		var ph *swarm.PeerHandler
		var err error
		switch how {
		case "incoming":
			ph, err = swarm.FromIncoming(x.c, x.s)
		case "outgoing":
			vnet.DialHook = func(string, string, time.Duration) (net.Conn, error) { return x.c, nil }
			ph, err = swarm.FromBootstrap(peer.MakePeer("", net.ParseIP(ip), uint16(5000+n)), x.s)
		default:
			ph = sim.Handler(x.s, x.c)
		}
		if err != nil {
			x.err = err
			return
		}
		x.setup = vs.Now()
		x.begun = true
		ph.Loop()
		x.endAt = vs.Now()
		x.ended = true
	})
	if how != "direct" {
		x.c.Send(hs)
	}
	vs.Settle()
	return x
}

// keepalives checks that they went out often enough until end.
func (x *session) keepalives(t *sim.T, end int64) {
	last := x.setup
	var buf []byte
	hs := x.how != "direct" // the handshake comes first, however it is cut into writes
	for _, o := range x.c.Writes() {
		buf = append(buf, o.Data...)
		if hs {
			if len(buf) < 68 {
				continue
			}
			buf, hs = buf[68:], false
		}
		ms, rest, err := wire.Split(buf)
		if err != nil {
			t.Failf("stream: %v", err)
			return
		}
		buf = rest
		for _, m := range ms {
			if m.Type == wire.KeepAlive {
				if o.At-last > every {
					t.Failf("no keep-alive from %.0f s to %.0f s", float64(last)/1e9, float64(o.At)/1e9)
				}
				last = o.At
			}
		}
	}
	if end-last > every {
		t.Failf("no keep-alive from %.0f s until %.0f s", float64(last)/1e9, float64(end)/1e9)
	}
}

// alive fails if the connection is gone.
func (x *session) alive(t *sim.T, when string) bool {
	if x.err != nil || !x.begun {
		t.Failf("set-up failed: %v", x.err)
		return false
	}
	if x.c.Closed() || x.ended {
		t.Failf("dropped %s, at %.1f s", when, float64(vs.Now())/1e9)
		return false
	}
	return true
}

// silent waits for the drop after the last byte at last.
func (x *session) silent(t *sim.T, last, within int64) {
	vs.SleepNS(last + timeout - sec - vs.Now())
	vs.Settle()
	if within <= timeout+slack && !x.alive(t, "too early") {
		return
	}
	vs.SleepNS(last + within - vs.Now())
	vs.Settle()
	if !x.c.Closed() || !x.ended {
		t.Failf("silent since %.0f s, not dropped at %.0f s (closed %v, handler ended %v)", float64(last)/1e9, float64(vs.Now())/1e9, x.c.Closed(), x.ended)
	}
}

var heldAll, heldSome = []bool{true, true, true}, []bool{true, false, true}

func gaps(b *run.B, how string, kind int) {
	gs := []int64{1, 59, 60, 61, 100, 119}
	depth := 4
	if b.Thorough() {
		depth = 6
	}
	d := sim.NewDisk(lay, nil)
	var rec func(seq []int64)
	rec = func(seq []int64) {
		if b.Expired() {
			return
		}
		seq = append([]int64(nil), seq...)
		for _, held := range [][]bool{heldAll, heldSome} {
			if &held[0] == &heldSome[0] && len(seq) > 1 && !(b.Thorough() && len(seq) <= 2) {
				continue
			}
			held := held
			body, oracle := sim.Body(func(t *sim.T) {
				x := open(d, held, how, true)
				last := x.setup
				for i, g := range seq {
					vs.SleepNS(g * sec)
					vs.Settle()
					if !x.alive(t, fmt.Sprintf("in gap %d of %v", i, seq)) {
						return
					}
					x.c.Send(kinds[kind].msg(i))
					last = vs.Now()
					vs.Settle()
				}
				x.keepalives(t, vs.Now())
				x.silent(t, last, timeout+slack)
				x.keepalives(t, last+timeout-sec)
			})
			b.Once(fmt.Sprintf("%s, %s after gaps of %v s, held %v", how, kinds[kind].name, seq, held), vs.Config{MaxSteps: 1000000}, body, oracle)
		}
		if len(seq) < depth {
			for _, g := range gs {
				rec(append(seq, g))
			}
		}
	}
	rec(nil)
}

// busy sessions of 20 minutes.
func busy(b *run.B, how string) {
	d := sim.NewDisk(lay, nil)
	for _, every_ := range []int64{1, 7, 30, 60, 118} {
		for _, limit := range []int64{-1, 1, 20} {
			for kind := 0; kind < 4; kind++ {
				for _, burst := range []int{1, 5} {
					if b.Expired() {
						return
					}
					every_, limit, kind, burst := every_, limit, kind, burst
					body, oracle := sim.Body(func(t *sim.T) {
						x := open(d, heldAll, how, true)
						if limit > 0 {
							x.s.RLIO.SetWriteRate(limit)
							vs.GoNamed("limiter", x.s.RLIO.Run)
						}
						i := 0
						for vs.Now() < 1200*sec {
							vs.SleepNS(every_ * sec)
							for k := 0; k < burst; k++ {
								x.c.Send(kinds[kind].msg(i))
								i++
							}
							if i%10 == 0 {
								vs.Settle()
								if !x.alive(t, "while busy") {
									return
								}
							}
						}
						vs.Settle()
						if x.alive(t, "while busy") {
							x.keepalives(t, vs.Now())
						}
					})
					b.Once(fmt.Sprintf("%s, %d x %s every %d s, limit %d", how, burst, kinds[kind].name, every_, limit), vs.Config{MaxSteps: 10000000}, body, oracle)
				}
			}
		}
	}
}

// large blocks now and then, with long gaps.
func large(b *run.B, how string) {
	d := sim.NewDisk(tor.New(65536, 65536, 40000), nil)
	held := []bool{true, true}
	bound := 1
	if b.Thorough() {
		bound = 2
	}
	for _, n := range []uint32{1000, 16384, 16385, 32768, 65536} {
		for _, gs := range [][]int64{{1, 119, 119}, {100, 119, 61}, {59, 1, 100}, {119, 119, 119}} {
			for _, reqs := range []int{1, 3} {
				for _, other := range []bool{false, true} {
					if b.Expired() {
						return
					}
					n, gs, reqs, other := n, gs, reqs, other
					body, oracle := sim.Body(func(t *sim.T) {
						x := open(d, held, how, true)
						last := x.setup
						for i, g := range gs {
							vs.SleepNS(g * sec)
							vs.Settle()
							if !x.alive(t, fmt.Sprintf("in gap %d of %v", i, gs)) {
								return
							}
							m := []byte{0, 0, 0, 0}
							if !other || i != 1 {
								m = nil
								for k := 0; k < reqs; k++ {
									m = append(m, wire.Msg{Type: wire.Request, Index: 0, ReqLen: n}.Encode()...)
								}
							}
							x.c.Send(m)
							last = vs.Now()
							vs.Settle()
						}
						x.keepalives(t, vs.Now())
						x.silent(t, last, timeout+slack)
						x.keepalives(t, last+timeout-sec)
					})
					b.Explore(fmt.Sprintf("%s, %d requests of %d bytes after gaps of %v s, one keep-alive %v", how, reqs, n, gs, other), vs.Config{Bound: bound, Delay: true, MaxSteps: 1000000}, body, oracle)
				}
			}
		}
	}
}

// several peers of one swarm at once; act says what each of them does.
func several(b *run.B, how string) {
	d := sim.NewDisk(lay, nil)
	acts := []string{"idle", "pings", "asks", "silent"} // idle: pings just often enough
	gap := []int64{119, 50, 20, 0}
	for n := 2; n <= 5; n++ {
		tuples := 1
		for i := 0; i < n; i++ {
			tuples *= len(acts)
		}
		for tup := 0; tup < tuples; tup++ {
			if n > 4 && !b.Thorough() && tup%(3*n) != 0 {
				continue
			}
			for _, stagger := range []int64{0, 7, 60} {
				if b.Expired() {
					return
				}
				tup, stagger, n := tup, stagger, n
				var what []string
				var kind []int
				for i, x := 0, tup; i < n; i++ {
					kind = append(kind, x%len(acts))
					what = append(what, acts[x%len(acts)])
					x /= len(acts)
				}
				body, oracle := sim.Body(func(t *sim.T) {
					s := d.Swarm(heldAll)
					var xs []*session
					next := make([]int64, n) // when the peer sends something
					last := make([]int64, n)
					open := func() {
						i := len(xs)
						xs = append(xs, join(s, d, how, i+1))
						last[i] = vs.Now()
						next[i] = vs.Now() + gap[kind[i]]*sec
					}
					for vs.Now() < 500*sec {
						for len(xs) < n && vs.Now() >= int64(len(xs))*stagger*sec {
							open()
						}
						for i, x := range xs {
							if gap[kind[i]] == 0 {
								if vs.Now() < last[i]+timeout {
									x.alive(t, "too early")
								}
								if vs.Now() > last[i]+timeout+slack && (!x.c.Closed() || !x.ended) {
									t.Failf("peer %d is silent since %.0f s, not dropped at %.0f s", i, float64(last[i])/1e9, float64(vs.Now())/1e9)
								}
								continue
							}
							if !x.alive(t, fmt.Sprintf("peer %d", i)) {
								return
							}
							if vs.Now() >= next[i] {
								k := 0
								if acts[kind[i]] == "asks" {
									k = 1
								}
								x.c.Send(kinds[k].msg(int(vs.Now() / sec)))
								next[i] = vs.Now() + gap[kind[i]]*sec
							}
						}
						if t.Err != nil {
							return
						}
						vs.SleepNS(sec)
						vs.Settle()
					}
					for i, x := range xs {
						end := vs.Now()
						if gap[kind[i]] == 0 {
							end = last[i] + timeout - sec
						}
						x.keepalives(t, end)
					}
				})
				b.Once(fmt.Sprintf("%s, %d peers %v, %d s apart", how, n, what, stagger), vs.Config{MaxSteps: 10000000}, body, oracle)
			}
		}
	}
}

// stuck: the peer stops taking data after some bytes.
func stuck(b *run.B, how string) {
	d := sim.NewDisk(lay, nil)
	for _, lim := range []int64{0, 3, 5, 20, 30, 100} {
		for _, reqs := range []int{0, 1, 3, 12} {
			for _, from := range []int64{0, 30, 59, 61} {
				for _, held := range [][]bool{heldAll, heldSome} {
					if b.Expired() {
						return
					}
					lim, reqs, from, held := lim, reqs, from, held
					body, oracle := sim.Body(func(t *sim.T) {
						x := open(d, held, how, true)
						if from > 0 {
							vs.SleepNS(from * sec)
						}
						x.c.Limit(lim)
						last := vs.Now()
						for k := 0; k < reqs; k++ {
							x.c.Send(kinds[1].msg(k))
						}
						if reqs == 0 {
							x.c.Send([]byte{0, 0, 0, 0})
						}
						vs.Settle()
						x.silent(t, last, 2*timeout+slack)
					})
					b.Once(fmt.Sprintf("%s, takes %d bytes, %d requests from %d s, held %v", how, lim, reqs, from, held), vs.Config{MaxSteps: 1000000}, body, oracle)
				}
			}
		}
	}
	// healthy at first, then the peer that doesn't take the unchoke
	for _, lim := range []int64{0, 1, 4} {
		lim := lim
		if how != "direct" {
			lim += 68
			if how == "incoming" {
				lim += 6
			}
		}
		body, oracle := sim.Body(func(t *sim.T) {
			x := &session{c: sim.New("p", "10.0.0.1", 5001), s: d.Swarm(heldAll)}
			x.c.Cap = lim
			hs := sim.Handshake(d.Tor.Infohash(), "-XX0001-zyxwvutsrqpo")
			vs.GoNamed("handler", func() {
				var ph *swarm.PeerHandler
				switch how {
				case "incoming":
					ph, _ = swarm.FromIncoming(x.c, x.s)
				case "outgoing":
					vnet.DialHook = func(string, string, time.Duration) (net.Conn, error) { return x.c, nil }
					ph, _ = swarm.FromBootstrap(peer.MakePeer("", net.ParseIP("10.0.0.1"), 5001), x.s)
				default:
					ph = sim.Handler(x.s, x.c)
				}
				if ph != nil {
					ph.Loop()
				}
				x.ended = true
			})
			if how != "direct" {
				x.c.Send(hs)
			}
			vs.SleepNS(2*timeout + slack)
			vs.Settle()
			if !x.ended || !x.c.Closed() {
				t.Failf("not dropped after %.0f s: ended %v, closed %v", float64(vs.Now())/1e9, x.ended, x.c.Closed())
			}
		})
		b.Once(fmt.Sprintf("%s, takes only %d bytes from the start", how, lim), vs.Config{MaxSteps: 1000000}, body, oracle)
	}
}

// schedules around the ticks and the timeout.
func schedules(b *run.B, k int) {
	d := sim.NewDisk(lay, nil)
	bound := 3
	if b.Thorough() {
		bound = 5
	}
	seq := [][]int64{{60, 60}, {119, 61}, {59, 1, 119}, {120 - 1}}[k]
	for kind := 0; kind < 2; kind++ {
		kind := kind
		body, oracle := sim.Body(func(t *sim.T) {
			x := open(d, heldAll, "direct", true)
			last := int64(0)
			for i, g := range seq {
				vs.SleepNS(g * sec)
				x.c.Send(kinds[kind].msg(i))
				last = vs.Now()
			}
			vs.Settle()
			if !x.alive(t, "while sending") {
				return
			}
			x.keepalives(t, vs.Now())
			x.silent(t, last, timeout+slack)
		})
		b.Explore(fmt.Sprintf("%s after gaps of %v s", kinds[kind].name, seq), vs.Config{Bound: bound, Delay: true}, body, oracle)
	}
}
