// C29: outbound frames never interleave, replies go to who asked. Real handlers
// serve one to three peers at once under all schedules up to a bound of delays;
// every peer's stream is judged against the reference wire model.
package main

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"gotor/zv/vnet"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

const sec = int64(time.Second)

func main() {
	run.Main(run.Spec{
		ID:    "C29",
		Level: "model_checking",
		Rule:  "every schedule up to the bound of delays of: one peer with 1 to 4 pipelined requests (in one read, in several, cut anywhere) while keep-alives, the unchoke and our own requests go out; two peers asking for the same and different pieces at once, with file operations as scheduling points; three peers; set-up of incoming and outgoing connections at the same time as service; choking the peer at the same time; upload limits of 1, 5 and 20 bytes a second; peers that take 1 to 9 bytes at a time, or stop in the middle of a message at any byte and resume before or after the time limit; blocks of 16 to 64 KiB with and without upload limits, at keep-alive time, to peers that take all or a part. Each stream must be the handshake where due, then whole known messages (at the end of a failed connection, a part of one), the replies exactly the asked ones in order with the right bytes, and our requests valid",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for k := range reqSets {
				k := k
				bs = append(bs,
					run.Block{Name: fmt.Sprintf("one/%d", k), Fn: func(b *run.B) { one(b, k) }},
					run.Block{Name: fmt.Sprintf("tick/%d", k), Fn: func(b *run.B) { tick(b, k) }},
					run.Block{Name: fmt.Sprintf("limit/%d", k), Fn: func(b *run.B) { limit(b, k) }},
					run.Block{Name: fmt.Sprintf("choke/%d", k), Fn: func(b *run.B) { choke(b, k) }},
					run.Block{Name: fmt.Sprintf("slow/%d", k), Fn: func(b *run.B) { slow(b, k) }},
				)
				for j := range reqSets {
					j := j
					bs = append(bs, run.Block{Name: fmt.Sprintf("two/%d/%d", k, j), Fn: func(b *run.B) { two(b, k, j) }})
				}
			}
			for k := 0; k < 3; k++ {
				k := k
				bs = append(bs,
					run.Block{Name: fmt.Sprintf("files/%d", k), Fn: func(b *run.B) { files(b, k) }},
					run.Block{Name: fmt.Sprintf("setup/%d", k), Fn: func(b *run.B) { setup(b, k) }},
				)
			}
			for k := 0; k < 4; k++ {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("stuck/%d", k), Fn: func(b *run.B) { stuck(b, k) }})
			}
			for k := range bigSets {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("large/%d", k), Fn: func(b *run.B) { large(b, k) }})
			}
			return append(bs, run.Block{Name: "three", Fn: three})
		},
	})
}

// 4 pieces over two files; we hold the first and third, or all.
var (
	lay  = tor.New(4, 6, 9)
	some = []bool{true, false, true, false}
	all  = []bool{true, true, true, true}
)

type req struct{ i, o, n uint32 }

func (r req) bytes() []byte {
	return wire.Msg{Type: wire.Request, Index: r.i, Begin: r.o, ReqLen: r.n}.Encode()
}

var reqSets = [][]req{
	{{0, 0, 4}, {2, 1, 2}},
	{{2, 0, 3}, {0, 3, 1}, {2, 3, 1}},
	{{0, 1, 1}, {0, 0, 4}, {2, 0, 4}, {0, 2, 2}},
	{{2, 2, 2}},
}

func send(rs []req) []byte {
	var b []byte
	for _, r := range rs {
		b = append(b, r.bytes()...)
	}
	return b
}

func bitfield() []byte {
	return wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode()
}

// judge looks at what a peer got. hs: the stream starts with our handshake.
// whole: everything is to have arrived; otherwise the stream may be cut.
func judge(t *sim.T, l *tor.Layout, held []bool, who string, stream []byte, hs bool, rs []req, whole bool) {
	if hs {
		want := sim.Handshake(theDisk.Tor.Infohash(), sim.ID)
		n := len(want)
		if len(stream) < n && !whole {
			n = len(stream)
		}
		if len(stream) < n || !bytes.Equal(stream[:n], want[:n]) {
			t.Failf("%s: no handshake but %.80x", who, stream)
			return
		}
		stream = stream[n:]
	}
	ms, rest, err := wire.Split(stream)
	if err != nil {
		t.Failf("%s: %v in %.200x", who, err, stream)
		return
	}
	if len(rest) > 0 && whole {
		t.Failf("%s: the stream ends in the middle of a message: %.80x", who, rest)
		return
	}
	k := 0
	next := map[uint32]uint32{}
	for i, m := range ms {
		switch m.Type {
		case wire.KeepAlive, wire.Unchoke, wire.Choke, wire.Interested, wire.NotInterested:
		case wire.Have:
			if int64(m.Index) >= l.NumPieces() || !held[m.Index] {
				t.Failf("%s: %v", who, m)
			}
		case wire.Bitfield:
			if i != 0 || !bytes.Equal(m.Data, sim.Wire(held)) {
				t.Failf("%s: message %d is %v", who, i, m)
			}
		case wire.Request:
			if int64(m.Index) >= l.NumPieces() || held[m.Index] || m.Begin != next[m.Index] || int(m.Begin+m.ReqLen) > len(l.Piece(int64(m.Index))) || m.ReqLen == 0 {
				t.Failf("%s: message %d is %v", who, i, m)
				return
			}
			next[m.Index] += m.ReqLen
		case wire.Piece:
			if k >= len(rs) {
				t.Failf("%s: %v after all replies", who, m)
				return
			}
			r := rs[k]
			k++
			want := l.Piece(int64(r.i))[r.o : r.o+r.n]
			if m.Index != r.i || m.Begin != r.o || !bytes.Equal(m.Data, want) {
				t.Failf("%s: reply %d is %v, asked was %v: %x", who, k, m, r, want)
				return
			}
		default:
			t.Failf("%s: message %d is %v", who, i, m)
		}
	}
	if whole && k != len(rs) {
		t.Failf("%s: %d of %d replies", who, k, len(rs))
	}
}

var theDisk, bigDisk *sim.Disk

var big = tor.New(65536, 100000, 31072)

func disk2() *sim.Disk {
	if bigDisk == nil {
		bigDisk = sim.NewDisk(big, nil)
	}
	vos.Sched = false
	return bigDisk
}

func disk() *sim.Disk {
	if theDisk == nil {
		theDisk = sim.NewDisk(lay, nil)
	}
	vos.Sched = false
	return theDisk
}

func cfg(b *run.B, less int) vs.Config {
	n := 2
	if b.Thorough() {
		n = 3
	} else {
		n -= less
	}
	if vs.RaceEnabled && n > 1 {
		n--
	}
	return vs.Config{Bound: n, Delay: true, MaxSteps: 300000}
}

func conn(k int) *sim.Conn {
	c := sim.New(fmt.Sprintf("p%d", k), fmt.Sprintf("10.0.0.%d", k), 5000+k)
	c.NoTime = true
	return c
}

// one peer: unchoke, requests and replies at once.
func one(b *run.B, k int) {
	d := disk()
	rs := reqSets[k]
	for _, mode := range []string{"together", "apart", "cut"} {
		for _, held := range [][]bool{some, all} {
			if b.Expired() {
				return
			}
			mode, held := mode, held
			body, oracle := sim.Body(func(t *sim.T) {
				s := d.Swarm(held)
				c := conn(1)
				vs.GoNamed("handler", sim.Handler(s, c).Loop)
				x := append(bitfield(), send(rs)...)
				switch mode {
				case "together":
					c.Send(x)
				case "apart":
					c.Send(bitfield())
					for _, r := range rs {
						c.Send(r.bytes())
					}
				case "cut":
					c.Send(x[:9], x[9:20], x[20:])
				}
				vs.SleepNS(sec / 4)
				vs.Settle()
				judge(t, lay, held, "peer", c.Stream(), false, rs, true)
			})
			b.Explore(fmt.Sprintf("requests %v %s, held %v", rs, mode, held), cfg(b, 0), body, oracle)
		}
	}
}

// tick: requests arrive as the keep-alive is due.
func tick(b *run.B, k int) {
	d := disk()
	rs := reqSets[k]
	for _, n := range []int64{1, 2} {
		for _, held := range [][]bool{some, all} {
			if b.Expired() {
				return
			}
			n, held := n, held
			body, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(true)
				s := d.Swarm(held)
				c := conn(1)
				vs.GoNamed("handler", sim.Handler(s, c).Loop)
				c.Send([]byte{0, 0, 0, 0})
				for i := int64(1); i <= n; i++ {
					if i == n {
						vs.SleepNS(60*sec - 1)
						vs.Settle()
						vs.SleepNS(1)
					} else {
						vs.SleepNS(60 * sec)
						c.Send([]byte{0, 0, 0, 0})
					}
				}
				vs.Quiet(false)
				c.Send(append(bitfield(), send(rs)...))
				vs.SleepNS(sec / 4)
				vs.Settle()
				judge(t, lay, held, "peer", c.Stream(), false, rs, true)
			})
			b.Explore(fmt.Sprintf("requests %v at %d s, held %v", rs, 60*n, held), cfg(b, 0), body, oracle)
		}
	}
}

// limit: replies wait for the upload limit, at keep-alive time or not.
func limit(b *run.B, k int) {
	d := disk()
	rs := reqSets[k]
	for _, lim := range []int64{1, 5, 20} {
		for _, at := range []int64{0, 59 * sec} {
			if b.Expired() {
				return
			}
			if vs.RaceEnabled && at > 0 {
				continue
			}
			lim, at := lim, at
			body, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(true)
				s := d.Swarm(some)
				s.RLIO.SetWriteRate(lim)
				vs.GoNamed("limiter", s.RLIO.Run)
				c, o := conn(1), conn(2)
				vs.GoNamed("handler1", sim.Handler(s, c).Loop)
				if at > 0 {
					vs.SleepNS(at)
				} else {
					vs.Quiet(false)
				}
				vs.GoNamed("handler2", sim.Handler(s, o).Loop)
				c.Send(append(bitfield(), send(rs)...))
				o.Send(append(send(rs[:1]), bitfield()...))
				if at > 0 {
					vs.Settle()
					vs.Quiet(false)
				}
				vs.SleepNS(2 * sec)
				vs.Quiet(true)
				vs.SleepNS(40 * sec)
				vs.Settle()
				judge(t, lay, some, "first peer", c.Stream(), false, rs, true)
				judge(t, lay, some, "second peer", o.Stream(), false, rs[:1], true)
			})
			b.Explore(fmt.Sprintf("requests %v, limit %d, at %d s", rs, lim, at/sec), cfg(b, 1), body, oracle)
		}
	}
}

// slow: the peer takes a few bytes at a time.
func slow(b *run.B, k int) {
	d := disk()
	rs := reqSets[k]
	for _, room := range []int64{1, 9} {
		for _, at := range []int64{0, 60*sec - 1} {
			if b.Expired() {
				return
			}
			if vs.RaceEnabled && at > 0 && room == 1 {
				continue
			}
			room, at := room, at
			body, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(true)
				s := d.Swarm(some)
				c, o := conn(1), conn(2)
				c.Cap, c.Partial = room, true
				vs.GoNamed("handler1", sim.Handler(s, c).Loop)
				vs.GoNamed("handler2", sim.Handler(s, o).Loop)
				for i := 0; i < 10; i++ {
					vs.Settle()
					c.Take()
				}
				if at > 0 {
					vs.SleepNS(at)
					vs.Settle()
				}
				vs.Quiet(false)
				c.Send(append(bitfield(), send(rs)...))
				o.Send(send(rs))
				if at > 0 {
					vs.SleepNS(1)
				}
				c.Take()
				vs.Settle()
				judge(t, lay, some, "other peer", o.Stream(), false, rs, true)
				c.Take()
				vs.Settle()
				c.Limit(12)
				vs.Settle()
				c.Limit(-1)
				vs.Settle()
				vs.Quiet(true)
				vs.SleepNS(sec / 4)
				vs.Settle()
				judge(t, lay, some, "slow peer", c.Stream(), false, rs, true)
			})
			b.Explore(fmt.Sprintf("requests %v, takes %d bytes at a time, at %d ns", rs, room, at), cfg(b, map[bool]int{true: 1}[at > 0]), body, oracle)
		}
	}
}

// stuck: the peer stops taking data at any byte, and resumes before, at or
// after the time the client gives it.
func stuck(b *run.B, k int) {
	d := disk()
	rs := reqSets[k]
	for room := int64(0); room <= 40; room++ {
		for _, resume := range []int64{30 * sec, 61 * sec, 120*sec - 1, 120 * sec, 121 * sec} {
			for _, alive := range []bool{true, false} {
				if b.Expired() {
					return
				}
				if vs.RaceEnabled && (room%10 != 0 || alive) {
					continue
				}
				held := all
				if k == 3 || b.Thorough() {
					held = some
				}
				room, resume, alive := room, resume, alive
				body, oracle := sim.Body(func(t *sim.T) {
					vs.Quiet(true)
					s := d.Swarm(held)
					c := conn(1)
					c.Partial = true
					vs.GoNamed("handler", sim.Handler(s, c).Loop)
					vs.Settle()
					vs.SleepNS(sec / 4)
					c.Limit(room)
					c.Send(append(send(rs), bitfield()...))
					vs.SleepNS(sec / 2)
					vs.Settle()
					from := vs.Now()
					if alive {
						vs.SleepNS(29 * sec)
						for vs.Now()+59*sec < from+resume {
							c.Send([]byte{0, 0, 0, 0})
							vs.SleepNS(59 * sec)
						}
					}
					vs.SleepNS(from + resume - sec/2 - vs.Now())
					vs.Quiet(false)
					c.Limit(-1)
					vs.Settle()
					vs.Quiet(true)
					vs.SleepNS(sec)
					vs.Settle()
					judge(t, lay, held, "peer", c.Stream(), false, rs, !c.Closed())
				})
				b.Explore(fmt.Sprintf("requests %v, takes %d bytes, the rest %d ns later, sends keep-alives %v, held %v", rs, room, resume, alive, held), cfg(b, 1), body, oracle)
			}
		}
	}
}

// choke: the peer is choked while it is being served.
func choke(b *run.B, k int) {
	d := disk()
	rs := reqSets[k]
	for _, room := range []int64{-1, 7} {
		for _, at := range []int64{0, 60 * sec} {
			if b.Expired() {
				return
			}
			room, at := room, at
			body, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(true)
				s := d.Swarm(some)
				c := conn(1)
				h := sim.Handler(s, c)
				vs.GoNamed("handler", h.Loop)
				vs.Settle()
				c.Partial = room > 0
				if at > 0 {
					vs.SleepNS(at - 1)
					vs.Settle()
				}
				if room > 0 {
					c.Limit(room)
				}
				vs.Quiet(false)
				c.Send(append(bitfield(), send(rs)...))
				var err error
				vs.GoNamed("choker", func() { err = h.Choke() })
				if at > 0 {
					vs.SleepNS(1)
				}
				vs.Settle()
				c.Limit(-1)
				vs.Settle()
				vs.Quiet(true)
				vs.SleepNS(sec / 4)
				vs.Settle()
				if err != nil {
					t.Failf("choking: %v", err)
					return
				}
				judge(t, lay, some, "peer", c.Stream(), false, rs, true)
				ms, _, _ := wire.Split(c.Stream())
				n := 0
				for _, m := range ms {
					if m.Type == wire.Choke {
						n++
					}
				}
				if n != 1 {
					t.Failf("choked once, %d messages say so", n)
				}
			})
			b.Explore(fmt.Sprintf("requests %v, choked meanwhile, room %d, at %d s", rs, room, at/sec), cfg(b, 0), body, oracle)
		}
	}
}

// large blocks, with and without an upload limit, at keep-alive time or not, to
// peers that take all at once or a part at a time.
var bigSets = [][]req{
	{{0, 0, 65536}, {1, 1, 16384}},
	{{0, 5, 16385}, {1, 0, 65536}, {0, 0, 32768}},
	{{1, 0, 40000}},
}

func large(b *run.B, k int) {
	d := disk2()
	rs := bigSets[k]
	for _, lim := range []int64{-1, 1000, 20000, 1 << 20} {
		for _, at := range []int64{0, 60*sec - 1} {
			for _, room := range []int64{-1, 20000} {
				if b.Expired() {
					return
				}
				if vs.RaceEnabled && room > 0 {
					continue
				}
				lim, at, room := lim, at, room
				body, oracle := sim.Body(func(t *sim.T) {
					vs.Quiet(true)
					s := d.Swarm([]bool{true, true})
					if lim > 0 {
						s.RLIO.SetWriteRate(lim)
						vs.GoNamed("limiter", s.RLIO.Run)
					}
					c, o := conn(1), conn(2)
					if room > 0 {
						c.Partial = true
					}
					vs.GoNamed("handler1", sim.Handler(s, c).Loop)
					vs.GoNamed("handler2", sim.Handler(s, o).Loop)
					if at > 0 {
						vs.SleepNS(at)
						vs.Settle()
					}
					if room > 0 {
						c.Limit(room)
					}
					vs.Quiet(false)
					c.Send(send(rs))
					o.Send(send(rs[:1]))
					vs.SleepNS(sec)
					if room > 0 {
						c.Limit(3 * room)
						vs.Settle()
						c.Limit(-1)
					}
					vs.Quiet(true)
					// the peers keep silent no longer than they may
					for i := 0; i < 6; i++ {
						vs.SleepNS(40 * sec)
						c.Send([]byte{0, 0, 0, 0})
						o.Send([]byte{0, 0, 0, 0})
					}
					vs.Settle()
					judge(t, big, []bool{true, true}, "first peer", c.Stream(), false, rs, true)
					judge(t, big, []bool{true, true}, "second peer", o.Stream(), false, rs[:1], true)
				})
				b.Explore(fmt.Sprintf("requests %v, limit %d, at %d ns, room %d", rs, lim, at, room), cfg(b, 1), body, oracle)
			}
		}
	}
}

// two peers at once.
func two(b *run.B, k, j int) {
	d := disk()
	for _, held := range [][]bool{some, all} {
		if b.Expired() {
			return
		}
		held := held
		body, oracle := sim.Body(func(t *sim.T) {
			vs.Quiet(true)
			s := d.Swarm(held)
			c, o := conn(1), conn(2)
			vs.GoNamed("handler1", sim.Handler(s, c).Loop)
			vs.GoNamed("handler2", sim.Handler(s, o).Loop)
			vs.Settle()
			vs.Quiet(false)
			c.Send(append(bitfield(), send(reqSets[k])...))
			o.Send(append(bitfield(), send(reqSets[j])...))
			vs.SleepNS(sec / 4)
			vs.Settle()
			judge(t, lay, held, "first peer", c.Stream(), false, reqSets[k], true)
			judge(t, lay, held, "second peer", o.Stream(), false, reqSets[j], true)
		})
		b.Explore(fmt.Sprintf("requests %v and %v, held %v", reqSets[k], reqSets[j], held), cfg(b, 0), body, oracle)
	}
}

// files: two peers at once with file operations interleaving.
func files(b *run.B, k int) {
	d := disk()
	x := [][2][]req{{{{0, 0, 4}}, {{2, 0, 4}}}, {{{1, 0, 4}, {3, 0, 3}}, {{2, 1, 3}}}, {{{1, 1, 3}}, {{1, 0, 2}, {0, 0, 4}}}}[k]
	body, oracle := sim.Body(func(t *sim.T) {
		vos.Sched = true
		vs.Quiet(true)
		s := d.Swarm(nil)
		c, o := conn(1), conn(2)
		vs.GoNamed("handler1", sim.Handler(s, c).Loop)
		vs.GoNamed("handler2", sim.Handler(s, o).Loop)
		vs.Settle()
		vs.Quiet(false)
		c.Send(send(x[0]))
		o.Send(send(x[1]))
		vs.Settle()
		judge(t, lay, all, "first peer", c.Stream(), false, x[0], true)
		judge(t, lay, all, "second peer", o.Stream(), false, x[1], true)
	})
	cf := cfg(b, 0)
	if !vs.RaceEnabled {
		cf.Bound++
	}
	b.Explore(fmt.Sprintf("requests %v and %v, file operations interleaving", x[0], x[1]), cf, body, oracle)
	vos.Sched = false
}

// setup: a connection is set up while another peer is served.
func setup(b *run.B, k int) {
	d := disk()
	hs := sim.Handshake(d.Tor.Infohash(), "-XX0001-zyxwvutsrqpo")
	hows := [][2]string{{"incoming", "incoming"}, {"incoming", "outgoing"}, {"outgoing", "direct"}}[k]
	for _, held := range [][]bool{some, all} {
		for _, rs := range reqSets {
			if b.Expired() {
				return
			}
			held, rs := held, rs
			body, oracle := sim.Body(func(t *sim.T) {
				s := d.Swarm(held)
				cs := []*sim.Conn{conn(1), conn(2)}
				for i, how := range hows {
					c := cs[i]
					if how != "direct" {
						c.Send(append(append([]byte(nil), hs...), append(send(rs), bitfield()...)...))
					} else {
						c.Send(append(send(rs), bitfield()...))
					}
					how := how
					vs.GoNamed(how, func() {
						var ph *swarm.PeerHandler
						var err error
						switch how {
						case "incoming":
							ph, err = swarm.FromIncoming(c, s)
						case "outgoing":
							vnet.DialHook = func(string, string, time.Duration) (net.Conn, error) { return c, nil }
							ph, err = swarm.FromBootstrap(peer.MakePeer("", net.ParseIP("10.0.0.2"), 5002), s)
						default:
							ph = sim.Handler(s, c)
						}
						if err == nil {
							ph.Loop()
						}
					})
				}
				vs.SleepNS(sec / 4)
				vs.Settle()
				for i, how := range hows {
					judge(t, lay, held, how+" peer", cs[i].Stream(), how != "direct", rs, true)
				}
			})
			b.Explore(fmt.Sprintf("%v, requests %v, held %v", hows, rs, held), cfg(b, 0), body, oracle)
		}
	}
}

// three peers.
func three(b *run.B) {
	d := disk()
	for k := range reqSets {
		for _, held := range [][]bool{some, all} {
			if b.Expired() {
				return
			}
			k, held := k, held
			body, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(true)
				s := d.Swarm(held)
				var cs []*sim.Conn
				for i := 0; i < 3; i++ {
					cs = append(cs, conn(i+1))
					vs.GoNamed(fmt.Sprint("handler", i), sim.Handler(s, cs[i]).Loop)
				}
				vs.Settle()
				vs.Quiet(false)
				for i, c := range cs {
					c.Send(append(bitfield(), send(reqSets[(k+i)%len(reqSets)])...))
				}
				vs.SleepNS(sec / 4)
				vs.Settle()
				for i, c := range cs {
					judge(t, lay, held, fmt.Sprint("peer ", i), c.Stream(), false, reqSets[(k+i)%len(reqSets)], true)
				}
			})
			b.Explore(fmt.Sprintf("three peers, requests from %d on, held %v", k, held), cfg(b, 1), body, oracle)
		}
	}
}
