// C20: a departing peer is torn down completely. Sessions of the real
// connection set-up and handler are ended in every way at every point, and under
// all schedules up to a bound of delays.
package main

import (
	"fmt"
	"net"
	"sort"
	"syscall"
	"time"

	"gotor/bf"
	"gotor/peer"
	"gotor/swarm"
	"gotor/zv/vnet"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

const sec = int64(time.Second)

func main() {
	run.Main(run.Spec{
		ID:    "C20",
		Level: "model_checking",
		Rule:  "incoming, outgoing and direct sessions x every cut of their byte stream (handshake, bitfield, have, requests, keep-alive) x every end (end of stream, with the data, reset, hang-up, 12 hostile messages, silence), torrents of 2 to 200 pieces with a peer that has them all x every end at 7 times, every failing write (whole, part, nothing), read deadline and stuck peer; all schedules up to the bound of delays of 18 ends at 6 points of a session, alone, next to another peer, at timer ticks, under an upload limit (zero included), and at start-up. Then: handler returned, no thread left over, connection closed, claimed pieces claimable again, the other peer served and asked for them",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for _, how := range hows {
				how := how
				for _, e := range ends {
					e := e
					if vs.RaceEnabled && e.kind == hostile {
						continue
					}
					bs = append(bs, run.Block{Name: "cut/" + how + "/" + e.name, Fn: func(b *run.B) { cuts(b, how, e) }})
				}
				bs = append(bs, run.Block{Name: "fail/" + how, Fn: func(b *run.B) { fails(b, how) }})
			}
			for _, e := range ends {
				e := e
				if e.kind == silence {
					continue
				}
				for k := range scripts {
					k := k
					if vs.RaceEnabled && e.kind == hostile && e.name != "long" && k != 2 {
						continue
					}
					bs = append(bs, run.Block{Name: fmt.Sprintf("schedules/%s/%s", e.name, scripts[k].name), Fn: func(b *run.B) { schedules(b, e, k) }})
				}
				bs = append(bs, run.Block{Name: "start/" + e.name, Fn: func(b *run.B) { start(b, e) }})
			}
			for k := 0; k < 5; k++ {
				k := k
				for n := 1; n <= 6; n++ {
					n := n
					bs = append(bs, run.Block{Name: fmt.Sprintf("writes/%d/%d", k, n), Fn: func(b *run.B) { writes(b, k, n) }})
				}
			}
			for _, e := range ends {
				e := e
				if !vs.RaceEnabled {
					bs = append(bs, run.Block{Name: "wide/" + e.name, Fn: func(b *run.B) { wide(b, e) }})
				}
			}
			bs = append(bs, run.Block{Name: "both", Fn: both}, run.Block{Name: "deadlines", Fn: deadlines})
			for _, e := range ends {
				e := e
				if e.kind == hostile && (e.name != "long" || vs.RaceEnabled) {
					continue
				}
				bs = append(bs, run.Block{Name: "zero/" + e.name, Fn: func(b *run.B) { zero(b, e) }})
			}
			return bs
		},
	})
}

var hows = []string{"incoming", "outgoing", "direct"}

// 4 pieces; we hold the first and third.
var (
	lay  = tor.New(4, 6, 8)
	held = []bool{true, false, true, false}
	all  = []bool{true, true, true, true}
)

type kind int

const (
	eof kind = iota
	join
	reset
	joinReset
	hangup
	hostile
	silence
)

type end struct {
	name string
	kind kind
	data []byte
}

func u32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func raw(n uint32, body ...byte) []byte { return append(u32(n), body...) }

var ends = []end{
	{name: "eof", kind: eof},
	{name: "join", kind: join},
	{name: "reset", kind: reset},
	{name: "joinreset", kind: joinReset},
	{name: "hangup", kind: hangup},
	{name: "silence", kind: silence},
	{name: "long", kind: hostile, data: raw(0xffffffff)},
	{name: "toolong", kind: hostile, data: raw(1<<24, 7)},
	{name: "bitfield0", kind: hostile, data: raw(1, 5)},
	{name: "bitfield2", kind: hostile, data: raw(3, 5, 0xff, 0xff)},
	{name: "piece9", kind: hostile, data: wire.Msg{Type: wire.Request, Index: 9, ReqLen: 1}.Encode()},
	{name: "piecemax", kind: hostile, data: wire.Msg{Type: wire.Request, Index: 0xffffffff, ReqLen: 1}.Encode()},
	{name: "beyond", kind: hostile, data: wire.Msg{Type: wire.Request, Index: 0, Begin: 4, ReqLen: 1}.Encode()},
	{name: "overflow", kind: hostile, data: wire.Msg{Type: wire.Request, Index: 0, Begin: 0xffffffff, ReqLen: 2}.Encode()},
	{name: "unheld", kind: hostile, data: wire.Msg{Type: wire.Request, Index: 1, Begin: 0xffffffff, ReqLen: 2}.Encode()},
	{name: "short", kind: hostile, data: raw(2, 6, 0)},
	{name: "empty", kind: hostile, data: raw(1, 4)},
	{name: "unknown", kind: hostile, data: raw(3, 99, 1, 2)},
}

// do ends the stream after last.
func (e end) do(c *sim.Conn, last []byte) {
	switch e.kind {
	case join:
		c.SendLast(last, nil)
		return
	case joinReset:
		c.SendLast(last, syscall.ECONNRESET)
		return
	}
	if len(last) > 0 {
		c.Send(last)
	}
	switch e.kind {
	case eof:
		c.SendEOF()
	case reset:
		c.Break(syscall.ECONNRESET)
	case hangup:
		c.Hangup()
	case hostile:
		c.Send(e.data)
	}
}

// messages the client may survive; then the peer leaves.
func (e end) soft() bool { return e.kind == hostile }

var disk *sim.Disk

func setup() *sim.Disk {
	if disk == nil {
		disk = sim.NewDisk(lay, held)
	}
	return disk
}

// flag can be looked at while it is set, without synchronisation.
type flag struct{ v bool }

//go:norace
func (f *flag) set() { f.v = true }

//go:norace
func (f *flag) get() bool { return f.v }

type session struct {
	c    *sim.Conn
	s    *swarm.Swarm
	end  flag
	err  error
	base int
	held []bool
}

func (x *session) loop(how string) {
	var ph *swarm.PeerHandler
	switch how {
	case "incoming":
		ph, x.err = swarm.FromIncoming(x.c, x.s)
	case "outgoing":
		ph, x.err = swarm.FromBootstrap(peer.MakePeer("", net.ParseIP("10.0.0.1"), 5001), x.s)
	default:
		ph = sim.Handler(x.s, x.c)
	}
	if x.err == nil {
		ph.Loop()
	}
	x.end.set()
}

func begin(d *sim.Disk, limit int64) *session { return beginWith(d, held, limit) }

func beginWith(d *sim.Disk, held []bool, limit int64) *session {
	x := &session{c: sim.New("p", "10.0.0.1", 5001), s: d.Swarm(held), held: held}
	x.c.NoTime = true
	if limit > 0 {
		x.s.RLIO.SetWriteRate(limit)
		vs.GoNamed("limiter", x.s.RLIO.Run)
	}
	vnet.DialHook = func(string, string, time.Duration) (net.Conn, error) { return x.c, nil }
	return x
}

func wait(ns int64) {
	vs.SleepNS(ns)
	vs.Settle()
}

// gone checks that nothing of the session is left after the given time.
func (x *session) gone(t *sim.T, within int64) bool { return x.left(t, within) && x.free(t) }

func (x *session) left(t *sim.T, within int64) bool {
	from := vs.Now()
	for _, d := range []int64{0, sec, 5 * sec, 9 * sec, 61 * sec, 125 * sec, 249 * sec} {
		if d > within {
			break
		}
		if d > 0 {
			vs.SleepNS(from + d - vs.Now())
		}
		vs.Settle()
		if x.end.get() && x.c.Closed() && len(vs.Live()) <= x.base {
			return true
		}
	}
	switch {
	case !x.end.get():
		t.Failf("the handler is still there %d s later: %v", (vs.Now()-from)/sec, vs.Live())
	case !x.c.Closed():
		t.Failf("the connection is not closed")
	default:
		t.Failf("goroutines are left over: %v", vs.Live())
	}
	return false
}

// free checks that another peer gets all that we lack.
func (x *session) free(t *sim.T) bool {
	n := sim.Handler(x.s, sim.New("n", "10.0.0.9", 5009))
	if i, ok := x.s.PPT.NextPiece(n); ok {
		t.Failf("piece %d is available from a peer that has nothing", i)
		return false
	}
	b := bf.NewBitfield(int64(len(x.held)))
	var lack []int
	for i := range x.held {
		b.Set(int64(i), true)
		if !x.held[i] {
			lack = append(lack, i)
		}
	}
	x.s.PPT.RegisterBF(n, b)
	var got []int
	for k := 0; k < len(x.held)+6; k++ {
		i, ok := x.s.PPT.NextPiece(n)
		if !ok {
			break
		}
		got = append(got, int(i))
	}
	x.s.PPT.Unregister(n)
	sort.Ints(got)
	if fmt.Sprint(got) != fmt.Sprint(lack) {
		t.Failf("another peer can get pieces %v, we lack %v", got, lack)
		return false
	}
	return true
}

func script(how string) [][]byte {
	var out [][]byte
	if how != "direct" {
		out = append(out, sim.Handshake(setup().Tor.Infohash(), "-XX0001-zyxwvutsrqpo"))
	}
	return append(out,
		wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode(),
		wire.Msg{Type: wire.Have, Index: 1}.Encode(),
		wire.Msg{Type: wire.Request, Index: 0, Begin: 1, ReqLen: 3}.Encode(),
		wire.Msg{Type: wire.KeepAlive}.Encode(),
		wire.Msg{Type: wire.Request, Index: 2, Begin: 0, ReqLen: 4}.Encode(),
	)
}

func (x *session) finish(t *sim.T, e end) {
	vs.Settle()
	within := 10 * sec
	switch {
	case e.kind == silence:
		within = 130 * sec
	case e.soft() && !x.c.Closed():
		x.c.Hangup()
	}
	x.gone(t, within)
}

// cuts: every end after every byte of the session.
func cuts(b *run.B, how string, e end) {
	d := setup()
	sc := script(how)
	var whole []byte
	for _, m := range sc {
		whole = append(whole, m...)
	}
	for cut := 0; cut <= len(whole); cut++ {
		for _, mode := range []string{"at once", "by message", "later", "limited"} {
			if b.Expired() {
				return
			}
			if vs.RaceEnabled && (cut%5 != 0 || mode == "at once") && cut != len(whole) {
				continue
			}
			if mode == "later" && cut%4 != 0 && !b.Thorough() {
				continue
			}
			cut, mode := cut, mode
			body, oracle := sim.Body(func(t *sim.T) {
				limit := int64(0)
				if mode == "limited" {
					limit = 2
				}
				x := begin(d, limit)
				vs.Settle()
				x.base = len(vs.Live())
				vs.GoNamed("handler", func() { x.loop(how) })
				switch mode {
				case "at once":
					e.do(x.c, whole[:cut])
				default:
					off := 0
					var last []byte
					for _, m := range sc {
						if off >= cut {
							break
						}
						n := len(m)
						if off+n > cut {
							n = cut - off
						}
						if last != nil {
							x.c.Send(last)
							vs.Settle()
						}
						last = m[:n]
						off += n
					}
					if mode == "later" && len(last) > 0 {
						x.c.Send(last)
						last = nil
						wait(61 * sec)
					}
					e.do(x.c, last)
				}
				x.finish(t, e)
			})
			b.Once(fmt.Sprintf("%s, %s after %d bytes %s", how, e.name, cut, mode), vs.Config{MaxSteps: 200000}, body, oracle)
		}
	}
}

// fails: failing writes and deadlines, peers that stop taking data.
func fails(b *run.B, how string) {
	d := setup()
	sc := script(how)
	try := func(desc string, within int64, limit int64, prep func(c *sim.Conn)) {
		if b.Expired() {
			return
		}
		body, oracle := sim.Body(func(t *sim.T) {
			x := begin(d, limit)
			prep(x.c)
			vs.Settle()
			x.base = len(vs.Live())
			vs.GoNamed("handler", func() { x.loop(how) })
			for _, m := range sc {
				x.c.Send(m)
				vs.Settle()
			}
			for k := 0; k < 40 && !x.end.get(); k++ {
				x.c.Send(wire.Msg{Type: wire.Request, Index: 0, Begin: uint32(k % 4), ReqLen: 1}.Encode())
				wait(sec)
			}
			// the peer is heard of no more
			if !x.end.get() {
				wait(61 * sec)
			}
			x.gone(t, within)
		})
		b.Once(how+", "+desc, vs.Config{MaxSteps: 400000}, body, oracle)
	}
	for _, limit := range []int64{0, 3} {
		for n := 1; n <= 10; n++ {
			for part := 0; part <= 5; part++ {
				for _, only := range []bool{false, true} {
					n, part, only := n, part, only
					try(fmt.Sprintf("write %d fails after %d bytes, only writes %v, limit %d", n, part, only, limit), 130*sec, limit, func(c *sim.Conn) {
						c.FailWrite, c.FailPart, c.OnlyWrites = n, part, only
					})
				}
			}
		}
		for n := 1; n <= 12; n++ {
			n := n
			try(fmt.Sprintf("read deadline %d fails, limit %d", n, limit), 130*sec, limit, func(c *sim.Conn) { c.FailDeadline = n })
		}
		for lim := int64(0); lim <= 200; lim += 3 {
			lim := lim
			if how == "outgoing" {
				lim += 68 // a new connection has room for the handshake
			}
			try(fmt.Sprintf("takes %d bytes, limit %d", lim, limit), 250*sec, limit, func(c *sim.Conn) { c.Cap = lim })
		}
	}
}

// scripts set a session up before the schedules branch; last is sent along with
// the end.
var scripts = []struct {
	name  string
	first [][]byte
	ns    int64 // time that passes before the end
	last  []byte
	limit int64
}{
	{"idle", nil, 0, nil, 0},
	{"announce", nil, 0, wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode(), 0},
	{"request", [][]byte{wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode()}, sec / 10, wire.Msg{Type: wire.Request, Index: 0, Begin: 1, ReqLen: 3}.Encode(), 0},
	{"tick", [][]byte{wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode()}, 60 * sec, wire.Msg{Type: wire.Request, Index: 2, Begin: 1, ReqLen: 3}.Encode(), 0},
	{"part", nil, sec / 10, append(wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode(), 0, 0, 0), 0},
	{"limited", [][]byte{wire.Msg{Type: wire.Request, Index: 0, Begin: 0, ReqLen: 4}.Encode()}, sec, append(wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode(), wire.Msg{Type: wire.Request, Index: 2, Begin: 0, ReqLen: 4}.Encode()...), 2},
}

func cfg(b *run.B) vs.Config {
	n := 2
	if b.Thorough() {
		n = 3
	}
	if vs.RaceEnabled {
		n--
	}
	return vs.Config{Bound: n, Delay: true}
}

func schedules(b *run.B, e end, k int) {
	d := setup()
	sc := scripts[k]
	for _, second := range []bool{false, true} {
		if b.Expired() {
			return
		}
		second := second
		body, oracle := sim.Body(func(t *sim.T) {
			vs.Quiet(true)
			x := begin(d, sc.limit)
			var q *session
			if second {
				q = x.other()
			}
			vs.Settle()
			x.base = len(vs.Live())
			vs.GoNamed("handler", func() { x.loop("direct") })
			for _, m := range sc.first {
				x.c.Send(m)
				vs.Settle()
			}
			if sc.ns > 0 {
				vs.SleepNS(sc.ns - vs.Now()%sec)
			}
			vs.Quiet(false)
			if q != nil {
				q.c.Send(wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode())
			}
			e.do(x.c, sc.last)
			if q == nil {
				x.finish(t, e)
				return
			}
			vs.Settle()
			vs.Quiet(true)
			if e.soft() && !x.c.Closed() {
				x.c.Hangup()
			}
			q.rest(t, x)
		})
		c := cfg(b)
		if sc.ns > sec && c.Bound > 1 && (second || b.Thorough()) {
			c.Bound--
		}
		b.Explore(fmt.Sprintf("%s, %s, other peer %v", e.name, sc.name, second), c, body, oracle)
	}
}

// other starts a second peer.
func (x *session) other() *session {
	q := &session{c: sim.New("q", "10.0.0.2", 5002), s: x.s}
	q.c.NoTime = true
	vs.GoNamed("handler q", func() { q.loop("direct") })
	return q
}

// rest checks that q goes on after x has left, and gets asked for all.
func (q *session) rest(t *sim.T, x *session) {
	from := vs.Now()
	for k := 0; k < 10 && !(x.end.get() && x.c.Closed()); k++ {
		wait(sec)
	}
	wait(sec)
	if !x.end.get() || !x.c.Closed() || len(vs.Live()) > x.base {
		t.Failf("%d s later: handler returned %v, connection closed %v, goroutines %v", (vs.Now()-from)/sec, x.end.get(), x.c.Closed(), vs.Live())
		return
	}
	if q.end.get() || q.c.Closed() {
		t.Failf("the other peer is dropped, too")
		return
	}
	q.c.Send(wire.Msg{Type: wire.Request, Index: 2, Begin: 1, ReqLen: 2}.Encode())
	wait(10 * sec)
	ms, r, err := wire.Split(q.c.Stream())
	if err != nil || len(r) > 0 {
		t.Failf("other peer: bad stream %x (%v)", q.c.Stream(), err)
		return
	}
	asked, data := map[uint32]bool{}, 0
	for _, m := range ms {
		switch m.Type {
		case wire.Request:
			asked[m.Index] = true
		case wire.Piece:
			if m.Index != 2 || m.Begin != 1 || string(m.Data) != string(lay.Piece(2)[1:3]) {
				t.Failf("other peer: got %v", m)
			}
			data++
		}
	}
	if data != 1 {
		t.Failf("other peer: got %d replies", data)
	}
	if len(asked) != 2 || !asked[1] || !asked[3] {
		t.Failf("the other peer, which has everything, is asked for pieces %v only, we lack 1 and 3", asked)
	}
	q.c.Hangup()
	q.base = x.base - 5
	for k := 0; k < 10 && !(q.end.get() && q.c.Closed()); k++ {
		wait(sec)
	}
	if !q.end.get() || !q.c.Closed() {
		t.Failf("the other peer isn't torn down")
	}
	x.free(t)
}

// start: the connection ends before or while the handler starts.
func start(b *run.B, e end) {
	d := setup()
	for _, pre := range []bool{true, false} {
		for _, how := range hows {
			if b.Expired() {
				return
			}
			pre, how := pre, how
			sc := script(how)
			var first []byte
			if how != "direct" {
				first = sc[0]
				sc = sc[1:]
			}
			body, oracle := sim.Body(func(t *sim.T) {
				x := begin(d, 0)
				vs.Settle()
				x.base = len(vs.Live())
				if first != nil {
					x.c.Send(first)
				}
				if pre {
					e.do(x.c, sc[0])
				}
				vs.GoNamed("handler", func() { x.loop(how) })
				if !pre {
					x.c.Send(sc[0])
					e.do(x.c, sc[2])
				}
				x.finish(t, e)
			})
			b.Explore(fmt.Sprintf("%s, %s, before start %v", e.name, how, pre), cfg(b), body, oracle)
		}
	}
}

// writes: the n-th write fails while the peer is active.
func writes(b *run.B, k, n int) {
	d := setup()
	for _, only := range []bool{false, true} {
		for _, second := range []bool{false, true} {
			if b.Expired() {
				return
			}
			only, second := only, second
			sc := scripts[k+1]
			body, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(n > 1 || sc.ns > sec)
				x := begin(d, sc.limit)
				x.c.FailWrite, x.c.FailPart, x.c.OnlyWrites = n, k, only
				var q *session
				if second {
					q = x.other()
				}
				vs.Settle()
				x.base = len(vs.Live())
				vs.GoNamed("handler", func() { x.loop("direct") })
				for _, m := range sc.first {
					x.c.Send(m)
					vs.Settle()
				}
				if sc.ns > 0 {
					vs.SleepNS(sc.ns - vs.Now()%sec)
				}
				vs.Quiet(false)
				if q != nil {
					q.c.Send(wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode())
				}
				x.c.Send(sc.last)
				x.c.Send(wire.Msg{Type: wire.Request, Index: 2, Begin: 0, ReqLen: 1}.Encode())
				vs.Settle()
				vs.Quiet(true)
				wait(10 * sec)
				if !x.c.Failed() {
					x.c.Hangup() // that many were not needed
				}
				if q != nil {
					q.rest(t, x)
					return
				}
				x.gone(t, 10*sec)
			})
			c := cfg(b)
			if sc.ns > sec && !b.Thorough() {
				c.Bound = 1
			}
			b.Explore(fmt.Sprintf("write %d fails, %s, only writes %v, other peer %v", n, sc.name, only, second), c, body, oracle)
		}
	}
}

// both peers leave at once, in all ways.
func both(b *run.B) {
	d := setup()
	for _, e := range ends {
		for _, f := range ends {
			if e.kind == silence || f.kind == silence || e.soft() && e.name != "long" || f.soft() && f.name != "long" {
				continue
			}
			if b.Expired() {
				return
			}
			e, f := e, f
			body, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(true)
				x := begin(d, 0)
				vs.Settle()
				x.base = len(vs.Live())
				q := x.other()
				vs.GoNamed("handler", func() { x.loop("direct") })
				bits := wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode()
				x.c.Send(bits)
				vs.Settle()
				vs.Quiet(false)
				e.do(x.c, nil)
				f.do(q.c, bits)
				vs.Settle()
				if !q.end.get() || !q.c.Closed() {
					t.Failf("second peer: handler returned %v, connection closed %v", q.end.get(), q.c.Closed())
					return
				}
				x.gone(t, 10*sec)
			})
			b.Explore(fmt.Sprintf("%s and %s", e.name, f.name), cfg(b), body, oracle)
		}
	}
}

// deadlines: silence ends a session at the moment other things happen.
func deadlines(b *run.B) {
	d := setup()
	for _, at := range []int64{120 * sec, 120*sec - 1} {
		for _, late := range []string{"nothing", "request", "hangup", "hostile"} {
			if b.Expired() {
				return
			}
			at, late := at, late
			body, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(true)
				x := begin(d, 0)
				vs.Settle()
				x.base = len(vs.Live())
				vs.GoNamed("handler", func() { x.loop("direct") })
				x.c.Send(wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode())
				vs.SleepNS(at - vs.Now())
				vs.Quiet(false)
				switch late {
				case "request":
					x.c.Send(wire.Msg{Type: wire.Request, Index: 2, Begin: 0, ReqLen: 1}.Encode())
				case "hangup":
					x.c.Hangup()
				case "hostile":
					x.c.Send(raw(0xffffffff))
				}
				vs.Settle()
				vs.Quiet(true)
				x.gone(t, 130*sec)
			})
			c := cfg(b)
			b.Explore(fmt.Sprintf("%s at %d", late, at), c, body, oracle)
		}
	}
}

// zero: a write limit of zero, so nothing that waits for its turn ever gets it.
func zero(b *run.B, e end) {
	d := setup()
	bits := wire.Msg{Type: wire.Bitfield, Data: sim.Wire(all)}.Encode()
	rq := wire.Msg{Type: wire.Request, Index: 2, Begin: 1, ReqLen: 3}.Encode()
	for k, msgs := range [][][]byte{nil, {bits}, {rq}, {bits, rq}, {rq, rq}, {bits, append(append([]byte(nil), rq...), rq...)}} {
		asks := k > 1
		if e.kind == silence && asks {
			continue // it may have said something that was not read
		}
		for _, at := range []int64{0, sec / 10, sec / 2, 60 * sec, 61 * sec} {
			for _, second := range []bool{false, true} {
				for _, how := range hows {
					if b.Expired() {
						return
					}
					if second && e.kind == silence {
						continue
					}
					if how != "direct" && (second || at > 0 && !b.Thorough()) {
						continue
					}
					msgs, at, how, second := msgs, at, how, second
					body, oracle := sim.Body(func(t *sim.T) {
						vs.Quiet(true)
						x := begin(d, 0)
						x.s.RLIO.SetWriteRate(0)
						vs.GoNamed("limiter", x.s.RLIO.Run)
						vs.Settle()
						var q *session
						base := len(vs.Live())
						if second {
							q = x.other()
							q.held = held
							q.c.Send(bits, rq)
							vs.Settle()
						}
						x.base = len(vs.Live())
						vs.GoNamed("handler", func() { x.loop(how) })
						if how != "direct" {
							x.c.Send(sim.Handshake(d.Tor.Infohash(), "-XX0001-zyxwvutsrqpo"))
							vs.Settle()
						}
						var last []byte
						for i, m := range msgs {
							if i == len(msgs)-1 && at == 60*sec {
								last = m // along with the end
								break
							}
							x.c.Send(m)
							vs.Settle()
						}
						if at > 0 {
							vs.SleepNS(at)
						}
						vs.Quiet(false)
						e.do(x.c, last)
						vs.Settle()
						vs.Quiet(true)
						within := 10 * sec
						if asks {
							// noticed with the next keep-alive at the latest
							if !x.c.Closed() {
								x.c.Hangup()
							}
							within = 130 * sec
						}
						if e.kind == silence {
							within = 130 * sec
						}
						if q == nil {
							x.gone(t, within)
							return
						}
						if !x.left(t, within) {
							return
						}
						if q.end.get() || q.c.Closed() {
							t.Failf("the other peer is dropped, too")
							return
						}
						q.c.Hangup()
						q.base = base
						q.gone(t, 130*sec)
					})
					desc := fmt.Sprintf("%s, %s %d ms after script %d, other peer %v, limit 0", how, e.name, at/1e6, k, second)
					c := cfg(b)
					c.MaxSteps = 400000
					if second {
						c.Bound = 1
					}
					if how != "direct" {
						b.Once(desc, c, body, oracle)
						continue
					}
					b.Explore(desc, c, body, oracle)
				}
			}
		}
	}
}

var wideDisks = map[int]*sim.Disk{}

// wide: torrents of which the peer is asked for more and more pieces; it ends at
// several times afterwards.
func wide(b *run.B, e end) {
	for _, n := range []int{2, 5, 6, 7, 8, 12, 13, 40, 200} {
		for _, h := range []int{0, 1, n - 1} {
			held := make([]bool, n)
			held[h] = true
			d := wideDisks[n]
			if d == nil {
				d = sim.NewDisk(tor.New(4, int64(4*n-1)), []bool(nil))
				wideDisks[n] = d
			}
			full := make([]bool, n)
			for i := range full {
				full[i] = true
			}
			for _, at := range []int64{0, sec / 20, sec / 10, sec * 3 / 20, sec / 2, 3 * sec, 61 * sec} {
				for _, how := range hows {
					for _, by := range []string{"bitfield", "have", "both", "bitfield, then none"} {
						for _, limit := range []int64{0, 30} {
							if b.Expired() {
								return
							}
							if limit > 0 && (n > 13 || at < sec/2) {
								continue
							}
							at, how, by, limit := at, how, by, limit
							body, oracle := sim.Body(func(t *sim.T) {
								x := beginWith(d, held, limit)
								vs.Settle()
								x.base = len(vs.Live())
								vs.GoNamed("handler", func() { x.loop(how) })
								if how != "direct" {
									x.c.Send(sim.Handshake(d.Tor.Infohash(), "-XX0001-zyxwvutsrqpo"))
									vs.Settle()
								}
								if by != "have" {
									x.c.Send(wire.Msg{Type: wire.Bitfield, Data: sim.Wire(full)}.Encode())
									vs.Settle()
								}
								if by == "bitfield, then none" {
									if at > 0 {
										wait(sec / 20)
									}
									x.c.Send(wire.Msg{Type: wire.Bitfield, Data: sim.Wire(make([]bool, n))}.Encode())
									vs.Settle()
								} else if by != "bitfield" {
									for i := range full {
										x.c.Send(wire.Msg{Type: wire.Have, Index: uint32(i)}.Encode())
									}
									vs.Settle()
								}
								if at > 0 {
									wait(at)
								}
								e.do(x.c, nil)
								x.finish(t, e)
							})
							b.Once(fmt.Sprintf("%d pieces, we hold %d, peer (%s) announces all by %s; %s %d ms later, limit %d", n, h, how, by, e.name, at/1e6, limit), vs.Config{MaxSteps: 400000}, body, oracle)
						}
					}
				}
			}
		}
	}
}
