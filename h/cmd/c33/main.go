// C33: clients understand each other. Two or three real clients with their own
// disks are connected with each other over simulated connections; what passes
// in both directions is judged against the reference wire model.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"gotor/zv/vnet"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

const sec = int64(time.Second)

func main() {
	run.Main(run.Spec{
		ID:    "C33",
		Level: "model_checking",
		Rule:  "two clients, one dialling the other, for every pair of sets of held pieces of torrents of 1 to 4 pieces (pieces of one and of several blocks, short last piece, several files), with the bytes arriving as written, one by one and cut at every kind of place, with and without upload limits; torrents of 9, 20, 100 and 1000 pieces with 8 patterns of held pieces each; three clients connected in a triangle for selected sets; and every schedule up to the bound of delays of selected pairs. Each side must be told exactly what the other holds as the first message, ask for exactly the pieces it lacks and the other has, in whole, get exactly one right answer for every request, and both must still be connected after two and a half (thorough: ten) minutes",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			if !vs.RaceEnabled {
				for k := range lays[:len(lays)-len(bigs)] {
					n := int(lays[k].NumPieces())
					for m := 0; m < 1<<uint(n); m++ {
						k, m := k, m
						bs = append(bs, run.Block{Name: fmt.Sprintf("pairs/%d/%d", k, m), Fn: func(b *run.B) { pairs(b, k, m) }})
					}
				}
				for n := range bigs {
					n := n
					bs = append(bs, run.Block{Name: fmt.Sprintf("pieces/%d", bigs[n]), Fn: func(b *run.B) { pieces(b, n) }})
				}
				for m := 0; m < 8; m++ {
					m := m
					bs = append(bs, run.Block{Name: fmt.Sprintf("triangle/%d", m), Fn: func(b *run.B) { triangle(b, m) }})
				}
			}
			for k := range selected {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("schedules/%d", k), Fn: func(b *run.B) { schedules(b, k) }})
			}
			return bs
		},
	})
}

var lays = []*tor.Layout{
	tor.New(4, 6, 5),                // 3 pieces, the last short
	tor.New(5, 3),                   // one piece
	tor.New(40960, 50000, 33000),    // 3 pieces of several blocks
	tor.New(16384, 16384*2),         // 2 pieces of one block
	tor.New(3, 2, 0, 4, 5),          // 4 pieces over 4 files
	tor.New(16385, 16385+16384+100), // odd block sizes
}

// the numbers of pieces of larger torrents
var bigs = []int{9, 20, 100, 1000}

func init() {
	for _, n := range bigs {
		lays = append(lays, tor.New(4, int64(4*n-9), 7))
	}
}

// few is the number of pieces up to which the held ones are given bit by bit;
// those of larger torrents are a pattern.
const few = 4

var patterns = 8

func set(n int, m int) []bool {
	h := make([]bool, n)
	for i := range h {
		if n <= few {
			h[i] = m>>uint(i)&1 == 1
			continue
		}
		switch m {
		case 1:
			h[i] = true
		case 2:
			h[i] = i%2 == 0
		case 3:
			h[i] = i < n/2
		case 4:
			h[i] = i == n-1
		case 5:
			h[i] = i != n-1
		case 6:
			h[i] = i%8 == 7
		case 7:
			h[i] = i >= n-3
		}
	}
	return h
}

// disks by layout, client and held set.
var disks = map[[3]int]*sim.Disk{}

func disk(k, who, m int) *sim.Disk {
	vos.Sched = false
	key := [3]int{k, who, m}
	if disks[key] == nil {
		disks[key] = sim.NewDisk(lays[k], set(int(lays[k].NumPieces()), m))
	}
	return disks[key]
}

// client is one of the clients.
type client struct {
	s    *swarm.Swarm
	held []bool
	id   string
}

// end is one client's end of a link.
type end struct {
	c    *sim.Conn
	err  error
	done bool
}

//go:norace
func (e *end) finish(err error) { e.err, e.done = err, true }

//go:norace
func (e *end) state() (bool, error) { return e.done, e.err }

// link is a connection; the first client dials.
type link struct {
	cl [2]*client
	e  [2]*end
	to peer.Info
}

type world struct {
	k       int
	clients []*client
	links   []*link
	byAddr  map[string]*sim.Conn
}

func newWorld(k int, held []int) *world {
	w := &world{k: k, byAddr: map[string]*sim.Conn{}}
	for i, m := range held {
		d := disk(k, i, m)
		h := set(int(lays[k].NumPieces()), m)
		s := d.Swarm(h)
		s.Id = fmt.Sprintf("-GT0000-client%06d", i)
		w.clients = append(w.clients, &client{s, h, s.Id})
	}
	vnet.DialHook = func(network, a string, _ time.Duration) (net.Conn, error) {
		if c := w.byAddr[a]; c != nil {
			return c, nil
		}
		return nil, errors.New("nobody is at " + a)
	}
	return w
}

// connect makes a dial b, once the connection is started.
func (w *world) connect(a, b int) {
	ip := fmt.Sprintf("10.0.%d.%d", a, b)
	ca := sim.New(fmt.Sprintf("%d>%d", a, b), ip, 7000+b)
	cb := sim.New(fmt.Sprintf("%d<%d", b, a), fmt.Sprintf("10.1.%d.%d", a, b), 40000+a)
	ca.NoTime, cb.NoTime = true, true
	w.links = append(w.links, &link{[2]*client{w.clients[a], w.clients[b]}, [2]*end{{c: ca}, {c: cb}}, peer.MakePeer("", net.ParseIP(ip), uint16(7000+b))})
	w.byAddr[fmt.Sprintf("%s:%d", ip, 7000+b)] = ca
}

// start all connections.
func (w *world) start(cut func([]byte) [][]byte) {
	for _, ln := range w.links {
		ln := ln
		sim.Link(ln.e[0].c, ln.e[1].c, cut)
		vs.GoNamed("dial "+ln.e[0].c.Label, func() {
			h, err := swarm.FromBootstrap(ln.to, ln.cl[0].s)
			if err == nil {
				h.Loop()
			}
			ln.e[0].finish(err)
		})
		vs.GoNamed("accept "+ln.e[1].c.Label, func() {
			h, err := swarm.FromIncoming(ln.e[1].c, ln.cl[1].s)
			if err == nil {
				h.Loop()
			}
			ln.e[1].finish(err)
		})
	}
}

// parse a stream of a client into messages.
func parse(who string, ih string, c *client, st []byte) ([]wire.Msg, error) {
	hs := sim.Handshake(ih, c.id)
	if len(st) < 68 || !bytes.Equal(st[:68], hs) {
		return nil, fmt.Errorf("%s sent %.80x, no handshake", who, st)
	}
	ms, rest, err := wire.Split(st[68:])
	if err != nil || len(rest) > 0 {
		return nil, fmt.Errorf("%s sent %.100x, not whole messages", who, st[68:])
	}
	if len(ms) == 0 || ms[0].Type != wire.Bitfield || !bytes.Equal(ms[0].Data, sim.Wire(c.held)) {
		return nil, fmt.Errorf("%s holds %v, its first message is %v", who, c.held, first(ms))
	}
	return ms, nil
}

func first(ms []wire.Msg) string {
	if len(ms) == 0 {
		return "none"
	}
	return ms[0].String()
}

// judge all links. asked counts which piece each client has asked for.
func (w *world) judge(t *sim.T) {
	l := lays[w.k]
	ih := w.clients[0].s.Tor.Infohash()
	type ask struct {
		c *client
		i uint32
	}
	asked := map[ask]int{}
	could := map[ask]bool{}
	for _, ln := range w.links {
		cl, e := ln.cl, ln.e
		var ms [2][]wire.Msg
		for x := 0; x < 2; x++ {
			if done, err := e[x].state(); done || e[x].c.Closed() {
				t.Failf("%s dropped the connection (%v)", e[x].c.Label, err)
				return
			}
			if n := e[x].c.Unread(); n > 0 {
				t.Failf("%s has not read %d bytes", e[x].c.Label, n)
				return
			}
			var err error
			if ms[x], err = parse(e[x].c.Label, ih, cl[x], e[x].c.Stream()); err != nil {
				t.Failf("%v", err)
				return
			}
		}
		for x := 0; x < 2; x++ {
			y := 1 - x
			who := e[x].c.Label
			next := map[uint32]uint32{}
			var reqs []wire.Msg
			unchoked := false
			for k, m := range ms[x] {
				switch m.Type {
				case wire.Bitfield:
					if k > 0 {
						t.Failf("%s sent %v as message %d", who, m, k)
						return
					}
				case wire.Unchoke:
					unchoked = true
				case wire.KeepAlive, wire.Interested, wire.NotInterested:
				case wire.Request:
					if int64(m.Index) >= l.NumPieces() || cl[x].held[m.Index] || !cl[y].held[m.Index] {
						t.Failf("%s asked for %v, it holds %v, the other %v", who, m, cl[x].held, cl[y].held)
						return
					}
					if m.ReqLen == 0 || m.ReqLen > 16384 || m.Begin != next[m.Index] || int64(m.Begin)+int64(m.ReqLen) > int64(len(l.Piece(int64(m.Index)))) {
						t.Failf("%s asked for %v after %d bytes of the piece", who, m, next[m.Index])
						return
					}
					if m.Begin == 0 {
						asked[ask{cl[x], m.Index}]++
					}
					next[m.Index] += m.ReqLen
					reqs = append(reqs, m)
				case wire.Piece:
				default:
					t.Failf("%s sent %v", who, m)
					return
				}
			}
			if !unchoked {
				t.Failf("%s did not unchoke the other", who)
			}
			for i := int64(0); i < l.NumPieces(); i++ {
				if n := next[uint32(i)]; n != 0 && int(n) != len(l.Piece(i)) {
					t.Failf("%s asked for %d of %d bytes of piece %d", who, n, len(l.Piece(i)), i)
				}
				if !cl[x].held[i] && cl[y].held[i] {
					could[ask{cl[x], uint32(i)}] = true
				}
			}
			// the other answers them all, in order
			k := 0
			for _, m := range ms[y] {
				if m.Type != wire.Piece {
					continue
				}
				if k >= len(reqs) {
					t.Failf("%s sent %v, all requests were answered", e[y].c.Label, m)
					return
				}
				r := reqs[k]
				k++
				lo, _ := l.Range(int64(r.Index))
				if m.Index != r.Index || m.Begin != r.Begin || !bytes.Equal(m.Data, l.Content[lo+int64(r.Begin):lo+int64(r.Begin)+int64(r.ReqLen)]) {
					t.Failf("%s answered %v with %v", e[y].c.Label, r, m)
					return
				}
			}
			if k != len(reqs) {
				t.Failf("%s answered %d of %d requests", e[y].c.Label, k, len(reqs))
			}
		}
	}
	cans, dones := map[*client]int{}, map[*client]int{}
	for a := range could {
		if asked[a] > 1 || asked[a] < 1 && l.NumPieces() <= few {
			t.Failf("client %s asked for piece %d %d times", a.c.id, a.i, asked[a])
		}
		cans[a.c]++
		dones[a.c] += asked[a]
	}
	for c, n := range cans {
		// no more than so many pieces are asked for at a time
		if dones[c] < n && dones[c] < 5 {
			t.Failf("client %s asked for %d pieces, it could have for %d", c.id, dones[c], n)
		}
	}
}

var cuts = []struct {
	name string
	f    func([]byte) [][]byte
}{
	{"as written", nil},
	{"one byte at a time", func(d []byte) (out [][]byte) {
		if len(d) > 200 { // large blocks in odd pieces
			for len(d) > 0 {
				n := 4097
				if n > len(d) {
					n = len(d)
				}
				out = append(out, d[:n])
				d = d[n:]
			}
			return
		}
		for i := range d {
			out = append(out, d[i:i+1])
		}
		return
	}},
	{"after 3 bytes and before the last", func(d []byte) [][]byte {
		if len(d) < 5 {
			return [][]byte{d}
		}
		return [][]byte{d[:3], d[3 : len(d)-1], d[len(d)-1:]}
	}},
	{"after 5 and 13 bytes", func(d []byte) [][]byte {
		if len(d) < 14 {
			return [][]byte{d}
		}
		return [][]byte{d[:5], d[5:13], d[13:]}
	}},
}

func limit(w *world, rate int64) {
	if rate <= 0 {
		return
	}
	for _, c := range w.clients {
		c.s.RLIO.SetWriteRate(rate)
		vs.GoNamed("limiter", c.s.RLIO.Run)
	}
}

// finish lets time pass.
func (w *world) finish(t *sim.T, secs int64) {
	vs.SleepNS(2 * sec)
	vs.Settle()
	vs.SleepNS(secs * sec)
	vs.Settle()
	w.judge(t)
}

func pairs(b *run.B, k, m int) {
	n := int(lays[k].NumPieces())
	for m2 := 0; m2 < 1<<uint(n); m2++ {
		for ci := range cuts {
			for _, rate := range []int64{0, 100, 20000} {
				if b.Expired() {
					return
				}
				if rate == 100 && lays[k].PieceLen > 100 {
					continue
				}
				if rate > 0 && ci != 0 && !b.Thorough() {
					continue
				}
				secs := int64(150)
				if b.Thorough() && ci == 0 {
					secs = 600
				}
				bd, oracle := sim.Body(func(t *sim.T) {
					vs.Quiet(true)
					w := newWorld(k, []int{m, m2})
					limit(w, rate)
					w.connect(0, 1)
					w.start(cuts[ci].f)
					vs.Settle()
					w.finish(t, secs)
				})
				b.Once(fmt.Sprintf("%v: %v dials %v, bytes arrive %s, upload limit %d", lays[k], set(n, m), set(n, m2), cuts[ci].name, rate), vs.Config{MaxSteps: 2000000}, bd, oracle)
			}
		}
	}
}

// pieces of larger torrents.
func pieces(b *run.B, n int) {
	k := len(lays) - len(bigs) + n
	for m := 0; m < patterns; m++ {
		for m2 := 0; m2 < patterns; m2++ {
			if b.Expired() {
				return
			}
			bd, oracle := sim.Body(func(t *sim.T) {
				vs.Quiet(true)
				w := newWorld(k, []int{m, m2})
				w.connect(0, 1)
				w.start(nil)
				vs.Settle()
				w.finish(t, 150)
			})
			b.Once(fmt.Sprintf("%d pieces, pattern %d dials pattern %d", bigs[n], m, m2), vs.Config{MaxSteps: 5000000}, bd, oracle)
		}
	}
}

func triangle(b *run.B, m int) {
	for m2 := 0; m2 < 8; m2++ {
		for m3 := 0; m3 < 8; m3++ {
			for ci := range cuts {
				if b.Expired() {
					return
				}
				if ci > 0 && !b.Thorough() && (m+m2+m3)%4 != ci {
					continue
				}
				bd, oracle := sim.Body(func(t *sim.T) {
					vs.Quiet(true)
					w := newWorld(0, []int{m, m2, m3})
					w.connect(0, 1)
					w.connect(1, 2)
					w.connect(2, 0)
					w.start(cuts[ci].f)
					vs.Settle()
					w.finish(t, 150)
				})
				b.Once(fmt.Sprintf("triangle of %v, %v and %v, bytes arrive %s", set(3, m), set(3, m2), set(3, m3), cuts[ci].name), vs.Config{MaxSteps: 2000000}, bd, oracle)
			}
		}
	}
}

var selected = []struct {
	k    int
	held []int
	cut  int
	rate int64
}{
	{0, []int{7, 0}, 0, 0},
	{0, []int{0, 7}, 0, 0},
	{0, []int{5, 2}, 0, 0},
	{0, []int{1, 6}, 2, 0},
	{1, []int{1, 0}, 2, 0},
	{3, []int{1, 2}, 0, 0},
	{0, []int{7, 0}, 0, 5},
	{0, []int{7, 0, 0}, 0, 0},
	{0, []int{1, 2, 4}, 0, 0},
}

func schedules(b *run.B, k int) {
	x := selected[k]
	n := 1
	if b.Thorough() && len(x.held) == 2 {
		n = 2
	}
	bd, oracle := sim.Body(func(t *sim.T) {
		vs.Quiet(true)
		w := newWorld(x.k, x.held)
		limit(w, x.rate)
		for i := 1; i < len(x.held); i++ {
			w.connect(i-1, i)
		}
		if len(x.held) == 3 {
			w.connect(2, 0)
		}
		vs.Quiet(false)
		w.start(cuts[x.cut].f)
		vs.Settle()
		vs.Quiet(true)
		w.finish(t, 3+20*x.rate)
	})
	var hs []string
	for _, m := range x.held {
		hs = append(hs, fmt.Sprint(set(int(lays[x.k].NumPieces()), m)))
	}
	b.Explore(fmt.Sprintf("%v: clients holding %v, bytes arrive %s, upload limit %d", lays[x.k], hs, cuts[x.cut].name, x.rate), vs.Config{Bound: n, Delay: true, MaxSteps: 2000000}, bd, oracle)
}
