// C19: piece requests tile the piece in spec-sized blocks. What the real
// handlers request is collected from the simulated connections and judged.
package main

import (
	"fmt"
	"time"

	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

const (
	handful = 5
	block   = 16384
	enough  = 3 * time.Second // for everything to be requested
	more    = 5 * time.Second // in which nothing more may be
)

func main() {
	run.Main(run.Spec{
		ID:    "C19",
		Level: "model_checking",
		Rule:  "one peer: all held x announced sets of up to 5 pieces, with spare bits, bitfields late, twice or growing; 6 to 14 pieces with patterns; piece lengths 1 to 100000, some up to 16 (128) MiB, with last pieces of every boundary length; two peers: all held x announced x announced sets of 3 pieces in both orders of arrival, one leaving or not; every schedule up to the deviation bound of two peers announcing at once. Requests must be for lacking pieces the peer has, of one peer at a time, tile each piece with blocks of at most 16384 bytes, of at most 5 pieces per peer, all that can be requested, and then end",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for n := int64(1); n <= 5; n++ {
				n := n
				bs = append(bs, run.Block{Name: fmt.Sprintf("sets/%d", n), Fn: func(b *run.B) { sets(b, n) }})
			}
			bs = append(bs, run.Block{Name: "crowd", Fn: crowd}, run.Block{Name: "bitfields", Fn: bitfields})
			for _, p := range []int64{1, 7, 16383, 16384, 16385, 32768, 40000, 49152, 49153, 100000} {
				p := p
				bs = append(bs, run.Block{Name: fmt.Sprintf("geometry/%d", p), Fn: func(b *run.B) { geometry(b, p) }})
			}
			huge := []int64{1 << 20, 5<<20 + 1, 1<<24 + 3}
			if tier == "thorough" {
				huge = append(huge, 1<<19+block, 1<<25+1, 1<<26+block/2, 1<<27+1)
			}
			for _, p := range huge {
				p := p
				bs = append(bs, run.Block{Name: fmt.Sprintf("huge/%d", p), Fn: func(b *run.B) { large(b, p) }})
			}
			for h := 0; h < 8; h++ {
				h := h
				bs = append(bs, run.Block{Name: fmt.Sprintf("two/%d", h), Fn: func(b *run.B) { two(b, h) }})
			}
			for k := 0; k < 6; k++ {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("schedules/%d", k), Fn: func(b *run.B) { schedules(b, k) }})
			}
			return bs
		},
	})
}

func bits(n int64, m int) []bool {
	h := make([]bool, n)
	for i := range h {
		h[i] = m>>uint(i)&1 == 1
	}
	return h
}

func bitfield(h []bool) []byte {
	return wire.Msg{Type: wire.Bitfield, Data: sim.Wire(h)}.Encode()
}

// requests sent on c, checked block by block; the pieces in order.
func requests(l *tor.Layout, c *sim.Conn) (pieces []int64, err error) {
	ms, rest, err := wire.Split(c.Stream())
	if err != nil || len(rest) > 0 {
		return nil, fmt.Errorf("stream ends with %x (%v)", rest, err)
	}
	next := map[int64]int64{} // bytes requested so far
	for _, m := range ms {
		if m.Type != wire.Request {
			continue
		}
		i := int64(m.Index)
		if i >= l.NumPieces() {
			return nil, fmt.Errorf("%v: there is no such piece", m)
		}
		lo, hi := l.Range(i)
		if _, ok := next[i]; !ok {
			pieces = append(pieces, i)
		}
		if m.ReqLen == 0 || m.ReqLen > block {
			return nil, fmt.Errorf("%v: block size", m)
		}
		if int64(m.Begin) != next[i] {
			return nil, fmt.Errorf("%v: %d bytes of the piece have been requested", m, next[i])
		}
		next[i] += int64(m.ReqLen)
		if next[i] > hi-lo {
			return nil, fmt.Errorf("%v: the piece has %d bytes", m, hi-lo)
		}
	}
	for i, n := range next {
		lo, hi := l.Range(i)
		if n != hi-lo {
			return nil, fmt.Errorf("only %d of the %d bytes of piece %d are requested", n, hi-lo, i)
		}
	}
	return pieces, nil
}

// peerRec is a connected peer and what it announced.
type peerRec struct {
	c   *sim.Conn
	has []bool
}

// judge looks at all present peers' requests. before: pieces that departed
// peers had are free again.
func judge(t *sim.T, l *tor.Layout, held []bool, ps []*peerRec, complete bool) {
	owner := map[int64]int{}
	per := make([]int, len(ps))
	for k, p := range ps {
		got, err := requests(l, p.c)
		if err != nil {
			t.Failf("peer %d: %v", k, err)
			return
		}
		for _, i := range got {
			if held[i] {
				t.Failf("piece %d is requested from peer %d, but we have it", i, k)
			}
			if p.has == nil || !p.has[i] {
				t.Failf("piece %d is requested from peer %d, which doesn't have it", i, k)
			}
			if o, ok := owner[i]; ok {
				t.Failf("piece %d is requested from peers %d and %d", i, o, k)
			}
			owner[i] = k
		}
		per[k] = len(got)
		if len(got) > handful {
			t.Failf("%d pieces are requested from peer %d at once: %v", len(got), k, got)
		}
	}
	if !complete {
		return
	}
	for k, p := range ps {
		if p.has == nil || per[k] >= handful || p.c.Closed() {
			continue
		}
		for i := range held {
			if _, ok := owner[int64(i)]; !ok && !held[i] && p.has[i] {
				t.Failf("piece %d is not requested from peer %d, of which %d pieces are", i, k, per[k])
			}
		}
	}
}

func wait(d time.Duration) {
	vs.SleepNS(int64(d))
	vs.Settle()
}

// settle waits until requests have been made and checks that they end.
func settle(t *sim.T, l *tor.Layout, held []bool, ps []*peerRec) {
	wait(enough)
	judge(t, l, held, ps, true)
	var n []int
	for _, p := range ps {
		n = append(n, reqBytes(p.c))
	}
	wait(more)
	for k, p := range ps {
		if reqBytes(p.c) != n[k] {
			t.Failf("peer %d is still sent requests after %v", k, enough+more)
		}
	}
}

func reqBytes(c *sim.Conn) int {
	ms, _, _ := wire.Split(c.Stream())
	n := 0
	for _, m := range ms {
		if m.Type == wire.Request {
			n++
		}
	}
	return n
}

func one(b *run.B, d *sim.Disk, held, has []bool, desc string, send ...[]byte) {
	body, oracle := sim.Body(func(t *sim.T) {
		s := d.Swarm(held)
		p := &peerRec{c: sim.New("p", "10.0.0.1", 5001), has: has}
		p.c.NoTime = true
		vs.GoNamed("handler", sim.Handler(s, p.c).Loop)
		for _, x := range send {
			if len(x) == 0 {
				wait(time.Second)
				continue
			}
			p.c.Send(x)
		}
		settle(t, d.L, held, []*peerRec{p})
	})
	b.Once(desc, vs.Config{MaxSteps: 1000000}, body, oracle)
}

func sets(b *run.B, n int64) {
	l := tor.New(3, 3*n-1)
	for h := 0; h < 1<<uint(n); h++ {
		held := bits(n, h)
		d := sim.NewDisk(l, nil)
		for a := 0; a < 1<<uint(n); a++ {
			if b.Expired() {
				return
			}
			has := bits(n, a)
			one(b, d, held, has, fmt.Sprintf("%d pieces, held %b, announced %b", n, h, a), bitfield(has))
			one(b, d, held, has, fmt.Sprintf("%d pieces, held %b, announced %b after a second", n, h, a), nil, bitfield(has))
		}
		_ = d.F.CloseAll()
	}
}

// crowd: more pieces than may be requested.
func crowd(b *run.B) {
	for n := int64(6); n <= 14; n++ {
		l := tor.New(2, 2*n-1)
		d := sim.NewDisk(l, nil)
		all := 1<<uint(n) - 1
		for _, h := range []int{0, 1, 0x15, 1 << uint(n-1), all &^ 0x3f, all &^ 1, 0x249} {
			for _, a := range []int{all, all &^ 1, 0x2aaa & all, all &^ (1 << uint(n-1)), 0x3f0 & all, 0} {
				held, has := bits(n, h&all), bits(n, a)
				one(b, d, held, has, fmt.Sprintf("%d pieces, held %b, announced %b", n, h&all, a), bitfield(has))
			}
		}
		// two peers with everything
		for _, h := range []int{0, 3, 0x155} {
			held := bits(n, h&all)
			body, oracle := sim.Body(func(t *sim.T) {
				s := d.Swarm(held)
				var ps []*peerRec
				for k := 0; k < 3; k++ {
					p := &peerRec{c: sim.New(fmt.Sprint("p", k), fmt.Sprintf("10.0.0.%d", k+1), 5001+k), has: bits(n, all)}
					p.c.NoTime = true
					vs.GoNamed(fmt.Sprint("handler", k), sim.Handler(s, p.c).Loop)
					p.c.Send(bitfield(p.has))
					ps = append(ps, p)
				}
				settle(t, l, held, ps)
			})
			b.Once(fmt.Sprintf("%d pieces, held %b, three peers with all", n, h&all), vs.Config{MaxSteps: 200000}, body, oracle)
		}
		_ = d.F.CloseAll()
	}
}

// bitfields: spare bits, wrong sizes, repeated and growing announcements.
func bitfields(b *run.B) {
	l := tor.New(3, 26) // 9 pieces
	d := sim.NewDisk(l, nil)
	for _, h := range []int{0, 0x1f, 0xf0, 0x1ff} {
		held := bits(9, h)
		for spare := 0; spare < 128; spare += 9 {
			has := bits(9, 0x103)
			x := sim.Wire(has)
			x[1] |= byte(spare)
			one(b, d, held, has, fmt.Sprintf("held %b, spare bits %b", h, spare), wire.Msg{Type: wire.Bitfield, Data: x}.Encode())
		}
		for _, size := range []int{0, 1, 3, 100} {
			x := make([]byte, size)
			for i := range x {
				x[i] = 0xff
			}
			one(b, d, held, nil, fmt.Sprintf("held %b, bitfield of %d bytes", h, size), wire.Msg{Type: wire.Bitfield, Data: x}.Encode())
		}
		one(b, d, held, nil, fmt.Sprintf("held %b, no bitfield", h))
		one(b, d, held, nil, fmt.Sprintf("held %b, only unchoke", h), wire.Msg{Type: wire.Unchoke}.Encode())
		has := bits(9, 0x106)
		one(b, d, held, has, fmt.Sprintf("held %b, twice the same", h), bitfield(has), nil, bitfield(has))
		one(b, d, held, has, fmt.Sprintf("held %b, growing", h), bitfield(bits(9, 0x100)), nil, bitfield(has))
		one(b, d, held, has, fmt.Sprintf("held %b, empty, then more", h), bitfield(bits(9, 0)), nil, bitfield(has))
		one(b, d, held, has, fmt.Sprintf("held %b, with other messages", h), wire.Msg{Type: wire.Unchoke}.Encode(), bitfield(has), wire.Msg{Type: wire.Interested}.Encode(), wire.Msg{Type: wire.KeepAlive}.Encode())
	}
}

func geometry(b *run.B, p int64) {
	lasts := map[int64]bool{}
	for _, v := range []int64{1, 2, block - 1, block, block + 1, 2*block - 1, 2 * block, 2*block + 1, 3 * block, p - 1, p, p / 2} {
		if v >= 1 && v <= p {
			lasts[v] = true
		}
	}
	for v := int64(1); v <= p; v++ {
		if !lasts[v] {
			continue
		}
		for _, n := range []int64{1, 2, 3} {
			if b.Expired() {
				return
			}
			total := (n-1)*p + v
			l := tor.New(p, total)
			if n == 2 && total > 2 {
				l = tor.New(p, total/2, 0, total-total/2)
			}
			d := sim.NewDisk(l, nil)
			for h := 0; h < 1<<uint(n); h++ {
				has := bits(n, 1<<uint(n)-1)
				one(b, d, bits(n, h), has, fmt.Sprintf("pieces of %d, last %d, %d pieces, held %b", p, v, n, h), bitfield(has))
			}
			_ = d.F.CloseAll()
		}
	}
}

// large: pieces of many blocks, a first and a last one.
func large(b *run.B, p int64) {
	for _, last := range []int64{1, block + 1, p / 2, p - 1, p} {
		if b.Expired() {
			return
		}
		d := sim.NewDisk(tor.New(p, p+last), nil)
		for _, held := range [][]bool{{false, false}, {true, false}} {
			one(b, d, held, []bool{true, true}, fmt.Sprintf("pieces of %d, last %d, held %v", p, last, held), bitfield([]bool{true, true}))
		}
		_ = d.F.CloseAll()
	}
}

// two peers announce one after the other; the first may leave.
func two(b *run.B, h int) {
	l := tor.New(3, 8)
	d := sim.NewDisk(l, nil)
	held := bits(3, h)
	for a := 0; a < 8; a++ {
		for c := 0; c < 8; c++ {
			for _, mode := range []string{"together", "later", "first leaves", "second leaves", "first fails"} {
				if b.Expired() {
					return
				}
				a, c, mode := a, c, mode
				body, oracle := sim.Body(func(t *sim.T) {
					s := d.Swarm(held)
					var ps []*peerRec
					for k, m := range []int{a, c} {
						p := &peerRec{c: sim.New(fmt.Sprint("p", k), fmt.Sprintf("10.0.0.%d", k+1), 5001+k), has: bits(3, m)}
						p.c.NoTime = true
						ps = append(ps, p)
						vs.GoNamed(fmt.Sprint("handler", k), sim.Handler(s, p.c).Loop)
						p.c.Send(bitfield(p.has))
						if mode == "later" {
							wait(enough)
						}
					}
					settle(t, l, held, ps)
					switch mode {
					case "first leaves", "first fails":
						if mode == "first leaves" {
							ps[0].c.Hangup()
						} else {
							ps[0].c.Send([]byte{255, 255, 255, 255})
						}
						vs.Settle()
						settle(t, l, held, ps[1:])
					case "second leaves":
						ps[1].c.Hangup()
						vs.Settle()
						settle(t, l, held, ps[:1])
					}
				})
				b.Once(fmt.Sprintf("held %b, announced %b and %b, %s", h, a, c, mode), vs.Config{MaxSteps: 200000}, body, oracle)
			}
		}
	}
}

// schedules: two peers announce at the same time.
func schedules(b *run.B, k int) {
	l := tor.New(3, 8)
	d := sim.NewDisk(l, nil)
	x := [][2]int{{7, 7}, {3, 6}, {1, 1}}[k%3]
	h := []int{0, 2}[k/3]
	held := bits(3, h)
	bound := 3
	if b.Thorough() {
		bound = 4
	}
	body, oracle := sim.Body(func(t *sim.T) {
		s := d.Swarm(held)
		var ps []*peerRec
		for k, m := range x {
			p := &peerRec{c: sim.New(fmt.Sprint("p", k), fmt.Sprintf("10.0.0.%d", k+1), 5001+k), has: bits(3, m)}
			p.c.NoTime = true
			ps = append(ps, p)
			p.c.Send(bitfield(p.has))
		}
		for k, p := range ps {
			vs.GoNamed(fmt.Sprint("handler", k), sim.Handler(s, p.c).Loop)
		}
		wait(250 * time.Millisecond)
		judge(t, l, held, ps, true)
	})
	b.Explore(fmt.Sprintf("held %b, announced %b", h, x), vs.Config{Bound: bound, Delay: true}, body, oracle)
}
