// C18: message handling does not depend on TCP segmentation. Message sequences
// and the splits of their bytes are enumerated; the replies must be those the
// messages alone determine.
package main

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"gotor/zv/vnet"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

func main() {
	run.Main(run.Spec{
		ID:    "C18",
		Level: "model_checking",
		Rule:  "sequences of up to 2 (thorough 3) messages out of 11 kinds x every split into at most 3 reads, all 65536 splits of one request, message pairs around large blocks and bitfields in every chunk size of a set up to the receive buffer, the same messages right behind the handshake of an incoming and a dialled connection, cut everywhere; back-to-back streams longer than the receive buffer; replies must be exactly those the message sequence determines, for a complete and an incomplete swarm. Schedules of sender, read loop and handler up to 2 (3) deviations, again with the race detector on up to 1 (2)",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for k := range schedChunks() {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("schedules/%d", k), Fn: func(b *run.B) { schedules(b, k) }})
			}
			bs = append(bs, run.Block{Name: "stream", Fn: streams})
			if vs.RaceEnabled {
				return bs // the race detector needs few schedules
			}
			n := len(catalogue(small))
			for i := 0; i < n; i++ {
				i := i
				for _, full := range []bool{true, false} {
					full := full
					bs = append(bs, run.Block{Name: fmt.Sprintf("sequences/%d/%v", i, full), Fn: func(b *run.B) { sequences(b, i, full) }})
				}
			}
			for k := 0; k < 4; k++ {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("all splits/%d", k), Fn: func(b *run.B) { allSplits(b, k) }})
			}
			bs = append(bs, run.Block{Name: "large", Fn: large})
			for k := 0; k < 4; k++ {
				k := k
				for _, out := range []bool{false, true} {
					out := out
					bs = append(bs, run.Block{Name: fmt.Sprintf("handshake/%d/%v", k, out), Fn: func(b *run.B) { handshakes(b, out, k) }})
				}
			}
			return bs
		},
	})
}

var small = tor.New(4, 6, 3)

func req(i, o, n uint32) wire.Msg {
	return wire.Msg{Type: wire.Request, Index: i, Begin: o, ReqLen: n}
}

// catalogue of well-formed messages; all requests are ones we can answer when
// we hold pieces 0 and 2.
func catalogue(l *tor.Layout) []wire.Msg {
	return []wire.Msg{
		req(0, 0, 4), req(2, 0, 1), req(0, 1, 2),
		{Type: wire.KeepAlive}, {Type: wire.Interested}, {Type: wire.Choke}, {Type: wire.Have, Index: 1},
		{Type: wire.Bitfield, Data: []byte{0xe0}}, {Type: wire.Bitfield, Data: []byte{0x80}},
		{Type: wire.Piece, Index: 0, Begin: 1, Data: []byte{0, 0, 0, 1}},
		{Type: wire.Cancel, Index: 0, Begin: 0, ReqLen: 4},
	}
}

func heldFor(full bool) []bool { return []bool{true, full, true} }

// expect is what the messages determine: the blocks sent in order, and the
// pieces requested in the end.
func expect(l *tor.Layout, held []bool, ms []wire.Msg) string {
	var s strings.Builder
	want := map[uint32]bool{}
	for _, m := range ms {
		switch m.Type {
		case wire.Request:
			lo, _ := l.Range(int64(m.Index))
			fmt.Fprintf(&s, "%v;", wire.Msg{Type: wire.Piece, Index: m.Index, Begin: m.Begin, Data: l.Content[lo+int64(m.Begin) : lo+int64(m.Begin)+int64(m.ReqLen)]})
		case wire.Bitfield:
			// announcements of a peer add up
			for i := range held {
				if m.Data[i/8]>>(7-uint(i%8))&1 == 1 && !held[i] {
					want[uint32(i)] = true
				}
			}
		}
	}
	return s.String() + wants(want)
}

func wants(w map[uint32]bool) string {
	var ks []int
	for k := range w {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	return fmt.Sprintf("requested %v", ks)
}

// observe is the same of what was sent.
func observe(c *sim.Conn) (string, error) {
	ms, rest, err := wire.Split(c.Stream())
	if err != nil || len(rest) > 0 {
		return "", fmt.Errorf("stream %x: rest %x, %v", c.Stream(), rest, err)
	}
	return observeMsgs(ms)
}

func observeMsgs(ms []wire.Msg) (string, error) {
	var s strings.Builder
	want := map[uint32]bool{}
	for _, m := range ms {
		switch m.Type {
		case wire.Unchoke, wire.KeepAlive:
		case wire.Request:
			want[m.Index] = true
		default:
			fmt.Fprintf(&s, "%v;", m)
		}
	}
	return s.String() + wants(want), nil
}

// play sends the chunks one at a time.
func play(t *sim.T, d *sim.Disk, held []bool, ms []wire.Msg, chunks [][]byte, step bool) {
	s := d.Swarm(held)
	c := sim.New("p", "10.0.0.1", 5001)
	c.NoTime = true
	vs.GoNamed("handler", sim.Handler(s, c).Loop)
	if step {
		vs.Settle()
		for _, x := range chunks {
			c.Send(x)
			vs.Settle()
		}
	} else {
		c.Send(chunks...)
		vs.Settle()
	}
	for _, h := range held {
		if !h {
			vs.SleepNS(int64(300 * time.Millisecond))
			vs.Settle()
			break
		}
	}
	if c.Closed() {
		t.Failf("the connection was dropped")
		return
	}
	got, err := observe(c)
	if err != nil {
		t.Failf("%v", err)
		return
	}
	if want := expect(d.L, held, ms); got != want {
		t.Failf("replies: %s; expected: %s", cut(got), cut(want))
	}
}

func cut(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func enc(ms []wire.Msg) []byte {
	var all []byte
	for _, m := range ms {
		all = append(all, m.Encode()...)
	}
	return all
}

func split(all []byte, cuts []int) [][]byte {
	var out [][]byte
	p := 0
	for _, c := range cuts {
		out = append(out, all[p:c])
		p = c
	}
	return append(out, all[p:])
}

func one(b *run.B, d *sim.Disk, held []bool, ms []wire.Msg, cuts []int, step bool) {
	all := enc(ms)
	body, oracle := sim.Body(func(t *sim.T) { play(t, d, held, ms, split(all, cuts), step) })
	at := fmt.Sprint(cuts)
	if len(cuts) > 30 {
		at = fmt.Sprintf("%v... (%d cuts)", cuts[:30], len(cuts))
	}
	hs := fmt.Sprint(held)
	if len(held) > 30 {
		hs = "all"
	}
	b.Once(fmt.Sprintf("held %s, %v, cut at %s, stepwise %v", hs, brief(ms), at, step), vs.Config{MaxSteps: 2000000}, body, oracle)
}

// greet is play for a whole connection: the set-up reads the handshake from
// the same stream, and what follows it belongs to the handler.
func greet(t *sim.T, d *sim.Disk, held []bool, ms []wire.Msg, chunks [][]byte, out, step bool) {
	s := d.Swarm(held)
	c := sim.New("p", "10.0.0.1", 5001)
	c.NoTime = true
	vs.GoNamed("handler", func() {
		var ph *swarm.PeerHandler
		var err error
		if out {
			vnet.DialHook = func(network, addr string, timeout time.Duration) (net.Conn, error) { return c, nil }
			ph, err = swarm.FromBootstrap(peer.MakePeer("", net.ParseIP("10.0.0.1"), 5001), s)
		} else {
			ph, err = swarm.FromIncoming(c, s)
		}
		if err != nil {
			t.Failf("set-up: %v", err)
			return
		}
		ph.Loop()
	})
	if step {
		for _, x := range chunks {
			c.Send(x)
			vs.Settle()
		}
	} else {
		c.Send(chunks...)
		vs.Settle()
	}
	vs.SleepNS(int64(300 * time.Millisecond))
	vs.Settle()
	if c.Closed() {
		t.Failf("the connection was dropped")
		return
	}
	st := c.Stream()
	if len(st) < 68 {
		t.Failf("no handshake: %x", st)
		return
	}
	all, rest, err := wire.Split(st[68:])
	if err != nil || len(rest) > 0 || len(all) == 0 || all[0].Type != wire.Bitfield {
		t.Failf("after the handshake: %x", st[68:])
		return
	}
	got, err := observeMsgs(all[1:])
	if err != nil {
		t.Failf("%v", err)
		return
	}
	if want := expect(d.L, held, ms); got != want {
		t.Failf("replies: %s; expected: %s", cut(got), cut(want))
	}
}

// handshakes: the messages follow the handshake in the same or later reads.
func handshakes(b *run.B, out bool, k int) {
	cat := catalogue(small)
	n := 0
	for _, full := range []bool{true, false} {
		held := heldFor(full)
		d := sim.NewDisk(small, held)
		hs := sim.Handshake(d.Tor.Infohash(), "-XX0001-zyxwvutsrqpo")
		var seqs [][]wire.Msg
		for _, m := range cat {
			seqs = append(seqs, []wire.Msg{m}, []wire.Msg{m, req(0, 1, 3)}, []wire.Msg{{Type: wire.Bitfield, Data: []byte{0xe0}}, m, req(2, 0, 1)})
		}
		var many []wire.Msg
		for i := 0; i < 1200; i++ {
			many = append(many, req(uint32(i%2*2), 0, 1))
		}
		seqs = append(seqs, many, many[:60])
		for _, ms := range seqs {
			if n++; n%4 != k {
				continue
			}
			all := append(append([]byte(nil), hs...), enc(ms)...)
			var cutss [][]int
			cutss = append(cutss, nil)
			for i := 1; i < len(all) && i < 120; i++ {
				cutss = append(cutss, []int{i})
				for _, j := range []int{68, 69, 72, 73, 80} {
					if j > i && j < len(all) {
						cutss = append(cutss, []int{i, j})
					}
				}
			}
			cutss = append(cutss, chunked(len(all), 1, 1), chunked(len(all), 68, 1000), chunked(len(all), 70, 16384))
			for _, cuts := range cutss {
				for _, step := range []bool{true, false} {
					if b.Expired() {
						return
					}
					if len(cuts) > 2000 && !b.Thorough() {
						continue
					}
					cuts, step := cuts, step
					body, oracle := sim.Body(func(t *sim.T) { greet(t, d, held, ms, split(all, cuts), out, step) })
					at := fmt.Sprint(cuts)
					if len(cuts) > 10 {
						at = fmt.Sprintf("%v... (%d cuts)", cuts[:10], len(cuts))
					}
					b.Once(fmt.Sprintf("dialled %v, held %v, handshake and %v, cut at %s, stepwise %v", out, held, brief(ms), at, step), vs.Config{MaxSteps: 2000000}, body, oracle)
				}
			}
		}
	}
}

func brief(ms []wire.Msg) string {
	if len(ms) > 6 {
		return fmt.Sprintf("%v and %d more", ms[:6], len(ms)-6)
	}
	return fmt.Sprint(ms)
}

// allCuts calls f with every split of n bytes into at most 3 parts.
func allCuts(n int, f func([]int)) {
	f(nil)
	for i := 1; i < n; i++ {
		f([]int{i})
		for j := i + 1; j < n; j++ {
			f([]int{i, j})
		}
	}
}

func sequences(b *run.B, first int, full bool) {
	held := heldFor(full)
	d := sim.NewDisk(small, held)
	cat := catalogue(small)
	do := func(ms []wire.Msg, two bool) {
		allCuts(len(enc(ms)), func(cuts []int) {
			if b.Expired() || (len(cuts) == 2 && !two && (cuts[0]+cuts[1]*3)%7 != 0) {
				return
			}
			one(b, d, held, ms, cuts, true)
			if len(cuts) == 1 {
				one(b, d, held, ms, cuts, false)
			}
		})
		var every []int
		for i := 1; i < len(enc(ms)); i++ {
			every = append(every, i)
		}
		one(b, d, held, ms, every, true)
		one(b, d, held, ms, every, false)
	}
	do(cat[first:first+1], true)
	for _, m := range cat {
		do([]wire.Msg{cat[first], m}, true)
		if b.Thorough() {
			for _, k := range cat {
				do([]wire.Msg{cat[first], m, k}, true)
			}
		} else {
			do([]wire.Msg{cat[first], m, req(0, 1, 3)}, false)
		}
	}
}

func allSplits(b *run.B, k int) {
	held := heldFor(true)
	d := sim.NewDisk(small, held)
	ms := []wire.Msg{req(0, 1, 2)}
	if b.Thorough() {
		ms = append(ms, wire.Msg{Type: wire.KeepAlive})
	}
	n := len(enc(ms))
	for m := k; m < 1<<uint(n-1); m += 4 {
		if b.Expired() {
			return
		}
		var cuts []int
		for i := 0; i < n-1; i++ {
			if m>>uint(i)&1 == 1 {
				cuts = append(cuts, i+1)
			}
		}
		one(b, d, held, ms, cuts, m&8 == 0)
	}
}

// chunked cuts n bytes every size bytes, the first cut at off.
func chunked(n, off, size int) []int {
	var cuts []int
	for i := off; i < n; i += size {
		if i > 0 {
			cuts = append(cuts, i)
		}
	}
	return cuts
}

func sizes(n int) []int {
	out := []int{4, 5, 13, 17, 100, 1000, 1447, 4096, 8572, 16383, 16384, 16385, 20000, 32768, n}
	return out
}

// large messages: blocks the peer sends us, bitfields, then a request.
func large(b *run.B) {
	l := tor.New(16384, 40000)
	held := []bool{true, true, true}
	d := sim.NewDisk(l, held)
	var seqs [][]wire.Msg
	for _, n := range []int{16371, 16384 - 13, 16384 - 13 + 1, 16380, 16384, 16400, 32768, 100000} {
		blk := wire.Msg{Type: wire.Piece, Index: 0, Begin: 0, Data: make([]byte, n)}
		seqs = append(seqs, []wire.Msg{blk, req(0, 0, 16384)}, []wire.Msg{req(2, 0, 7232), blk, req(1, 3, 16000), blk, req(0, 5, 5)})
	}
	for i, ms := range seqs {
		n := len(enc(ms))
		for _, sz := range sizes(n) {
			if sz < 100 && !b.Thorough() && i > 3 {
				continue
			}
			for _, off := range []int{0, 1, 3, 4, 5, 16, 17, n - 1, n - 16, n - 17, n - 18, n - 20} {
				if b.Expired() {
					return
				}
				if sz < 100 && off > 5 {
					continue
				}
				cuts := chunked(n, off, sz)
				one(b, d, held, ms, cuts, true)
				one(b, d, held, ms, cuts, false)
			}
		}
	}
	// bitfields of several KiB
	lb := tor.New(1, 160000)
	hb := make([]bool, 160000)
	for i := range hb {
		hb[i] = true
	}
	db := sim.NewDisk(lb, hb)
	data := make([]byte, 20000)
	for i := range data {
		data[i] = 0xff
	}
	ms := []wire.Msg{{Type: wire.Bitfield, Data: data}, req(159999, 0, 1)}
	n := len(enc(ms))
	for _, sz := range []int{1000, 8572, 16384, 20005, n} {
		one(b, db, hb, ms, chunked(n, 0, sz), true)
		one(b, db, hb, ms, chunked(n, 5, sz), false)
	}
}

// streams of many requests, longer than the receive buffer.
func streams(b *run.B) {
	l := tor.New(16, 100)
	held := make([]bool, 7)
	for i := range held {
		held[i] = true
	}
	d := sim.NewDisk(l, held)
	counts := []int{2, 50, 963, 964, 965, 2000}
	if vs.RaceEnabled {
		counts = counts[:2]
	}
	for _, count := range counts {
		var ms []wire.Msg
		for i := 0; i < count; i++ {
			ms = append(ms, req(uint32(i%6), uint32(i%7), uint32(1+i%9)))
			if i%50 == 49 {
				ms = append(ms, wire.Msg{Type: wire.KeepAlive})
			}
		}
		n := len(enc(ms))
		for _, sz := range sizes(n) {
			if count > 1000 && sz < 100 && !b.Thorough() {
				continue
			}
			for off := 0; off <= 17; off += 1 + 4*btoi(!b.Thorough()) {
				if b.Expired() {
					return
				}
				body, oracle := sim.Body(func(t *sim.T) { play(t, d, held, ms, split(enc(ms), chunked(n, off, sz)), false) })
				b.Once(fmt.Sprintf("%d requests, reads of %d from %d", count, sz, off), vs.Config{MaxSteps: 2000000}, body, oracle)
			}
		}
	}
}

func btoi(x bool) int {
	if x {
		return 1
	}
	return 0
}

func schedChunks() [][]int {
	return [][]int{nil, {17}, {4}, {10, 20}, {3, 17, 30}}
}

// schedules: the sender runs against the handler.
func schedules(b *run.B, k int) {
	held := heldFor(true)
	d := sim.NewDisk(small, held)
	ms := []wire.Msg{req(0, 0, 4), req(2, 0, 1)}
	bound := 2
	if b.Thorough() {
		bound = 3
	}
	if vs.RaceEnabled {
		bound--
	}
	for _, mid := range [][]wire.Msg{nil, {{Type: wire.KeepAlive}}} {
		seq := append(append(append([]wire.Msg{}, ms[0]), mid...), ms[1])
		chunks := split(enc(seq), schedChunks()[k])
		body, oracle := sim.Body(func(t *sim.T) {
			s := d.Swarm(held)
			c := sim.New("p", "10.0.0.1", 5001)
			c.NoTime = true
			vs.GoNamed("handler", sim.Handler(s, c).Loop)
			for _, x := range chunks {
				c.Send(x)
			}
			vs.Settle()
			got, err := observe(c)
			if err != nil {
				t.Failf("%v", err)
			} else if want := expect(d.L, held, seq); got != want {
				t.Failf("replies: %s; expected: %s", got, want)
			}
		})
		b.Explore(fmt.Sprintf("%v in %d reads", seq, len(chunks)), vs.Config{Bound: bound}, body, oracle)
	}
}
