// C31: nothing a peer sends can damage the content. Real handlers get every
// sequence of messages up to a depth; the files, what we claim to hold and what
// other peers get are judged against the torrent's flat content.
package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"gotor/swarm"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

func main() {
	run.Main(run.Spec{
		ID:    "C31",
		Level: "model_checking",
		Rule:  "every sequence of up to 3 (thorough 4) messages of an alphabet of 24 (blocks that are right, wrong, partial, empty, overlong, out of range or overflowing, for held and missing pieces; requests; announcements; control, unknown and malformed messages) on one connection, sent one per read and all in one, for several sets of held pieces; every pair of sequences of two messages on two connections; every schedule up to the bound of delays of hostile peers beside a good one, with file operations as scheduling points. Afterwards every file is compared with the content, a newly connecting peer is told exactly of the held pieces and is served each of them, and no file has appeared",
		Note:  []string{"bytes of pieces that we do not hold may change; a piece may be claimed once its bytes are right"},
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for h := range helds {
				for a := range alphabet() {
					h, a := h, a
					if !vs.RaceEnabled {
						bs = append(bs, run.Block{Name: fmt.Sprintf("sequences/%d/%d", h, a), Fn: func(b *run.B) { sequences(b, h, a) }})
					}
				}
			}
			for a := range alphabet() {
				a := a
				if !vs.RaceEnabled {
					bs = append(bs, run.Block{Name: fmt.Sprintf("two/%d", a), Fn: func(b *run.B) { two(b, a) }})
				}
				bs = append(bs, run.Block{Name: fmt.Sprintf("schedules/%d", a), Fn: func(b *run.B) { schedules(b, a) }})
			}
			return bs
		},
	})
}

// 4 pieces over two files, the last piece short.
var lay = tor.New(4, 6, 9)

var helds = [][]bool{
	{true, false, true, false},
	{true, true, true, true},
	{false, false, false, false},
	{false, true, false, true},
}

const m31, m32 = uint32(1) << 31, ^uint32(0)

type item struct {
	name string
	raw  []byte
}

var items []item

func alphabet() []item {
	if items != nil {
		return items
	}
	msg := func(m wire.Msg) { items = append(items, item{m.String(), m.Encode()}) }
	wrong := func(n int) []byte { return bytes.Repeat([]byte{0xee}, n) }
	block := func(i, o uint32, d []byte) { msg(wire.Msg{Type: wire.Piece, Index: i, Begin: o, Data: d}) }
	block(0, 0, wrong(4))
	block(1, 0, lay.Piece(1))
	block(1, 0, wrong(4))
	block(1, 2, lay.Piece(1)[2:])
	block(2, 1, wrong(2))
	block(3, 0, wrong(4)) // longer than the piece
	block(3, 0, lay.Piece(3))
	block(0, 4, wrong(4)) // past the piece, inside the torrent
	block(0, 0, nil)
	block(0, 0, wrong(20))
	block(4, 0, wrong(4))
	block(m32, 0, wrong(4))
	block(1, m32-3, wrong(4))
	block(m31, m31, wrong(1))
	msg(wire.Msg{Type: wire.Request, Index: 0, Begin: 0, ReqLen: 4})
	msg(wire.Msg{Type: wire.Request, Index: 1, Begin: 0, ReqLen: 4})
	msg(wire.Msg{Type: wire.Bitfield, Data: sim.Wire([]bool{true, true, true, true})})
	msg(wire.Msg{Type: wire.Bitfield, Data: []byte{0}})
	msg(wire.Msg{Type: wire.Bitfield, Data: []byte{0xff}})
	msg(wire.Msg{Type: wire.Have, Index: 1})
	msg(wire.Msg{Type: wire.Have, Index: m32})
	msg(wire.Msg{Type: wire.Unchoke})
	items = append(items,
		item{"choke, interested, keep-alive", []byte{0, 0, 0, 1, 0, 0, 0, 0, 1, 2, 0, 0, 0, 0}},
		item{"unknown and short messages", []byte{0, 0, 0, 3, 20, 0, 0, 0, 0, 0, 2, 7, 0}})
	return items
}

type world struct {
	d    *sim.Disk
	held []bool
}

var cur = map[int]*world{}

func get(h int) *world {
	if cur[h] == nil {
		cur[h] = &world{sim.NewDisk(lay, helds[h]), helds[h]}
	}
	vos.Sched = false
	return cur[h]
}

// dirs lists what is in the torrent's folder.
func listing(root string) string {
	var out []string
	_ = filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		if err == nil {
			i, _ := e.Info()
			n := int64(0)
			if i != nil && !e.IsDir() {
				n = i.Size()
			}
			out = append(out, fmt.Sprintf("%s %d", p[len(root):], n))
		}
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// disk reads the flat content back; it restores the files if pieces that we
// don't hold have changed.
func (w *world) disk() (all []byte, err error) {
	for i, n := range lay.Lens {
		b, e := os.ReadFile(w.d.Path(i))
		if e != nil {
			return nil, e
		}
		if int64(len(b)) != n {
			return nil, fmt.Errorf("file %d has %d bytes, not %d", i, len(b), n)
		}
		all = append(all, b...)
	}
	return all, nil
}

func (w *world) initial() []byte {
	c := append([]byte(nil), lay.Content...)
	for i, h := range w.held {
		if !h {
			lo, hi := lay.Range(int64(i))
			for k := lo; k < hi; k++ {
				c[k] ^= 0xa5
			}
		}
	}
	return c
}

func (w *world) restore() {
	c := w.initial()
	off := int64(0)
	for i, n := range lay.Lens {
		_ = os.WriteFile(w.d.Path(i), c[off:off+n], 0600)
		off += n
	}
}

// after judges the state of things, with the execution's threads at rest.
func (w *world) after(t *sim.T, s *swarm.Swarm, list string) {
	sched := vos.Sched
	vos.Sched = false
	defer func() { vos.Sched = sched }()
	root := w.d.Dir()
	if l := listing(root); l != list {
		w.restore()
		t.Failf("the files are\n%s\nthey were\n%s", l, list)
		return
	}
	all, err := w.disk()
	if err != nil {
		w.restore()
		t.Failf("%v", err)
		return
	}
	if !bytes.Equal(all, w.initial()) {
		defer w.restore()
	}
	var can []bool
	for i := int64(0); i < lay.NumPieces(); i++ {
		lo, hi := lay.Range(i)
		right := bytes.Equal(all[lo:hi], lay.Content[lo:hi])
		can = append(can, right)
		has := s.Bf.Get(i)
		if w.held[i] && !right {
			t.Failf("piece %d was held and is damaged: %x, not %x", i, all[lo:hi], lay.Content[lo:hi])
			return
		}
		if w.held[i] && !has {
			t.Failf("piece %d was held and is not any more", i)
			return
		}
		if has && !right {
			t.Failf("piece %d is claimed, on disk is %x, not %x", i, all[lo:hi], lay.Content[lo:hi])
			return
		}
	}
	w.newcomer(t, s, can)
}

// newcomer connects another peer, which has to be told of and served all held
// pieces and nothing else.
func (w *world) newcomer(t *sim.T, s *swarm.Swarm, can []bool) {
	c := sim.New("new", "10.0.0.9", 5009)
	c.NoTime = true
	c.Send(sim.Handshake(w.d.Tor.Infohash(), "-XX0009-abcdefghijkl"))
	vs.GoNamed("incoming", func() {
		if h, err := swarm.FromIncoming(c, s); err == nil {
			h.Loop()
		}
	})
	vs.Settle()
	for i := range w.held {
		c.Send(wire.Msg{Type: wire.Request, Index: uint32(i), ReqLen: uint32(len(lay.Piece(int64(i))))}.Encode())
		vs.Settle()
	}
	st := c.Stream()
	if len(st) < 68 {
		t.Failf("a new peer got no handshake but %x", st)
		return
	}
	ms, rest, err := wire.Split(st[68:])
	if err != nil || len(rest) > 0 {
		t.Failf("a new peer got %x", st[68:])
		return
	}
	got := make([]int, len(w.held))
	for k, m := range ms {
		switch m.Type {
		case wire.Bitfield:
			if k != 0 {
				t.Failf("a new peer got a bitfield as message %d", k)
			}
			for i := range w.held {
				bit := len(m.Data) > i/8 && m.Data[i/8]>>(7-uint(i%8))&1 == 1
				if bit && !can[i] || !bit && w.held[i] {
					t.Failf("a new peer got %v, held are %v, right are %v", m, w.held, can)
				}
			}
		case wire.Have:
			if int(m.Index) >= len(can) || !can[m.Index] {
				t.Failf("a new peer got %v", m)
			}
		case wire.Piece:
			if int(m.Index) >= len(got) || m.Begin != 0 || !bytes.Equal(m.Data, lay.Piece(int64(m.Index))) {
				t.Failf("a new peer got %v", m)
				return
			}
			got[m.Index]++
		}
	}
	for i := range got {
		if w.held[i] && got[i] != 1 || got[i] > 1 {
			t.Failf("a new peer got piece %d %d times: %v", i, got[i], ms)
			return
		}
	}
}

func peer(s *swarm.Swarm, n int) *sim.Conn {
	c := sim.New(fmt.Sprintf("p%d", n), fmt.Sprintf("10.0.0.%d", n+1), 5001+n)
	c.NoTime = true
	h := sim.Handler(s, c)
	vs.GoNamed(fmt.Sprintf("handler%d", n), h.Loop)
	return c
}

func desc(h int, as ...[]int) string {
	var out []string
	for _, a := range as {
		var ns []string
		for _, x := range a {
			ns = append(ns, alphabet()[x].name)
		}
		out = append(out, strings.Join(ns, ", "))
	}
	return fmt.Sprintf("held %v: %s", helds[h], strings.Join(out, " | "))
}

// session sends sequences, one per peer, message by message in turns; joined:
// all messages of a peer in one read.
func session(t *sim.T, h int, seqs [][]int, joined bool) {
	vs.Quiet(true)
	w := get(h)
	list := listing(w.d.Dir())
	s := w.d.Swarm(w.held)
	var cs []*sim.Conn
	for k := range seqs {
		cs = append(cs, peer(s, k))
	}
	vs.Settle()
	if joined {
		for k, q := range seqs {
			var all []byte
			for _, x := range q {
				all = append(all, alphabet()[x].raw...)
			}
			cs[k].Send(all)
			vs.Settle()
		}
	} else {
		for i := 0; ; i++ {
			any := false
			for k, q := range seqs {
				if i < len(q) {
					any = true
					cs[k].Send(alphabet()[q[i]].raw)
					vs.Settle()
				}
			}
			if !any {
				break
			}
		}
	}
	w.after(t, s, list)
}

func sequences(b *run.B, h, first int) {
	depth := 3
	if b.Thorough() {
		depth++
	}
	n := len(alphabet())
	var rec func(q []int)
	rec = func(q []int) {
		if b.Expired() {
			return
		}
		q = append([]int(nil), q...)
		for _, joined := range []bool{false, true} {
			if joined && len(q) == 1 {
				continue
			}
			joined := joined
			bd, oracle := sim.Body(func(t *sim.T) { session(t, h, [][]int{q}, joined) })
			b.Once(fmt.Sprintf("%s (in one read: %v)", desc(h, q), joined), vs.Config{}, bd, oracle)
		}
		if len(q) == depth {
			return
		}
		for x := 0; x < n; x++ {
			rec(append(q, x))
		}
	}
	rec([]int{first})
}

// two peers in turns.
func two(b *run.B, first int) {
	n := len(alphabet())
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			second := []int{(x + y) % n}
			if b.Thorough() {
				second = second[:0]
				for z := 0; z < n; z++ {
					second = append(second, z)
				}
			}
			for _, z := range second {
				if b.Expired() {
					return
				}
				q := [][]int{{first, x}, {y, z}}
				bd, oracle := sim.Body(func(t *sim.T) { session(t, 0, q, false) })
				b.Once(desc(0, q...), vs.Config{}, bd, oracle)
			}
		}
	}
}

// schedules of a peer that sends the message and more, beside a good one.
func schedules(b *run.B, first int) {
	bound := 1
	others := []int{2, 1, 16}
	if b.Thorough() {
		bound = 2
	}
	if vs.RaceEnabled {
		others = others[:1]
	}
	for _, o := range others {
		o := o
		if b.Expired() {
			return
		}
		bd, oracle := sim.Body(func(t *sim.T) {
			vs.Quiet(true)
			w := get(0)
			list := listing(w.d.Dir())
			s := w.d.Swarm(w.held)
			bad, good := peer(s, 0), peer(s, 1)
			vs.Settle()
			vos.Sched = true
			vs.Quiet(false)
			bad.Send(append(append([]byte(nil), alphabet()[first].raw...), alphabet()[o].raw...))
			rq := wire.Msg{Type: wire.Request, Index: 2, Begin: 1, ReqLen: 3}
			good.Send(rq.Encode())
			vs.Settle()
			vs.Quiet(true)
			vos.Sched = false
			ms, rest, err := wire.Split(good.Stream())
			n := 0
			for _, m := range ms {
				if m.Type == wire.Piece {
					n++
					if m.Index != 2 || m.Begin != 1 || !bytes.Equal(m.Data, lay.Piece(2)[1:]) {
						t.Failf("the good peer got %v", m)
					}
				}
			}
			if err != nil || len(rest) > 0 || n != 1 || good.Closed() {
				t.Failf("the good peer got %v, rest %x, closed %v", ms, rest, good.Closed())
				return
			}
			w.after(t, s, list)
		})
		b.Explore(desc(0, []int{first, o})+" beside a good peer", vs.Config{Bound: bound, Delay: true, MaxSteps: 200000}, bd, oracle)
	}
}
