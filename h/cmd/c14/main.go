// C14: piece selection is exclusive and rarest-first. A model of who announced
// and holds what is explored exhaustively; every transition runs on the real
// tracker, whose answers must be among those the model allows.
package main

import (
	"fmt"
	"net"
	"strings"

	"gotor/bf"
	"gotor/peer"
	"gotor/swarm"
	"gotor/torrent/fileio"
	"vh/run"
	"vh/sim"
	"vh/tor"
)

func main() {
	run.Main(run.Spec{
		ID:    "C14",
		Level: "model_checking",
		Rule:  "every reachable model state (announcements of each peer, who holds which piece, which pieces we have) for 2 peers x 3 pieces and 3 peers x 2 pieces (thorough also 3 x 3), with every operation from it; all states of 2 peers x 2 pieces and 3 peers x 1 piece again with peers that share their id, their address, their port or everything (two connections to one peer); every operation sequence to a depth on 2 peers x 2 pieces followed by draining all pieces; 4 to 257 pieces of which up to all are taken by one or two peers of every combination of 4 announcement patterns before these leave; 55 to 75 peers announcing and leaving in every pattern of a catalogue. Answers judged against the set the model allows",
		Note:  []string{"a peer is a connection; counts from 63 up are equally common"},
		Blocks: func(tier string) []run.Block {
			bs := []run.Block{
				{Name: "states/2x3", Fn: func(b *run.B) { states(b, 2, 3, -1) }},
				{Name: "states/3x2", Fn: func(b *run.B) { states(b, 3, 2, -1) }},
				{Name: "states/1x4", Fn: func(b *run.B) { states(b, 1, 4, -1) }},
				{Name: "states/4x1", Fn: func(b *run.B) { states(b, 4, 1, -1) }},
			}
			for _, k := range kins[1:] {
				k := k
				bs = append(bs, run.Block{Name: "kin/" + k, Fn: func(b *run.B) {
					kinStates(b, k, 2, 2, -1)
					kinStates(b, k, 3, 1, -1)
				}})
			}
			depth := 5
			if tier == "thorough" {
				depth = 6
				bs = append(bs, run.Block{Name: "states/3x3", Fn: func(b *run.B) { states(b, 3, 3, 400000) }}, run.Block{Name: "states/2x4", Fn: func(b *run.B) { states(b, 2, 4, 400000) }})
			}
			for i, o := range newModel(2, 2).ops() {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("sequences/%d-%s", i, o.k), Fn: func(b *run.B) { sequences(b, i, 2, 2, depth) }})
			}
			for _, leave := range []string{"fifo", "lifo", "odd", "none"} {
				for _, ann := range []string{"bf", "have", "mixed"} {
					leave, ann := leave, ann
					bs = append(bs, run.Block{Name: "many/" + leave + "/" + ann, Fn: func(b *run.B) { many(b, leave, ann) }})
				}
			}
			bs = append(bs, run.Block{Name: "out of range", Fn: outOfRange})
			for _, ni := range []int{4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 31, 32, 33, 64, 65, 130, 257} {
				ni := ni
				bs = append(bs, run.Block{Name: fmt.Sprintf("wide/%d", ni), Fn: func(b *run.B) { wide(b, ni) }})
			}
			return bs
		},
	})
}

type op struct {
	k    string // have-msg, bitfield, leave, next, got
	p, i int
}

func (o op) String() string {
	switch o.k {
	case "have":
		return fmt.Sprintf("peer%d announces %d", o.p, o.i)
	case "bf":
		return fmt.Sprintf("peer%d announces bitfield %b", o.p, o.i)
	case "pat":
		return fmt.Sprintf("peer%d announces pattern %d", o.p, o.i)
	case "leave":
		return fmt.Sprintf("peer%d leaves", o.p)
	case "next":
		return fmt.Sprintf("peer%d asks", o.p)
	}
	return fmt.Sprintf("we complete %d", o.i)
}

type model struct {
	np, ni int
	ann    []map[int]bool
	holder []int // -1 none
	have   []bool
}

func newModel(np, ni int) *model {
	m := &model{np: np, ni: ni, ann: make([]map[int]bool, np), holder: make([]int, ni), have: make([]bool, ni)}
	for i := range m.ann {
		m.ann[i] = map[int]bool{}
	}
	for i := range m.holder {
		m.holder[i] = -1
	}
	return m
}

func (m *model) ops() []op {
	var r []op
	for p := 0; p < m.np; p++ {
		r = append(r, op{"next", p, 0}, op{"leave", p, 0})
		for i := 0; i < m.ni; i++ {
			r = append(r, op{"have", p, i})
		}
		if m.ni <= 3 {
			for s := 1; s < 1<<uint(m.ni); s++ {
				if s&(s-1) != 0 {
					r = append(r, op{"bf", p, s})
				}
			}
		} else {
			r = append(r, op{"bf", p, 1<<uint(m.ni) - 1})
		}
	}
	for i := 0; i < m.ni; i++ {
		r = append(r, op{"got", 0, i})
	}
	return r
}

func (m *model) count(i int) int {
	c := 0
	for p := range m.ann {
		if m.ann[p][i] {
			c++
		}
	}
	if c > 63 {
		c = 63
	}
	return c
}

// allowed pieces for a request of p.
func (m *model) allowed(p int) map[int]bool {
	best := 1 << 30
	r := map[int]bool{}
	for i := 0; i < m.ni; i++ {
		if m.have[i] || m.holder[i] >= 0 || !m.ann[p][i] {
			continue
		}
		c := m.count(i)
		if c < best {
			best = c
			r = map[int]bool{}
		}
		if c == best {
			r[i] = true
		}
	}
	return r
}

func (m *model) key() string {
	var s strings.Builder
	for p := range m.ann {
		for i := 0; i < m.ni; i++ {
			if m.ann[p][i] {
				s.WriteByte('1')
			} else {
				s.WriteByte('0')
			}
		}
	}
	fmt.Fprint(&s, m.holder, m.have)
	return s.String()
}

type world struct {
	m     *model
	ours  *bf.Bitfield
	ppt   *swarm.PeerPieceTracker
	peers []*swarm.PeerHandler
}

var (
	protoSwarm *swarm.Swarm
	protoConn  *sim.Conn
)

func protoS() *swarm.Swarm {
	if protoSwarm == nil {
		t, err := tor.New(4, 4).Torrent("x", "http://t/a")
		if err != nil {
			panic(err)
		}
		protoSwarm = sim.Assemble(t, fileio.NewFileIO(t.Info()), bf.NewBitfield(1))
		protoConn = sim.New("p", "10.0.0.1", 1000)
	}
	return protoSwarm
}

func newPeer(p int) *swarm.PeerHandler {
	return swarm.NewPeerHandler(peer.MakePeer(fmt.Sprintf("peer-%016d", p), net.IPv4(10, 0, byte(p>>8), byte(p)), uint16(1000+p)), protoS(), protoConn)
}

// kin says what the peers have in common: nothing, everything (several
// connections to one peer), or all but one part of their identity.
var kins = []string{"", "twins", "one id", "no id", "one address", "one port"}

func newKin(kin string, p int) *swarm.PeerHandler {
	id, ip, port := fmt.Sprintf("peer-%016d", p), net.IPv4(10, 0, byte(p>>8), byte(p)), uint16(1000+p)
	switch kin {
	case "twins":
		id, ip, port = "", net.IPv4(10, 0, 0, 9), 1000
	case "one id":
		id = "-XX0000-aaaaaaaaaaaa"
	case "no id":
		id = ""
	case "one address":
		id, ip = "", net.IPv4(10, 0, 0, 9)
	case "one port":
		id, port = "", 1000
	}
	return swarm.NewPeerHandler(peer.MakePeer(id, ip, port), protoS(), protoConn)
}

func newWorld(np, ni int) *world { return newKinWorld("", np, ni) }

func newKinWorld(kin string, np, ni int) *world {
	w := &world{m: newModel(np, ni), ours: bf.NewBitfield(int64(ni))}
	w.ppt = swarm.NewPeerPieceTracker(uint32(ni), w.ours)
	for p := 0; p < np; p++ {
		w.peers = append(w.peers, newKin(kin, p))
	}
	return w
}

func (w *world) apply(o op) error {
	m := w.m
	switch o.k {
	case "have":
		w.ppt.Register(w.peers[o.p], uint32(o.i))
		m.ann[o.p][o.i] = true
	case "bf":
		x := bf.NewBitfield(int64(m.ni))
		for i := 0; i < m.ni; i++ {
			if o.i>>uint(i)&1 == 1 {
				x.Set(int64(i), true)
				m.ann[o.p][i] = true
			}
		}
		w.ppt.RegisterBF(w.peers[o.p], x)
	case "pat": // every piece that o.i's pattern names
		x := bf.NewBitfield(int64(m.ni))
		for i := 0; i < m.ni; i++ {
			if pattern(o.i, i) {
				x.Set(int64(i), true)
				m.ann[o.p][i] = true
			}
		}
		w.ppt.RegisterBF(w.peers[o.p], x)
	case "leave":
		w.ppt.Unregister(w.peers[o.p])
		m.ann[o.p] = map[int]bool{}
		for i := range m.holder {
			if m.holder[i] == o.p {
				m.holder[i] = -1
			}
		}
	case "got":
		w.ours.Set(int64(o.i), true)
		m.have[o.i] = true
	case "next":
		al := m.allowed(o.p)
		n, ok := w.ppt.NextPiece(w.peers[o.p])
		if ok != (len(al) > 0) {
			return fmt.Errorf("NextPiece says (%d, %v), allowed: %v", n, ok, al)
		}
		if ok {
			if !al[int(n)] {
				return fmt.Errorf("NextPiece hands out %d, allowed: %v (holders %v, have %v)", n, al, m.holder, m.have)
			}
			m.holder[n] = o.p
		}
	}
	return nil
}

func path(ops []op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

func replay(np, ni int, ops []op) (*world, error) { return replayKin("", np, ni, ops) }

func replayKin(kin string, np, ni int, ops []op) (*world, error) {
	w := newKinWorld(kin, np, ni)
	for i, o := range ops {
		if err := w.apply(o); err != nil {
			return w, fmt.Errorf("step %d (%v): %v", i+1, o, err)
		}
	}
	return w, nil
}

func (w *world) drain() error {
	for p := range w.peers {
		for k := 0; k <= w.m.ni; k++ {
			if err := w.apply(op{"next", p, 0}); err != nil {
				return fmt.Errorf("draining for peer%d: %v", p, err)
			}
		}
	}
	return nil
}

func states(b *run.B, np, ni, limit int) { kinStates(b, "", np, ni, limit) }

func kinStates(b *run.B, kin string, np, ni, limit int) {
	seen := map[string]bool{newModel(np, ni).key(): true}
	queue := [][]op{nil}
	ops := newModel(np, ni).ops()
	for len(queue) > 0 {
		if b.Expired() || limit > 0 && len(seen) > limit {
			break
		}
		base := queue[0]
		queue = queue[1:]
		for _, o := range ops {
			seq := append(base[:len(base):len(base)], o)
			b.Transitions(1)
			b.Traces(1)
			key := ""
			b.Case(func() string {
				if kin != "" {
					return "peers with " + kin + ": " + path(seq)
				}
				return path(seq)
			}, func() error {
				w, err := replayKin(kin, np, ni, seq)
				if err == nil {
					key = w.m.key()
					err = w.drain()
				}
				return err
			})
			if b.Stopped() {
				return
			}
			if key != "" && !seen[key] {
				seen[key] = true
				queue = append(queue, seq)
			}
		}
	}
	if len(queue) > 0 {
		b.Count("unexpanded", int64(len(queue)))
	}
	b.States(int64(len(seen)))
	b.Sample("%d peers, %d pieces: %d states", np, ni, len(seen))
}

func sequences(b *run.B, first, np, ni, depth int) {
	ops := newModel(np, ni).ops()
	var rec func(seq []op)
	rec = func(seq []op) {
		if b.Expired() {
			return
		}
		if len(seq) == depth {
			seq := append([]op{}, seq...)
			b.Transitions(int64(depth))
			b.Traces(1)
			b.Case(func() string { return path(seq) }, func() error {
				w, err := replay(np, ni, seq)
				if err != nil {
					return err
				}
				return w.drain()
			})
			return
		}
		for _, o := range ops {
			rec(append(seq[:len(seq):len(seq)], o))
		}
	}
	rec([]op{ops[first]})
}

// many: a probe peer with everything asks between any two changes while peers
// come and go around the counts at which pieces stop being told apart.
func many(b *run.B, leave, ann string) {
	const ni = 4
	step := 1
	if !b.Thorough() {
		step = 3
	}
	for n := 55; n <= 75; n += step {
		for pat := 0; pat < 5; pat++ {
			n, pat := n, pat
			b.Case(func() string {
				return fmt.Sprintf("%d peers announce by %s, pattern %d, leave %s", n, ann, pat, leave)
			}, func() error {
				w := newWorld(n+1, ni)
				probe := n
				ask := func() error {
					if err := w.apply(op{"bf", probe, 15}); err != nil {
						return err
					}
					for k := 0; k <= ni; k++ {
						if err := w.apply(op{"next", probe, 0}); err != nil {
							return err
						}
					}
					return w.apply(op{"leave", probe, 0})
				}
				for p := 0; p < n; p++ {
					set := 0
					for i := 0; i < ni; i++ {
						has := pat == 0 || pat == 1 && p >= i*2 || pat == 2 && p%(i+1) == 0 || pat == 3 && (i > 0 || p%2 == 0) || pat == 4 && p < n-i
						if has {
							set |= 1 << uint(i)
						}
					}
					if ann == "bf" || ann == "mixed" && p%2 == 0 {
						if err := w.apply(op{"bf", p, set}); err != nil {
							return err
						}
					} else {
						for i := 0; i < ni; i++ {
							if set>>uint(i)&1 == 1 {
								if err := w.apply(op{"have", p, i}); err != nil {
									return err
								}
							}
						}
					}
					b.Transitions(1)
					if err := ask(); err != nil {
						return fmt.Errorf("after %d peers: %v", p+1, err)
					}
				}
				var order []int
				switch leave {
				case "fifo":
					for p := 0; p < n; p++ {
						order = append(order, p)
					}
				case "lifo":
					for p := n - 1; p >= 0; p-- {
						order = append(order, p)
					}
				case "odd":
					for p := 1; p < n; p += 2 {
						order = append(order, p)
					}
					for p := 0; p < n; p += 2 {
						order = append(order, p)
					}
				}
				for k, p := range order {
					// the leaving peer holds a piece
					if err := w.apply(op{"next", p, 0}); err != nil {
						return err
					}
					if err := w.apply(op{"leave", p, 0}); err != nil {
						return err
					}
					b.Transitions(1)
					if err := ask(); err != nil {
						return fmt.Errorf("after %d of %d left: %v", k+1, n, err)
					}
				}
				return nil
			})
			b.Traces(1)
			if b.Expired() {
				return
			}
		}
	}
}

func pattern(k, i int) bool {
	switch k {
	case 0:
		return true
	case 1:
		return i%2 == 0
	case 2:
		return i%3 != 0
	case 3:
		return i%7 == 6
	}
	return i < k
}

// wide: many pieces, many of them held by one peer at once. Peers with every
// combination of announcement patterns take any number of pieces, one after
// the other or in turns, some pieces are completed meanwhile, and each peer in
// every order leaves; after every departure a probe takes everything there is.
func wide(b *run.B, ni int) {
	var ks []int
	for k := 0; k <= ni+1; k++ {
		if ni <= 20 || k <= 12 && ni <= 65 || k%32 < 2 || k == 9 || k >= ni-1 {
			ks = append(ks, k)
		}
	}
	pats := []int{0, 1, 2, 3}
	orders := [][]int{{0, 1}, {1, 0}}
	one := func(pa, pb, k0, k1 int, turns bool, got int, order []int) {
		b.Case(func() string {
			return fmt.Sprintf("%d pieces; peers with patterns %d and %d take %d and %d (in turns: %v), every %d. piece is completed, leaving %v", ni, pa, pb, k0, k1, turns, got, order)
		}, func() error {
			w := newWorld(3, ni)
			do := func(k string, p, i int) error {
				b.Transitions(1)
				if err := w.apply(op{k, p, i}); err != nil {
					return fmt.Errorf("%v: %v", op{k, p, i}, err)
				}
				return nil
			}
			if err := do("pat", 0, pa); err != nil {
				return err
			}
			if err := do("pat", 1, pb); err != nil {
				return err
			}
			for a, c := 0, 0; a < k0 || c < k1; {
				if a < k0 {
					if err := do("next", 0, 0); err != nil {
						return err
					}
					a++
				}
				if c < k1 && (turns || a >= k0) {
					if err := do("next", 1, 0); err != nil {
						return err
					}
					c++
				}
			}
			if got > 0 {
				for i := got - 1; i < ni; i += got {
					if err := do("got", 0, i); err != nil {
						return err
					}
				}
			}
			for _, p := range order {
				if err := do("leave", p, 0); err != nil {
					return err
				}
				if err := do("pat", 2, 0); err != nil {
					return err
				}
				for k := 0; k <= ni; k++ {
					al := len(w.m.allowed(2))
					if err := do("next", 2, 0); err != nil {
						return fmt.Errorf("after peer%d left, the probe asks for the %d. time: %v", p, k+1, err)
					}
					if al == 0 {
						break
					}
				}
				if err := do("leave", 2, 0); err != nil {
					return err
				}
			}
			return nil
		})
		b.Traces(1)
	}
	for _, pa := range pats {
		for _, pb := range pats {
			for _, k0 := range ks {
				if b.Expired() {
					return
				}
				one(pa, pb, k0, 0, false, 0, orders[0])
				one(pa, pb, k0, k0, true, 0, orders[0])
				one(pa, pb, k0, k0/2, true, 3, orders[1])
				if ni <= 12 || b.Thorough() {
					for k1 := 0; k1 <= ni && k1 <= 20; k1++ {
						for _, o := range orders {
							for _, got := range []int{0, 2} {
								one(pa, pb, k0, k1, k1%2 == 0, got, o)
							}
						}
					}
				}
			}
		}
	}
}

func outOfRange(b *run.B) {
	for _, ni := range []int{1, 7, 8, 9} {
		for _, x := range []uint32{uint32(ni), uint32(ni) + 1, 64, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			ni, x := ni, x
			b.Case(func() string { return fmt.Sprintf("piece %d of %d announced", x, ni) }, func() error {
				w := newWorld(2, ni)
				w.ppt.Register(w.peers[0], x, 0)
				w.m.ann[0][0] = true
				for p := 1; p >= 0; p-- {
					if err := w.apply(op{"next", p, 0}); err != nil {
						return err
					}
				}
				w.ppt.Unregister(w.peers[0])
				_, ok := w.ppt.NextPiece(w.peers[0])
				if ok {
					return fmt.Errorf("a peer without announcements gets a piece")
				}
				return nil
			})
		}
	}
}
