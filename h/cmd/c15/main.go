// C15: piece selection is atomic under concurrency. Every schedule of small
// concurrent programs on the real tracker gives a history that must be one of
// some sequential order, judged by the selection model.
package main

import (
	"fmt"
	"net"
	"strings"

	"gotor/bf"
	"gotor/peer"
	"gotor/swarm"
	"gotor/torrent/fileio"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
)

func main() {
	run.Main(run.Spec{
		ID:    "C15",
		Level: "model_checking",
		Rule:  "every schedule up to the preemption bound of two threads running all pairs of programs of 1 or 2 calls (announce one or all, ask, leave) for different peers and for the same peer, and of three threads running all triples of single calls (thorough: 2 calls), 2 pieces, from 5 starting states; the history with a final drain must be linearizable with respect to the selection model",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range inits {
				for j := range programs() {
					i, j := i, j
					bs = append(bs, run.Block{Name: fmt.Sprintf("two/%d/%d", i, j), Fn: func(b *run.B) { two(b, i, j) }})
				}
				for j := range ops {
					i, j := i, j
					bs = append(bs, run.Block{Name: fmt.Sprintf("three/%d/%d", i, j), Fn: func(b *run.B) { three(b, i, j) }})
				}
			}
			return bs
		},
	})
}

const np, ni = 3, 2

type op struct {
	k string // next leave bf have0 have1
	p int
}

var ops = []string{"next", "leave", "bf", "have0", "have1"}

func programs() [][]string {
	var out [][]string
	for _, o := range ops {
		out = append(out, []string{o})
	}
	for _, o := range ops {
		for _, q := range ops {
			out = append(out, []string{o, q})
		}
	}
	return out
}

// starting states
var inits = [][]op{
	nil,
	{{"bf", 0}, {"bf", 1}},
	{{"bf", 0}, {"bf", 1}, {"next", 0}},
	{{"bf", 0}, {"have1", 1}, {"next", 0}, {"next", 1}},
	{{"have0", 0}, {"bf", 1}, {"bf", 2}, {"next", 1}},
}

// call is one call of the history.
type call struct {
	op
	inv, res int
	n        uint32
	ok       bool
}

func (c call) String() string {
	if c.k == "next" {
		if !c.ok {
			return fmt.Sprintf("peer%d asks: none", c.p)
		}
		return fmt.Sprintf("peer%d asks: %d", c.p, c.n)
	}
	return fmt.Sprintf("peer%d %s", c.p, c.k)
}

type model struct {
	ann    [np][ni]bool
	holder [ni]int
}

// apply returns false if the model doesn't allow the result.
func (m *model) apply(c *call) bool {
	switch c.k {
	case "have0":
		m.ann[c.p][0] = true
	case "have1":
		m.ann[c.p][1] = true
	case "bf":
		for i := range m.ann[c.p] {
			m.ann[c.p][i] = true
		}
	case "leave":
		m.ann[c.p] = [ni]bool{}
		for i := range m.holder {
			if m.holder[i] == c.p {
				m.holder[i] = -1
			}
		}
	case "next":
		best, cand := 99, [ni]bool{}
		any := false
		for i := 0; i < ni; i++ {
			if m.holder[i] >= 0 || !m.ann[c.p][i] {
				continue
			}
			n := 0
			for p := range m.ann {
				if m.ann[p][i] {
					n++
				}
			}
			if n < best {
				best, cand = n, [ni]bool{}
			}
			if n == best {
				cand[i] = true
				any = true
			}
		}
		if any != c.ok {
			return false
		}
		if any {
			if c.n >= ni || !cand[c.n] {
				return false
			}
			m.holder[c.n] = c.p
		}
	}
	return true
}

// linearizable searches a sequential order that respects real time.
func linearizable(cs []*call) bool {
	done := make([]bool, len(cs))
	var rec func(m model, left int) bool
	rec = func(m model, left int) bool {
		if left == 0 {
			return true
		}
		first := 1 << 30
		for i, c := range cs {
			if !done[i] && c.res < first {
				first = c.res
			}
		}
		for i, c := range cs {
			if done[i] || c.inv > first {
				continue
			}
			n := m
			if n.apply(c) {
				done[i] = true
				if rec(n, left-1) {
					return true
				}
				done[i] = false
			}
		}
		return false
	}
	var m model
	for i := range m.holder {
		m.holder[i] = -1
	}
	return rec(m, len(cs))
}

var (
	protoSwarm *swarm.Swarm
	protoConn  *sim.Conn
)

func newPeer(p int) *swarm.PeerHandler {
	if protoSwarm == nil {
		t, err := tor.New(4, 8).Torrent("x", "http://t/a")
		if err != nil {
			panic(err)
		}
		protoSwarm = sim.Assemble(t, fileio.NewFileIO(t.Info()), bf.NewBitfield(t.Info().NumPieces()))
		protoConn = sim.New("p", "10.0.0.1", 1000)
	}
	return swarm.NewPeerHandler(peer.MakePeer(fmt.Sprintf("peer-%016d", p), net.IPv4(10, 0, 0, byte(p)), uint16(1000+p)), protoSwarm, protoConn)
}

// world is one execution's tracker and history.
type world struct {
	ppt   *swarm.PeerPieceTracker
	peers []*swarm.PeerHandler
	hist  []*call
	clock int
}

// tick is a moment of the history.
func (w *world) tick(p *int) {
	vs.Do(&vs.Op{Kind: "tick", Immediate: true, Exec: func() {
		w.clock++
		*p = w.clock
	}})
}

func (w *world) add(c *call) {
	vs.Do(&vs.Op{Kind: "hist", Immediate: true, Exec: func() { w.hist = append(w.hist, c) }})
}

// Bitfields of our own making are built before, each call's its own.
func (w *world) do(o op) bool {
	c := &call{op: o}
	full := bf.NewBitfield(ni)
	for i := int64(0); i < ni; i++ {
		full.Set(i, true)
	}
	w.add(c)
	w.tick(&c.inv)
	switch o.k {
	case "have0":
		w.ppt.Register(w.peers[o.p], 0)
	case "have1":
		w.ppt.Register(w.peers[o.p], 1)
	case "bf":
		w.ppt.RegisterBF(w.peers[o.p], full)
	case "leave":
		w.ppt.Unregister(w.peers[o.p])
	case "next":
		c.n, c.ok = w.ppt.NextPiece(w.peers[o.p])
	}
	w.tick(&c.res)
	return c.ok
}

type thread struct {
	p    int
	prog []string
}

func name(init int, ts []thread) string {
	var s []string
	for _, t := range ts {
		s = append(s, fmt.Sprintf("peer%d: %s", t.p, strings.Join(t.prog, " ")))
	}
	return fmt.Sprintf("after %v: %s", inits[init], strings.Join(s, " || "))
}

func scenario(b *run.B, init int, ts []thread, bound int) {
	newPeer(0) // the prototype is made outside the execution
	body, oracle := sim.Body(func(t *sim.T) {
		w := &world{ppt: swarm.NewPeerPieceTracker(ni, bf.NewBitfield(ni))}
		for p := 0; p < np; p++ {
			w.peers = append(w.peers, newPeer(p))
		}
		for _, o := range inits[init] {
			w.do(o)
		}
		for i, th := range ts {
			th := th
			vs.GoNamed(fmt.Sprintf("t%d", i), func() {
				for _, k := range th.prog {
					w.do(op{k, th.p})
				}
			})
		}
		vs.Settle()
		for round := 0; round < 2; round++ {
			for p := 0; p < np; p++ {
				for k := 0; k <= ni; k++ {
					if !w.do(op{"next", p}) {
						break
					}
				}
			}
			if round == 0 {
				w.do(op{"leave", 0})
			}
		}
		vs.Settle()
		if !linearizable(w.hist) {
			t.Failf("no sequential order explains %v", w.hist)
		}
	})
	b.Explore(name(init, ts), vs.Config{Bound: bound}, body, oracle)
}

func two(b *run.B, init, j int) {
	ps := programs()
	bound := 3
	if b.Thorough() {
		bound = 8
	}
	for k, q := range ps {
		if vs.RaceEnabled && !b.Thorough() && (k+j)%3 != 0 {
			continue
		}
		for _, same := range []bool{false, true} {
			if same && k < j {
				continue
			}
			if b.Expired() {
				return
			}
			p2 := 1
			if same {
				p2 = 0
			}
			scenario(b, init, []thread{{0, ps[j]}, {p2, q}}, bound)
		}
	}
}

func three(b *run.B, init, j int) {
	bound := 2
	progs := programs()[:len(ops)]
	if b.Thorough() {
		bound = 4
		if !vs.RaceEnabled {
			progs = programs()
		}
	}
	for _, q := range progs {
		for _, r := range programs()[:len(ops)] {
			if b.Expired() {
				return
			}
			scenario(b, init, []thread{{0, []string{ops[j]}}, {1, q}, {2, r}}, bound)
			if b.Thorough() {
				scenario(b, init, []thread{{0, []string{ops[j]}}, {0, q}, {1, r}}, bound)
			}
		}
	}
}
