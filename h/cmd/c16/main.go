// C16: a seeder sends exactly the requested bytes and only held pieces. Every
// request of the enumerated sets goes to a real peer handler over a simulated
// connection; the reply stream is judged against the torrent's flat content.
package main

import (
	"bytes"
	"fmt"
	"os"
	"syscall"

	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

type req struct{ i, o, n uint32 }

func (r req) String() string { return fmt.Sprintf("request(%d,%d,%d)", r.i, r.o, r.n) }

func (r req) bytes() []byte {
	return wire.Msg{Type: wire.Request, Index: r.i, Begin: r.o, ReqLen: r.n}.Encode()
}

// valid: must be answered; empty: nothing from the very end, may be answered.
func valid(l *tor.Layout, held []bool, r req) (ok, empty bool) {
	if int64(r.i) >= l.NumPieces() || (held != nil && !held[r.i]) {
		return false, false
	}
	lo, hi := l.Range(int64(r.i))
	if int64(r.o)+int64(r.n) > hi-lo {
		return false, false
	}
	in := int64(r.o) < hi-lo
	return r.n > 0 || in, r.n == 0 && !in
}

func main() {
	run.Main(run.Spec{
		ID:    "C16",
		Level: "model_checking",
		Rule:  "for layouts with short last pieces, several files and several piece lengths (1 byte to 40 KiB) and all sets of held pieces: every request whose index, begin and length come from the boundary sets (every value up to two beyond the piece, both signed and unsigned 32-bit extremes and pairs that overflow); every ordered pair of interesting requests on one connection, and with another peer served afterwards; every read failing or short; files cut short after start-up. Replies compared to the content byte for byte",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			ls := []*tor.Layout{tor.New(4, 6, 3), tor.New(4, 8), tor.New(1, 3), tor.New(5, 3, 0, 4, 1), tor.New(3, 1, 1, 1, 1), tor.New(6, 5)}
			if tier == "thorough" {
				ls = append(ls, tor.New(7, 20), tor.New(8, 8, 1, 2), tor.New(2, 9), tor.New(9, 4, 4, 4, 4, 4))
			}
			for k, l := range ls {
				l := l
				bs = append(bs, run.Block{Name: fmt.Sprintf("requests/%d", k), Fn: func(b *run.B) { small(b, l) }})
			}
			for k, l := range []*tor.Layout{tor.New(40960, 100000), tor.New(16384, 16384*2+5, 16380), tor.New(262144, 262144+70000)} {
				l := l
				bs = append(bs, run.Block{Name: fmt.Sprintf("large/%d", k), Fn: func(b *run.B) { large(b, l) }})
			}
			for k, l := range ls[:4] {
				l := l
				bs = append(bs, run.Block{Name: fmt.Sprintf("pairs/%d", k), Fn: func(b *run.B) { pairs(b, l) }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("faults/%d", k), Fn: func(b *run.B) { faults(b, l) }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("cut/%d", k), Fn: func(b *run.B) { cut(b, l) }})
			}
			return bs
		},
	})
}

// heldSets: all subsets for few pieces, else all, none and each single gap.
func heldSets(n int64) [][]bool {
	var out [][]bool
	if n <= 4 {
		for m := 0; m < 1<<uint(n); m++ {
			h := make([]bool, n)
			for i := range h {
				h[i] = m>>uint(i)&1 == 1
			}
			out = append(out, h)
		}
		return out
	}
	all := func(v bool) []bool {
		h := make([]bool, n)
		for i := range h {
			h[i] = v
		}
		return h
	}
	out = append(out, all(true), all(false))
	for i := range all(true) {
		h := all(true)
		h[i] = false
		out = append(out, h)
		h = all(false)
		h[i] = true
		out = append(out, h)
	}
	return out
}

// session runs requests on one connection and, if other is set, checks
// afterwards that another peer is still served.
func session(t *sim.T, d *sim.Disk, held []bool, rs []req, other bool, faulty bool) {
	s := d.Swarm(held)
	c := sim.New("p", "10.0.0.1", 5001)
	c.NoTime = true
	ph := sim.Handler(s, c)
	vs.GoNamed("handler", ph.Loop)
	vs.Settle()
	base := 0
	alive := true
	if err := stream(d.L, held, c, &base, nil, true); err != nil {
		t.Failf("before any request: %v", err)
		return
	}
	for k, r := range rs {
		c.Send(r.bytes())
		vs.Settle()
		ok, empty := valid(d.L, held, r)
		var want *req
		if ok || empty {
			want = &rs[k]
		}
		opt := empty || faulty || !alive
		if err := stream(d.L, held, c, &base, want, opt); err != nil {
			t.Failf("%v after %v: %v", r, rs[:k], err)
			return
		}
		if c.Closed() {
			if ok && alive && !faulty {
				t.Failf("%v after %v: connection dropped", r, rs[:k])
				return
			}
			alive = false
		}
	}
	if other {
		for i := range held {
			if !held[i] {
				continue
			}
			o := sim.New("q", "10.0.0.2", 5002)
			o.NoTime = true
			p2 := sim.Handler(s, o)
			vs.GoNamed("handler2", p2.Loop)
			n := uint32(len(d.L.Piece(int64(i))))
			r := req{uint32(i), 0, n}
			o.Send(r.bytes())
			vs.Settle()
			b2 := 0
			if err := stream(d.L, held, o, &b2, &r, false); err != nil {
				t.Failf("another peer after %v: %v", rs, err)
			}
			break
		}
	}
}

// stream reads what was sent since base: at most the one wanted piece message.
func stream(l *tor.Layout, held []bool, c *sim.Conn, base *int, want *req, optional bool) error {
	all := c.Stream()
	ms, rest, err := wire.Split(all[*base:])
	*base = len(all)
	if err != nil {
		return fmt.Errorf("not a sequence of messages: %v", err)
	}
	if len(rest) > 0 {
		return fmt.Errorf("incomplete message %x", rest)
	}
	n := 0
	for _, m := range ms {
		if m.Type != wire.Piece {
			if m.Type == wire.Unchoke || m.Type == wire.KeepAlive {
				continue
			}
			return fmt.Errorf("unasked %v", m)
		}
		n++
		if want == nil {
			return fmt.Errorf("got data %v", m)
		}
		lo, _ := l.Range(int64(want.i))
		exp := l.Content[lo+int64(want.o) : lo+int64(want.o)+int64(want.n)]
		if m.Index != want.i || m.Begin != want.o || !bytes.Equal(m.Data, exp) {
			return fmt.Errorf("answered with %v, the content there is %x", m, clip(exp))
		}
	}
	if n > 1 {
		return fmt.Errorf("answered %d times", n)
	}
	if n == 0 && want != nil && !optional {
		return fmt.Errorf("not answered")
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 12 {
		return b[:12]
	}
	return b
}

func heldName(h []bool) string {
	s := ""
	for _, x := range h {
		if x {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

func name(l *tor.Layout) string { return fmt.Sprintf("pieces of %d, files %v", l.PieceLen, l.Lens) }

const m31, m32 = uint32(1) << 31, ^uint32(0)

func small(b *run.B, l *tor.Layout) {
	n := uint32(l.NumPieces())
	is := []uint32{}
	for i := uint32(0); i <= n+1; i++ {
		is = append(is, i)
	}
	is = append(is, 63, 64, 255, 256, m31-1, m31, m32-n, m32)
	var os_ []uint32
	p := uint32(l.PieceLen)
	for o := uint32(0); o <= p+2; o++ {
		os_ = append(os_, o)
	}
	os_ = append(os_, 2*p, m31-1, m31, m32-p, m32-1, m32)
	for _, held := range heldSets(l.NumPieces()) {
		d := sim.NewDisk(l, held)
		for _, i := range is {
			for _, o := range os_ {
				ns := append([]uint32{m32 - o, m32 - o + 1, m32 - o + 2, m32 - o + p}, os_...)
				for _, k := range ns {
					if b.Expired() {
						return
					}
					r := req{i, o, k}
					body, oracle := sim.Body(func(t *sim.T) { session(t, d, held, []req{r}, false, false) })
					b.Once(fmt.Sprintf("%s, held %s: %v", name(l), heldName(held), r), vs.Config{}, body, oracle)
				}
			}
		}
	}
}

func large(b *run.B, l *tor.Layout) {
	all := make([]bool, l.NumPieces())
	for i := range all {
		all[i] = true
	}
	gap := append([]bool(nil), all...)
	gap[1] = false
	for _, held := range [][]bool{all, gap} {
		d := sim.NewDisk(l, held)
		for i := uint32(0); i <= uint32(l.NumPieces()); i++ {
			set := map[uint32]bool{}
			var vals []uint32
			add := func(v int64) {
				for k := v - 1; k <= v+1; k++ {
					if k >= 0 && !set[uint32(k)] {
						set[uint32(k)] = true
						vals = append(vals, uint32(k))
					}
				}
			}
			for _, v := range []int64{0, 255, 16384, 32768, 65536, l.PieceLen, l.Total() % l.PieceLen, 131072, 1 << 31} {
				add(v)
			}
			for _, o := range vals {
				for _, n := range append([]uint32{m32 - o, m32 - o + 1, m32}, vals...) {
					if b.Expired() {
						return
					}
					r := req{i, o, n}
					if !b.Thorough() {
						ok, _ := valid(l, held, r)
						if !ok && (o+n)%3 != 0 {
							continue
						}
					}
					body, oracle := sim.Body(func(t *sim.T) { session(t, d, held, []req{r}, false, false) })
					b.Once(fmt.Sprintf("%s, held %s: %v", name(l), heldName(held), r), vs.Config{}, body, oracle)
				}
			}
		}
	}
}

// interesting requests: whole pieces, parts, last piece, all kinds of invalid.
func interesting(l *tor.Layout) []req {
	var rs []req
	n := uint32(l.NumPieces())
	for i := uint32(0); i < n && i < 4; i++ {
		p := uint32(len(l.Piece(int64(i))))
		rs = append(rs, req{i, 0, p}, req{i, p - 1, 1}, req{i, 0, p + 1}, req{i, p, 1})
		if p > 1 {
			rs = append(rs, req{i, 0, 1}, req{i, 1, p - 1})
		}
		if p < uint32(l.PieceLen) {
			rs = append(rs, req{i, 0, uint32(l.PieceLen)})
		}
	}
	rs = append(rs, req{n, 0, 1}, req{m32, 0, 1}, req{0, m32, 2}, req{0, 0, m32}, req{0, m31, m31}, req{0, 1, 0})
	return rs
}

func pairs(b *run.B, l *tor.Layout) {
	rs := interesting(l)
	for _, held := range heldSets(l.NumPieces()) {
		if !b.Thorough() && l.NumPieces() > 2 && count(held)%2 == 1 && count(held) != len(held) {
			continue
		}
		d := sim.NewDisk(l, held)
		for _, r := range rs {
			for _, q := range rs {
				if b.Expired() {
					return
				}
				r, q := r, q
				body, oracle := sim.Body(func(t *sim.T) { session(t, d, held, []req{r, q}, true, false) })
				b.Once(fmt.Sprintf("%s, held %s: %v then %v, then another peer", name(l), heldName(held), r, q), vs.Config{}, body, oracle)
			}
		}
	}
}

func count(h []bool) int {
	n := 0
	for _, x := range h {
		if x {
			n++
		}
	}
	return n
}

// faults: each read of storage fails, delivering none or some of its bytes.
func faults(b *run.B, l *tor.Layout) {
	held := heldSets(l.NumPieces())
	for _, h := range held {
		if count(h) == 0 {
			continue
		}
		h := h
		d := sim.NewDisk(l, h)
		for _, r := range interesting(l) {
			if ok, _ := valid(l, h, r); !ok {
				continue
			}
			for _, q := range interesting(l) {
				if ok, _ := valid(l, h, q); !ok {
					continue
				}
				for at := 0; at < 6; at++ {
					for _, part := range []int{0, 1, 2} {
						for _, e := range []error{syscall.EIO, syscall.EINTR} {
							if b.Expired() {
								return
							}
							r, q, at, part, e := r, q, at, part, e
							body, oracle := sim.Body(func(t *sim.T) {
								n := 0
								vos.Hook = func(c *vos.Call) vos.Verdict {
									if c.Kind != "read" && c.Kind != "readat" && c.Kind != "seek" {
										return vos.Verdict{}
									}
									n++
									if n-1 != at {
										return vos.Verdict{}
									}
									k := part
									if int64(k) >= c.Len {
										k = 0
									}
									return vos.Verdict{Err: e, N: k}
								}
								session(t, d, h, []req{r, q, r}, false, true)
								vos.Hook = nil
							})
							b.Once(fmt.Sprintf("%s, held %s: %v, %v, %v, read %d fails after %d bytes with %v", name(l), heldName(h), r, q, r, at, part, e), vs.Config{}, body, oracle)
							vos.Hook = nil
						}
					}
				}
			}
		}
	}
}

// cut: a file loses its end after start-up; nothing wrong may be sent.
func cut(b *run.B, l *tor.Layout) {
	h := make([]bool, l.NumPieces())
	for i := range h {
		h[i] = true
	}
	for f := range l.Lens {
		for keep := int64(0); keep < l.Lens[f]; keep++ {
			for _, r := range interesting(l) {
				for _, q := range interesting(l) {
					ok1, _ := valid(l, h, r)
					ok2, _ := valid(l, h, q)
					if !ok1 || !ok2 || b.Expired() {
						continue
					}
					r, q, f, keep := r, q, f, keep
					body, oracle := sim.Body(func(t *sim.T) {
						d := disks(l)
						for k := range l.Lens {
							_ = os.WriteFile(d.Path(k), l.FileBytes(k), 0600)
						}
						s := d.Swarm(h)
						c := sim.New("p", "10.0.0.1", 5001)
						c.NoTime = true
						vs.GoNamed("handler", sim.Handler(s, c).Loop)
						base := 0
						c.Send(r.bytes())
						vs.Settle()
						if err := stream(l, h, c, &base, &r, false); err != nil {
							t.Failf("%v", err)
						}
						if err := os.Truncate(d.Path(f), keep); err != nil {
							t.Failf("harness: %v", err)
						}
						c.Send(q.bytes())
						vs.Settle()
						if err := stream(l, h, c, &base, &q, true); err != nil {
							t.Failf("after file %d was cut to %d bytes: %v", f, keep, err)
						}
					})
					b.Once(fmt.Sprintf("%s: %v, file %d cut to %d bytes, %v", name(l), r, f, keep, q), vs.Config{}, body, oracle)
				}
			}
		}
	}
}

var disk *sim.Disk

func disks(l *tor.Layout) *sim.Disk {
	if disk == nil || disk.L != l {
		disk = sim.NewDisk(l, nil)
	}
	return disk
}
