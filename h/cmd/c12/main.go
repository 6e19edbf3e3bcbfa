// C12: peer messages have the specified wire layout and round-trip, decided
// by enumerating field values, payload sizes and what follows the message.
package main

import (
	"bytes"
	"fmt"

	"gotor/bf"
	"gotor/p2p"
	"vh/run"
	"vh/wire"
)

var fields = []uint32{0, 1, 2, 4, 5, 127, 128, 255, 256, 257, 16383, 16384, 65535, 65536, 0x00ffffff, 0x01000000, 0x01020304, 0x7fffffff, 0x80000000, 0xfffefdfc, 0xffffffff}

func main() {
	run.Main(run.Spec{
		ID:     "C12",
		Level:  "exploration",
		Rule:   "every message kind with every combination of boundary values in its 4-byte fields, every value of every single field byte, payload sizes 0..300 and boundaries up to 1 MiB, bitfields of 1..200 bits with several member sets; each encoded, compared byte for byte with the reference layout, decoded alone and followed by other data; and every ordered pair of messages for independence",
		Note:   []string{"4-byte fields are enumerated at boundary values and one byte at a time, not over all 2^32 values"},
		Budget: 400_000_000,
		Blocks: func(tier string) []run.Block {
			bs := []run.Block{
				{Name: "plain", Fn: plain}, {Name: "have", Fn: have}, {Name: "bitfields", Fn: bitfields}, {Name: "pairs", Fn: pairs}, {Name: "independence", Fn: independence},
			}
			for i := range fields {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("request/%d", i), Fn: func(b *run.B) { request(b, fields[i]) }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("piece/%d", i), Fn: func(b *run.B) { piece(b, fields[i]) }})
			}
			for k := 0; k < 8; k++ {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("sizes/%d", k), Fn: func(b *run.B) { sizes(b, k) }})
			}
			bs = append(bs, run.Block{Name: "bytes", Fn: singleBytes})
			return bs
		},
	})
}

var tails = [][]byte{nil, {0}, {0, 0, 0, 0}, {0, 0, 0, 1, 0}, {0xff, 0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 13, 6, 1, 2}, bytes.Repeat([]byte{7}, 40)}

func one(b *run.B, m wire.Msg) {
	b.Case(func() string { return m.String() }, func() error { return judge(m) })
	b.Distinct(1)
}

func judge(m wire.Msg) error {
	keep := append([]byte{}, m.Data...)
	g, err := m.Gotor()
	if err != nil {
		return err
	}
	want := m.Encode()
	got := g.Encode()
	if !bytes.Equal(got, want) {
		return fmt.Errorf("Encode gives %d bytes %.64x, layout is %d bytes %.64x", len(got), got, len(want), want)
	}
	if !bytes.Equal(keep, m.Data) {
		return fmt.Errorf("Encode changed the payload it was built from")
	}
	if r, e := wire.From(g); e != nil || !wire.Equal(r, m) {
		return fmt.Errorf("after Encode the message is %v (%v)", r, e)
	}
	// the result is ours: changing it must not change the message
	for i := range got {
		got[i] ^= 0x5a
	}
	if again := g.Encode(); !bytes.Equal(again, want) {
		return fmt.Errorf("a second Encode gives %.64x after the first result was changed", again)
	}
	if !bytes.Equal(keep, m.Data) {
		return fmt.Errorf("changing the encoding changed the payload it was built from")
	}
	for _, t := range tails {
		in := append(append([]byte{}, want...), t...)
		dr, err := p2p.Decode(in)
		if err != nil {
			return fmt.Errorf("Decode with %d bytes following: %v", len(t), err)
		}
		if dr.Read != uint64(len(want)) {
			return fmt.Errorf("Decode consumed %d of %d bytes (%d follow)", dr.Read, len(want), len(t))
		}
		r, err := wire.From(dr.Msg)
		if err != nil {
			return err
		}
		if !wire.Equal(r, m) {
			return fmt.Errorf("decoded %v", r)
		}
		if e := dr.Msg.Encode(); !bytes.Equal(e, want) {
			return fmt.Errorf("the decoded message encodes to %.64x", e)
		}
	}
	return nil
}

func plain(b *run.B) {
	for _, t := range []int{wire.Choke, wire.Unchoke, wire.Interested, wire.NotInterested, wire.KeepAlive} {
		one(b, wire.Msg{Type: t})
	}
}

func have(b *run.B) {
	for _, v := range fields {
		one(b, wire.Msg{Type: wire.Have, Index: v})
	}
	for v := uint32(0); v < 70000; v++ {
		one(b, wire.Msg{Type: wire.Have, Index: v})
	}
}

func request(b *run.B, x uint32) {
	for _, y := range fields {
		for _, z := range fields {
			one(b, wire.Msg{Type: wire.Request, Index: x, Begin: y, ReqLen: z})
		}
	}
	b.Sample("request(%d, y, z) for all y, z in %v", x, fields)
}

func block(n int, salt int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*31 + i>>8*7 + salt)
	}
	return d
}

func piece(b *run.B, x uint32) {
	for _, y := range fields {
		for _, n := range []int{0, 1, 2, 3, 4, 5, 8, 9, 13, 255, 256, 1000} {
			one(b, wire.Msg{Type: wire.Piece, Index: x, Begin: y, Data: block(n, int(x+y))})
		}
	}
}

func sizes(b *run.B, k int) {
	for n := 0; n <= 300; n++ {
		if n%8 == k {
			one(b, wire.Msg{Type: wire.Piece, Index: 0x01020304, Begin: 0x05060708, Data: block(n, n)})
		}
	}
	for i, n := range []int{16383, 16384, 16385, 32768, 65520, 65535, 65536, 65537, 131072, 262144, 1 << 20, 1<<20 - 9, 1<<20 + 1, 1<<24 - 9, 1 << 24} {
		if i%8 == k {
			one(b, wire.Msg{Type: wire.Piece, Index: 9, Begin: 16384, Data: block(n, n)})
			if n < 1<<21 {
				one(b, wire.Msg{Type: wire.Bitfield, Data: block(n, n)})
			}
		}
	}
}

func singleBytes(b *run.B) {
	for sh := uint(0); sh < 32; sh += 8 {
		for v := uint32(0); v < 256; v++ {
			one(b, wire.Msg{Type: wire.Request, Index: v << sh, Begin: 0x11111111, ReqLen: 0x22222222})
			one(b, wire.Msg{Type: wire.Request, Index: 0x33333333, Begin: v << sh, ReqLen: 0})
			one(b, wire.Msg{Type: wire.Request, Index: 0, Begin: 0xffffffff, ReqLen: v << sh})
			one(b, wire.Msg{Type: wire.Have, Index: v << sh})
			one(b, wire.Msg{Type: wire.Piece, Index: v << sh, Begin: 1, Data: []byte{byte(v)}})
			one(b, wire.Msg{Type: wire.Piece, Index: 1, Begin: v << sh, Data: []byte{1, 2, byte(v)}})
		}
	}
}

// bitfields built from sets of n pieces, also when n is not a multiple of 8
func bitfields(b *run.B) {
	for n := 1; n <= 200; n++ {
		for pat := 0; pat < 6; pat++ {
			n, pat := n, pat
			b.Case(func() string { return fmt.Sprintf("bitfield of %d pieces, member pattern %d", n, pat) }, func() error {
				x := bf.NewBitfield(int64(n))
				data := make([]byte, (n+7)/8)
				for i := 0; i < n; i++ {
					in := pat == 1 || pat == 2 && i == 0 || pat == 3 && i == n-1 || pat == 4 && i%2 == 0 || pat == 5 && i%3 == 1
					if in {
						x.Set(int64(i), true)
						data[i/8] |= 0x80 >> uint(i%8)
					}
				}
				if pat == 1 {
					x.Fill()
				}
				m := wire.Msg{Type: wire.Bitfield, Data: data}
				g := p2p.NewMsgBitfield(x)
				for rep := 0; rep < 2; rep++ {
					if got := g.Encode(); !bytes.Equal(got, m.Encode()) {
						return fmt.Errorf("Encode gives %x, want %x", got, m.Encode())
					} else {
						before := append([]byte{}, x.Data()...)
						for i := range got {
							got[i] ^= 0xff
						}
						if !bytes.Equal(before, x.Data()) {
							return fmt.Errorf("the encoding is the bitfield's own memory")
						}
					}
					if x.Nbits() != int64(n) {
						return fmt.Errorf("encoding changed the bitfield's size")
					}
				}
				// a later change of the set is another message
				first := g.Encode()
				x.Set(0, data[0]&0x80 == 0)
				if !bytes.Equal(first, m.Encode()) {
					return fmt.Errorf("an encoding made earlier changed with the bitfield")
				}
				return judge(m)
			})
			b.Distinct(1)
		}
	}
}

func catalog() []wire.Msg {
	return []wire.Msg{
		{Type: wire.KeepAlive}, {Type: wire.Choke}, {Type: wire.Unchoke}, {Type: wire.Interested}, {Type: wire.NotInterested},
		{Type: wire.Have, Index: 7}, {Type: wire.Have, Index: 0xffffffff}, {Type: wire.Bitfield, Data: []byte{0xa5}}, {Type: wire.Bitfield, Data: []byte{1, 2, 3}},
		{Type: wire.Request, Index: 1, Begin: 2, ReqLen: 3}, {Type: wire.Request, Index: 0xffffffff, Begin: 0xfffffffe, ReqLen: 0xfffffffd},
		{Type: wire.Piece, Index: 1, Begin: 2, Data: []byte("block")}, {Type: wire.Piece}, {Type: wire.Piece, Index: 3, Begin: 4, Data: block(600, 1)},
	}
}

// pairs: the encodings of any two messages are independent of each other.
func pairs(b *run.B) {
	c := catalog()
	for i := range c {
		for j := range c {
			i, j := i, j
			b.Case(func() string { return fmt.Sprintf("%v then %v", c[i], c[j]) }, func() error {
				g, err := c[i].Gotor()
				if err != nil {
					return err
				}
				h, err := c[j].Gotor()
				if err != nil {
					return err
				}
				e1 := g.Encode()
				e2 := h.Encode()
				e3 := g.Encode()
				if !bytes.Equal(e1, c[i].Encode()) || !bytes.Equal(e2, c[j].Encode()) || !bytes.Equal(e3, e1) {
					return fmt.Errorf("encodings %.40x %.40x %.40x", e1, e2, e3)
				}
				for k := range e2 {
					e2[k] = 0xee
				}
				_ = append(e2, 0xee, 0xee, 0xee, 0xee)
				_ = append(e1[:len(e1):cap(e1)], 0xdd, 0xdd, 0xdd, 0xdd, 0xdd)
				if !bytes.Equal(e1, c[i].Encode()) || !bytes.Equal(e3, c[i].Encode()) {
					return fmt.Errorf("changing one encoding changed another")
				}
				return nil
			})
			b.Distinct(1)
		}
	}
}

// independence: an encoding does not follow later changes of the block.
func independence(b *run.B) {
	for _, n := range []int{0, 1, 7, 100, 16384} {
		n := n
		b.Case(func() string { return fmt.Sprintf("piece message, block of %d bytes overwritten after encoding", n) }, func() error {
			big := block(n+64, 3)
			blk := big[:n]
			g := p2p.NewMsgPiece(5, 6, blk)
			want := wire.Msg{Type: wire.Piece, Index: 5, Begin: 6, Data: append([]byte{}, blk...)}.Encode()
			e := g.Encode()
			for i := range big {
				big[i] = 0xcc
			}
			if !bytes.Equal(e, want) {
				return fmt.Errorf("the encoding shares memory with the block")
			}
			for i := range e {
				e[i] = 0
			}
			for i := range big {
				if big[i] != 0xcc {
					return fmt.Errorf("the block shares memory with the encoding")
				}
			}
			return nil
		})
		b.Distinct(1)
	}
}
