// C13: decoding peer data is total, exact on well-formed streams and never
// aliases the buffer; decided by enumerating headers, payloads, sequences,
// truncations and corruptions.
package main

import (
	"encoding/binary"
	"fmt"

	"gotor/p2p"
	"vh/run"
	"vh/wire"
)

func main() {
	run.Main(run.Spec{
		ID:     "C13",
		Level:  "exploration",
		Rule:   "every (declared length, id, bytes present) header combination over boundary lengths, all 256 ids and 0..24 present bytes; every short byte string over {0,1,4,5,7,13,255}; every sequence of up to 3 (thorough 4) messages of a catalogue, whole, cut at every byte, with every byte changed to boundary values; megabyte floods. Distinct inputs; each judged by the reference parser",
		Note:   []string{"what follows a malformed message in the same buffer is only required not to crash, hang or overrun", "messages the client cannot build (cancel, extensions) count as unknown"},
		Budget: 400_000_000,
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for id := 0; id < 256; id += 8 {
				id := id
				bs = append(bs, run.Block{Name: fmt.Sprintf("headers/%d", id), Fn: func(b *run.B) { headers(b, id, id+8) }})
			}
			for i := range alpha {
				for j := range alpha {
					i, j := i, j
					bs = append(bs, run.Block{Name: fmt.Sprintf("strings/%d/%d", i, j), Fn: func(b *run.B) { short(b, alpha[i], alpha[j]) }})
				}
			}
			for i := range catalog {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("sequences/%d", i), Fn: func(b *run.B) { sequences(b, i) }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("corrupt/%d", i), Fn: func(b *run.B) { corrupt(b, i) }})
			}
			bs = append(bs, run.Block{Name: "floods", Fn: floods}, run.Block{Name: "wrap", Fn: wrap})
			return bs
		},
	})
}

var catalog = []wire.Msg{
	{Type: wire.KeepAlive}, {Type: wire.Choke}, {Type: wire.Unchoke}, {Type: wire.Interested}, {Type: wire.NotInterested},
	{Type: wire.Have, Index: 3}, {Type: wire.Have, Index: 0xff000001}, {Type: wire.Bitfield, Data: []byte{0xa5}}, {Type: wire.Bitfield, Data: []byte{0, 0, 0, 0, 0, 0, 0}},
	{Type: wire.Request, Index: 1, Begin: 0x4000, ReqLen: 0x4000}, {Type: wire.Request},
	{Type: wire.Piece, Index: 2, Begin: 0x8000, Data: []byte{0, 0, 0, 1, 2}}, {Type: wire.Piece}, {Type: wire.Piece, Index: 0xffffffff, Begin: 0xffffffff, Data: []byte("0123456789abcdef")},
}

// expected: the messages a decoder has to find, whether it saw only whole
// well-formed messages, and the bytes they take.
func expected(in []byte) (msgs []wire.Msg, used int, clean bool) {
	for {
		if used == len(in) {
			return msgs, used, true
		}
		rest := in[used:]
		if len(rest) < 4 {
			return msgs, used, false
		}
		n := uint64(binary.BigEndian.Uint32(rest))
		if uint64(len(rest)) < 4+n {
			return msgs, used, false
		}
		one, tail, err := wire.Split(rest[:4+n])
		if err != nil || len(tail) > 0 || len(one) != 1 || one[0].Type == wire.Cancel || one[0].Type == wire.Bitfield && len(one[0].Data) == 0 {
			return msgs, used, false
		}
		if one[0].Type == wire.KeepAlive && n != 0 {
			return msgs, used, false // id 255 on the wire is unknown
		}
		msgs = append(msgs, one[0])
		used += 4 + int(n)
	}
}

func judge(in []byte) error {
	want, used, clean := expected(in)
	buf := append([]byte{}, in...)
	dr, err := p2p.Decode(buf)
	if dr.Read > uint64(len(in)) {
		return fmt.Errorf("Decode claims %d of %d bytes", dr.Read, len(in))
	}
	if err == nil && len(in) > 0 && dr.Read == 0 {
		return fmt.Errorf("Decode succeeds without reading")
	}
	if (err == nil) != (len(want) > 0) {
		return fmt.Errorf("Decode error %v, but the input starts with %d well-formed messages", err, len(want))
	}
	if err == nil {
		m, e := wire.From(dr.Msg)
		if e != nil {
			return e
		}
		if !wire.Equal(m, want[0]) || dr.Read != uint64(len(want[0].Encode())) {
			return fmt.Errorf("Decode gives %v, %d bytes; want %v", m, dr.Read, want[0])
		}
	}
	// spare capacity must not be read either
	roomy := append(append(make([]byte, 0, len(in)+64), in...), make([]byte, 32)...)[:len(in)]
	for _, b := range [][]byte{buf, roomy} {
		dar := p2p.DecodeAll(b)
		if dar.Read > uint64(len(in)) {
			return fmt.Errorf("DecodeAll claims %d of %d bytes", dar.Read, len(in))
		}
		var got []wire.Msg
		for _, m := range dar.Msgs {
			w, e := wire.From(m)
			if e != nil {
				return e
			}
			got = append(got, w)
		}
		if len(got) < len(want) || clean && len(got) != len(want) {
			return fmt.Errorf("DecodeAll finds %d messages %v, want %d", len(got), got, len(want))
		}
		for i := range want {
			if !wire.Equal(got[i], want[i]) {
				return fmt.Errorf("message %d is %v, want %v", i, got[i], want[i])
			}
		}
		if clean && dar.Read != uint64(used) {
			return fmt.Errorf("DecodeAll read %d of %d bytes", dar.Read, used)
		}
		// reuse of the receive buffer
		full := b[:cap(b)]
		for i := range full {
			full[i] ^= 0xa7
		}
		for i, m := range dar.Msgs {
			w, e := wire.From(m)
			if e != nil || !wire.Equal(w, got[i]) {
				return fmt.Errorf("message %d changed with the receive buffer: %v, was %v", i, w, got[i])
			}
		}
		for i := range full {
			full[i] ^= 0xa7
		}
	}
	return nil
}

func one(b *run.B, in []byte) {
	in = append([]byte{}, in...)
	b.Case(func() string { return fmt.Sprintf("%d bytes %.200x", len(in), in) }, func() error { return judge(in) })
	b.Distinct(1)
}

// truncated: bytes that follow an unfinished message belong to it, so nothing
// but the complete messages may come out.
func exact(b *run.B, in []byte) {
	in = append([]byte{}, in...)
	b.Case(func() string { return fmt.Sprintf("cut: %d bytes %.200x", len(in), in) }, func() error {
		if e := judge(in); e != nil {
			return e
		}
		want, _, _ := expected(in)
		dar := p2p.DecodeAll(append([]byte{}, in...))
		if len(dar.Msgs) != len(want) {
			return fmt.Errorf("an unfinished message gives %d messages, want %d", len(dar.Msgs), len(want))
		}
		return nil
	})
	b.Distinct(1)
}

func headers(b *run.B, lo, hi int) {
	lens := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 16, 17, 18, 20, 255, 256, 1 << 14, 1<<14 + 9, 1 << 16, 1 << 24, 1<<31 - 5, 1<<31 - 1, 1 << 31, 1<<32 - 9, 1<<32 - 8, 1<<32 - 6, 1<<32 - 5, 1<<32 - 4, 1<<32 - 3, 1<<32 - 2, 1<<32 - 1}
	for id := lo; id < hi; id++ {
		for _, l := range lens {
			for present := 0; present <= 24; present++ {
				for fill := 0; fill < 3; fill++ {
					in := make([]byte, 4, 40)
					binary.BigEndian.PutUint32(in, l)
					for i := 0; i < present; i++ {
						switch {
						case i == 0:
							in = append(in, byte(id))
						case fill == 0:
							in = append(in, 0)
						case fill == 1:
							in = append(in, byte(i*37))
						default:
							in = append(in, 0xff)
						}
					}
					one(b, in)
				}
			}
		}
	}
}

var alpha = []byte{0, 1, 4, 5, 7, 13, 255}

func short(b *run.B, x, y byte) {
	max := 6
	if b.Thorough() {
		max = 8
	}
	if x == alpha[0] && y == alpha[0] {
		one(b, nil)
		for c := 0; c < 256; c++ {
			one(b, []byte{byte(c)})
			for d := 0; d < 256; d++ {
				one(b, []byte{0, 0, byte(c), byte(d)})
				one(b, []byte{0, 0, 0, byte(c), byte(d)})
			}
		}
	}
	var rec func(s []byte)
	rec = func(s []byte) {
		if b.Expired() {
			return
		}
		one(b, s)
		if len(s) >= max {
			return
		}
		for _, c := range alpha {
			rec(append(s[:len(s):len(s)], c))
		}
	}
	rec([]byte{x, y})
}

func sequences(b *run.B, first int) {
	depth := 3
	if b.Thorough() {
		depth = 4
	}
	var rec func(in []byte, d int)
	rec = func(in []byte, d int) {
		if b.Expired() {
			return
		}
		one(b, in)
		if d <= 2 || b.Thorough() && d <= 3 {
			for i := 1; i < len(in); i++ {
				exact(b, in[:i])
			}
		}
		if d == depth {
			return
		}
		for _, m := range catalog {
			rec(append(in[:len(in):len(in)], m.Encode()...), d+1)
		}
	}
	rec(catalog[first].Encode(), 1)
	b.Sample("all sequences starting with %v", catalog[first])
}

func corrupt(b *run.B, first int) {
	vals := []byte{0, 1, 2, 5, 6, 7, 8, 9, 12, 13, 14, 20, 127, 128, 254, 255}
	for _, m := range append([]wire.Msg{{Type: -1}}, catalog...) {
		in := catalog[first].Encode()
		if m.Type >= 0 {
			in = append(in, m.Encode()...)
		}
		for i := range in {
			for v := 0; v < 256; v++ {
				if m.Type >= 0 && !b.Thorough() {
					ok := false
					for _, x := range vals {
						ok = ok || int(x) == v
					}
					if !ok {
						continue
					}
				}
				c := append([]byte{}, in...)
				c[i] = byte(v)
				one(b, c)
			}
			// a byte lost, a byte added
			one(b, append(append([]byte{}, in[:i]...), in[i+1:]...))
			one(b, append(append(append([]byte{}, in[:i]...), 0), in[i:]...))
			if b.Thorough() {
				for j := i + 1; j < len(in); j++ {
					for _, x := range vals {
						for _, y := range vals {
							c := append([]byte{}, in...)
							c[i], c[j] = x, y
							one(b, c)
						}
					}
					if b.Expired() {
						return
					}
				}
			}
		}
	}
}

// floods: long hostile buffers must be got through.
func floods(b *run.B) {
	units := [][]byte{
		{0, 0, 0, 0}, {0, 0, 0, 1, 5}, {0, 0, 0, 1, 4}, {0, 0, 0, 1, 6}, {0, 0, 0, 1, 7}, {0, 0, 0, 1, 8}, {0, 0, 0, 2, 0}, {0, 0, 0, 9, 7, 0, 0, 0, 0, 0, 0, 0, 0}, {0}, {255},
		{0, 0, 0, 2, 5, 1}, {0, 0, 0, 3, 4, 0, 0}, {0, 0, 0, 5, 7, 0, 0, 0, 0}, {0, 0, 0, 8, 7, 0, 0, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 5}, {255, 255, 255, 252, 5}, {255, 255, 255, 252, 7}, {255, 255, 255, 255, 6, 0},
	}
	for _, u := range units {
		for _, n := range []int{100, 16384, 1 << 20} {
			u, n := u, n
			b.Case(func() string { return fmt.Sprintf("%x repeated to %d bytes", u, n) }, func() error {
				in := make([]byte, 0, n+len(u))
				for len(in) < n {
					in = append(in, u...)
				}
				dar := p2p.DecodeAll(in)
				if dar.Read > uint64(len(in)) {
					return fmt.Errorf("claims %d of %d bytes", dar.Read, len(in))
				}
				want, _, clean := expected(in)
				if clean && (len(dar.Msgs) != len(want) || dar.Read != uint64(len(in))) {
					return fmt.Errorf("%d messages, want %d", len(dar.Msgs), len(want))
				}
				return nil
			})
			b.Distinct(1)
		}
	}
}

// wrap: declared lengths near 2^32 with every id and every small buffer size,
// and large real buffers.
func wrap(b *run.B) {
	for d := uint32(0); d < 64; d++ {
		for id := 0; id <= 9; id++ {
			for _, size := range []int{5, 6, 9, 13, 17, 64} {
				in := make([]byte, size)
				binary.BigEndian.PutUint32(in, 0-d)
				in[4] = byte(id)
				one(b, in)
			}
		}
	}
	for _, n := range []int{1 << 16, 1 << 20, 1 << 22} {
		for _, id := range []int{5, 7, 4, 6, 0, 20} {
			for _, delta := range []int{-1, 0, 1} {
				in := make([]byte, n)
				binary.BigEndian.PutUint32(in, uint32(n-4+delta))
				in[4] = byte(id)
				in[n-1] = 9
				n, id, delta := n, id, delta
				b.Case(func() string { return fmt.Sprintf("id %d, %d bytes present, %d declared", id, n-4, n-4+delta) }, func() error {
					_, err := p2p.Decode(in)
					ok := delta <= 0 && (id == 5 || id == 7)
					if ok != (err == nil) {
						return fmt.Errorf("error %v", err)
					}
					return nil
				})
				b.Distinct(1)
			}
		}
	}
}
