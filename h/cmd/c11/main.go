// C11: a bitfield is a set of piece indices. Every reachable state of small
// bitfields, every operation from each, every operation sequence up to a
// depth, and every small byte content are compared with a boolean-set model.
package main

import (
	"bytes"
	"fmt"

	"gotor/bf"
	"vh/run"
)

func main() {
	run.Main(run.Spec{
		ID:    "C11",
		Level: "model_checking",
		Rule:  "every set over n<=9 (thorough 12) indices as a state with every operation from it (set, clear, fill, resize to every size of the same byte count); every operation sequence up to depth 4 (5) for sizes around byte boundaries; every 1- and 2-byte content at every size; every (length, size) pair for acceptance. Each operation is judged on membership of every index, count, completeness and wire bytes",
		Note:  []string{"indices outside the set and resizing to another number of bytes are not called", "behaviour at larger sizes is sampled at boundary sizes up to 100001 bits"},
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			max, depth := 9, 4
			if tier == "thorough" {
				max, depth = 12, 5
			}
			for n := 1; n <= max; n++ {
				n := n
				bs = append(bs, run.Block{Name: fmt.Sprintf("states/%d", n), Fn: func(b *run.B) { states(b, n) }})
			}
			for _, n := range []int{1, 2, 7, 8, 9, 10, 15, 16, 17, 24, 25} {
				for k := 0; k < 4; k++ {
					n, k := n, k
					bs = append(bs, run.Block{Name: fmt.Sprintf("sequences/%d/%d", n, k), Fn: func(b *run.B) { sequences(b, n, depth, k) }})
				}
			}
			for hi := 0; hi < 256; hi += 32 {
				hi := hi
				bs = append(bs, run.Block{Name: fmt.Sprintf("bytes/%d", hi), Fn: func(b *run.B) { contents(b, hi, hi+32) }})
			}
			bs = append(bs,
				run.Block{Name: "accept", Fn: accept},
				run.Block{Name: "large", Fn: large},
				run.Block{Name: "independent", Fn: independent},
			)
			return bs
		},
	})
}

// model: bits below n are members; spare remembers bits received from outside.
type model struct {
	n     int
	m     []bool
	spare []bool
}

func newModel(n int) *model {
	nb := (n + 7) / 8 * 8
	return &model{n, make([]bool, nb), make([]bool, nb)}
}

func (m *model) wire() []byte {
	out := make([]byte, (m.n+7)/8)
	for i := 0; i < m.n; i++ {
		if m.m[i] {
			out[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return out
}

type op struct {
	k string
	i int
}

func (o op) String() string { return fmt.Sprintf("%s(%d)", o.k, o.i) }

func (m *model) apply(o op) {
	switch o.k {
	case "set":
		m.m[o.i] = true
	case "clear":
		m.m[o.i] = false
	case "fill":
		for i := 0; i < m.n; i++ {
			m.m[i] = true
		}
	case "resize":
		old := m.n
		m.n = o.i
		for i := o.i; i < old; i++ {
			// members beyond the new size are gone; a received bit may stay on the wire
			m.m[i] = false
		}
	}
}

func apply(x *bf.Bitfield, o op) {
	switch o.k {
	case "set":
		x.Set(int64(o.i), true)
	case "clear":
		x.Set(int64(o.i), false)
	case "fill":
		x.Fill()
	case "resize":
		x.SetNbits(int64(o.i))
	}
}

// judge compares x with the model. Indices whose bit arrived from outside and
// entered the range by growing are adopted as received.
func judge(x *bf.Bitfield, m *model) error {
	if x.Nbits() != int64(m.n) || x.Nbytes() != int64((m.n+7)/8) {
		return fmt.Errorf("Nbits %d Nbytes %d, want %d and %d", x.Nbits(), x.Nbytes(), m.n, (m.n+7)/8)
	}
	cnt := int64(0)
	for i := 0; i < m.n; i++ {
		got := x.Get(int64(i))
		if m.spare[i] && got != m.m[i] {
			m.m[i] = got
		}
		m.spare[i] = false
		if got != m.m[i] {
			return fmt.Errorf("Get(%d) = %v, want %v", i, got, m.m[i])
		}
		if got {
			cnt++
		}
	}
	if x.Nset() != cnt {
		return fmt.Errorf("Nset = %d, want %d", x.Nset(), cnt)
	}
	if x.Complete() != (cnt == int64(m.n)) {
		return fmt.Errorf("Complete = %v with %d of %d set", x.Complete(), cnt, m.n)
	}
	want := m.wire()
	for _, d := range [][]byte{x.Data(), x.Data5()[5:]} {
		if len(d) != len(want) {
			return fmt.Errorf("wire form has %d bytes, want %d", len(d), len(want))
		}
		for i := m.n; i < len(d)*8; i++ {
			bit := d[i/8]&(0x80>>uint(i%8)) != 0
			if bit && !m.spare[i] {
				return fmt.Errorf("spare bit %d set in wire form %x", i, d)
			}
		}
		cmp := append([]byte{}, d...)
		if m.n%8 != 0 {
			cmp[len(cmp)-1] &= 0xff << uint(8-m.n%8)
		}
		if !bytes.Equal(cmp, want) {
			return fmt.Errorf("wire form %x, want %x", d, want)
		}
	}
	return nil
}

func ops(n int, all bool) []op {
	var out []op
	for i := 0; i < n; i++ {
		if all || i == 0 || i == n-1 || i == 7 || i == 8 {
			out = append(out, op{"set", i}, op{"clear", i})
		}
	}
	out = append(out, op{"fill", 0})
	lo, hi := (n-1)/8*8+1, (n-1)/8*8+8
	for k := lo; k <= hi; k++ {
		if all || k == lo || k == hi || k == n {
			out = append(out, op{"resize", k})
		}
	}
	return out
}

// build makes the bitfield with the members of mask, in one of three ways.
func build(n int, mask int, how int) (*bf.Bitfield, *model) {
	m := newModel(n)
	var x *bf.Bitfield
	switch how {
	case 0:
		x = bf.NewBitfield(int64(n))
		for i := 0; i < n; i++ {
			if mask>>uint(i)&1 == 1 {
				x.Set(int64(i), true)
				m.m[i] = true
			}
		}
	case 1:
		x = bf.NewBitfield(int64(n))
		x.Fill()
		for i := n - 1; i >= 0; i-- {
			if mask>>uint(i)&1 == 0 {
				x.Set(int64(i), false)
			} else {
				m.m[i] = true
			}
		}
	case 2:
		for i := 0; i < n; i++ {
			m.m[i] = mask>>uint(i)&1 == 1
		}
		var err error
		x, err = bf.FromBytes(append([]byte{0, 0, 0, 0, 0}, m.wire()...), int64(n))
		if err != nil {
			panic(err)
		}
	}
	return x, m
}

func states(b *run.B, n int) {
	for mask := 0; mask < 1<<uint(n); mask++ {
		b.States(1)
		for how := 0; how < 3; how++ {
			for _, o := range append([]op{{"none", 0}}, ops(n, true)...) {
				if o.k == "resize" && o.i < 1 {
					continue
				}
				o, mask, how := o, mask, how
				b.Case(func() string { return fmt.Sprintf("n=%d set %0*b built way %d, then %v", n, n, mask, how, o) }, func() error {
					x, m := build(n, mask, how)
					if e := judge(x, m); e != nil {
						return e
					}
					apply(x, o)
					m.apply(o)
					if e := judge(x, m); e != nil {
						return e
					}
					// growing back shows bits that only seemed gone
					r := op{"resize", (n + 7) / 8 * 8}
					apply(x, r)
					m.apply(r)
					return judge(x, m)
				})
				b.Distinct(1)
				b.Transitions(1)
				b.Traces(1)
			}
		}
		if b.Expired() {
			return
		}
	}
	b.Sample("n=%d: %d sets x %d operations x 3 constructions", n, 1<<uint(n), len(ops(n, true)))
}

func sequences(b *run.B, n, depth, shard int) {
	all := ops(n, false)
	var rec func(seq []op)
	rec = func(seq []op) {
		if b.Expired() {
			return
		}
		if len(seq) > 0 {
			s := append([]op{}, seq...)
			// an index operation must be inside the current size
			cur := n
			for _, o := range s {
				if (o.k == "set" || o.k == "clear") && o.i >= cur {
					return
				}
				if o.k == "resize" {
					cur = o.i
				}
			}
			b.Case(func() string { return fmt.Sprintf("n=%d %v", n, s) }, func() error {
				x, m := bf.NewBitfield(int64(n)), newModel(n)
				for _, o := range s {
					apply(x, o)
					m.apply(o)
					if e := judge(x, m); e != nil {
						return fmt.Errorf("after %v: %v", o, e)
					}
				}
				return nil
			})
			b.Distinct(1)
			b.Transitions(int64(len(s)))
			b.Traces(1)
		}
		if len(seq) == depth {
			return
		}
		for i, o := range all {
			if len(seq) == 0 && i%4 != shard {
				continue
			}
			rec(append(seq[:len(seq):len(seq)], o))
		}
	}
	rec(nil)
}

func contents(b *run.B, lo, hi int) {
	one := func(data []byte, n int) {
		data = append([]byte{}, data...)
		b.Case(func() string { return fmt.Sprintf("FromBytes(%x, %d)", data, n) }, func() error {
			x, err := bf.FromBytes(append([]byte{1, 2, 3, 4, 5}, data...), int64(n))
			if err != nil {
				return err
			}
			m := newModel(n)
			for i := 0; i < len(data)*8; i++ {
				bit := data[i/8]&(0x80>>uint(i%8)) != 0
				if i < n {
					m.m[i] = bit
				} else {
					m.spare[i] = bit
				}
			}
			if e := judge(x, m); e != nil {
				return e
			}
			// fewer and more indices in the same bytes, then everything
			for _, o := range []op{{"resize", (n-1)/8*8 + 1}, {"resize", (n-1)/8*8 + 8}, {"set", 0}, {"fill", 0}, {"clear", n / 2}} {
				apply(x, o)
				m.apply(o)
				if o.k == "fill" {
					for i := range m.spare {
						m.spare[i] = false
					}
				}
				if e := judge(x, m); e != nil {
					return fmt.Errorf("after %v: %v", o, e)
				}
			}
			return nil
		})
		b.Distinct(1)
		b.Transitions(5)
		b.Traces(1)
	}
	for v := lo; v < hi; v++ {
		for n := 1; n <= 8; n++ {
			one([]byte{byte(v)}, n)
		}
		for w := 0; w < 256; w++ {
			for n := 9; n <= 16; n++ {
				if !b.Thorough() && n%3 != 0 && n != 16 {
					continue
				}
				one([]byte{byte(v), byte(w)}, n)
			}
			if w%16 == 0 || w == 255 || w == 127 {
				one([]byte{byte(v), byte(w), byte(v)}, 17+v%8)
			}
		}
		if b.Expired() {
			return
		}
	}
	b.Sample("every content %02x xx at sizes 9..16", lo)
}

func accept(b *run.B) {
	for nbytes := 1; nbytes <= 34; nbytes++ {
		for n := -20; n <= nbytes*8+40; n++ {
			nbytes, n := nbytes, n
			b.Case(func() string { return fmt.Sprintf("FromBytes of %d bytes as %d bits", nbytes, n) }, func() error {
				_, err := bf.FromBytes(make([]byte, 5+nbytes), int64(n))
				want := n > 0 && (n+7)/8 == nbytes
				if want != (err == nil) {
					return fmt.Errorf("accepted %v, want %v (%v)", err == nil, want, err)
				}
				return nil
			})
			b.Distinct(1)
		}
	}
	// nothing behind the header, or not even all of it
	for all := 0; all <= 5; all++ {
		for n := -60; n <= 60; n++ {
			all, n := all, n
			if all == 5 && n == 0 {
				continue
			}
			b.Case(func() string { return fmt.Sprintf("FromBytes of %d bytes with the header, as %d bits", all, n) }, func() error {
				if _, err := bf.FromBytes(make([]byte, all), int64(n)); err == nil {
					return fmt.Errorf("accepted")
				}
				return nil
			})
		}
	}
	for _, n := range []int64{1 << 31, 1<<31 + 8, 1 << 32, 1<<32 + 8, 1 << 62, -(1 << 62), 1<<63 - 1, -1 << 63, 1<<61 + 8, 1<<35 + 8} {
		n := n
		b.Case(func() string { return fmt.Sprintf("FromBytes of one byte as %d bits", n) }, func() error {
			if _, err := bf.FromBytes(make([]byte, 6), n); err == nil {
				return fmt.Errorf("accepted")
			}
			return nil
		})
	}
}

func large(b *run.B) {
	for _, n := range []int{63, 64, 65, 255, 256, 257, 511, 512, 513, 1000, 2047, 2048, 2049, 4096, 32767, 32768, 65535, 65536, 65537, 100001} {
		n := n
		b.Case(func() string { return fmt.Sprintf("n=%d walk", n) }, func() error {
			x, m := bf.NewBitfield(int64(n)), newModel(n)
			if e := judge(x, m); e != nil {
				return e
			}
			for _, i := range []int{0, n - 1, n / 2, n / 3, 7, 8, 9, n - 2, n - 8, n - 9, n - 1} {
				for _, k := range []string{"set", "set", "clear", "set"} {
					apply(x, op{k, i})
					m.apply(op{k, i})
				}
				if e := judge(x, m); e != nil {
					return fmt.Errorf("around %d: %v", i, e)
				}
			}
			for i := 0; i < n; i++ {
				apply(x, op{"set", i})
				m.apply(op{"set", i})
				if x.Complete() != (int64(n) == x.Nset()) {
					return fmt.Errorf("Complete after setting 0..%d", i)
				}
			}
			if e := judge(x, m); e != nil {
				return e
			}
			if !x.Complete() {
				return fmt.Errorf("not complete with every bit set")
			}
			apply(x, op{"clear", n - 1})
			m.apply(op{"clear", n - 1})
			if e := judge(x, m); e != nil {
				return e
			}
			apply(x, op{"fill", 0})
			m.apply(op{"fill", 0})
			return judge(x, m)
		})
		b.Distinct(1)
	}
}

func independent(b *run.B) {
	for n := 1; n <= 40; n++ {
		n := n
		b.Case(func() string { return fmt.Sprintf("two bitfields of %d bits", n) }, func() error {
			x, m := bf.NewBitfield(int64(n)), newModel(n)
			y, k := bf.NewBitfield(int64(n)), newModel(n)
			x.Fill()
			m.apply(op{"fill", 0})
			for i := 0; i < n; i += 3 {
				y.Set(int64(i), true)
				k.m[i] = true
			}
			if e := judge(x, m); e != nil {
				return e
			}
			return judge(y, k)
		})
		b.Distinct(1)
	}
}
