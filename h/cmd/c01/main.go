// C01: encoding is canonical and round-trips, decided by enumerating every
// value tree up to a size over a boundary alphabet, every construction order,
// and every refused value in every position.
package main

import (
	"fmt"
	"math"
	"strings"

	"gotor/bencode"
	"vh/cv"
	"vh/ref"
	"vh/run"
)

func main() {
	run.Main(run.Spec{
		ID:    "C01",
		Level: "exploration",
		Rule:  "every bencode value tree up to the stated size over the stated leaf alphabet; every permutation of key insertion; dictionaries whose keys share up to 65536 bytes; every unsupported leaf in every position of every tree; distinct by construction, all are non-trivial (each is encoded, compared byte for byte and decoded again)",
		Note:  []string{"leaf alphabet and tree size are bounded", "nesting beyond 10000 levels is covered for crashes by C02 only"},
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range intLeaves {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("ints/%d", i), Fn: func(b *run.B) { ints(b, intLeaves[i]) }})
			}
			n := 5
			if tier == "thorough" {
				n = 6
			}
			for size := 1; size <= n; size++ {
				for shard := 0; shard < 16; shard++ {
					size, shard := size, shard
					bs = append(bs, run.Block{Name: fmt.Sprintf("trees/%d/%d", size, shard), Fn: func(b *run.B) { trees(b, size, shard, 16) }})
				}
			}
			bs = append(bs,
				run.Block{Name: "strings", Fn: stringsBlock},
				run.Block{Name: "orders", Fn: orders},
				run.Block{Name: "refused", Fn: refused},
				run.Block{Name: "deep", Fn: deep},
				run.Block{Name: "independent", Fn: independent},
			)
			return bs
		},
	})
}

// check encodes the gotor value g, which denotes the reference value r.
func check(g, r interface{}) error {
	want := ref.Ben(r)
	for i := 0; i < 3; i++ {
		got, err := bencode.Encode(g)
		if err != nil {
			return fmt.Errorf("Encode of %.200q refused: %v", want, err)
		}
		if string(got) != want {
			return fmt.Errorf("Encode gives %.300q, canonical form is %.300q", got, want)
		}
	}
	back, err := bencode.Decode([]byte(want))
	if err != nil {
		return fmt.Errorf("Decode(%.300q): %v", want, err)
	}
	rb, err := cv.ToRef(back)
	if err != nil {
		return err
	}
	if !ref.Equal(rb, r) {
		return fmt.Errorf("Decode(Encode(v)) = %.300q, want %.300q", ref.Ben(rb), want)
	}
	return nil
}

var intLeaves = []int64{0, 1, -1, 9, 10, 99, 100, -10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536,
	1<<31 - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1<<32 - 1, 1 << 32, 1<<53 + 1, -(1<<53 + 1), 999999999999999999, 1000000000000000000,
	math.MaxInt64 - 1, math.MaxInt64, math.MinInt64 + 1, math.MinInt64}

func ints(b *run.B, n int64) {
	variants := []interface{}{n}
	if int64(int(n)) == n {
		variants = append(variants, int(n))
	}
	if int64(int8(n)) == n {
		variants = append(variants, int8(n))
	}
	if int64(int16(n)) == n {
		variants = append(variants, int16(n))
	}
	if int64(int32(n)) == n {
		variants = append(variants, int32(n))
	}
	for _, v := range variants {
		v := v
		wraps := []struct{ g, r interface{} }{
			{v, n},
			{bencode.List{v}, []interface{}{n}},
			{bencode.List{v, "x", v}, []interface{}{n, "x", n}},
			{bencode.Dict{"k": v}, map[string]interface{}{"k": n}},
			{bencode.Dict{"k": bencode.List{bencode.Dict{"z": v}}}, map[string]interface{}{"k": []interface{}{map[string]interface{}{"z": n}}}},
		}
		for _, w := range wraps {
			w := w
			b.Case(func() string { return fmt.Sprintf("encode %T %v in %T", v, n, w.g) }, func() error { return check(w.g, w.r) })
			b.Distinct(1)
		}
	}
	b.Sample("ints %d as %d types", n, len(variants))
}

var strLeaves = []string{"a", "b", "aa", "e", "\x00", "\xff"}
var keyAlpha = []string{"a", "b", "aa", "B", "\xff", "0"}

// trees enumerates all values with exactly size nodes (a dict entry's key
// costs nothing) and calls f.
func enum(size int, f func(v interface{}) bool) bool {
	if size == 1 {
		for _, s := range strLeaves {
			if !f(s) {
				return false
			}
		}
		for _, n := range []int64{0, -1, 10, math.MinInt64} {
			if !f(n) {
				return false
			}
		}
		if !f([]interface{}{}) {
			return false
		}
		return f(map[string]interface{}{})
	}
	// lists
	if !forests(size-1, func(xs []interface{}) bool { return f(append([]interface{}{}, xs...)) }) {
		return false
	}
	// dicts: children under increasing keys taken from the alphabet
	return forests(size-1, func(xs []interface{}) bool {
		if len(xs) > len(keyAlpha) {
			return true
		}
		return subsets(len(keyAlpha), len(xs), func(ix []int) bool {
			m := map[string]interface{}{}
			for i, k := range ix {
				m[keyAlpha[k]] = xs[i]
			}
			return f(m)
		})
	})
}

func forests(n int, f func([]interface{}) bool) bool {
	var rec func(left int, acc []interface{}) bool
	rec = func(left int, acc []interface{}) bool {
		if left == 0 {
			return f(acc)
		}
		for k := 1; k <= left; k++ {
			if !enum(k, func(v interface{}) bool { return rec(left-k, append(acc[:len(acc):len(acc)], v)) }) {
				return false
			}
		}
		return true
	}
	return rec(n, nil)
}

func subsets(n, k int, f func([]int) bool) bool {
	ix := make([]int, k)
	var rec func(pos, start int) bool
	rec = func(pos, start int) bool {
		if pos == k {
			return f(ix)
		}
		for i := start; i < n; i++ {
			ix[pos] = i
			if !rec(pos+1, i+1) {
				return false
			}
		}
		return true
	}
	return rec(0, 0)
}

func trees(b *run.B, size, shard, shards int) {
	if size >= 5 {
		// larger trees: thinner leaves
		strLeaves = []string{"a", "e"}
		keyAlpha = []string{"a", "b", "B"}
		if size >= 6 {
			strLeaves = strLeaves[:1]
			keyAlpha = keyAlpha[1:]
		}
	} else {
		strLeaves = []string{"a", "b", "aa", "e", "\x00", "\xff"}
		keyAlpha = []string{"a", "b", "aa", "B", "\xff", "0"}
		if size == 4 {
			strLeaves = strLeaves[2:5]
			keyAlpha = keyAlpha[:4]
		}
	}
	n := 0
	enum(size, func(v interface{}) bool {
		n++
		if n%shards != shard {
			return true
		}
		b.Case(func() string { return fmt.Sprintf("%q", ref.Ben(v)) }, func() error { return check(cv.FromRef(v), v) })
		b.Distinct(1)
		if n%997 == shard {
			b.Sample("%q", ref.Ben(v))
		}
		return !b.Expired()
	})
}

func stringsBlock(b *run.B) {
	for _, n := range []int{1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 1001, 4096, 65535, 65536, 1 << 20} {
		for _, pat := range []string{"x", "5:", "e", "\x00", "%d%s%!", "é", "\xff\xfe"} {
			s := strings.Repeat(pat, n/len(pat)+1)[:n]
			b.Case(func() string { return fmt.Sprintf("string of %d bytes of %q", n, pat) }, func() error {
				if err := check(s, s); err != nil {
					return err
				}
				if err := check(bencode.Dict{s: s}, map[string]interface{}{s: s}); err != nil {
					return err
				}
				return check(bencode.List{s, int8(-1), s}, []interface{}{s, int64(-1), s})
			})
			b.Distinct(1)
		}
	}
	for c := 0; c < 256; c++ {
		for d := 0; d < 256; d++ {
			s, t := string([]byte{byte(c)}), string([]byte{byte(d), byte(c)})
			b.Case(func() string { return fmt.Sprintf("keys %q %q", s, t) }, func() error {
				return check(bencode.Dict{s: t, t: s}, map[string]interface{}{s: t, t: s})
			})
			b.Distinct(1)
		}
	}
}

// orders builds dictionaries in every insertion order, with overwritten and
// deleted keys, and large ones repeatedly (map iteration order).
func orders(b *run.B) {
	keys := []string{"a", "b", "aa", "A", "\xff", "z\x00"}
	var rec func(used int, acc []string)
	rec = func(used int, acc []string) {
		if len(acc) > 0 {
			o := append([]string{}, acc...)
			b.Case(func() string { return fmt.Sprintf("insert keys %q", o) }, func() error {
				d := bencode.Dict{}
				r := map[string]interface{}{}
				for i, k := range o {
					d["tmp"+k] = "x"
					d[k] = "old"
					d[k] = int64(i)
					r[k] = int64(i)
				}
				for _, k := range o {
					delete(d, "tmp"+k)
				}
				return check(d, r)
			})
			b.Distinct(1)
		}
		for i, k := range keys {
			if used&(1<<i) == 0 {
				rec(used|1<<i, append(acc, k))
			}
		}
	}
	rec(0, nil)
	// Keys that agree for long, differing there, in length or behind it
	for _, n := range []int{1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4096, 65536} {
		for _, fill := range []string{"k", "\x00", "\xff", "9", " "} {
			b.Case(func() string { return fmt.Sprintf("keys that share %d bytes %q", n, fill) }, func() error {
				pre := strings.Repeat(fill, n)
				d := bencode.Dict{}
				r := map[string]interface{}{}
				for i, end := range []string{"", "b", "a", "B", "A", "\xff", "\x00", "0", "9", "10", "aa", "a\x00", "\xc3\xa9", fill, " "} {
					d[pre+end] = int64(i)
					r[pre+end] = int64(i)
				}
				for i := 0; i < 20; i++ {
					if err := check(d, r); err != nil {
						return err
					}
				}
				return nil
			})
			b.Distinct(1)
		}
	}
	for _, n := range []int{8, 9, 17, 64, 300, 1000} {
		b.Case(func() string { return fmt.Sprintf("dict of %d keys, encoded 20 times", n) }, func() error {
			for rep := 0; rep < 20; rep++ {
				d := bencode.Dict{}
				r := map[string]interface{}{}
				for i := 0; i < n; i++ {
					k := fmt.Sprint(i * 7919 % n)
					d[k] = int64(i)
					r[k] = int64(i)
				}
				if err := check(d, r); err != nil {
					return err
				}
			}
			return nil
		})
		b.Distinct(1)
	}
}

type named string

func refused(b *run.B) {
	x := 5
	bad := []interface{}{"", nil, uint(1), uint8(1), uint16(1), uint32(1), uint64(1), 1.5, float32(2), true, []byte("ab"), []string{"a"},
		map[string]string{"a": "b"}, map[string]int{"a": 1}, &x, struct{}{}, 'x' + 0i, named("a"), [2]int{1, 2}, []interface{}{uint8(1)},
		map[interface{}]interface{}{1: 2}, func() {}, make(chan int), (*int)(nil), bencode.List{""}, bencode.Dict{"": "x"}, bencode.Dict{"k": ""}}
	for i, v := range bad {
		v := v
		ctx := []interface{}{
			v,
			bencode.List{v},
			bencode.List{"a", v},
			bencode.List{v, "a"},
			bencode.List{bencode.List{v}},
			bencode.Dict{"k": v},
			bencode.Dict{"a": "b", "k": v, "z": int64(1)},
			bencode.Dict{"k": bencode.Dict{"j": bencode.List{int64(1), v, int64(2)}}},
			bencode.Dict{"": int64(1), "b": v},
		}
		for j, g := range ctx {
			g := g
			b.Case(func() string { return fmt.Sprintf("refused value %d (%T) in context %d", i, v, j) }, func() error {
				out, err := bencode.Encode(g)
				if err == nil {
					return fmt.Errorf("Encode accepted it: %q", out)
				}
				return nil
			})
			b.Distinct(1)
		}
	}
}

func deep(b *run.B) {
	for _, n := range []int{1, 2, 3, 5, 10, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 3000, 4095, 4096, 4097, 5000, 8192, 9999, 10000} {
		for kind := 0; kind < 3; kind++ {
			b.Case(func() string { return fmt.Sprintf("nesting %d deep, kind %d", n, kind) }, func() error {
				var g, r interface{} = "leaf", "leaf"
				for i := 0; i < n; i++ {
					if kind == 0 || (kind == 2 && i%2 == 0) {
						g, r = bencode.List{g}, []interface{}{r}
					} else {
						g, r = bencode.Dict{"k": g}, map[string]interface{}{"k": r}
					}
				}
				return check(g, r)
			})
			b.Distinct(1)
		}
	}
	for _, n := range []int{100, 1000, 20000, 200000} {
		b.Case(func() string { return fmt.Sprintf("list of %d elements", n) }, func() error {
			g := make(bencode.List, 0, n)
			r := make([]interface{}, 0, n)
			for i := 0; i < n; i++ {
				g = append(g, bencode.List{int64(i)})
				r = append(r, []interface{}{int64(i)})
			}
			return check(g, r)
		})
		b.Distinct(1)
	}
}

// independent: encoding leaves its argument alone and earlier results intact.
func independent(b *run.B) {
	vals := []interface{}{
		bencode.Dict{"b": bencode.List{"x", int64(3)}, "a": bencode.Dict{"q": "r"}},
		bencode.List{"one", bencode.Dict{"k": "v"}}, "str", int64(-77), bencode.Dict{},
	}
	for i := range vals {
		for j := range vals {
			i, j := i, j
			b.Case(func() string { return fmt.Sprintf("encode value %d, then %d", i, j) }, func() error {
				r1, err := cv.ToRef(vals[i])
				if err != nil {
					return err
				}
				want := ref.Ben(r1)
				out1, err := bencode.Encode(vals[i])
				if err != nil {
					return err
				}
				out2, err := bencode.Encode(vals[j])
				if err != nil {
					return err
				}
				for k := range out2 {
					out2[k] ^= 0xff
				}
				if string(out1) != want {
					return fmt.Errorf("the second encoding changed the first: %q", out1)
				}
				r2, err := cv.ToRef(vals[i])
				if err != nil || ref.Ben(r2) != want {
					return fmt.Errorf("encoding changed its argument")
				}
				dec, err := bencode.Decode(out1)
				if err != nil {
					return err
				}
				for k := range out1 {
					out1[k] = 'z'
				}
				rd, err := cv.ToRef(dec)
				if err != nil {
					return err
				}
				if ref.Ben(rd) != want {
					return fmt.Errorf("a decoded value changes with its input buffer")
				}
				return nil
			})
			b.Distinct(1)
		}
	}
}
