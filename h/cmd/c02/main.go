// C02: decoding is total and exact, decided by enumerating every short string
// over the structural alphabet, every edit of well-formed documents, number
// boundaries and nesting, against a reference parser.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"gotor/bencode"
	"vh/cv"
	"vh/ref"
	"vh/run"
)

const alpha = "dlie012-:a"

func main() {
	run.Main(run.Spec{
		ID:    "C02",
		Level: "exploration",
		Rule:  "every string over {d,l,i,e,0,1,2,-,:,a} up to the stated length; every truncation, single-byte change, deletion, insertion and pairs of them on a set of documents; number, length and nesting boundaries; every typed lookup on every kind of value; distinct strings, all judged by the reference parser",
		Note:  []string{"alphabet and length of the exhaustive strings are bounded", "'-0', string lengths with leading zeros and repeated keys are only required not to crash"},
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			n := 6
			if tier == "thorough" {
				n = 8
			}
			for i := 0; i < len(alpha); i++ {
				for j := 0; j < len(alpha); j++ {
					p := string([]byte{alpha[i], alpha[j]})
					bs = append(bs, run.Block{Name: "strings/" + p, Fn: func(b *run.B) { short(b, p, n) }})
				}
			}
			bs = append(bs, run.Block{Name: "strings/one", Fn: func(b *run.B) {
				one(b, "")
				for c := 0; c < 256; c++ {
					one(b, string([]byte{byte(c)}))
					for d := 0; d < 256; d++ {
						one(b, string([]byte{byte(c), byte(d)}))
					}
				}
			}})
			for i := range docs {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("edits/%d", i), Fn: func(b *run.B) { edits(b, docs[i]) }})
			}
			bs = append(bs,
				run.Block{Name: "numbers", Fn: numbers},
				run.Block{Name: "lengths", Fn: lengths},
				run.Block{Name: "nesting", Fn: nesting},
				run.Block{Name: "deep", Fn: deep},
				run.Block{Name: "lookups", Fn: lookups},
			)
			return bs
		},
	})
}

// judge decodes s and compares with the reference parser.
func judge(s string) error {
	in := []byte(s)
	v, err := bencode.Decode(in)
	if string(in) != s {
		return fmt.Errorf("Decode changed its input")
	}
	want, end, verdict := ref.Parse(s)
	switch verdict {
	case ref.OK:
		if err != nil {
			return fmt.Errorf("well-formed, but Decode: %v", err)
		}
	case ref.Tail:
		if err != nil {
			return nil
		}
	case ref.Loose:
		return nil
	default:
		if err == nil {
			r, _ := cv.ToRef(v)
			return fmt.Errorf("malformed (reference stops at byte %d), but Decode gives %.200v", end, r)
		}
		return nil
	}
	r, e := cv.ToRef(v)
	if e != nil {
		return e
	}
	if !ref.Equal(r, want) {
		return fmt.Errorf("Decode gives %.300q, input denotes %.300q", ref.Ben(r), ref.Ben(want))
	}
	return nil
}

var seen int

func one(b *run.B, s string) {
	b.Case(func() string { return fmt.Sprintf("%.1500q", s) }, func() error { return judge(s) })
	b.Distinct(1)
	seen++
	if seen%100003 == 7 {
		b.Sample("%.300q", s)
	}
}

func short(b *run.B, p string, n int) {
	var rec func(s []byte)
	rec = func(s []byte) {
		if b.Expired() {
			return
		}
		if len(s) > 2 {
			one(b, string(s))
		}
		if len(s) == n {
			return
		}
		for i := 0; i < len(alpha); i++ {
			rec(append(s[:len(s):len(s)], alpha[i]))
		}
	}
	rec([]byte(p))
}

var docs = []string{
	"i0e", "i-1e", "i42e", "1:a", "0:", "12:abcdefghijkl", "le", "de",
	"l1:ai1ee", "d1:ai1ee", "lli1eeldeee",
	"d1:ad1:bl1:cd1:di-5eeeee",
	"d8:announce3:url4:infod6:lengthi9e4:name1:n12:piece lengthi4e6:pieces4:\x00\xff:eee",
	"d8:completei1e10:incompletei2e8:intervali3e5:peersld2:ip7:1.2.3.47:peer id2:xx4:porti80eeee",
	"d0:0:1:a0:e", "l0:0:e", "d1:b1:x1:a1:ye",
	"i9223372036854775807e", "i-9223372036854775808e",
}

var bytesFor = []byte("dlie0129-:a +.\x00\xff/")

func edits(b *run.B, doc string) {
	for i := 0; i < len(doc); i++ {
		one(b, doc[:i])
	}
	for _, t := range []string{"e", "i1e", "x", "1:a", doc, "\n"} {
		one(b, doc+t)
		one(b, t+doc)
	}
	singles := func(d string, f func(string)) {
		for i := 0; i < len(d); i++ {
			f(d[:i] + d[i+1:])
			for _, c := range bytesFor {
				f(d[:i] + string([]byte{c}) + d[i+1:])
			}
		}
		for i := 0; i <= len(d); i++ {
			for _, c := range bytesFor {
				f(d[:i] + string([]byte{c}) + d[i:])
			}
		}
	}
	if len(doc) <= 100 {
		// every byte value at every position
		for i := 0; i < len(doc); i++ {
			for c := 0; c < 256; c++ {
				one(b, doc[:i]+string([]byte{byte(c)})+doc[i+1:])
			}
		}
	}
	two := len(doc) <= 12
	if b.Thorough() {
		two = len(doc) <= 30
	}
	singles(doc, func(s string) {
		if b.Expired() {
			return
		}
		one(b, s)
		if two {
			singles(s, func(t string) { one(b, t) })
		}
	})
	if !two {
		return
	}
	for i := 0; i < len(doc); i++ {
		for j := i + 1; j <= len(doc); j++ {
			one(b, doc[:i]+doc[j:])
		}
	}
}

func numbers(b *run.B) {
	var nums []string
	for _, n := range []string{"0", "1", "9", "10", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993",
		"9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775817", "18446744073709551614",
		"18446744073709551615", "18446744073709551616", "18446744073709551617", "27670116110564327424", "99999999999999999999", "99999999999999999999999999999999",
		"340282366920938463463374607431768211456", strings.Repeat("9", 500)} {
		nums = append(nums, n, "-"+n, "0"+n, "-0"+n, "00"+n, "+"+n, "--"+n, n+"-", n+" ", " "+n, n+".0", "0x"+n, n+"e5", n+"_0", n+"\x00", "")
	}
	for _, n := range nums {
		for _, ctx := range []string{"i%se", "li%see", "d1:ki%see", "li1ei%sei2ee", "i%s", "i%s:", "d1:ki%se", "di%se1:ve"} {
			one(b, strings.Replace(ctx, "%s", n, 1))
		}
	}
	for k := 1; k <= 7; k++ {
		// all digit strings with an optional sign around powers of two and ten
		for sh := uint(0); sh < 64; sh++ {
			v := int64(1)<<sh + int64(k) - 4
			one(b, "i"+strconv.FormatInt(v, 10)+"e")
			one(b, "i"+strconv.FormatInt(-v, 10)+"e")
			one(b, "i"+strconv.FormatUint(uint64(v), 10)+"e")
		}
	}
}

func lengths(b *run.B) {
	for _, l := range []string{"0", "1", "2", "3", "4", "10", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
		"9223372036854775800", "9223372036854775803", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551612", "18446744073709551614", "18446744073709551615", "18446744073709551616",
		"99999999999999999999999999", "-1", "-0", "+1", "0x1", "1.", " 1", "1 ", "", strings.Repeat("1", 400)} {
		for _, body := range []string{"", "a", "ab", "abc", "abcd", "3:abc", strings.Repeat("x", 255), strings.Repeat("x", 65536)} {
			for _, ctx := range []string{"%s", "l%se", "d%se", "d1:k%se", "d%si1ee", "l1:a%s", "li0e%se"} {
				one(b, strings.Replace(ctx, "%s", l+":"+body, 1))
			}
		}
	}
	for _, n := range []int{1 << 17, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<22 + 1, 1 << 24} {
		for d := -1; d <= 1; d++ {
			one(b, strconv.Itoa(n)+":"+strings.Repeat("x", n+d))
			one(b, "l"+strconv.Itoa(n)+":"+strings.Repeat("x", n+d)+"i1ee")
			one(b, "d1:k"+strconv.Itoa(n)+":"+strings.Repeat("x", n+d)+"1:y0:e")
		}
	}
	for n := 0; n <= 300; n++ {
		for d := -2; d <= 2; d++ {
			if n+d >= 0 {
				one(b, strconv.Itoa(n)+":"+strings.Repeat("x", n+d))
				one(b, "l"+strconv.Itoa(n)+":"+strings.Repeat("x", n+d)+"e")
				one(b, "d"+strconv.Itoa(n)+":"+strings.Repeat("x", n+d)+"1:ye")
			}
		}
	}
}

// nesting that has to be understood
func nesting(b *run.B) {
	for n := 1; n <= 1100; n++ {
		if n > 260 && n%16 > 1 && n%10 > 1 {
			continue
		}
		for _, k := range [][2]string{{"l", "e"}, {"d1:k", "e"}, {"l1:ad1:k", "e2:zzee"}, {"li1el", "ee"}} {
			in := "i7e"
			closed := strings.Repeat(k[0], n) + in + strings.Repeat(k[1], n)
			if k[0] == "l1:ad1:k" {
				closed = strings.Repeat(k[0], n) + in + strings.Repeat("e2:zze", n)
			}
			one(b, closed)
			one(b, closed[:len(closed)-1])
			one(b, closed+"e")
			one(b, strings.Repeat(k[0], n))
			one(b, strings.Repeat(k[0], n)+"x")
		}
	}
}

// nesting that only has to be survived
func deep(b *run.B) {
	sizes := []int{5000, 9999, 10000, 10001, 100_000, 1_000_000, 8_000_000}
	if b.Thorough() {
		sizes = append(sizes, 30_000_000, 60_000_000)
	}
	for _, n := range sizes {
		for _, k := range [][3]string{{"l", "", ""}, {"l", "", "e"}, {"d1:k", "", ""}, {"d1:k", "i1e", "e"}, {"l1:a", "", ""}, {"ld1:k", "1:v", "ee"}, {"dd", "", ""}} {
			if n > 10_000_000 && len(k[0]) > 2 {
				continue
			}
			n, k := n, k
			b.Case(func() string { return fmt.Sprintf("%d x %q, %q, %d x %q", n, k[0], k[1], n, k[2]) }, func() error {
				in := strings.Repeat(k[0], n) + k[1] + strings.Repeat(k[2], n)
				_, err := bencode.Decode([]byte(in))
				if err == nil && (k[2] == "" || k[0] == "dd") {
					return fmt.Errorf("truncated input accepted")
				}
				return nil
			})
			b.Distinct(1)
		}
	}
	// wide and long inputs
	for _, k := range [][3]string{{"l", "le", "e"}, {"l", "i1e", "e"}, {"l", "0:", "e"}, {"l", "de", ""}, {"i", "1", "e"}, {"i-", "9", ""}, {"", "1", ":"}, {"l", "1:al", ""}, {"", "0", ""}, {"i", "0", "e"}, {"d", "1", ":"}} {
		for _, n := range []int{1000, 2_000_000} {
			n, k := n, k
			b.Case(func() string { return fmt.Sprintf("%q, %d x %q, %q", k[0], n, k[1], k[2]) }, func() error {
				_, err := bencode.Decode([]byte(k[0] + strings.Repeat(k[1], n) + k[2]))
				num := k[1][0] >= '0' && k[1][0] <= '9' && k[1] != "0:"
				if (k[2] == "" || num) == (err == nil) {
					return fmt.Errorf("Decode error: %v", err)
				}
				return nil
			})
			b.Distinct(1)
		}
	}
}

func lookups(b *run.B) {
	vals := []interface{}{"", "s", "17", int64(0), int64(1), int64(-1), int64(math.MinInt64), int64(math.MaxInt64), []interface{}{}, []interface{}{int64(1)},
		map[string]interface{}{}, map[string]interface{}{"k": "v"}}
	for _, v := range vals {
		for _, others := range []bool{false, true} {
			for _, key := range []string{"k", "", "long key", "\xff"} {
				for _, ask := range []string{key, "missing", key + "x", "K"} {
					m := map[string]interface{}{key: v}
					if others {
						m["other"] = int64(5)
						m["zz"] = "zz"
					}
					v, ask, doc := v, ask, ref.Ben(m)
					has := ask == key
					b.Case(func() string { return fmt.Sprintf("lookups of %q in %q", ask, doc) }, func() error { return look(doc, ask, v, has) })
					b.Distinct(5)
				}
			}
		}
	}
	b.Case(func() string { return "lookups in a nil and an empty dictionary" }, func() error {
		for _, d := range []bencode.Dict{nil, {}} {
			if e := judgeLook(d, "k", nil, false); e != nil {
				return e
			}
		}
		return nil
	})
	// values put in by hand with types a decoder never yields
	for _, v := range []interface{}{nil, 5, uint64(7), 1.5, []byte("x"), []interface{}{}, map[string]interface{}{}, true} {
		v := v
		b.Case(func() string { return fmt.Sprintf("lookups of a %T", v) }, func() error {
			return judgeLook(bencode.Dict{"k": v}, "k", struct{}{}, true)
		})
		b.Distinct(5)
	}
}

func look(doc, ask string, v interface{}, has bool) error {
	x, err := bencode.Decode([]byte(doc))
	if err != nil {
		return err
	}
	d, ok := x.(bencode.Dict)
	if !ok {
		return fmt.Errorf("decoded a %T", x)
	}
	return judgeLook(d, ask, v, has)
}

func judgeLook(d bencode.Dict, ask string, v interface{}, has bool) error {
	s, e1 := d.GetString(ask)
	i, e2 := d.GetInt(ask)
	u, e3 := d.GetUint(ask)
	l, e4 := d.GetList(ask)
	dd, e5 := d.GetDict(ask)
	for k, e := range []error{e1, e2, e3, e4, e5} {
		if e != nil && e.Error() == "" {
			return fmt.Errorf("lookup %d: empty error", k)
		}
	}
	wrong := func(name string, want bool, err error) error {
		if want == (err == nil) {
			return nil
		}
		return fmt.Errorf("%s of %T %v (present %v): error %v", name, v, v, has, err)
	}
	ws, isS := v.(string)
	wi, isI := v.(int64)
	wl, isL := v.([]interface{})
	wd, isD := v.(map[string]interface{})
	for _, e := range []error{
		wrong("GetString", has && isS, e1), wrong("GetInt", has && isI, e2), wrong("GetUint", has && isI && wi >= 0, e3),
		wrong("GetList", has && isL, e4), wrong("GetDict", has && isD, e5)} {
		if e != nil {
			return e
		}
	}
	if e1 == nil && s != ws || e2 == nil && i != wi || e3 == nil && u != uint64(wi) {
		return fmt.Errorf("lookup gives %q %d %d, stored %v", s, i, u, v)
	}
	if e4 == nil {
		r, e := cv.ToRef(l)
		if e != nil || !ref.Equal(r, wl) {
			return fmt.Errorf("GetList gives %v", r)
		}
	}
	if e5 == nil {
		r, e := cv.ToRef(dd)
		if e != nil || !ref.Equal(r, wd) {
			return fmt.Errorf("GetDict gives %v", r)
		}
	}
	return nil
}
