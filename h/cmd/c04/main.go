// C04: loading metainfo never crashes and yields consistent metadata. Torrent
// files are enumerated as bytes; a reference reading says which must load,
// which must not, and what a loaded one has to report.
package main

import (
	"fmt"
	"strings"

	"vh/meta"
	"vh/run"
)

func main() {
	run.Main(run.Spec{
		ID:     "C04",
		Level:  "exploration",
		Rule:   "valid single- and multi-file torrents with every one and every pair of fields replaced by every value of a catalogue of types and extremes or removed; every (length, piece length, hash bytes) combination of boundary values, for one and two files; every truncation and every single-byte change of small torrents; all short file lists; valid torrents with one more key (55 well-known ones, each of 22 values) at the top, in info or in any file, or with all of them; each file is loaded and judged against the reference reading",
		Note:   []string{"piece lengths beyond 2^31-1, unusual names, repeated keys and totals of zero may be refused", "torrents without an announce URL may be refused"},
		Budget: 60_000_000,
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range fields {
				i := i
				bs = append(bs, run.Block{Name: "fields/" + fields[i], Fn: func(b *run.B) { replace(b, i) }})
			}
			for i := range numbers {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("numbers/%d", numbers[i]), Fn: func(b *run.B) { combos(b, numbers[i]) }})
			}
			for i := range smalls() {
				for k := 0; k < 4; k++ {
					i, k := i, k
					bs = append(bs, run.Block{Name: fmt.Sprintf("bytes/%d/%d", i, k), Fn: func(b *run.B) { bytesOf(b, smalls()[i], k) }})
				}
			}
			for n := 0; n <= 4; n++ {
				n := n
				bs = append(bs, run.Block{Name: fmt.Sprintf("lists/%d", n), Fn: func(b *run.B) { lists(b, n) }})
			}
			bs = append(bs, run.Block{Name: "hostile", Fn: hostile})
			bs = append(bs, run.Block{Name: "extras", Fn: func(b *run.B) { meta.Extras(func(_, data string) { one(b, data) }) }})
			return bs
		},
	})
}

func one(b *run.B, data string) {
	b.Case(func() string { return fmt.Sprintf("%.900q", data) }, func() error {
		_, _, err := meta.Judge(data, "/w")
		return err
	})
	b.Distinct(1)
}

// fields of the two torrents; T. top level, I. info, F. first file.
var fields = []string{"T.announce", "T.info", "I.name", "I.piece length", "I.pieces", "I.length", "I.files", "F.length", "F.path", "F.path0", "F.path1", "F.", "T."}

func values(f string) []string {
	vs := []string{"", "i0e", "i1e", "i-1e", "i3e", "i5e", "i9223372036854775807e", "i-9223372036854775808e", "i9223372036854775808e", "i4294967296e", "i2147483648e", "i2147483647e",
		"0:", "1:a", "5:a/b/c", "2:..", meta.S(meta.Hashes(1)), meta.S(meta.Hashes(2)), meta.S(meta.Hashes(3)), meta.S(meta.Hashes(2)[1:]), meta.S(meta.Hashes(2) + "x"),
		"le", "l0:e", "l1:ae", "l1:a1:be", "li1ee", "llee", "lde1:ae", "de", "d1:ai1ee", "d6:lengthi5e4:path" + "l1:qee", "ld6:lengthi5e4:pathl1:qeee", "l" + meta.FileDict(2, "q") + meta.FileDict(3, "r") + "e", "l" + meta.FileDict(2, "q") + "i1ee"}
	return vs
}

// build assembles a torrent with the given fields overridden.
func build(multi bool, over map[string]string) string {
	get := func(f, def string) string {
		if v, ok := over[f]; ok {
			return v
		}
		return def
	}
	ent := func(k, f, def string) string {
		v := get(f, def)
		if v == "" {
			return ""
		}
		return meta.S(k) + v
	}
	info := "d"
	if multi {
		p0, p1 := get("F.path0", "1:d"), get("F.path1", "1:a")
		f0 := get("F.", "d"+ent("length", "F.length", "i3e")+ent("path", "F.path", "l"+p0+p1+"e")+"e")
		info += ent("files", "I.files", "l"+f0+meta.FileDict(2, "b")+"e")
		info += ent("length", "I.length", "")
	} else {
		info += ent("files", "I.files", "")
		info += ent("length", "I.length", "i5e")
	}
	info += ent("name", "I.name", "1:n") + ent("piece length", "I.piece length", "i3e") + ent("pieces", "I.pieces", meta.S(meta.Hashes(2))) + "e"
	top := "d" + ent("announce", "T.announce", "4:http") + ent("info", "T.info", info) + "e"
	return get("T.", top)
}

func replace(b *run.B, i int) {
	for _, multi := range []bool{false, true} {
		one(b, build(multi, nil))
		for _, v := range values(fields[i]) {
			one(b, build(multi, map[string]string{fields[i]: v}))
			for j := i + 1; j < len(fields); j++ {
				for _, w := range values(fields[j]) {
					one(b, build(multi, map[string]string{fields[i]: v, fields[j]: w}))
				}
			}
			if b.Thorough() {
				for j := i + 1; j < len(fields)-1; j++ {
					for k := j + 1; k < len(fields)-1; k++ {
						for _, w := range values(fields[j]) {
							for _, x := range values(fields[k]) {
								one(b, build(multi, map[string]string{fields[i]: v, fields[j]: w, fields[k]: x}))
							}
						}
						if b.Expired() {
							return
						}
					}
				}
			}
		}
	}
}

var numbers = []int64{-1 << 63, -1<<63 + 1, -1 << 31, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 16384, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1 << 62, 1<<62 + 1, 1<<63 - 2, 1<<63 - 1}

func combos(b *run.B, x int64) {
	for _, y := range numbers { // piece length
		for _, h := range []int{0, 1, 19, 20, 21, 40, 60, 80, 100, 120, 160} {
			hs := meta.S(strings.Repeat("h", h))
			one(b, meta.D("announce", "1:u", "info", meta.D("length", meta.I(x), "name", "1:n", "piece length", meta.I(y), "pieces", hs)))
			for _, z := range numbers {
				one(b, meta.D("announce", "1:u", "info", meta.D("files", meta.L(meta.FileDict(x, "a"), meta.FileDict(z, "b")), "name", "1:n", "piece length", meta.I(y), "pieces", hs)))
			}
			if x == 1<<62 || x == -1 || x == 5 || b.Thorough() {
				for _, z := range numbers {
					for _, w := range numbers {
						if h%20 == 0 && h <= 60 {
							one(b, meta.D("announce", "1:u", "info", meta.D("files", meta.L(meta.FileDict(x, "a"), meta.FileDict(z, "b"), meta.FileDict(w, "c")), "name", "1:n", "piece length", meta.I(y), "pieces", hs)))
						}
					}
				}
			}
		}
		if b.Expired() {
			return
		}
	}
	// the right number of hashes
	for _, y := range []int64{1, 2, 3, 5, 16384, 1<<31 - 1} {
		if x > 0 {
			if n := (x + y - 1) / y; n > 0 && n <= 100000 {
				for d := -1; d <= 1; d++ {
					one(b, meta.D("announce", "1:u", "info", meta.D("length", meta.I(x), "name", "1:n", "piece length", meta.I(y), "pieces", meta.S(strings.Repeat("abcdefghijklmnopqrst", int(n)+d)))))
				}
			}
		}
	}
}

func smalls() []string {
	return []string{
		build(false, nil), build(true, nil),
		meta.D("announce", "0:", "info", meta.D("length", "i1e", "name", "1:n", "piece length", "i1e", "pieces", meta.S(meta.Hashes(1)))),
	}
}

func bytesOf(b *run.B, s string, k int) {
	for i := range s {
		if i%4 != k {
			continue
		}
		for v := 0; v < 256; v++ {
			one(b, s[:i]+string([]byte{byte(v)})+s[i+1:])
		}
		one(b, s[:i])
		for j := i + 1; j <= len(s) && j <= i+8; j++ {
			one(b, s[:i]+s[j:])
			one(b, s[:j]+s[i:])
		}
		for _, ins := range []string{"0", "9", "e", "d", "l", "i", ":", "-", "le", "de", "0:", "i0e"} {
			one(b, s[:i]+ins+s[i:])
			if b.Thorough() {
				for j := i; j < len(s); j++ {
					one(b, s[:i]+ins+s[i:j]+ins+s[j:])
				}
			}
		}
		if b.Expired() {
			return
		}
	}
}

// lists: all file lists of n files with small lengths and several piece lengths.
func lists(b *run.B, n int) {
	var rec func(fs []string, total int64)
	rec = func(fs []string, total int64) {
		if len(fs) == n {
			for pl := int64(1); pl <= 6; pl++ {
				np := (total + pl - 1) / pl
				for d := int64(-1); d <= 1; d++ {
					if np+d >= 0 {
						one(b, meta.D("announce", "1:u", "info", meta.D("files", meta.L(fs...), "name", "1:n", "piece length", meta.I(pl), "pieces", meta.S(meta.Hashes(int(np+d))))))
					}
				}
			}
			return
		}
		for l := int64(-1); l <= 5; l++ {
			rec(append(fs[:len(fs):len(fs)], meta.FileDict(l, fmt.Sprintf("f%d", len(fs)))), total+l)
		}
	}
	rec(nil, 0)
}

// hostile files: large, deep, many.
func hostile(b *run.B) {
	big := func(desc string, data string) {
		b.Case(func() string { return desc }, func() error {
			_, _, err := meta.Judge(data, "/w")
			return err
		})
		b.Distinct(1)
	}
	one(b, "")
	for _, c := range []string{"d", "l", "i", "0", ":", "e", "1:", "d0:", "d1:a", "d4:info", "d4:infod", "li1e"} {
		for _, n := range []int{1, 2, 3, 100, 5000, 1 << 20} {
			big(fmt.Sprintf("%q %d times", c, n), strings.Repeat(c, n))
		}
	}
	for _, n := range []int{100, 9000, 100000, 1 << 20} {
		deep := strings.Repeat("l", n) + strings.Repeat("e", n)
		for _, f := range []string{"T.announce", "I.files", "F.path", "F.path0", "F.", "I.name"} {
			big(fmt.Sprintf("%s nested %d deep", f, n), build(true, map[string]string{f: deep}))
		}
	}
	for _, n := range []int{1000, 400000} {
		big(fmt.Sprintf("%d pieces of one byte", n), meta.D("announce", "1:u", "info", meta.D("length", meta.I(int64(n)), "name", "1:n", "piece length", "i1e", "pieces", meta.S(meta.Hashes(n)))))
	}
	for _, n := range []int{1000, 20000} {
		var fs []string
		for i := 0; i < n; i++ {
			fs = append(fs, meta.FileDict(int64(i%3), "d", fmt.Sprintf("f%d", i)))
		}
		t := int64(0)
		for i := 0; i < n; i++ {
			t += int64(i % 3)
		}
		for _, pl := range []int64{1, 7, 1 << 20} {
			big(fmt.Sprintf("%d files, piece length %d", n, pl), meta.D("announce", "1:u", "info", meta.D("files", meta.L(fs...), "name", "1:n", "piece length", meta.I(pl), "pieces", meta.S(meta.Hashes(int((t+pl-1)/pl))))))
		}
	}
	// a file that is not there, and a folder
	b.Case(func() string { return "no file" }, func() error {
		return missing()
	})
}
