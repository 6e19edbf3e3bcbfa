// C03: the infohash is the SHA-1 of the exact bytes of the info value in the
// torrent file. Torrent files are enumerated as raw bytes; the reference
// parser says where the info value lies.
package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vh/meta"
	"vh/ref"
	"vh/run"
)

func main() {
	run.Main(run.Spec{
		ID:    "C03",
		Level: "exploration",
		Rule:  "raw torrent files: every order of the info keys, every extra entry of a catalogue (empty strings, nested containers, strings that look like bencoding, keys that begin, end or nearly are 'info' and hold another complete info dictionary, odd but legal spellings) and every pair of them at every position of the info dictionary and of the top level, file dictionaries included; every surrounding (announce, comments, key position, trailing data, working directory) around the same info bytes; every single-byte change of small torrents. The hash is compared with the SHA-1 of the info value's bytes found by the reference parser",
		Note:  []string{"with several info keys either one's hash, together with that one's metadata, or a refusal is accepted"},
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range extras {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("extra/%d", i), Fn: func(b *run.B) { extra(b, i, tier == "thorough") }})
			}
			bs = append(bs, run.Block{Name: "orders", Fn: orders}, run.Block{Name: "surroundings", Fn: surroundings}, run.Block{Name: "duplicates", Fn: duplicates}, run.Block{Name: "files", Fn: fileExtras}, run.Block{Name: "spellings", Fn: spellings}, run.Block{Name: "large", Fn: large})
			for i := range bases() {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("bytes/%d", i), Fn: func(b *run.B) { bytesOf(b, bases()[i]) }})
			}
			return bs
		},
	})
}

// judge: loaded means the right hash.
func judge(data, wd string) error {
	t, _, err := meta.Judge(data, wd)
	if err != nil || t == nil {
		return err
	}
	spans, ok := ref.TopSpans(data, "info")
	if !ok || len(spans) == 0 {
		return fmt.Errorf("loaded, but there are no info bytes")
	}
	for _, s := range spans {
		h := sha1.Sum([]byte(data[s[0]:s[1]]))
		if t.Infohash() != string(h[:]) {
			continue
		}
		// what was loaded is what these bytes say
		alone := meta.D("announce", meta.S(t.Announce()), "info", data[s[0]:s[1]])
		if _, _, r := ref.Parse(alone); r == ref.Loose {
			return nil
		}
		m, _, why := meta.Read(alone)
		if m == nil {
			return fmt.Errorf("the infohash is that of info bytes which cannot be loaded: %s", why)
		}
		if err := m.Says(t); err != nil {
			return fmt.Errorf("the infohash is that of %.300q, but %v", data[s[0]:s[1]], err)
		}
		return nil
	}
	return fmt.Errorf("infohash %x is not the SHA-1 of the info bytes %.300q", t.Infohash(), data[spans[0][0]:spans[0][1]])
}

func one(b *run.B, data string) {
	b.Case(func() string { return fmt.Sprintf("%.900q", data) }, func() error { return judge(data, "/w") })
	b.Distinct(1)
}

type kv struct{ k, v string }

var baseInfo = []kv{{"length", meta.I(5)}, {"name", meta.S("n")}, {"piece length", meta.I(4)}, {"pieces", meta.S(meta.Hashes(2))}}
var multiInfo = []kv{{"files", meta.L(meta.FileDict(3, "a"), meta.FileDict(2, "d", "b"))}, {"name", meta.S("n")}, {"piece length", meta.I(4)}, {"pieces", meta.S(meta.Hashes(2))}}

// extras: entries that may stand in any dictionary.
var extras = []kv{
	{"private", meta.I(1)}, {"private", meta.I(0)}, {"private", "i-1e"}, {"source", "0:"}, {"x", "le"}, {"x", "de"}, {"", "0:"}, {"", "i1e"}, {"a", "l0:0:e"},
	{"x", "d0:0:e"}, {"x", "d1:a0:e"}, {"x", meta.L("0:", meta.I(7), "le", "de")}, {"aaa", meta.S("d4:infod1:xi1eee")}, {"zzz", meta.S("4:infode")},
	{"info", meta.D("name", meta.S("q"))}, {"announce", meta.S("nested")}, {"i", "i9223372036854775807e"}, {"i", "i-9223372036854775808e"}, {"i", "i0e"},
	{"piece layers", "de"}, {"\x00", "1:\x00"}, {"\xff\xfe", "3:\xff\xfe\xfd"}, {"md5sum", meta.S(strings.Repeat("f", 32))}, {"x", "d1:z1:a1:a1:ze"}, {"x", "llleee"},
	{"file tree", meta.D("n", meta.D("", meta.D("length", meta.I(5))))}, {"x", "l3:onei2e0:l0:ede"}, {"name.utf-8", meta.S("n")}, {"e", "1:e"},
	{"info2", dict(otherInfo)}, {"infohash", meta.S(strings.Repeat("h", 20))}, {"information", dict(otherInfo)}, {"inf", dict(otherInfo)}, {"xinfo", dict(otherInfo)}, {"INFO", dict(otherInfo)}, {"Info", dict(otherInfo)}, {"info ", dict(otherInfo)}, {" info", dict(otherInfo)}, {"info\x00", dict(otherInfo)}, {"nfo", dict(otherInfo)}, {"in", dict(otherInfo)}, {"info.utf-8", dict(otherInfo)},
}

// otherInfo would do as an info dictionary, but is another one.
var otherInfo = []kv{{"length", meta.I(7)}, {"name", meta.S("m")}, {"piece length", meta.I(4)}, {"pieces", meta.S(meta.Hashes(2))}}

func dict(es []kv) string {
	var s strings.Builder
	s.WriteByte('d')
	for _, e := range es {
		s.WriteString(meta.S(e.k) + e.v)
	}
	s.WriteByte('e')
	return s.String()
}

func insert(es []kv, at int, e kv) []kv {
	r := append([]kv{}, es[:at]...)
	r = append(r, e)
	return append(r, es[at:]...)
}

func file(info string) string {
	return meta.D("announce", meta.S("http://t/a"), "info", info)
}

func extra(b *run.B, i int, thorough bool) {
	for _, base := range [][]kv{baseInfo, multiInfo} {
		for at := 0; at <= len(base); at++ {
			one1 := insert(base, at, extras[i])
			one(b, file(dict(one1)))
			for j := range extras {
				if !thorough && (i+j)%3 != 0 {
					continue
				}
				for at2 := 0; at2 <= len(one1); at2++ {
					if !thorough && at2 != 0 && at2 != len(one1) && at2 != at {
						continue
					}
					one(b, file(dict(insert(one1, at2, extras[j]))))
				}
			}
			if b.Expired() {
				return
			}
		}
		// at the top level, before, between and after
		top := []kv{{"announce", meta.S("http://t/a")}, {"info", dict(base)}}
		for at := 0; at <= 2; at++ {
			if extras[i].k == "announce" {
				continue
			}
			one(b, dict(insert(top, at, extras[i])))
			for j := range extras {
				for at2 := 0; at2 <= 3; at2++ {
					one(b, dict(insert(insert(top, at, extras[i]), at2, extras[j])))
				}
			}
		}
		// both levels at once
		one(b, dict([]kv{extras[i], {"announce", meta.S("u")}, {"info", dict(insert(base, 2, extras[i]))}, extras[i]}))
	}
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p[k] = i
				rec(k + 1)
				used[i] = false
			}
		}
	}
	rec(0)
}

func orders(b *run.B) {
	for _, base := range [][]kv{baseInfo, multiInfo} {
		for _, e := range []kv{{"private", meta.I(1)}, {"source", "0:"}, {"zz", "le"}} {
			es := append(append([]kv{}, base...), e)
			perms(len(es), func(p []int) {
				var o []kv
				for _, i := range p {
					o = append(o, es[i])
				}
				one(b, file(dict(o)))
			})
		}
	}
	tops := []kv{{"announce", meta.S("http://t/a")}, {"info", dict(baseInfo)}, {"comment", meta.S("4:infod1:ai1ee")}, {"creation date", meta.I(12345)}, {"url-list", "le"}}
	perms(len(tops), func(p []int) {
		var o []kv
		for _, i := range p {
			o = append(o, tops[i])
		}
		one(b, dict(o))
	})
}

// surroundings: the same info bytes must give the same hash wherever they are.
func surroundings(b *run.B) {
	infos := []string{dict(baseInfo), dict(multiInfo), dict(insert(baseInfo, 0, kv{"", "0:"})), dict(insert(multiInfo, 4, kv{"source", "0:"}))}
	for _, info := range infos {
		info := info
		h := sha1.Sum([]byte(info))
		anns := []string{"http://t/a", "", "x", "udp://b:1", strings.Repeat("y", 3000), "4:info", "d4:infodee"}
		extrasTop := []string{"", meta.S("comment") + meta.S("hello"), meta.S("comment") + "0:", meta.S("created by") + meta.S("info"), meta.S("azureus_properties") + meta.D("info", meta.I(1)), meta.S("announce-list") + meta.L(meta.L(meta.S("u1")), meta.L(meta.S("u2")))}
		tails := []string{"", "e", "\n", "d4:infodee", strings.Repeat("\x00", 100)}
		for _, a := range anns {
			for _, x := range extrasTop {
				for _, tail := range tails {
					for _, after := range []bool{false, true} {
						for _, wd := range []string{"", ".", "/", "/some/where", "rel", "../x"} {
							a, x, tail, wd := a, x, tail, wd
							data := "d" + x + meta.S("announce") + meta.S(a) + meta.S("info") + info + "e" + tail
							if after {
								data = "d" + meta.S("info") + info + meta.S("announce") + meta.S(a) + x + "e" + tail
							}
							b.Case(func() string { return fmt.Sprintf("wd %q: %.600q", wd, data) }, func() error {
								t, err := meta.Load(data, wd)
								if err != nil {
									if a == "" || tail != "" {
										return nil
									}
									return fmt.Errorf("rejected: %v", err)
								}
								if t.Infohash() != string(h[:]) {
									return fmt.Errorf("infohash %x, want %x", t.Infohash(), h)
								}
								return nil
							})
							b.Distinct(1)
						}
					}
				}
			}
		}
	}
	// the name of the file and the current directory do not matter either
	b.Case(func() string { return "file name and current directory" }, func() error {
		info := infos[0]
		h := sha1.Sum([]byte(info))
		data := file(info)
		dir := filepath.Join(run.Scratch, "sub")
		_ = os.MkdirAll(dir, 0700)
		defer os.Chdir(run.Scratch)
		for _, d := range []string{run.Scratch, dir} {
			if err := os.Chdir(d); err != nil {
				return err
			}
			t, err := meta.Load(data, "x")
			if err != nil {
				return err
			}
			if t.Infohash() != string(h[:]) {
				return fmt.Errorf("infohash %x, want %x", t.Infohash(), h)
			}
		}
		return nil
	})
}

func duplicates(b *run.B) {
	a, c := dict(baseInfo), dict(multiInfo)
	for _, x := range []string{a, c, "de", "i1e", "0:", "le"} {
		for _, y := range []string{a, c, "de", "i1e", "0:"} {
			one(b, "d8:announce1:u4:info"+x+"4:info"+y+"e")
			one(b, "d4:info"+x+"8:announce1:u4:info"+y+"e")
		}
	}
	for i := range baseInfo {
		for at := 0; at <= 4; at++ {
			one(b, file(dict(insert(baseInfo, at, baseInfo[i]))))
			one(b, file(dict(insert(multiInfo, at, multiInfo[i]))))
		}
	}
}

func fileExtras(b *run.B) {
	for i := range extras {
		for _, e := range extras[i:] {
			f1 := dict([]kv{extras[i], {"length", meta.I(3)}, {"path", meta.L(meta.S("a"))}, e})
			f2 := dict([]kv{{"path", meta.L(meta.S("b"))}, e, {"length", meta.I(2)}})
			one(b, file(meta.D("files", meta.L(f1, f2), "name", meta.S("n"), "piece length", meta.I(4), "pieces", meta.S(meta.Hashes(2)))))
		}
	}
}

// spellings: string lengths with leading zeros and negative zero.
func spellings(b *run.B) {
	sp := []string{"00:", "000:", "01:a", "0001:a", "i-0e", "i0e", "l00:e", "d00:00:e", "d01:ai-0ee"}
	for _, base := range [][]kv{baseInfo, multiInfo} {
		for _, x := range sp {
			for at := 0; at <= len(base); at++ {
				one(b, file(dict(insert(base, at, kv{"x", x}))))
			}
			one(b, "d08:announce01:u4:info"+dict(base)+"e")
			one(b, "d8:announce1:u04:info"+dict(base)+"e")
			one(b, "d8:announce1:u0000004:info"+dict(insert(base, 1, kv{"x", x}))+"e")
			one(b, "d1:a"+x+"8:announce1:u4:info"+dict(base)+"1:z"+x+"e")
			one(b, "d1:zd4:info"+x+"e8:announce1:u4:info"+dict(base)+"e")
			one(b, "d1:zl4:info"+x+"e8:announce1:u4:info"+dict(base)+"e")
			one(b, "d8:announce1:u4:info"+strings.Replace(dict(base), "4:name", "04:name", 1)+"e")
			one(b, "d8:announce1:u4:info"+strings.Replace(dict(base), "1:n", "001:n", 1)+"e")
		}
	}
}

func large(b *run.B) {
	for _, n := range []int{1000, 100000} {
		for _, deep := range []int{1, 100, 5000} {
			n, deep := n, deep
			b.Case(func() string { return fmt.Sprintf("%d pieces, comment nested %d deep", n, deep) }, func() error {
				info := meta.D("length", meta.I(int64(n)*3-1), "name", meta.S("n"), "piece length", meta.I(3), "pieces", meta.S(meta.Hashes(n)), "x", strings.Repeat("l", deep)+"0:"+strings.Repeat("e", deep))
				return judge(meta.D("announce", meta.S("u"), "comment", strings.Repeat("l", deep)+strings.Repeat("e", deep), "info", info), "/w")
			})
			b.Distinct(1)
		}
	}
}

func bases() []string {
	return []string{
		file(dict(baseInfo)), file(dict(multiInfo)),
		"d1:xd4:infode4:name0:e" + file(dict(insert(baseInfo, 2, kv{"o", "0:"})))[1:],
	}
}

// bytesOf changes every byte to every value, drops and doubles every byte.
func bytesOf(b *run.B, base string) {
	for i := range base {
		for v := 0; v < 256; v++ {
			one(b, base[:i]+string([]byte{byte(v)})+base[i+1:])
		}
		one(b, base[:i])
		one(b, base[:i]+base[i+1:])
		one(b, base[:i]+base[i:i+1]+base[i:])
		if b.Expired() {
			return
		}
	}
}
