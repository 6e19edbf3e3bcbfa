// C06: pieces tile the torrent's content exactly. Every list of small file
// lengths with every small piece length, and boundary sizes around 2^31 and
// 2^32, compared with the flat byte array view.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"vh/run"
)

func main() {
	run.Main(run.Spec{
		ID:     "C06",
		Level:  "exploration",
		Rule:   "every list of 1..5 (thorough 6) files of length 0..5 (6) bytes with every piece length 1..8 (9): locations of all pieces, file lookups of all pieces, and lookups of indices outside; every list of 1..3 boundary lengths up to 2^40 with piece lengths from 2^20+1 to 2^31-1",
		Note:   []string{"only bytes count: zero-length locations are allowed"},
		Budget: 400_000_000,
		Blocks: func(tier string) []run.Block {
			files, max, pls := 5, 5, 8
			if tier == "thorough" {
				files, max, pls = 6, 6, 9
			}
			var bs []run.Block
			for pl := 1; pl <= pls; pl++ {
				for first := 0; first <= max; first++ {
					pl, first := int64(pl), int64(first)
					bs = append(bs, run.Block{Name: fmt.Sprintf("small/%d/%d", pl, first), Fn: func(b *run.B) { small(b, pl, first, files, int64(max)) }})
				}
			}
			for _, pl := range bigPl {
				pl := pl
				bs = append(bs, run.Block{Name: fmt.Sprintf("big/%d", pl), Fn: func(b *run.B) { big(b, pl) }})
			}
			bs = append(bs, run.Block{Name: "wide", Fn: wide})
			return bs
		},
	})
}

func makeInfo(lens []int64, pl int64) (*info.TorInfo, []filesd.EntryBase, error) {
	var es []filesd.EntryBase
	total := int64(0)
	for i, n := range lens {
		e := filesd.MakeFileEntry(fmt.Sprintf("d%d/f%d", i%2, i), n)
		e.SetLocalPath(filepath.Join("/nowhere", fmt.Sprintf("l%d", i)))
		es = append(es, e)
		total += n
	}
	np := (total + pl - 1) / pl
	ti, err := info.NewTorInfo("t", pl, strings.Repeat("01234567890123456789", int(np)), es)
	return ti, es, err
}

func judge(lens []int64, pl int64) error {
	ti, es, err := makeInfo(lens, pl)
	if err != nil {
		return err
	}
	total := int64(0)
	start := make([]int64, len(lens))
	for i, n := range lens {
		start[i] = total
		total += n
	}
	np := (total + pl - 1) / pl
	if ti.NumPieces() != np || ti.Length() != total {
		return fmt.Errorf("%d pieces, %d bytes; want %d, %d", ti.NumPieces(), ti.Length(), np, total)
	}
	if got := filesd.CalcNumPieces(es, pl); got != np {
		return fmt.Errorf("CalcNumPieces gives %d, want %d", got, np)
	}
	at, file := int64(0), 0
	for i := int64(0); i < np; i++ {
		lo, hi := i*pl, (i+1)*pl
		if hi > total {
			hi = total
		}
		locs, err := ti.PieceLookup(i)
		if err != nil {
			return fmt.Errorf("piece %d: %v", i, err)
		}
		if at != lo {
			return fmt.Errorf("piece %d starts at byte %d", i, at)
		}
		for _, l := range locs {
			if l.Entry == nil {
				return fmt.Errorf("piece %d has a location without a file", i)
			}
			if l.ReadAmnt() != l.Loc.ReadAmnt || l.SeekAmnt() != l.Loc.SeekAmnt || l.Path() != l.Entry.LocalPath() {
				return fmt.Errorf("piece %d: the location contradicts itself", i)
			}
			if l.Loc.ReadAmnt == 0 {
				continue
			}
			for file < len(lens) && start[file]+lens[file] <= at {
				file++
			}
			if file == len(lens) {
				return fmt.Errorf("piece %d goes on after the last byte", i)
			}
			if l.Entry.LocalPath() != es[file].LocalPath() || l.Entry.TorPath() != es[file].TorPath() || l.Entry.Length() != lens[file] {
				return fmt.Errorf("piece %d is at byte %d in file %s (%d bytes), want file %s", i, at, l.Entry.LocalPath(), l.Entry.Length(), es[file].LocalPath())
			}
			want := lens[file] - (at - start[file])
			if hi-at < want {
				want = hi - at
			}
			if l.Loc.SeekAmnt != at-start[file] || l.Loc.ReadAmnt != want {
				return fmt.Errorf("piece %d: %d bytes from %d of file %d, want %d from %d", i, l.Loc.ReadAmnt, l.Loc.SeekAmnt, file, want, at-start[file])
			}
			at += l.Loc.ReadAmnt
		}
		if at != hi {
			return fmt.Errorf("piece %d ends at byte %d, want %d", i, at, hi)
		}
		if err := lookup(ti, lens, start, i, lo, hi); err != nil {
			return err
		}
	}
	if at != total {
		return fmt.Errorf("the pieces cover %d of %d bytes", at, total)
	}
	for _, i := range []int64{-1, -2, -9, np, np + 1, np + 63, 1 << 31, 1 << 32, 1<<62 + 5, 1<<63 - 1, -1 << 63, -1 << 31} {
		locs, err := ti.PieceLookup(i)
		if err == nil {
			for _, l := range locs {
				if l.Loc.ReadAmnt != 0 {
					return fmt.Errorf("piece %d of %d has %d bytes", i, np, l.Loc.ReadAmnt)
				}
			}
		}
		for _, e := range ti.Files().GetFiles(i) {
			if e.Length() != 0 {
				return fmt.Errorf("piece %d of %d is in file %s of %d bytes", i, np, e.LocalPath(), e.Length())
			}
		}
	}
	return nil
}

func lookup(ti *info.TorInfo, lens, start []int64, i, lo, hi int64) error {
	got := ti.Files().GetFiles(i)
	k := 0
	for f := range lens {
		has := lens[f] > 0 && start[f] < hi && start[f]+lens[f] > lo
		for !has && k < len(got) && got[k].LocalPath() == fmt.Sprintf("/nowhere/l%d", f) {
			if lens[f] != 0 || start[f] < lo || start[f] > hi {
				return fmt.Errorf("piece %d: file %d (%d bytes at %d) is listed but has none of it", i, f, lens[f], start[f])
			}
			k++
		}
		if has {
			if k >= len(got) || got[k].LocalPath() != fmt.Sprintf("/nowhere/l%d", f) || got[k].Length() != lens[f] {
				return fmt.Errorf("piece %d: file %d is missing from the %d files listed", i, f, len(got))
			}
			k++
		}
	}
	if k != len(got) {
		return fmt.Errorf("piece %d: %d files listed, %d of them in order", i, len(got), k)
	}
	return nil
}

func small(b *run.B, pl, first int64, files int, max int64) {
	var rec func(lens []int64)
	rec = func(lens []int64) {
		if b.Expired() {
			return
		}
		b.Case(func() string { return fmt.Sprintf("files %v, piece length %d", lens, pl) }, func() error { return judge(lens, pl) })
		b.Distinct(1)
		if len(lens) == files {
			return
		}
		for n := int64(0); n <= max; n++ {
			rec(append(lens[:len(lens):len(lens)], n))
		}
	}
	rec([]int64{first})
}

var bigPl = []int64{1<<20 + 1, 1 << 24, 1<<24 + 1, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 1}

func big(b *run.B, pl int64) {
	sizes := []int64{0, 1, pl - 1, pl, pl + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 3<<32 + 7, 1<<36 + 3}
	if pl >= 1<<24 {
		sizes = append(sizes, 1<<40+1)
	}
	if pl < 1<<24 {
		sizes = sizes[:11]
	}
	for _, x := range sizes {
		for _, y := range append([]int64{-1}, sizes...) {
			for _, z := range []int64{-1, 0, 1, pl, 1<<32 + 3} {
				if y < 0 && z >= 0 || z > 1 && pl < 1<<24 && !b.Thorough() {
					continue
				}
				lens := []int64{x}
				if y >= 0 {
					lens = append(lens, y)
				}
				if z >= 0 {
					lens = append(lens, z)
				}
				b.Case(func() string { return fmt.Sprintf("files %v, piece length %d", lens, pl) }, func() error { return judge(lens, pl) })
				b.Distinct(1)
				if b.Expired() {
					return
				}
			}
		}
	}
}

// wide: many files, many pieces.
func wide(b *run.B) {
	for _, n := range []int{10, 100, 1000} {
		for pl := int64(1); pl <= 64; pl += 7 {
			for m := int64(1); m <= 9; m += 2 {
				lens := make([]int64, n)
				for i := range lens {
					lens[i] = int64(i) * 7 % m
				}
				lens[n/2] = 300
				pl, m := pl, m
				b.Case(func() string { return fmt.Sprintf("%d files of i*7%%%d bytes, piece length %d", n, m, pl) }, func() error { return judge(lens, pl) })
				b.Distinct(1)
			}
		}
	}
	b.Case(func() string { return "one file of 400000 pieces" }, func() error { return judge([]int64{399999*3 + 1}, 3) })
}
