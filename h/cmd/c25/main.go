// C25: creating a torrent hashes exactly the content.
package main

import (
	"crypto/sha1"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"gotor/bencode"
	"gotor/bf"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/zv/vos"
	"vh/run"
	"vh/sim"
	"vh/tor"
)

const mib = 1 << 20

func main() {
	run.Main(run.Spec{
		ID:     "C25",
		Level:  "exploration",
		Rule:   "every list of 1..3 (thorough 4) files of 0..6 bytes with every piece length 1..8; files whose sizes lie around multiples of the 5 MiB buffer and of piece lengths that do and do not divide it, larger than it too; every pattern of short reads of a catalogue; every single failing file operation; single files at 8 places below the working directory; descriptions of files of up to 2^40 bytes. Hashes, file list, counts, reloading the encoded torrent and validating the original files against it are judged",
		Note:   []string{"a single file is named like the torrent", "contents without any byte cannot be encoded and are only created", "piece lengths beyond 2^31-1 are outside the protocol"},
		Budget: 2_000_000_000,
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			files := 3
			if tier == "thorough" {
				files = 4
			}
			for pl := int64(1); pl <= 8; pl++ {
				for n := int64(0); n <= 6; n++ {
					pl, n := pl, n
					bs = append(bs, run.Block{Name: fmt.Sprintf("small/%d/%d", pl, n), Fn: func(b *run.B) { small(b, pl, n, files) }})
				}
			}
			for i := range bigPls {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("big/%d", bigPls[i]), Fn: func(b *run.B) { big(b, bigPls[i]) }})
			}
			bs = append(bs, run.Block{Name: "faults", Fn: faults}, run.Block{Name: "short reads", Fn: short}, run.Block{Name: "refused", Fn: refused}, run.Block{Name: "names", Fn: names}, run.Block{Name: "nested", Fn: nested}, run.Block{Name: "large", Fn: large})
			return bs
		},
	})
}

// setup writes the layout's files below dir.
func setup(l *tor.Layout, dir string) []string {
	var paths []string
	for i := range l.Lens {
		p := l.Local(dir, i)
		if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, l.FileBytes(i), 0600); err != nil {
			panic(err)
		}
		paths = append(paths, l.Path(i))
	}
	return paths
}

func judge(l *tor.Layout, hook func(*vos.Call) vos.Verdict) error {
	dir := filepath.Join(run.Scratch, "c")
	defer os.RemoveAll(dir)
	paths := setup(l, dir)
	vos.Hook = hook
	ti, err := info.CreateTorInfo(paths, dir, l.Name, l.PieceLen)
	vos.Hook = nil
	if err != nil {
		return fmt.Errorf("CreateTorInfo: %v", err)
	}
	if err := same(l, ti); err != nil {
		return err
	}
	if l.Total() == 0 {
		return nil
	}
	t, err := torrent.NewTorrent(ti, "http://t/a")
	if err != nil {
		return fmt.Errorf("NewTorrent: %v", err)
	}
	enc, err := bencode.Encode(bencode.Dict{"announce": "http://t/a", "info": ti.Bencode()})
	if err != nil {
		return fmt.Errorf("encoding: %v", err)
	}
	tp := filepath.Join(run.Scratch, "c.torrent")
	if err := os.WriteFile(tp, enc, 0600); err != nil {
		panic(err)
	}
	back, err := torrent.FromTorrentFile(tp, dir)
	if err != nil {
		return fmt.Errorf("loading what was created: %v", err)
	}
	if back.Infohash() != t.Infohash() || back.Announce() != t.Announce() {
		return fmt.Errorf("loaded infohash %x and announce %q, created %x and %q", back.Infohash(), back.Announce(), t.Infohash(), t.Announce())
	}
	raw, err := bencode.Encode(ti.Bencode())
	if err != nil {
		return err
	}
	if h := sha1.Sum(raw); string(h[:]) != t.Infohash() {
		return fmt.Errorf("infohash %x is not the SHA-1 of the encoded info dictionary %x", t.Infohash(), h)
	}
	if err := same(l, back.Info()); err != nil {
		return fmt.Errorf("loaded again: %v", err)
	}
	fio := fileio.NewFileIO(back.Info())
	defer fio.CloseAll()
	if err := fio.OCATAll(back.Info().Files()); err != nil {
		return fmt.Errorf("opening the original files: %v", err)
	}
	s := sim.Assemble(back, fio, bf.NewBitfield(back.Info().NumPieces()))
	if err := s.Validate(); err != nil {
		return fmt.Errorf("validating: %v", err)
	}
	if !s.Bf.Complete() || s.Bf.Nset() != back.Info().NumPieces() {
		return fmt.Errorf("the original files validate %d of %d pieces", s.Bf.Nset(), back.Info().NumPieces())
	}
	for i := range l.Lens {
		d, err := os.ReadFile(l.Local(dir, i))
		if err != nil || string(d) != string(l.FileBytes(i)) {
			return fmt.Errorf("file %d changed on disk (%v)", i, err)
		}
	}
	return nil
}

func same(l *tor.Layout, ti *info.TorInfo) error {
	if ti.Hashes() != l.Hashes() {
		return fmt.Errorf("hashes %.120x, want %.120x (%d and %d bytes)", ti.Hashes(), l.Hashes(), len(ti.Hashes()), len(l.Hashes()))
	}
	if ti.Name() != l.Name || ti.PieceLen() != l.PieceLen || ti.Length() != l.Total() || ti.NumPieces() != l.NumPieces() {
		return fmt.Errorf("name %q, piece length %d, length %d, %d pieces; want %q, %d, %d, %d", ti.Name(), ti.PieceLen(), ti.Length(), ti.NumPieces(), l.Name, l.PieceLen, l.Total(), l.NumPieces())
	}
	if n := l.NumPieces(); n > 0 && ti.LastPieceLen() != l.Total()-(n-1)*l.PieceLen {
		return fmt.Errorf("last piece length %d, want %d", ti.LastPieceLen(), l.Total()-(n-1)*l.PieceLen)
	}
	fs := ti.Files()
	if len(fs) != len(l.Lens) || ti.IsSingle() != (len(l.Lens) == 1) {
		return fmt.Errorf("%d files, want %d", len(fs), len(l.Lens))
	}
	for i := range fs {
		if fs[i].TorPath() != l.Path(i) || fs[i].Length() != l.Lens[i] {
			return fmt.Errorf("file %d is %q of %d bytes, want %q of %d", i, fs[i].TorPath(), fs[i].Length(), l.Path(i), l.Lens[i])
		}
	}
	for i := int64(0); i < ti.NumPieces(); i++ {
		if ti.PieceHash(i) != l.Hashes()[20*i:20*i+20] {
			return fmt.Errorf("hash of piece %d", i)
		}
	}
	return nil
}

func one(b *run.B, l *tor.Layout) {
	b.Case(func() string { return l.String() }, func() error { return judge(l, nil) })
	b.Distinct(1)
}

func small(b *run.B, pl, first int64, files int) {
	var rec func(lens []int64)
	rec = func(lens []int64) {
		if b.Expired() {
			return
		}
		one(b, tor.New(pl, lens...))
		if len(lens) == files {
			return
		}
		step := int64(1)
		if len(lens) >= 2 && !b.Thorough() {
			step = 2
		}
		for n := int64(0); n <= 6; n += step {
			rec(append(lens[:len(lens):len(lens)], n))
		}
	}
	rec([]int64{first})
}

var bigPls = []int64{16384, 100003, mib, 3 * mib, 5*mib/2 + 1, 5*mib - 1, 5 * mib, 5*mib + 1, 6 * mib, 11*mib + 7, 64 * mib}

func big(b *run.B, pl int64) {
	buf := (5 * mib / pl) * pl
	if buf == 0 {
		buf = pl
	}
	for _, d := range []int64{-1, 0, 1} {
		one(b, tor.New(pl, buf+d))
		one(b, tor.New(pl, 5*mib+d, 1))
		one(b, tor.New(pl, 3, buf+d, 2))
		if buf < 12*mib {
			one(b, tor.New(pl, 2*buf+d))
			one(b, tor.New(pl, pl/2, buf-pl/2+d, 0, buf+1))
		}
		if b.Expired() {
			return
		}
	}
}

// names and nesting
func names(b *run.B) {
	for _, ps := range [][]string{{"a", "b"}, {"d/a", "d/b"}, {"d/e/f/g", "z"}, {"a b", "é"}, {"x.y", "x"}, {"b", "a"}, {"z/1", "a/1", "m/1"}} {
		for _, n := range []string{"tor", "t o r", "a", "é", "x.torrent"} {
			l := tor.New(4, 3, 5, 2)
			l.Lens = l.Lens[:len(ps)]
			l.Content = l.Content[:l.Total()]
			l = &tor.Layout{Name: n, PieceLen: 4, Lens: l.Lens, Paths: ps, Content: l.Content}
			one(b, l)
			one(b, &tor.Layout{Name: n, PieceLen: 4, Lens: []int64{9}, Content: tor.Bytes(9, 1)})
		}
	}
}

// nested: one file, somewhere below the working directory
func nested(b *run.B) {
	for _, p := range []string{"a", "sub/a", "s/u/b/a", "tor/a", "tor/tor", "./a", "sub/../a", "s//a"} {
		for _, name := range []string{"tor", "a", "sub"} {
			for pl := int64(1); pl <= 9; pl++ {
				for _, n := range []int64{0, 1, 8, 9} {
					l, p := &tor.Layout{Name: name, PieceLen: pl, Lens: []int64{n}, Content: tor.Bytes(n, 1)}, p
					b.Case(func() string { return fmt.Sprintf("%v at %q", l, p) }, func() error {
						dir := filepath.Join(run.Scratch, "c")
						defer os.RemoveAll(dir)
						if err := os.MkdirAll(filepath.Join(dir, "sub"), 0700); err != nil {
							panic(err)
						}
						lp := filepath.Join(dir, p)
						if err := os.MkdirAll(filepath.Dir(lp), 0700); err != nil {
							panic(err)
						}
						if err := os.WriteFile(lp, l.Content, 0600); err != nil {
							panic(err)
						}
						ti, err := info.CreateTorInfo([]string{p}, dir, name, pl)
						if err != nil {
							return fmt.Errorf("CreateTorInfo: %v", err)
						}
						if ti.Hashes() != l.Hashes() || ti.Length() != n || ti.Name() != name || !ti.IsSingle() {
							return fmt.Errorf("name %q, %d bytes, hashes %.60x; want %q, %d, %.60x", ti.Name(), ti.Length(), ti.Hashes(), name, n, l.Hashes())
						}
						return nil
					})
					b.Distinct(1)
				}
			}
		}
	}
}

// large: what is written about files of any size is what is loaded.
func large(b *run.B) {
	sizes := []int64{1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1<<33 + 7, 1 << 40, 1<<40 + 3}
	for _, pl := range []int64{1 << 30, 1<<31 - 1, 1<<29 + 1} {
		for n := 1; n <= 2; n++ {
			for i := range sizes {
				for j := range sizes {
					lens := []int64{sizes[i], sizes[j]}[:n]
					if n == 1 && j > 0 {
						continue
					}
					pl := pl
					b.Case(func() string { return fmt.Sprintf("files of %v bytes, pieces of %d", lens, pl) }, func() error { return meta(lens, pl) })
					b.Distinct(1)
				}
			}
		}
	}
}

func meta(lens []int64, pl int64) error {
	l := &tor.Layout{Name: "tor", PieceLen: pl, Lens: lens}
	np := (l.Total() + pl - 1) / pl
	var es []filesd.EntryBase
	for i := range lens {
		e := filesd.MakeFileEntry(l.Path(i), lens[i])
		e.SetLocalPath(l.Local("/w", i))
		es = append(es, e)
	}
	hs := string(tor.Bytes(20*np, 3))
	ti, err := info.NewTorInfo("tor", pl, hs, es)
	if err != nil {
		return fmt.Errorf("NewTorInfo: %v", err)
	}
	enc, err := bencode.Encode(bencode.Dict{"announce": "http://t/a", "info": ti.Bencode()})
	if err != nil {
		return fmt.Errorf("encoding: %v", err)
	}
	tp := filepath.Join(run.Scratch, "m.torrent")
	if err := os.WriteFile(tp, enc, 0600); err != nil {
		panic(err)
	}
	back, err := torrent.FromTorrentFile(tp, "/w")
	if err != nil {
		return fmt.Errorf("loading what was created: %v", err)
	}
	for _, t := range []*info.TorInfo{ti, back.Info()} {
		if t.Length() != l.Total() || t.PieceLen() != pl || t.NumPieces() != np || t.Hashes() != hs || t.LastPieceLen() != l.Total()-(np-1)*pl || len(t.Files()) != len(lens) {
			return fmt.Errorf("length %d, pieces of %d, %d pieces, last %d; want %d, %d, %d, %d", t.Length(), t.PieceLen(), t.NumPieces(), t.LastPieceLen(), l.Total(), pl, np, l.Total()-(np-1)*pl)
		}
		for i, f := range t.Files() {
			if f.Length() != lens[i] {
				return fmt.Errorf("file %d has %d bytes, want %d", i, f.Length(), lens[i])
			}
		}
	}
	return nil
}

func short(b *run.B) {
	for _, l := range []*tor.Layout{tor.New(4, 10, 0, 7), tor.New(1, 5), tor.New(100, 350, 20), tor.New(3*mib, 6*mib+5, 100)} {
		for _, pat := range [][]int{{1}, {2}, {3}, {1, 100}, {7, 1, 2}, {4096}, {65537, 1}, {mib - 1}, {5 * mib}, {3*mib + 1}} {
			if l.Total() > mib && pat[0] < 4096 {
				continue
			}
			l, pat := l, pat
			b.Case(func() string { return fmt.Sprintf("%v, reads of %v bytes", l, pat) }, func() error {
				k := 0
				return judge(l, func(c *vos.Call) vos.Verdict {
					if c.Kind == "read" {
						k++
						return vos.Verdict{N: pat[k%len(pat)]}
					}
					return vos.Verdict{}
				})
			})
			b.Distinct(1)
		}
	}
}

var errFault = errors.New("injected")

// faults: every file operation of creating fails once.
func faults(b *run.B) {
	for _, l := range []*tor.Layout{tor.New(4, 10), tor.New(4, 3, 0, 7), tor.New(2*mib, 5*mib, 3)} {
		for at := 0; at < 40; at++ {
			hit := true
			for _, n := range []int{0, 1} {
				l, at, n := l, at, n
				b.Case(func() string { return fmt.Sprintf("%v, operation %d fails after %d bytes", l, at, n) }, func() error {
					dir := filepath.Join(run.Scratch, "c")
					defer os.RemoveAll(dir)
					paths := setup(l, dir)
					k, what := 0, ""
					vos.Hook = func(c *vos.Call) vos.Verdict {
						k++
						if k-1 == at {
							what = c.Kind
							return vos.Verdict{Err: errFault, N: n}
						}
						return vos.Verdict{}
					}
					_, err := info.CreateTorInfo(paths, dir, l.Name, l.PieceLen)
					vos.Hook = nil
					hit = what != ""
					if what != "" && what != "close" && err == nil {
						return fmt.Errorf("a failing %s gives no error", what)
					}
					return nil
				})
				b.Distinct(1)
			}
			if !hit {
				break
			}
		}
	}
}

func refused(b *run.B) {
	for _, pl := range []int64{0, -1, -2, -16384, -1 << 31, -1 << 63, -5 * mib} {
		for _, lens := range [][]int64{{0}, {5}, {3, 4}} {
			pl, lens := pl, lens
			b.Case(func() string { return fmt.Sprintf("files %v, piece length %d", lens, pl) }, func() error {
				l := tor.New(3, lens...)
				dir := filepath.Join(run.Scratch, "c")
				defer os.RemoveAll(dir)
				if _, err := info.CreateTorInfo(setup(l, dir), dir, l.Name, pl); err == nil {
					return fmt.Errorf("no error")
				}
				return nil
			})
			b.Distinct(1)
		}
	}
	for _, kind := range []string{"absent", "folder", "under file"} {
		for n := 1; n <= 3; n++ {
			for at := 0; at < n; at++ {
				kind, n, at := kind, n, at
				b.Case(func() string { return fmt.Sprintf("file %d of %d is %s", at, n, kind) }, func() error {
					l := tor.New(3, []int64{4, 5, 6}[:n]...)
					dir := filepath.Join(run.Scratch, "c")
					defer os.RemoveAll(dir)
					paths := setup(l, dir)
					p := l.Local(dir, at)
					_ = os.Remove(p)
					switch kind {
					case "folder":
						_ = os.Mkdir(p, 0700)
					case "under file":
						_ = os.WriteFile(p, nil, 0600)
						paths[at] += "/x"
					}
					_, err := info.CreateTorInfo(paths, dir, l.Name, 3)
					if err == nil {
						return fmt.Errorf("no error")
					}
					return nil
				})
				b.Distinct(1)
			}
		}
	}
}
