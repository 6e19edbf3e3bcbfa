// C07: piece storage behaves like the torrent's flat byte array. For every
// small layout the reachable states of the flat-array model are explored, and
// every operation from each is run on the real storage with real files.
package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/zv/vos"
	"vh/run"
	"vh/tor"
)

func main() {
	run.Main(run.Spec{
		ID:     "C07",
		Level:  "model_checking",
		Rule:   "for every layout of 1..3 (thorough 4) files of 0..4 bytes with piece lengths 1..5 and 3 initial disk contents: every reachable set of written pieces (up to 64) as a state, and from each every write with right data, every write with every wrong data of a catalogue, every read, out-of-range indices; every single file operation of every write and read failing after every kind of partial effect; every close and rename failing; hashes that differ from the data's in one byte, at every position; histories of all operation sequences to depth 4 on 4 layouts; layouts beyond 2^32 bytes on sparse files. After every operation all files are compared with the flat array",
		Note:   []string{"buffers passed to reads hold at least a piece", "nothing else changes the files"},
		Budget: 100_000_000,
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			files := 3
			if tier == "thorough" {
				files = 4
			}
			for pl := int64(1); pl <= 5; pl++ {
				for n := int64(0); n <= 4; n++ {
					pl, n := pl, n
					bs = append(bs, run.Block{Name: fmt.Sprintf("layouts/%d/%d", pl, n), Fn: func(b *run.B) { layouts(b, pl, n, files) }})
				}
			}
			for i := range histLayouts() {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("histories/%d", i), Fn: func(b *run.B) { histories(b, histLayouts()[i]) }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("faults/%d", i), Fn: func(b *run.B) { faults(b, histLayouts()[i]) }})
			}
			bs = append(bs, run.Block{Name: "unopened", Fn: unopened}, run.Block{Name: "closed", Fn: closed}, run.Block{Name: "closing", Fn: closing}, run.Block{Name: "hashes", Fn: hashes})
			for i := 0; i < 3; i++ {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("sparse/%d", i), Fn: func(b *run.B) { sparse(b, i) }})
			}
			return bs
		},
	})
}

func histLayouts() []*tor.Layout {
	return []*tor.Layout{tor.New(3, 7), tor.New(3, 4, 0, 1, 5), tor.New(2, 1, 1, 1, 2), tor.New(5, 0, 3, 3, 3, 0), tor.New(16384, 40000, 1, 9000)}
}

type world struct {
	l    *tor.Layout
	dir  string
	ti   *info.TorInfo
	f    *fileio.FileIO
	flat []byte
}

// initial contents: zeros, garbage, or the torrent's content with every other
// byte wrong.
func initial(l *tor.Layout, kind int) []byte {
	d := make([]byte, l.Total())
	switch kind {
	case 1:
		copy(d, tor.Bytes(l.Total(), 99))
	case 2:
		copy(d, l.Content)
		for i := 0; i < len(d); i += 2 {
			d[i] ^= 0x55
		}
	}
	return d
}

func open(l *tor.Layout, kind int) (*world, error) {
	w := &world{l: l, dir: filepath.Join(run.Scratch, "w"), flat: initial(l, kind)}
	var err error
	if w.ti, err = l.Info(w.dir); err != nil {
		return nil, err
	}
	off := int64(0)
	for i, n := range l.Lens {
		p := l.Local(w.dir, i)
		if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, w.flat[off:off+n], 0600); err != nil {
			panic(err)
		}
		off += n
	}
	w.f = fileio.NewFileIO(w.ti)
	if err := w.f.OCATAll(w.ti.Files()); err != nil {
		w.close()
		return nil, err
	}
	return w, nil
}

func (w *world) close() {
	_ = w.f.CloseAll()
	_ = os.RemoveAll(w.dir)
}

func (w *world) disk() ([]byte, error) {
	var all []byte
	for i, n := range w.l.Lens {
		d, err := os.ReadFile(w.l.Local(w.dir, i))
		if err != nil {
			return nil, err
		}
		if int64(len(d)) != n {
			return nil, fmt.Errorf("file %d has %d bytes, want %d", i, len(d), n)
		}
		all = append(all, d...)
	}
	return all, nil
}

func (w *world) same() error {
	d, err := w.disk()
	if err != nil {
		return err
	}
	if !bytes.Equal(d, w.flat) {
		for i := range d {
			if d[i] != w.flat[i] {
				return fmt.Errorf("byte %d of the content is %d on disk, want %d", i, d[i], w.flat[i])
			}
		}
	}
	return nil
}

type op struct {
	k string // write, bad, read
	i int64
	v int
}

func (o op) String() string { return fmt.Sprintf("%s(%d)#%d", o.k, o.i, o.v) }

// wrong data for piece i.
func wrong(l *tor.Layout, i int64, v int) []byte {
	p := append([]byte{}, l.Piece(i)...)
	switch v {
	case 0:
		p[0] ^= 1
	case 1:
		p[len(p)-1] ^= 0x80
	case 2:
		p = p[:len(p)-1]
	case 3:
		p = append(p, 0)
	case 4:
		p = nil
	case 5:
		p = append([]byte{}, l.Content...)
		if l.NumPieces() == 1 {
			p = append(p, 7)
		}
	case 6: // another piece's data
		if l.NumPieces() > 1 {
			p = append([]byte{}, l.Piece((i+1)%l.NumPieces())...)
		} else {
			p[0]++
		}
	case 7: // padded to the full piece length
		for int64(len(p)) < l.PieceLen {
			p = append(p, 0)
		}
		if bytes.Equal(p, l.Piece(i)) {
			p = append(p, p...)
		}
	case 8:
		p = make([]byte, len(p))
		if bytes.Equal(p, l.Piece(i)) {
			p[0] = 1
		}
	}
	return p
}

const nWrong = 9

func (w *world) apply(o op) error {
	l := w.l
	switch o.k {
	case "write":
		data := append([]byte{}, l.Piece(o.i)...)
		n, err := w.f.WritePiece(o.i, data)
		if err != nil {
			return fmt.Errorf("writing the right data: %v", err)
		}
		if n != int64(len(data)) {
			return fmt.Errorf("writing %d bytes says %d", len(data), n)
		}
		if !bytes.Equal(data, l.Piece(o.i)) {
			return fmt.Errorf("writing changed the caller's data")
		}
		lo, hi := l.Range(o.i)
		copy(w.flat[lo:hi], data)
	case "bad":
		data := wrong(l, o.i, o.v)
		if h := sha1.Sum(data); string(h[:]) == w.ti.PieceHash(o.i) {
			return nil // not wrong after all
		}
		if _, err := w.f.WritePiece(o.i, data); err == nil {
			return fmt.Errorf("writing wrong data (%d bytes) succeeds", len(data))
		}
	case "read":
		lo, hi := l.Range(o.i)
		buf := bytes.Repeat([]byte{0xee}, int(l.PieceLen)+o.v)
		n, err := w.f.ReadPiece(o.i, buf)
		if err != nil {
			return fmt.Errorf("reading: %v", err)
		}
		if n != hi-lo || !bytes.Equal(buf[:n], w.flat[lo:hi]) {
			return fmt.Errorf("reading gives %d bytes %.40x, want %d bytes %.40x", n, buf[:min(n, int64(len(buf)))], hi-lo, w.flat[lo:hi])
		}
	}
	return w.same()
}

func min(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (w *world) outside() error {
	np := w.l.NumPieces()
	buf := make([]byte, w.l.PieceLen+8)
	for _, i := range []int64{-1, -2, np, np + 1, np + 1000, 1 << 31, 1 << 32, 1<<63 - 1, -1 << 63} {
		if n, err := w.f.ReadPiece(i, buf); err == nil {
			return fmt.Errorf("reading piece %d of %d gives %d bytes", i, np, n)
		}
		for _, d := range [][]byte{nil, {}, w.l.Content, buf} {
			if _, err := w.f.WritePiece(i, d); err == nil {
				return fmt.Errorf("writing piece %d of %d succeeds", i, np)
			}
		}
	}
	return w.same()
}

func layouts(b *run.B, pl, first int64, files int) {
	var rec func(lens []int64)
	rec = func(lens []int64) {
		if b.Expired() {
			return
		}
		l := tor.New(pl, lens...)
		if l.Total() > 0 {
			for kind := 0; kind < 3; kind++ {
				states(b, l, kind)
			}
		}
		if len(lens) == files {
			return
		}
		for n := int64(0); n <= 4; n++ {
			rec(append(lens[:len(lens):len(lens)], n))
		}
	}
	rec([]int64{first})
}

// states: all sets of written pieces reached from one world, every operation
// in each. The files only depend on the set, which same() verifies, so each
// state is visited on one set of open files.
func states(b *run.B, l *tor.Layout, kind int) {
	np := l.NumPieces()
	full := int64(1) << uint(np)
	if full > 64 {
		full = 64
	}
	b.Case(func() string { return fmt.Sprintf("%v, initial content %d", l, kind) }, func() error {
		w, err := open(l, kind)
		if err != nil {
			return err
		}
		defer w.close()
		if err := w.outside(); err != nil {
			return err
		}
		trans := int64(0)
		for s := int64(0); s < full; s++ {
			// bring the world to state s: restore the disk, then write
			w.flat = initial(l, kind)
			off := int64(0)
			for i, n := range l.Lens {
				if n > 0 {
					f, err := os.OpenFile(l.Local(w.dir, i), os.O_WRONLY, 0)
					if err != nil {
						return err
					}
					_, _ = f.WriteAt(w.flat[off:off+n], 0)
					f.Close()
				}
				off += n
			}
			for i := int64(0); i < np; i++ {
				k := i
				if s%2 == 1 {
					k = np - 1 - i
				}
				if s>>uint(k)&1 == 1 {
					if err := w.apply(op{"write", k, 0}); err != nil {
						return fmt.Errorf("state %b, write(%d): %v", s, k, err)
					}
				}
			}
			for i := int64(0); i < np; i++ {
				for v := 0; v < nWrong; v++ {
					trans++
					if err := w.apply(op{"bad", i, v}); err != nil {
						return fmt.Errorf("state %b, wrong data %d for %d: %v", s, v, i, err)
					}
				}
				for _, v := range []int{0, 7} {
					trans++
					if err := w.apply(op{"read", i, v}); err != nil {
						return fmt.Errorf("state %b, read(%d): %v", s, i, err)
					}
				}
			}
			for i := int64(0); i < np; i++ {
				trans++
				if err := w.apply(op{"write", i, 0}); err != nil {
					return fmt.Errorf("state %b, write(%d): %v", s, i, err)
				}
				if err := w.apply(op{"read", i, 1}); err != nil {
					return fmt.Errorf("state %b, write(%d), read: %v", s, i, err)
				}
			}
		}
		b.States(full)
		b.Transitions(trans)
		b.Traces(full)
		return nil
	})
}

// histories: all operation sequences.
func histories(b *run.B, l *tor.Layout) {
	depth := 4
	if l.Total() > 100 {
		depth = 3
	}
	if b.Thorough() {
		depth++
	}
	var ops []op
	for i := int64(0); i < l.NumPieces() && i < 4; i++ {
		ops = append(ops, op{"write", i, 0}, op{"bad", i, 1}, op{"read", i, 3})
	}
	var rec func(seq []op)
	rec = func(seq []op) {
		if b.Expired() {
			return
		}
		if len(seq) == depth {
			seq := append([]op{}, seq...)
			b.Case(func() string { return fmt.Sprintf("%v: %v", l, seq) }, func() error {
				w, err := open(l, 1)
				if err != nil {
					return err
				}
				defer w.close()
				for i, o := range seq {
					if err := w.apply(o); err != nil {
						return fmt.Errorf("step %d %v: %v", i+1, o, err)
					}
				}
				return nil
			})
			b.Transitions(int64(depth))
			b.Traces(1)
			return
		}
		for _, o := range ops {
			rec(append(seq[:len(seq):len(seq)], o))
		}
	}
	rec(nil)
}

// faults: every file operation of every write and read fails in every way.
func faults(b *run.B, l *tor.Layout) {
	for i := int64(0); i < l.NumPieces(); i++ {
		for _, k := range []string{"write", "read"} {
			for _, e := range []error{syscall.EIO, syscall.ENOSPC} {
				for part := 0; part < 4; part++ {
					hit := true
					for at := 0; hit && at < 20; at++ {
						i, k, e, part, at := i, k, e, part, at
						b.Case(func() string {
							return fmt.Sprintf("%v: %s(%d), operation %d fails with %v, part %d", l, k, i, at, e, part)
						}, func() error {
							w, err := open(l, 1)
							if err != nil {
								return err
							}
							defer w.close()
							n := 0
							hit = false
							vos.Hook = func(c *vos.Call) vos.Verdict {
								n++
								if n-1 != at {
									return vos.Verdict{}
								}
								hit = true
								p := []int{0, 1, int(c.Len / 2), int(c.Len) - 1}[part]
								if p < 0 || int64(p) >= c.Len {
									p = 0
								}
								return vos.Verdict{Err: e, N: p}
							}
							if k == "write" {
								_, err = w.f.WritePiece(i, append([]byte{}, l.Piece(i)...))
							} else {
								_, err = w.f.ReadPiece(i, make([]byte, l.PieceLen))
							}
							vos.Hook = nil
							if !hit {
								if err != nil {
									return fmt.Errorf("nothing failed, but: %v", err)
								}
								return nil
							}
							if err == nil {
								return fmt.Errorf("reported as success")
							}
							d, err := w.disk()
							if err != nil {
								return err
							}
							lo, hi := l.Range(i)
							for x := range d {
								if int64(x) >= lo && int64(x) < hi && k == "write" {
									if d[x] != w.flat[x] && d[x] != l.Content[x] {
										return fmt.Errorf("byte %d is neither old nor new", x)
									}
								} else if d[x] != w.flat[x] {
									return fmt.Errorf("byte %d outside the piece changed", x)
								}
							}
							// afterwards everything works
							copy(w.flat[lo:hi], d[lo:hi])
							for j := int64(0); j < l.NumPieces(); j++ {
								if err := w.apply(op{"read", j, 0}); err != nil {
									return fmt.Errorf("afterwards, read(%d): %v", j, err)
								}
							}
							if err := w.apply(op{"write", i, 0}); err != nil {
								return fmt.Errorf("afterwards, write(%d): %v", i, err)
							}
							return nil
						})
						b.Transitions(1)
						b.Traces(1)
					}
				}
			}
		}
	}
}

// unopened files give errors.
func unopened(b *run.B) {
	for _, l := range histLayouts() {
		l := l
		b.Case(func() string { return fmt.Sprintf("%v, files never opened", l) }, func() error {
			ti, err := l.Info(filepath.Join(run.Scratch, "never"))
			if err != nil {
				return err
			}
			f := fileio.NewFileIO(ti)
			for i := int64(0); i < l.NumPieces(); i++ {
				if _, err := f.ReadPiece(i, make([]byte, l.PieceLen)); err == nil {
					return fmt.Errorf("reading piece %d succeeds", i)
				}
				if _, err := f.WritePiece(i, l.Piece(i)); err == nil {
					return fmt.Errorf("writing piece %d succeeds", i)
				}
			}
			return nil
		})
	}
}

// closed files and files cut short behind our back give errors.
func closed(b *run.B) {
	for _, l := range histLayouts() {
		for f := range l.Lens {
			if l.Lens[f] == 0 {
				continue
			}
			for _, how := range []string{"close", "truncate"} {
				l, f, how := l, f, how
				b.Case(func() string { return fmt.Sprintf("%v, file %d: %s", l, f, how) }, func() error {
					w, err := open(l, 0)
					if err != nil {
						return err
					}
					defer w.close()
					p := l.Local(w.dir, f)
					if how == "close" {
						if err := w.f.Close(p); err != nil {
							return err
						}
					} else if err := os.Truncate(p, 0); err != nil {
						return err
					}
					lo := int64(0)
					for k := 0; k < f; k++ {
						lo += l.Lens[k]
					}
					for i := int64(0); i < l.NumPieces(); i++ {
						plo, phi := l.Range(i)
						touches := plo < lo+l.Lens[f] && phi > lo
						_, err := w.f.ReadPiece(i, make([]byte, l.PieceLen))
						if (err != nil) != touches {
							return fmt.Errorf("reading piece %d: %v", i, err)
						}
						if how == "close" {
							_, err = w.f.WritePiece(i, append([]byte{}, l.Piece(i)...))
							if (err != nil) != touches {
								return fmt.Errorf("writing piece %d: %v", i, err)
							}
						}
					}
					return nil
				})
			}
		}
	}
}

// closing: a close or rename that fails is reported.
func closing(b *run.B) {
	for _, l := range histLayouts() {
		for f := range l.Lens {
			for _, how := range []string{"CloseAll", "Close", "Move"} {
				for _, e := range []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT} {
					for _, fail := range []bool{true, false} {
						l, f, how, e, fail := l, f, how, e, fail
						b.Case(func() string { return fmt.Sprintf("%v: %s, file %d fails with %v: %v", l, how, f, e, fail) }, func() error {
							w, err := open(l, 1)
							if err != nil {
								return err
							}
							defer w.close()
							p := l.Local(w.dir, f)
							hit := false
							vos.Hook = func(c *vos.Call) vos.Verdict {
								if fail && c.Path == p && (c.Kind == "close" || c.Kind == "sync" || c.Kind == "rename") {
									hit = true
									return vos.Verdict{Err: e}
								}
								return vos.Verdict{}
							}
							switch how {
							case "CloseAll":
								err = w.f.CloseAll()
							case "Close":
								err = w.f.Close(p)
							case "Move":
								err = w.f.Move(p, p+".moved")
							}
							vos.Hook = nil
							if hit && err == nil {
								return fmt.Errorf("reported as success")
							}
							if !hit && err != nil {
								return fmt.Errorf("nothing failed, but: %v", err)
							}
							if how == "Move" && fail == (err == nil) {
								return fmt.Errorf("Move: %v", err)
							}
							return nil
						})
						b.Transitions(1)
						b.Traces(1)
					}
				}
			}
		}
	}
}

// hashes: the torrent's hashes are those of the data but for one byte.
func hashes(b *run.B) {
	for _, l := range []*tor.Layout{tor.New(4, 11), tor.New(3, 2, 4, 1)} {
		for k := int64(0); k < 20*l.NumPieces(); k++ {
			for _, x := range []byte{1, 0x20, 0x80, 0xff} {
				l, k, x := l, k, x
				b.Case(func() string { return fmt.Sprintf("%v: hash %d has byte %d changed by %#x", l, k/20, k%20, x) }, func() error {
					w, err := open(l.Alter(k, x), 1)
					if err != nil {
						return err
					}
					defer w.close()
					for i := int64(0); i < l.NumPieces(); i++ {
						lo, hi := l.Range(i)
						n, err := w.f.WritePiece(i, append([]byte{}, l.Piece(i)...))
						if i == k/20 {
							if err == nil {
								return fmt.Errorf("piece %d, which does not match its hash, is written: %d, %v", i, n, err)
							}
							continue
						}
						if err != nil || n != hi-lo {
							return fmt.Errorf("writing piece %d: %d, %v", i, n, err)
						}
						copy(w.flat[lo:hi], l.Content[lo:hi])
					}
					return w.same()
				})
				b.Transitions(1)
				b.Traces(1)
			}
		}
	}
}

// sparse: pieces around 2^31 and 2^32.
func sparse(b *run.B, which int) {
	pl := []int64{1 << 20, 1<<22 + 3, 3 << 20}[which]
	lens := [][]int64{{1<<32 + 5<<20 + 5, 7}, {1<<31 - 1, 1 << 31, 1<<22 + 9}, {3, 1<<32 + 1, 1 << 21}}[which]
	total := int64(0)
	for _, n := range lens {
		total += n
	}
	np := (total + pl - 1) / pl
	zero := sha1.Sum(make([]byte, pl))
	marks := map[int64][]byte{}
	for _, at := range []int64{0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, total - 1, lens[0] - 1, lens[0]} {
		for d := int64(-1); d <= 1; d++ {
			i := at/pl + d
			if i >= 0 && i < np {
				n := pl
				if i == np-1 {
					n = total - i*pl
				}
				marks[i] = tor.Bytes(n, int(i)+5)
			}
		}
	}
	var hs strings.Builder
	for i := int64(0); i < np; i++ {
		h := zero
		if d, ok := marks[i]; ok {
			h = sha1.Sum(d)
		}
		hs.Write(h[:])
	}
	b.Case(func() string { return fmt.Sprintf("files %v, piece length %d, pieces around the boundaries", lens, pl) }, func() error {
		dir := filepath.Join(run.Scratch, "s")
		defer os.RemoveAll(dir)
		_ = os.MkdirAll(dir, 0700)
		var es []filesd.EntryBase
		for i, n := range lens {
			p := filepath.Join(dir, fmt.Sprint(i))
			if err := os.WriteFile(p, nil, 0600); err != nil {
				return err
			}
			if err := os.Truncate(p, n); err != nil {
				return err
			}
			e := filesd.MakeFileEntry(fmt.Sprint(i), n)
			e.SetLocalPath(p)
			es = append(es, e)
		}
		ti, err := info.NewTorInfo("t", pl, hs.String(), es)
		if err != nil {
			return err
		}
		f := fileio.NewFileIO(ti)
		defer f.CloseAll()
		if err := f.OCATAll(ti.Files()); err != nil {
			return err
		}
		buf := make([]byte, pl)
		var order []int64
		for i := int64(0); i < np; i++ {
			if marks[i] != nil {
				order = append(order, i)
			}
		}
		for _, i := range order {
			n, err := f.WritePiece(i, append([]byte{}, marks[i]...))
			if err != nil || n != int64(len(marks[i])) {
				return fmt.Errorf("writing piece %d: %d, %v", i, n, err)
			}
		}
		for _, i := range order {
			n, err := f.ReadPiece(i, buf)
			if err != nil || !bytes.Equal(buf[:n], marks[i]) {
				return fmt.Errorf("reading piece %d: %d, %v, or other bytes", i, n, err)
			}
			for d := int64(-1); d <= 1; d++ { // neighbours stay zero
				j := i + d
				if j < 0 || j >= np-1 || marks[j] != nil {
					continue
				}
				n, err := f.ReadPiece(j, buf)
				if err != nil || n != pl {
					return fmt.Errorf("reading piece %d: %d, %v", j, n, err)
				}
				for _, c := range buf {
					if c != 0 {
						return fmt.Errorf("piece %d, next to %d, is not zero", j, i)
					}
				}
			}
		}
		// flat comparison at the marks, straight from the files
		for _, i := range order {
			at := i * pl
			got := make([]byte, 0, pl)
			off := int64(0)
			for k, n := range lens {
				lo, hi := at, at+int64(len(marks[i]))
				if lo < off {
					lo = off
				}
				if hi > off+n {
					hi = off + n
				}
				if lo < hi {
					fp, err := os.Open(filepath.Join(dir, fmt.Sprint(k)))
					if err != nil {
						return err
					}
					part := make([]byte, hi-lo)
					_, err = fp.ReadAt(part, lo-off)
					fp.Close()
					if err != nil {
						return err
					}
					got = append(got, part...)
				}
				off += n
			}
			if !bytes.Equal(got, marks[i]) {
				return fmt.Errorf("piece %d is not where it belongs", i)
			}
		}
		for k, n := range lens {
			if st, err := os.Stat(filepath.Join(dir, fmt.Sprint(k))); err != nil || st.Size() != n {
				return fmt.Errorf("file %d changed its size", k)
			}
		}
		return nil
	})
	b.Transitions(int64(2 * len(marks)))
}
