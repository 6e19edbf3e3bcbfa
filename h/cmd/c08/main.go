// C08: concurrent piece I/O is isolated. Threads read and write different
// pieces through the real FileIO; every file operation and lock is a
// scheduling point; the files are judged byte for byte.
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
)

func main() {
	run.Main(run.Spec{
		ID:    "C08",
		Level: "model_checking",
		Rule:  "layouts with pieces inside one file, sharing files and spanning up to four; all programs of 1 or 2 operations (read or write of a piece, no piece written by one thread is touched by another) for two threads and all triples of single operations for three; two and three threads of which some write the same piece; every schedule up to the preemption bound; each read must return exactly its piece, each write exactly take effect, and in the end every byte of every file is as it should be and reads say so",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for k := range layouts(tier) {
				k := k
				for j := 0; j < 4; j++ {
					j := j
					bs = append(bs, run.Block{Name: fmt.Sprintf("two/%d/%d", k, j), Fn: func(b *run.B) { two(b, layouts(tier)[k], j) }})
				}
				bs = append(bs, run.Block{Name: fmt.Sprintf("same/%d", k), Fn: func(b *run.B) { same(b, layouts(tier)[k]) }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("three/%d", k), Fn: func(b *run.B) { three(b, layouts(tier)[k]) }})
			}
			return bs
		},
	})
}

var lays []*tor.Layout

func layouts(tier string) []*tor.Layout {
	if lays == nil {
		lays = []*tor.Layout{tor.New(4, 6, 3), tor.New(4, 11), tor.New(4, 2, 2, 3, 1, 2), tor.New(3, 1, 1, 2, 0, 5)}
		if tier == "thorough" {
			lays = append(lays, tor.New(2, 1, 2, 2, 2, 1), tor.New(6, 2, 10, 5))
		}
	}
	return lays
}

type op struct {
	w bool
	i int64
}

func (o op) String() string {
	if o.w {
		return fmt.Sprintf("write %d", o.i)
	}
	return fmt.Sprintf("read %d", o.i)
}

// compatible: what one thread writes no other touches.
func compatible(ts [][]op) bool {
	for a := range ts {
		for b := range ts {
			if a == b {
				continue
			}
			for _, o := range ts[a] {
				for _, q := range ts[b] {
					if o.i == q.i && (o.w || q.w) {
						return false
					}
				}
			}
		}
	}
	return true
}

func junk(l *tor.Layout, i int64) []byte {
	d := append([]byte(nil), l.Piece(i)...)
	for k := range d {
		d[k] ^= 0xa5
	}
	return d
}

var disks = map[*tor.Layout]*sim.Disk{}

func scenario(b *run.B, l *tor.Layout, ts [][]op, bound int) {
	d := disks[l]
	if d == nil {
		d = sim.NewDisk(l, nil)
		disks[l] = d
	}
	vos.Sched = true
	// pieces that are written start as junk
	written := map[int64]bool{}
	for _, t := range ts {
		for _, o := range t {
			if o.w {
				written[o.i] = true
			}
		}
	}
	shared := !compatible(ts)
	start := append([]byte(nil), l.Content...)
	for i := range written {
		lo, _ := l.Range(i)
		copy(start[lo:], junk(l, i))
	}
	body, oracle := sim.Body(func(t *sim.T) {
		off := int64(0)
		for f, n := range l.Lens {
			if err := overwrite(d.Path(f), start[off:off+n]); err != nil {
				t.Failf("harness: %v", err)
				return
			}
			off += n
		}
		done := make([]bool, len(ts))
		for k, ops := range ts {
			k, ops := k, ops
			vs.GoNamed(fmt.Sprintf("t%d", k), func() {
				have := map[int64]bool{}
				for _, o := range ops {
					if o.w {
						n, err := d.F.WritePiece(o.i, append([]byte(nil), l.Piece(o.i)...))
						if err != nil || n != int64(len(l.Piece(o.i))) {
							t.Failf("%v: %d, %v", o, n, err)
						}
						have[o.i] = true
						continue
					}
					buf := bytes.Repeat([]byte{0xee}, int(l.PieceLen))
					n, err := d.F.ReadPiece(o.i, buf)
					want := l.Piece(o.i)
					if written[o.i] && !have[o.i] {
						want = junk(l, o.i)
						if shared {
							// another thread writes it right now
							for x := 0; x < len(want) && int64(x) < n; x++ {
								if buf[x] == l.Piece(o.i)[x] {
									want[x] = buf[x]
								}
							}
						}
					}
					if err != nil || n != int64(len(want)) || !bytes.Equal(buf[:len(want)], want) {
						t.Failf("%v: %x, %d, %v; the piece is %x", o, buf, n, err, want)
					}
				}
				done[k] = true
			})
		}
		vs.Settle()
		for k := range done {
			if !done[k] {
				t.Failf("thread %d has not ended", k)
			}
		}
		off = 0
		for f, n := range l.Lens {
			got, err := os.ReadFile(d.Path(f))
			if err != nil || !bytes.Equal(got, l.Content[off:off+n]) {
				t.Failf("file %d is %x (%v), should be %x", f, got, err, l.Content[off:off+n])
			}
			off += n
		}
		// and whoever reads from now on gets that
		vos.Sched = false
		for i := range written {
			buf := make([]byte, l.PieceLen)
			n, err := d.F.ReadPiece(i, buf)
			if want := l.Piece(i); err != nil || !bytes.Equal(buf[:n], want) {
				t.Failf("in the end, read %d: %x, %d, %v; the piece is %x", i, buf, n, err, want)
			}
		}
		vos.Sched = true
	})
	var s []string
	for _, t := range ts {
		s = append(s, fmt.Sprint(t))
	}
	b.Explore(fmt.Sprintf("pieces of %d, files %v: %s", l.PieceLen, l.Lens, strings.Join(s, " || ")), vs.Config{Bound: bound}, body, oracle)
}

// overwrite keeps the file (it is open) and its length.
func overwrite(p string, d []byte) error {
	f, err := os.OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(int64(len(d))); err != nil {
		return err
	}
	_, err = f.WriteAt(d, 0)
	return err
}

func singles(l *tor.Layout) []op {
	var out []op
	for i := int64(0); i < l.NumPieces(); i++ {
		out = append(out, op{true, i}, op{false, i})
	}
	return out
}

func two(b *run.B, l *tor.Layout, part int) {
	bound := 3
	if b.Thorough() {
		bound = 6
	}
	if vs.RaceEnabled {
		bound--
	}
	var progs [][]op
	for _, o := range singles(l) {
		progs = append(progs, []op{o})
	}
	for _, o := range singles(l) {
		for _, q := range singles(l) {
			if l.NumPieces() <= 3 || b.Thorough() || o.i != q.i {
				progs = append(progs, []op{o, q})
			}
		}
	}
	n := 0
	for i, p := range progs {
		for _, q := range progs[i:] {
			ts := [][]op{p, q}
			if !compatible(ts) {
				continue
			}
			if len(p) == 2 && len(q) == 2 && !b.Thorough() && (p[0].i+q[1].i)%2 == 0 {
				continue
			}
			if n++; n%4 != part {
				continue
			}
			if b.Expired() {
				return
			}
			scenario(b, l, ts, bound)
		}
	}
}

// same: two or three threads on the same piece, one of them writing it.
func same(b *run.B, l *tor.Layout) {
	bound := 2
	if b.Thorough() {
		bound = 3
	}
	if vs.RaceEnabled {
		bound--
	}
	for i := int64(0); i < l.NumPieces(); i++ {
		w, r := op{true, i}, op{false, i}
		sets := [][][]op{{{w}, {r}}, {{w}, {w}}, {{w}, {r}, {r}}, {{w}, {w}, {r}}, {{w, r}, {r, w}}, {{w, w}, {r, r}}, {{r, w}, {r, w}}}
		for j := int64(0); j < l.NumPieces(); j++ {
			if j != i && (j == i+1 || j == i-1) {
				v, q := op{true, j}, op{false, j}
				sets = append(sets, [][]op{{w, v}, {v, w}}, [][]op{{w, q}, {v, r}}, [][]op{{w}, {r}, {v}}, [][]op{{w}, {r}, {q}})
			}
		}
		for _, ts := range sets {
			if b.Expired() {
				return
			}
			scenario(b, l, ts, bound)
		}
	}
}

func three(b *run.B, l *tor.Layout) {
	bound := 2
	if b.Thorough() {
		bound = 3
	}
	if vs.RaceEnabled {
		bound--
	}
	ss := singles(l)
	for i, o := range ss {
		for j, q := range ss[i:] {
			for _, r := range ss[i+j:] {
				ts := [][]op{{o}, {q}, {r}}
				if compatible(ts) && !b.Expired() {
					scenario(b, l, ts, bound)
				}
			}
		}
	}
}
