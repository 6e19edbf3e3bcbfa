// C10: startup knows exactly which pieces are on disk. The real startup runs
// on every reachable on-disk state of small torrents (starting, writing pieces,
// crashing in the middle of either with torn and lost writes, to a fixpoint)
// and on every combination of damaged pieces and odd file sizes.
package main

import (
	"bytes"
	"crypto/sha1"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"gotor/p2p"
	"gotor/swarm"
	"gotor/zv/vos"
	"vh/run"
	"vh/sw"
	"vh/tor"
	"vh/trk"
)

func main() {
	run.Main(run.Spec{
		ID:    "C10",
		Level: "model_checking",
		Rule:  "for each small layout, every on-disk state reachable from nothing, garbage and over-long files by any number of startups and piece writes, each completed or cut short by a crash (every subset of the writes lost, the last one torn at every byte): startup on the real code, then resuming to completion; every combination of per-piece damage {none, zeroed, first byte, last byte wrong} and per-file shape {as is, missing, cut, emptied, grown}; every file operation of a startup failing; torrents whose hashes differ from the data's in one byte, at every position; pieces of up to 70000 bytes that are themselves constant throughout, at one end, at both or in the middle, held and damaged; torrents of 9 to 70001 pieces",
		Note:  []string{"a crash loses any subset of the writes since the last start, and creation of a file is not lost while its data is kept", "the client never syncs, so no write is taken to be durable"},
		Blocks: func(tier string) []run.Block {
			th := tier == "thorough"
			var bs []run.Block
			for _, l := range reachLayouts(th) {
				l := l
				bs = append(bs, run.Block{Name: "reach/" + name(l), Fn: func(b *run.B) { reach(b, l) }})
				bs = append(bs, run.Block{Name: "faults/" + name(l), Fn: func(b *run.B) { faults(b, l) }})
			}
			for _, l := range damageLayouts(th) {
				n := int(l.NumPieces())
				for k := 0; k < 4; k++ {
					for k2 := 0; k2 < 4; k2++ {
						l, k, k2 := l, k, k2
						if n < 2 && k2 > 0 {
							continue
						}
						bs = append(bs, run.Block{Name: fmt.Sprintf("damage/%s/%d%d", name(l), k, k2), Fn: func(b *run.B) { damage(b, l, k, k2) }})
					}
				}
			}
			bs = append(bs, run.Block{Name: "hashes", Fn: hashes})
			for _, pl := range []int64{64, 4097, 16384, 70000} {
				pl := pl
				bs = append(bs, run.Block{Name: fmt.Sprintf("content/%d", pl), Fn: func(b *run.B) { content(b, pl) }})
			}
			for _, n := range []int64{9, 63, 64, 65, 255, 256, 257, 70001} {
				n := n
				bs = append(bs, run.Block{Name: fmt.Sprintf("many/%d", n), Fn: func(b *run.B) { many(b, n) }})
			}
			return bs
		},
	})
}

func name(l *tor.Layout) string {
	s := fmt.Sprintf("%v/%d", l.Lens, l.PieceLen)
	return strings.ReplaceAll(s, " ", ",") + l.Name
}

func lay(pl int64, lens ...int64) *tor.Layout {
	l := tor.New(pl, lens...)
	l.Name = "t"
	if len(lens) > 1 {
		l.Paths = []string{"a", "b/c", "b/d", "e"}[:len(lens)]
	}
	return l
}

// zeroed makes piece i of the torrent itself all zeros.
func zeroed(l *tor.Layout, i int64) *tor.Layout {
	lo, hi := l.Range(i)
	for k := lo; k < hi; k++ {
		l.Content[k] = 0
	}
	l.Name = "z"
	return l
}

// same makes all full pieces of the torrent equal.
func same(l *tor.Layout) *tor.Layout {
	for i := l.PieceLen; i < l.Total(); i++ {
		l.Content[i] = l.Content[i-l.PieceLen]
	}
	l.Name = "s"
	return l
}

func reachLayouts(th bool) []*tor.Layout {
	ls := []*tor.Layout{
		lay(2, 3), lay(8, 3), lay(1, 3), lay(2, 3, 2), lay(4, 2, 1, 3), lay(3, 1, 0, 4), lay(2, 0, 3), lay(2, 3, 0),
		zeroed(lay(2, 3, 2), 1), zeroed(lay(2, 4), 0), same(lay(2, 3, 3)), zeroed(lay(3, 2, 2), 0), zeroed(lay(2, 3), 1),
	}
	if th {
		ls = append(ls, lay(2, 3, 3), lay(3, 4, 4), lay(4, 5, 3), lay(2, 2, 1, 3), lay(5, 1, 1, 1, 4), zeroed(lay(2, 3, 3), 2), zeroed(lay(4, 3, 3), 1), lay(3, 8), lay(2, 5, 3))
	}
	return ls
}

func damageLayouts(th bool) []*tor.Layout {
	ls := []*tor.Layout{
		lay(4, 10), lay(4, 6, 5), lay(4, 3, 0, 6), zeroed(lay(4, 6, 5), 1), same(lay(4, 7, 5)), lay(4, 1, 1, 1),
		zeroed(lay(4, 4, 5), 2), lay(4, 8),
	}
	if th {
		ls = append(ls, lay(4, 7, 6, 5), lay(4, 17), lay(3, 2, 2, 2, 2), zeroed(lay(4, 7, 6, 5), 3), lay(16384, 40000, 10000), lay(4, 4, 4, 4), lay(6, 1, 20), same(lay(4, 9, 9)))
	}
	return ls
}

// ---- disk states

const absent = "\x00absent"

// disk holds each file's bytes, or absent.
type disk []string

func (d disk) key() string {
	var s strings.Builder
	for _, f := range d {
		fmt.Fprintf(&s, "%d:%s,", len(f), f)
	}
	return s.String()
}

func (d disk) String() string {
	var s []string
	for _, f := range d {
		if f == absent {
			s = append(s, "absent")
		} else if len(f) > 40 {
			s = append(s, fmt.Sprintf("%x...(%d)", f[:40], len(f)))
		} else {
			s = append(s, fmt.Sprintf("%x", f))
		}
	}
	return strings.Join(s, " ")
}

func (d disk) put(l *tor.Layout) {
	_ = os.RemoveAll(sw.WD)
	_ = os.MkdirAll(sw.WD, 0700)
	for i, f := range d {
		if f == absent {
			continue
		}
		p := l.Local(sw.WD, i)
		_ = os.MkdirAll(filepath.Dir(p), 0700)
		if err := os.WriteFile(p, []byte(f), 0600); err != nil {
			panic(err)
		}
	}
}

func get(l *tor.Layout) disk {
	d := make(disk, len(l.Lens))
	for i := range d {
		b, err := os.ReadFile(l.Local(sw.WD, i))
		if os.IsNotExist(err) {
			d[i] = absent
		} else if err != nil {
			panic(err)
		} else {
			d[i] = string(b)
		}
	}
	return d
}

// sized is the state with every file at its length.
func (d disk) sized(l *tor.Layout) disk {
	o := make(disk, len(d))
	for i, f := range d {
		if f == absent {
			f = ""
		}
		n := int(l.Lens[i])
		if len(f) > n {
			f = f[:n]
		}
		o[i] = f + strings.Repeat("\x00", n-len(f))
	}
	return o
}

// held says which pieces the (sized) state has.
func (d disk) held(l *tor.Layout) []bool {
	all := strings.Join(d, "")
	h := make([]bool, l.NumPieces())
	for i := range h {
		lo, hi := l.Range(int64(i))
		sum := sha1.Sum([]byte(all[lo:hi]))
		h[i] = string(sum[:]) == l.Hashes()[20*i:20*i+20]
	}
	return h
}

func wire(h []bool) []byte {
	b := make([]byte, (len(h)+7)/8)
	for i, x := range h {
		if x {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return b
}

// verify checks a started swarm against the state it started on.
func verify(l *tor.Layout, s *swarm.Swarm, reqs []trk.Request, d disk) error {
	z := d.sized(l)
	h := z.held(l)
	n, left := int64(0), uint64(0)
	if s.Bf.Nbits() != int64(len(h)) {
		return fmt.Errorf("bitfield of %d bits for %d pieces", s.Bf.Nbits(), len(h))
	}
	for i, x := range h {
		if s.Bf.Get(int64(i)) != x {
			return fmt.Errorf("piece %d: matches its hash on disk: %v, held after startup: %v", i, x, !x)
		}
		lo, hi := l.Range(int64(i))
		if x {
			n++
		} else {
			left += uint64(hi - lo)
		}
	}
	if s.Bf.Nset() != n || s.Bf.Complete() != (n == int64(len(h))) {
		return fmt.Errorf("%d of %d pieces held, bitfield counts %d, complete %v", n, len(h), s.Bf.Nset(), s.Bf.Complete())
	}
	want := wire(h)
	want = append([]byte{0, 0, byte((len(want) + 1) >> 8), byte(len(want) + 1), 5}, want...)
	if got := p2p.NewMsgBitfield(s.Bf).Encode(); !bytes.Equal(got, want) {
		return fmt.Errorf("advertises %x, want %x", got, want)
	}
	if s.Stats.Left() != left {
		return fmt.Errorf("left is %d, %d bytes are missing", s.Stats.Left(), left)
	}
	if len(reqs) != 1 {
		return fmt.Errorf("%d announces", len(reqs))
	}
	got := ""
	for _, p := range trk.Query(query(reqs[0].URI)) {
		if p[0] == "left" {
			got = p[1]
		}
	}
	if got != strconv.FormatUint(left, 10) {
		return fmt.Errorf("announced left=%q, %d bytes are missing", got, left)
	}
	return nil
}

func query(uri string) string {
	if i := strings.IndexByte(uri, '?'); i >= 0 {
		return uri[i+1:]
	}
	return ""
}

// start runs startup on a state.
func start(l *tor.Layout, d disk) (*swarm.Swarm, error) {
	s, reqs, err := sw.New()
	if err != nil {
		return nil, fmt.Errorf("startup fails: %v", err)
	}
	if err := verify(l, s, reqs, d); err != nil {
		_ = s.Fileio.CloseAll()
		return nil, err
	}
	if g := get(l); g.key() != d.sized(l).key() {
		_ = s.Fileio.CloseAll()
		return nil, fmt.Errorf("files after startup: %s, want %s", g, d.sized(l))
	}
	return s, nil
}

// finish writes what is missing and checks that the torrent is then complete.
func finish(l *tor.Layout, s *swarm.Swarm) error {
	for i := int64(0); i < l.NumPieces(); i++ {
		if s.Bf.Get(i) {
			continue
		}
		if n, err := s.Fileio.WritePiece(i, l.Piece(i)); err != nil || n != int64(len(l.Piece(i))) {
			return fmt.Errorf("resuming: writing piece %d: %d, %v", i, n, err)
		}
	}
	for i := range l.Lens {
		b, err := os.ReadFile(l.Local(sw.WD, i))
		if err != nil || !bytes.Equal(b, l.FileBytes(i)) {
			return fmt.Errorf("resuming: file %d is %x (%v), want %x", i, b, err, l.FileBytes(i))
		}
	}
	if err := s.Validate(); err != nil || !s.Bf.Complete() {
		return fmt.Errorf("resuming: validation: %v, complete %v", err, s.Bf.Complete())
	}
	return nil
}

// ---- reachable states

type op struct {
	file int
	kind byte // c create, w write, t truncate
	off  int64
	data string
}

func journal(l *tor.Layout, f func()) []op {
	idx := map[string]int{}
	for i := range l.Lens {
		idx[l.Local(sw.WD, i)] = i
	}
	var j []op
	vos.Hook = func(c *vos.Call) vos.Verdict {
		i, ok := idx[c.Path]
		if !ok {
			return vos.Verdict{}
		}
		switch {
		case c.Kind == "open" && c.Flag&os.O_CREATE != 0:
			j = append(j, op{file: i, kind: 'c'})
			if c.Flag&os.O_TRUNC != 0 {
				j = append(j, op{file: i, kind: 't'})
			}
		case c.Kind == "write" || c.Kind == "writeat":
			j = append(j, op{file: i, kind: 'w', off: c.Off, data: string(c.Data)})
		case c.Kind == "truncate":
			j = append(j, op{file: i, kind: 't', off: c.Len})
		}
		return vos.Verdict{}
	}
	defer func() { vos.Hook = nil }()
	f()
	return j
}

func (d disk) apply(o op) {
	f := d[o.file]
	switch o.kind {
	case 'c':
		if f == absent {
			d[o.file] = ""
		}
	case 't':
		if f == absent {
			return
		}
		if int64(len(f)) > o.off {
			d[o.file] = f[:o.off]
		} else {
			d[o.file] = f + strings.Repeat("\x00", int(o.off)-len(f))
		}
	case 'w':
		if f == absent {
			f = ""
		}
		b := []byte(f)
		for int64(len(b)) < o.off+int64(len(o.data)) && len(o.data) > 0 {
			b = append(b, 0)
		}
		copy(b[o.off:], o.data)
		d[o.file] = string(b)
	}
}

// crashes lists the states a crash during j can leave.
func (d disk) crashes(j []op, add func(disk)) {
	for n := 0; n <= len(j); n++ {
		// the first n operations were issued, any subset of them is lost
		m := n
		if m > 10 {
			m = 10
		}
		for set := 0; set < 1<<uint(m); set++ {
			x := append(disk(nil), d...)
			for i := 0; i < n; i++ {
				if k := n - 1 - i; k < m && set>>uint(k)&1 == 1 && j[i].kind != 'c' {
					continue
				}
				x.apply(j[i])
			}
			add(x)
			if n < len(j) && j[n].kind == 'w' {
				for c := 1; c < len(j[n].data); c++ {
					y := append(disk(nil), x...)
					o := j[n]
					o.data = o.data[:c]
					y.apply(o)
					add(y)
				}
			}
		}
	}
}

func reach(b *run.B, l *tor.Layout) {
	sw.Put(l)
	garbage, long, full := make(disk, len(l.Lens)), make(disk, len(l.Lens)), make(disk, len(l.Lens))
	none := make(disk, len(l.Lens))
	for i, n := range l.Lens {
		none[i] = absent
		garbage[i] = strings.Repeat("\xee", int(n))
		long[i] = string(l.FileBytes(i)) + "\xdd"
		full[i] = string(l.FileBytes(i))
	}
	seen := map[string]bool{}
	var todo []disk
	add := func(d disk) {
		b.Transitions(1)
		k := d.key()
		if !seen[k] {
			seen[k] = true
			todo = append(todo, d)
		}
	}
	for _, d := range []disk{none, garbage, long, full} {
		add(d)
	}
	for n := 0; n < len(todo) && !b.Expired(); n++ {
		d := todo[n]
		ran := false
		explore := func() error {
			ran = true
			d.put(l)
			var s *swarm.Swarm
			var err error
			j := journal(l, func() { s, err = start(l, d) })
			if err != nil {
				return err
			}
			defer s.Fileio.CloseAll()
			d.crashes(j, add)
			z := d.sized(l)
			add(z)
			for i := int64(0); i < l.NumPieces(); i++ {
				j := journal(l, func() {
					var k int64
					k, err = s.Fileio.WritePiece(i, l.Piece(i))
					if err == nil && k != int64(len(l.Piece(i))) {
						err = fmt.Errorf("%d bytes written", k)
					}
				})
				if err != nil {
					return fmt.Errorf("writing piece %d: %v", i, err)
				}
				z.crashes(j, add)
				// back to the state after startup, below the open files
				for f := range z {
					if err := os.WriteFile(l.Local(sw.WD, f), []byte(z[f]), 0600); err != nil {
						return err
					}
				}
			}
			if err := finish(l, s); err != nil {
				return err
			}
			b.Traces(int64(l.NumPieces()) + 2)
			return nil
		}
		b.Case(func() string { return fmt.Sprintf("%s; on disk: %s", l, d) }, explore)
		if b.Stopped() {
			break
		}
		if !ran {
			// another case is run alone; the enumeration has to stay the same
			_ = run.Guard(20_000_000, explore)
		}
	}
	b.Distinct(int64(len(seen)))
	b.States(int64(len(seen)))
}

// ---- damage

func damage(b *run.B, l *tor.Layout, k, k2 int) {
	sw.Put(l)
	n := int(l.NumPieces())
	stat := make([]int, n)
	stat[0] = k
	fix := 1
	if n > 1 {
		stat[1] = k2
		fix = 2
	}
	for {
		base := append([]byte(nil), l.Content...)
		for i, s := range stat {
			lo, hi := l.Range(int64(i))
			switch s {
			case 1:
				for x := lo; x < hi; x++ {
					base[x] = 0
				}
			case 2:
				base[lo] ^= 0xff
			case 3:
				base[hi-1] ^= 0x01
			}
		}
		var d disk
		off := int64(0)
		for _, fl := range l.Lens {
			d = append(d, string(base[off:off+fl]))
			off += fl
		}
		shape := make([]int, len(d))
		for {
			e := append(disk(nil), d...)
			for i, s := range shape {
				switch s {
				case 1:
					e[i] = absent
				case 2:
					if len(e[i]) > 0 {
						e[i] = e[i][:len(e[i])-1]
					}
				case 3:
					e[i] = ""
				case 4:
					e[i] += "\xff\x00"
				}
			}
			b.Case(func() string { return fmt.Sprintf("%s; on disk: %s", l, e) }, func() error {
				e.put(l)
				s, err := start(l, e)
				if err != nil {
					return err
				}
				defer s.Fileio.CloseAll()
				return finish(l, s)
			})
			b.Distinct(1)
			b.States(1)
			b.Transitions(2)
			b.Traces(1)
			if b.Expired() {
				return
			}
			if !next(shape, 0, 5) {
				break
			}
		}
		if !next(stat, fix, 4) {
			return
		}
	}
}

func next(v []int, from, base int) bool {
	for i := from; i < len(v); i++ {
		v[i]++
		if v[i] < base {
			return true
		}
		v[i] = 0
	}
	return false
}

// ---- faults

func faults(b *run.B, l *tor.Layout) {
	sw.Put(l)
	var ds []disk
	mk := func(f func(i int, full string) string) {
		d := make(disk, len(l.Lens))
		for i := range d {
			d[i] = f(i, string(l.FileBytes(i)))
		}
		ds = append(ds, d)
	}
	mk(func(i int, s string) string { return s })
	mk(func(i int, s string) string { return absent })
	mk(func(i int, s string) string { return s[:len(s)/2] })
	mk(func(i int, s string) string { return s + "x" })
	mk(func(i int, s string) string {
		if i == 0 {
			return absent
		}
		return s
	})
	for _, d := range ds {
		d := d
		d.put(l)
		total := 0
		vos.Hook = func(c *vos.Call) vos.Verdict {
			if strings.HasPrefix(c.Path, sw.WD) {
				total++
			}
			return vos.Verdict{}
		}
		s, _, err := sw.New()
		vos.Hook = nil
		if err == nil {
			_ = s.Fileio.CloseAll()
		}
		for k := 0; k < total && !b.Expired(); k++ {
			for _, e := range []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, errors.New("odd")} {
				for _, part := range []int{0, 1} {
					k, e, part := k, e, part
					b.Case(func() string {
						return fmt.Sprintf("%s; on disk: %s; file operation %d fails with %v after %d bytes", l, d, k, e, part)
					}, func() error {
						d.put(l)
						n := 0
						vos.Hook = func(c *vos.Call) vos.Verdict {
							if !strings.HasPrefix(c.Path, sw.WD) {
								return vos.Verdict{}
							}
							n++
							if n == k+1 {
								return vos.Verdict{Err: e, N: part}
							}
							return vos.Verdict{}
						}
						s, reqs, err := sw.New()
						vos.Hook = nil
						if err == nil {
							// it coped: then it must know the pieces all the same
							err := verify(l, s, reqs, d)
							_ = s.Fileio.CloseAll()
							if err != nil {
								return fmt.Errorf("the failure goes unnoticed: %v", err)
							}
						}
						// without the fault it must all work, with nothing lost
						s, err = start(l, get(l))
						if err != nil {
							return fmt.Errorf("afterwards: %v", err)
						}
						defer s.Fileio.CloseAll()
						for i, x := range d.sized(l).held(l) {
							if x && !s.Bf.Get(int64(i)) {
								return fmt.Errorf("piece %d was on disk and is lost", i)
							}
						}
						return nil
					})
					b.Distinct(1)
					b.Transitions(1)
				}
			}
		}
	}
	// something else in the place of a file or folder
	for i := range l.Lens {
		for what := 0; what < 2; what++ {
			i, what := i, what
			b.Case(func() string { return fmt.Sprintf("%s; obstacle %d at file %d", l, what, i) }, func() error {
				d := make(disk, len(l.Lens))
				for k := range d {
					d[k] = absent
				}
				d.put(l)
				p := l.Local(sw.WD, i)
				if what == 1 {
					p = filepath.Dir(p)
					if p == sw.WD {
						return nil
					}
					_ = os.RemoveAll(p)
					_ = os.MkdirAll(filepath.Dir(p), 0700)
					if err := os.WriteFile(p, []byte("x"), 0600); err != nil {
						return err
					}
				} else {
					_ = os.RemoveAll(p)
					_ = os.MkdirAll(p, 0700)
				}
				s, _, err := sw.New()
				if err == nil {
					_ = s.Fileio.CloseAll()
					return fmt.Errorf("startup succeeds with a file that cannot be opened")
				}
				return nil
			})
			b.Distinct(1)
		}
	}
}

// ---- many pieces

// content tries torrents whose pieces themselves hold runs of zeros or of
// other constant bytes, at either end or throughout, as is and with single
// bytes wrong.
func content(b *run.B, pl int64) {
	kinds := []struct {
		name   string
		fill   byte
		lo, hi int64 // the constant run, as a fraction of the piece in eighths; -1 means one byte
	}{
		{"zeros", 0, 0, 8}, {"zero head", 0, 0, 4}, {"zero tail", 0, 4, 8}, {"zero middle", 0, 2, 6},
		{"ones", 0xff, 0, 8}, {"one zero at each end", 0, -1, 0}, {"zero ends", 0, -1, 1}, {"spaces", ' ', 0, 8},
	}
	for _, k := range kinds {
		for _, tail := range []int64{pl, pl - 1, 1} {
			for _, split := range []bool{false, true} {
				l := tor.New(pl, 2*pl+tail)
				if split {
					l = tor.New(pl, pl/2, pl+1, 2*pl+tail-pl/2-pl-1)
					if tail == 1 && pl/2 == 0 {
						continue
					}
					l.Paths = []string{"a", "b/c", "b/d"}
				}
				l.Name = "c"
				for i := int64(0); i < l.NumPieces(); i++ {
					lo, hi := l.Range(i)
					n := hi - lo
					for x := int64(0); x < n; x++ {
						in := x*8 >= k.lo*n && x*8 < k.hi*n
						if k.lo < 0 {
							d := int64(1)
							if k.hi > 0 {
								d = n/8 + 1
							}
							in = x < d || x >= n-d
						}
						if in {
							l.Content[lo+x] = k.fill
						}
					}
				}
				sw.Put(l)
				for bad := int64(-1); bad < 4*l.NumPieces(); bad++ {
					bad := bad
					c := append([]byte(nil), l.Content...)
					if bad >= 0 {
						lo, hi := l.Range(bad / 4)
						switch bad % 4 {
						case 0:
							c[lo] ^= 0x10
						case 1:
							c[hi-1] ^= 0x80
						case 2:
							c[(lo+hi)/2] ^= 1
						case 3:
							for x := lo; x < hi; x++ {
								c[x] = 0
							}
						}
					}
					var d disk
					off := int64(0)
					for _, fl := range l.Lens {
						d = append(d, string(c[off:off+fl]))
						off += fl
					}
					b.Case(func() string {
						return fmt.Sprintf("%v in pieces of %d, each with %s; damage %d", l.Lens, pl, k.name, bad)
					}, func() error {
						d.put(l)
						s, err := start(l, d)
						if err != nil {
							return err
						}
						return s.Fileio.CloseAll()
					})
					b.Distinct(1)
					b.States(1)
					b.Transitions(1)
					b.Traces(1)
					if b.Expired() {
						return
					}
				}
			}
		}
	}
}

func many(b *run.B, n int64) {
	l := tor.New(1, n)
	l.Name = "many"
	if n <= 300 {
		l = tor.New(3, 3*n-1)
		l.Name = "many"
	}
	sw.Put(l)
	bad := []int64{-1, 0, n - 1, n - 2, 7, 8, n / 2}
	if n > 65537 {
		bad = append(bad, 65535, 65536, 65537)
	}
	for _, x := range bad {
		for _, inv := range []bool{false, true} {
			x, inv := x, inv
			b.Case(func() string { return fmt.Sprintf("%s; only piece %d differs, inverted %v", l, x, inv) }, func() error {
				c := append([]byte(nil), l.Content...)
				for i := int64(0); i < n; i++ {
					if (i == x) != inv {
						lo, hi := l.Range(i)
						c[hi-1] ^= 0x80
						c[lo] ^= 0x01
					}
				}
				d := disk{string(c)}
				d.put(l)
				s, err := start(l, d)
				if err != nil {
					return err
				}
				return s.Fileio.CloseAll()
			})
			b.Distinct(1)
			b.States(1)
			b.Transitions(1)
			b.Traces(1)
		}
	}
}

// hashes: the torrent's hashes are those of the data but for one byte.
func hashes(b *run.B) {
	for _, l := range []*tor.Layout{lay(4, 11), lay(3, 2, 4, 1), lay(5, 5)} {
		for k := int64(0); k < 20*l.NumPieces(); k++ {
			for _, x := range []byte{1, 0x20, 0x80, 0xff} {
				l, k, x := l, k, x
				b.Case(func() string {
					return fmt.Sprintf("%s; everything on disk; hash %d has byte %d changed by %#x", l, k/20, k%20, x)
				}, func() error {
					a := l.Alter(k, x)
					sw.Put(a)
					d := whole(l)
					d.put(a)
					s, err := start(a, d)
					if err != nil {
						return err
					}
					return s.Fileio.CloseAll()
				})
				b.Distinct(1)
				b.States(1)
				b.Transitions(1)
				b.Traces(1)
			}
		}
	}
}

// whole is the state with all the content.
func whole(l *tor.Layout) disk {
	d := make(disk, len(l.Lens))
	for i := range d {
		d[i] = string(l.FileBytes(i))
	}
	return d
}
