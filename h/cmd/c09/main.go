// C09: preparing a file never destroys usable data. Every combination of old
// and required sizes, with every file operation failing in every way or being
// the last one before the process dies, on a contained scratch file system.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/utils"
	"gotor/zv/vos"
	"vh/run"
	"vh/tor"
)

const mib = 1 << 20

var sizes = []int64{-1, 0, 1, 5, 4096, mib - 1, mib, mib + 1, 2*mib - 1, 2 * mib, 2*mib + 3}

func main() {
	run.Main(run.Spec{
		ID:    "C09",
		Level: "fault_enumeration",
		Rule:  "every pair of absent/existing old size and required size from boundary sizes around 0 and multiples of 1 MiB, with 0..3 missing parent folders, sparse sizes beyond 2^32; every history of up to 3 (thorough 4) openings of changing length; in each, every single file operation failing with each of 4 error codes and each of 4 partial byte counts, or being followed by the death of the process, and then opening again",
		Note:  []string{"a dying process loses nothing the operating system has accepted (no power loss)", "failing close calls are not required to be reported"},
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for _, o := range sizes {
				o := o
				bs = append(bs, run.Block{Name: fmt.Sprintf("sizes/%d", o), Fn: func(b *run.B) { pair(b, o) }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("faults/%d", o), Fn: func(b *run.B) { faults(b, o) }})
			}
			for i := range hist {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("histories/%d", i), Fn: func(b *run.B) { histories(b, i) }})
			}
			bs = append(bs, run.Block{Name: "obstacles", Fn: obstacles}, run.Block{Name: "several", Fn: several}, run.Block{Name: "sparse", Fn: sparse})
			return bs
		},
	})
}

func path(depth int) string {
	p := filepath.Join(run.Scratch, "w")
	for i := 0; i < depth; i++ {
		p = filepath.Join(p, fmt.Sprintf("d%d", i))
	}
	return filepath.Join(p, "file")
}

func clean() { _ = os.RemoveAll(filepath.Join(run.Scratch, "w")) }

// put creates the old state; size -1: absent with missing parents.
func put(p string, size int64) []byte {
	clean()
	if size < 0 {
		return nil
	}
	d := tor.Bytes(size, int(size)+3)
	if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, d, 0600); err != nil {
		panic(err)
	}
	return d
}

// final checks the state after a successful opening.
func final(p string, old []byte, n int64) error {
	got, err := os.ReadFile(p)
	if err != nil {
		return fmt.Errorf("afterwards: %v", err)
	}
	if int64(len(got)) != n {
		return fmt.Errorf("the file has %d bytes, want %d", len(got), n)
	}
	k := len(old)
	if int64(k) > n {
		k = int(n)
	}
	if !bytes.Equal(got[:k], old[:k]) {
		return fmt.Errorf("the first %d bytes are not the old ones", k)
	}
	for i, c := range got[k:] {
		if c != 0 {
			return fmt.Errorf("byte %d is %d, want 0", k+i, c)
		}
	}
	return nil
}

// kept checks that the old bytes within the required length are on disk.
func kept(p string, old []byte, n int64) error {
	k := len(old)
	if int64(k) > n {
		k = int(n)
	}
	if k == 0 {
		return nil
	}
	got, err := os.ReadFile(p)
	if err != nil {
		return fmt.Errorf("%d old bytes are gone: %v", k, err)
	}
	if len(got) < k || !bytes.Equal(got[:k], old[:k]) {
		return fmt.Errorf("of %d old bytes within the required length %d, not all are on disk (file has %d)", k, n, len(got))
	}
	return nil
}

// open prepares the file through the piece storage or directly.
func open(direct bool, p string, n int64) error {
	if !direct {
		f := fileio.NewFileIO(nil)
		if err := f.OCAT(p, n); err != nil {
			return err
		}
		hk := vos.Hook
		vos.Hook = nil
		err := f.Close(p)
		vos.Hook = hk
		return err
	}
	f, err := utils.OCAT(p, n)
	if err != nil {
		if f != nil {
			return fmt.Errorf("odd: both a file and error %v", err)
		}
		return err
	}
	hk := vos.Hook
	vos.Hook = nil
	defer func() { f.Close(); vos.Hook = hk }()
	if n > 0 {
		// usable for reading and writing in place
		one := make([]byte, 1)
		if _, err := f.ReadAt(one, n-1); err != nil {
			panic(fmt.Sprintf("reading the prepared file: %v", err))
		}
		if _, err := f.WriteAt(one, n-1); err != nil {
			panic(fmt.Sprintf("writing the prepared file: %v", err))
		}
	}
	return nil
}

func pair(b *run.B, o int64) {
	for _, n := range sizes[1:] {
		for depth := 0; depth <= 3; depth++ {
			for _, direct := range []bool{true, false} {
				n, depth, direct := n, depth, direct
				b.Case(func() string { return fmt.Sprintf("old %d, required %d, %d parents, direct %v", o, n, depth, direct) }, func() error {
					defer clean()
					p := path(depth)
					old := put(p, o)
					for i := 0; i < 2; i++ {
						if err := open(direct, p, n); err != nil {
							return fmt.Errorf("opening (%d): %v", i+1, err)
						}
						if err := final(p, old, n); err != nil {
							return fmt.Errorf("opening (%d): %v", i+1, err)
						}
					}
					return nil
				})
				b.Distinct(1)
			}
		}
	}
}

type died struct{}

// attempt opens with operation number at failing (err) or dying after it; it
// tells which operation that was and what opening returned.
func attempt(direct bool, p string, n int64, at int, mode fault) (kind string, dead bool, err error) {
	k := 0
	part := func(c *vos.Call) int {
		switch mode.part {
		case 1:
			return 1
		case 2:
			return int(c.Len / 2)
		case 3:
			return int(c.Len) - 1
		}
		return 0
	}
	vos.Hook = func(c *vos.Call) vos.Verdict {
		k++
		if k-1 != at {
			return vos.Verdict{}
		}
		kind = c.Kind
		if mode.err != nil {
			if mode.part > 0 && c.Kind != "write" && c.Kind != "writeat" {
				kind = ""
				return vos.Verdict{}
			}
			return vos.Verdict{Err: mode.err, N: part(c)}
		}
		// dying: partial effect, then nothing more
		if c.Kind == "write" && mode.part > 0 {
			vos.Hook = func(*vos.Call) vos.Verdict { panic(died{}) }
			return vos.Verdict{Err: syscall.EIO, N: part(c)}
		}
		panic(died{})
	}
	defer func() {
		vos.Hook = nil
		if r := recover(); r != nil {
			if _, ok := r.(died); !ok {
				panic(r)
			}
			dead = true
		}
	}()
	err = open(direct, p, n)
	return
}

type fault struct {
	err  error // nil: die
	part int
}

func modes() []fault {
	var r []fault
	for _, e := range []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE} {
		r = append(r, fault{e, 0})
	}
	for p := 1; p <= 3; p++ {
		r = append(r, fault{syscall.ENOSPC, p})
	}
	for p := 0; p <= 3; p++ {
		r = append(r, fault{nil, p})
	}
	return r
}

func faults(b *run.B, o int64) {
	for _, n := range sizes[1:] {
		for _, direct := range []bool{true, false} {
			for mi, m := range modes() {
				hit := true
				for at := 0; hit && at < 60; at++ {
					n, direct, m, at, mi := n, direct, m, at, mi
					b.Case(func() string {
						return fmt.Sprintf("old %d, required %d, direct %v: operation %d, fault %d (%+v)", o, n, direct, at, mi, m)
					}, func() error {
						defer clean()
						p := path(1)
						old := put(p, o)
						kind, dead, err := attempt(direct, p, n, at, m)
						hit = kind != "" || m.part > 0 && at < 8
						if kind == "" {
							if err != nil {
								return fmt.Errorf("no operation failed, but opening says %v", err)
							}
							return final(p, old, n)
						}
						if !dead && err == nil && kind != "close" {
							return fmt.Errorf("a failing %s is reported as success", kind)
						}
						if err := kept(p, old, n); err != nil {
							return fmt.Errorf("after a failing %s: %v", kind, err)
						}
						// and once more, without trouble
						if err := open(direct, p, n); err != nil {
							return fmt.Errorf("opening again: %v", err)
						}
						if err := final(p, old, n); err != nil {
							return fmt.Errorf("opening again after a failing %s: %v", kind, err)
						}
						return nil
					})
					b.Distinct(1)
					if b.Expired() {
						return
					}
				}
			}
		}
	}
}

var hist = []int64{0, 3, mib, mib + 7}

// histories: openings with changing lengths, each possibly interrupted.
func histories(b *run.B, first int) {
	depth := 3
	if b.Thorough() {
		depth = 4
	}
	var rec func(seq []int64)
	rec = func(seq []int64) {
		if len(seq) == depth {
			seq := append([]int64{}, seq...)
			for _, o := range []int64{-1, 5, mib + 2} {
				for step := -1; step < depth; step++ {
					for at := 0; at < 6; at++ {
						for _, m := range []fault{{syscall.EIO, 0}, {syscall.ENOSPC, 2}, {nil, 0}, {nil, 2}} {
							o, step, at, m := o, step, at, m
							if step < 0 && (at > 0 || m.err != syscall.EIO) {
								continue
							}
							b.Case(func() string {
								return fmt.Sprintf("old %d, then %v; opening %d disturbed at operation %d (%+v)", o, seq, step, at, m)
							}, func() error {
								defer clean()
								p := path(1)
								model := put(p, o)
								for i, n := range seq {
									if i == step {
										if _, dead, err := attempt(true, p, n, at, m); dead || err != nil {
											if err := kept(p, model, n); err != nil {
												return fmt.Errorf("opening %d: %v", i, err)
											}
										}
									}
									if err := open(true, p, n); err != nil {
										return fmt.Errorf("opening %d: %v", i, err)
									}
									if err := final(p, model, n); err != nil {
										return fmt.Errorf("opening %d: %v", i, err)
									}
									nm := make([]byte, n)
									copy(nm, model)
									model = nm
								}
								return nil
							})
							b.Distinct(1)
							if b.Expired() {
								return
							}
						}
					}
				}
			}
			return
		}
		for _, n := range hist {
			rec(append(seq[:len(seq):len(seq)], n))
		}
	}
	rec([]int64{hist[first]})
}

// obstacles: things in the way give errors and are left alone.
func obstacles(b *run.B) {
	for _, n := range []int64{0, 1, mib + 1} {
		for _, direct := range []bool{true, false} {
			n, direct := n, direct
			b.Case(func() string { return fmt.Sprintf("a folder in the way, required %d", n) }, func() error {
				defer clean()
				clean()
				p := path(1)
				if err := os.MkdirAll(filepath.Join(p, "inner"), 0700); err != nil {
					return err
				}
				if err := open(direct, p, n); err == nil {
					return fmt.Errorf("no error")
				}
				if _, err := os.Stat(filepath.Join(p, "inner")); err != nil {
					return err
				}
				return nil
			})
			b.Case(func() string { return fmt.Sprintf("a file in place of the parent, required %d", n) }, func() error {
				defer clean()
				clean()
				p := path(2)
				par := filepath.Dir(p)
				old := put(par, 77)
				if err := open(direct, p, n); err == nil {
					return fmt.Errorf("no error")
				}
				return final(par, old, 77)
			})
			b.Distinct(2)
		}
	}
}

// several: preparing all files of a torrent.
func several(b *run.B) {
	for _, lens := range [][]int64{{3, 0, 7}, {mib + 1, 5}, {1, 1, 1, 1}} {
		for bad := -1; bad < len(lens); bad++ {
			lens, bad := lens, bad
			b.Case(func() string { return fmt.Sprintf("files %v, file %d blocked", lens, bad) }, func() error {
				defer clean()
				clean()
				l := tor.New(4, lens...)
				dir := filepath.Join(run.Scratch, "w")
				ti, err := l.Info(dir)
				if err != nil {
					return err
				}
				olds := map[int][]byte{}
				for i := range lens {
					p := l.Local(dir, i)
					_ = os.MkdirAll(filepath.Dir(p), 0700)
					if i == bad {
						_ = os.MkdirAll(p, 0700)
					} else if i%2 == 0 {
						olds[i] = tor.Bytes(lens[i]+int64(i)-1, i)
						_ = os.WriteFile(p, olds[i], 0600)
					}
				}
				f := fileio.NewFileIO(ti)
				err = f.OCATAll(filesd.FileList(ti.Files()))
				defer f.CloseAll()
				if (err != nil) != (bad >= 0) {
					return fmt.Errorf("OCATAll says %v", err)
				}
				for i := range lens {
					p := l.Local(dir, i)
					if i == bad {
						continue
					}
					if err == nil {
						if e := final(p, olds[i], lens[i]); e != nil {
							return fmt.Errorf("file %d: %v", i, e)
						}
					} else if e := kept(p, olds[i], lens[i]); e != nil {
						return fmt.Errorf("file %d: %v", i, e)
					}
				}
				return nil
			})
			b.Distinct(1)
		}
	}
}

// sparse: sizes beyond 2^31 and 2^32 with a few marked bytes.
func sparse(b *run.B) {
	big := []int64{1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 7, 5<<32 + 3}
	for _, o := range big {
		ns := []int64{0, 5, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 + 1, o, o - 1, o + 1, o + mib, o + 2*mib + 1}
		for _, n := range ns {
			if n > o+4*mib {
				continue
			}
			o, n := o, n
			b.Case(func() string { return fmt.Sprintf("old %d (sparse), required %d", o, n) }, func() error {
				defer clean()
				clean()
				p := path(1)
				_ = os.MkdirAll(filepath.Dir(p), 0700)
				f, err := os.Create(p)
				if err != nil {
					return err
				}
				defer f.Close()
				if err := f.Truncate(o); err != nil {
					return err
				}
				marks := []int64{0, 4, 1<<31 - 3, o/2 + 1, o - 1}
				for _, m := range marks {
					if _, err := f.WriteAt([]byte{0x5a}, m); err != nil {
						return err
					}
				}
				if err := open(true, p, n); err != nil {
					return err
				}
				st, err := f.Stat()
				if err != nil || st.Size() != n {
					return fmt.Errorf("size %d (%v), want %d", st.Size(), err, n)
				}
				one := make([]byte, 1)
				for _, m := range marks {
					if m < n-1 {
						if _, err := f.ReadAt(one, m); err != nil || one[0] != 0x5a {
							return fmt.Errorf("byte %d is %x (%v)", m, one, err)
						}
					}
				}
				for m := o; m < n; m += 1000 {
					if _, err := f.ReadAt(one, m); err != nil || one[0] != 0 {
						return fmt.Errorf("byte %d is %x (%v), want 0", m, one, err)
					}
				}
				return nil
			})
			b.Distinct(1)
		}
	}
}
