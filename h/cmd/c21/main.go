// C21: the rate limiter admits, delivers and makes progress. The real limiter
// runs in virtual time under all schedules of its callers.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	gio "gotor/io"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
)

const sec = int64(time.Second)

func main() {
	run.Main(run.Spec{
		ID:    "C21",
		Level: "model_checking",
		Rule:  "all schedules up to the deviation bound of 1 to 3 concurrent writers (readers, both) with 1 or 2 calls each of sizes 0, 1, R-1, R, R+1, 3R under limits R of 1, 2, 5 bytes, no limit, limits changed meanwhile, destinations that fail or never return, and Stop at any moment; nothing may wait while its window has room; up to 70 callers at once; limits and calls beyond 16, 20 and 32 bits; 400 calls in a row; all single-caller histories of up to 4 (5) calls over sizes and gaps",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for _, rd := range []bool{false, true} {
				rd := rd
				n := map[bool]string{false: "write", true: "read"}[rd]
				for _, r := range []int64{1, 2, 5} {
					r := r
					bs = append(bs,
						run.Block{Name: fmt.Sprintf("%s/concurrent/%d", n, r), Fn: func(b *run.B) { concurrent(b, rd, r) }},
						run.Block{Name: fmt.Sprintf("%s/history/%d", n, r), Fn: func(b *run.B) { history(b, rd, r) }})
				}
				bs = append(bs,
					run.Block{Name: n + "/unlimited", Fn: func(b *run.B) { unlimited(b, rd) }},
					run.Block{Name: n + "/large", Fn: func(b *run.B) { large(b, rd) }},
					run.Block{Name: n + "/many", Fn: func(b *run.B) { many(b, rd) }},
					run.Block{Name: n + "/change", Fn: func(b *run.B) { change(b, rd) }},
					run.Block{Name: n + "/slow", Fn: func(b *run.B) { slow(b, rd) }},
				)
			}
			bs = append(bs, run.Block{Name: "both", Fn: both}, run.Block{Name: "stop", Fn: stop})
			return bs
		},
	})
}

func cfg(b *run.B) vs.Config {
	c := vs.Config{Bound: 2}
	if b.Thorough() {
		c.Bound = 3
	}
	return c
}

// start is one call arriving at a destination or source.
type start struct {
	at int64
	n  int64
}

// end is a destination or source; calls to it are steps.
type end struct {
	log   *[]start
	o     *vs.Obj
	got   []byte
	calls int
	err   error
	never bool // never returns
}

func (e *end) step(n int) {
	k := "call"
	vs.NoteClock()
	vs.Do(&vs.Op{Kind: k, Obj: e.o, Productive: true, Exec: func() {
		*e.log = append(*e.log, start{vs.Now(), int64(n)})
	}})
	if e.never {
		vs.Await("never", func() bool { return false })
	}
}

func (e *end) Write(d []byte) (int, error) {
	e.step(len(d))
	e.calls++
	e.got = append(e.got, d...)
	if e.err != nil {
		return len(d) / 2, e.err
	}
	return len(d), nil
}

func (e *end) Read(d []byte) (int, error) {
	e.step(len(d))
	e.calls++
	for i := range d {
		d[i] = byte(i + 1)
	}
	if e.err != nil {
		return len(d) / 2, e.err
	}
	return len(d), nil
}

// world is one execution's state.
type world struct {
	t    *sim.T
	rl   *gio.RateLimitIO
	log  []start
	o    vs.Obj
	rd   bool
	done int
	loop bool // Run has ended

	begun int // calls that have begun
}

func newWorld(t *sim.T, rd bool, r int64) *world {
	w := &world{t: t, rd: rd, rl: gio.NewRateLimitIO()}
	if rd {
		w.rl.SetReadRate(r)
	} else {
		w.rl.SetWriteRate(r)
	}
	vs.GoNamed("limiter", func() { w.rl.Run(); w.loop = true })
	return w
}

func payload(n int64, salt byte) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = salt + byte(i)
	}
	return d
}

// call makes one call and checks what it did; the time it took in windows.
func (w *world) call(n int64, salt byte, err error) (began, ended int64) {
	e := &end{log: &w.log, o: &w.o, err: err}
	d := payload(n, salt)
	began = vs.Now()
	inc(&w.begun)
	var got error
	if w.rd {
		got = w.rl.Read(e, d)
	} else {
		got = w.rl.Write(e, d)
	}
	ended = vs.Now()
	vs.NoteClock()
	if got != err {
		w.t.Failf("returned %v, the destination %v", got, err)
	}
	if e.calls != 1 {
		w.t.Failf("destination was called %d times", e.calls)
	}
	if w.rd {
		for i := range d {
			if d[i] != byte(i+1) {
				w.t.Failf("read %x", d)
				break
			}
		}
	} else if !bytes.Equal(e.got, payload(n, salt)) {
		w.t.Failf("destination got %x instead of %x", e.got, payload(n, salt))
	}
	return
}

// windows checks the rule: in no window may the calls be impossible to order
// so that each starts before R bytes were admitted.
func windows(log []start, r int64, from int64) error {
	sum, max := map[int64]int64{}, map[int64]int64{}
	for _, s := range log {
		if s.at < from {
			continue
		}
		k := s.at / sec
		sum[k] += s.n
		if s.n > max[k] {
			max[k] = s.n
		}
	}
	for k := range sum {
		if sum[k]-max[k] >= r && max[k] > 0 {
			return fmt.Errorf("window %d: %d bytes admitted with a limit of %d: %v", k, sum[k], r, log)
		}
	}
	return nil
}

// Counters are looked at without synchronisation.
//
//go:norace
func inc(p *int) { *p++ }

//go:norace
func get(p *int) int { return *p }

// busy checks that nothing waits while the window has room. Half of a window has
// passed, so that a limiter that looks at the clock now and then is fine.
func (w *world) busy(r int64) {
	vs.Settle()
	waiting := get(&w.begun) - len(w.log)
	if waiting == 0 {
		return
	}
	now, sum := vs.Now()/sec, int64(0)
	for _, s := range w.log {
		if s.at/sec == now {
			sum += s.n
		}
	}
	if r < 0 || sum < r {
		w.t.Failf("at %.2f s %d calls are waiting, but only %d of %d bytes are used in this window: %v", float64(vs.Now())/1e9, waiting, sum, r, w.log)
	}
}

func sizes(r int64) []int64 {
	var out []int64
	for _, n := range []int64{1, r - 1, r, r + 1, 3 * r, 0} {
		dup := n < 0
		for _, o := range out {
			dup = dup || o == n
		}
		if !dup {
			out = append(out, n)
		}
	}
	return out
}

// run starts callers with the given sizes each and waits for all.
func runCallers(t *sim.T, w *world, r int64, callers [][]int64, limit int64) {
	total := 0
	doneN := make([]int, len(callers))
	for i, ns := range callers {
		i, ns := i, ns
		total += len(ns)
		vs.GoNamed(fmt.Sprintf("caller%d", i), func() {
			for k, n := range ns {
				w.call(n, byte(16*i+k), nil)
				doneN[i]++
				inc(&w.done)
			}
		})
	}
	vs.Settle()
	if limit < 0 {
		limit = int64(total) * sec
	}
	if limit > 0 {
		for k := int64(0); k <= limit; k += sec {
			vs.SleepNS(k + sec/2 - vs.Now())
			w.busy(r)
			if get(&w.done) == total {
				break
			}
		}
	}
	got := 0
	for _, n := range doneN {
		got += n
	}
	if got != total {
		t.Failf("after %.1f s only %d of %d calls have completed", float64(vs.Now())/1e9, got, total)
	}
	if r > 0 {
		if err := windows(w.log, r, 0); err != nil {
			t.Failf("%v", err)
		}
	}
	vs.GoNamed("stopper", func() { w.rl.Stop() })
	vs.Settle()
	if !w.loop {
		t.Failf("the loop has not ended after Stop")
	}
}

func concurrent(b *run.B, rd bool, r int64) {
	ss := sizes(r)
	var sets [][][]int64
	for i, n := range ss {
		for j, m := range ss {
			if j < i {
				continue
			}
			sets = append(sets, [][]int64{{n}, {m}})
			if n > 0 && m > 0 {
				sets = append(sets, [][]int64{{n, m}, {m}})
			}
			if b.Thorough() {
				for k, l := range ss {
					if k >= j && l > 0 {
						sets = append(sets, [][]int64{{n}, {m}, {l}})
					}
				}
				sets = append(sets, [][]int64{{n, m}, {m, n}})
			}
		}
	}
	sets = append(sets, [][]int64{{1}, {1}, {1}}, [][]int64{{r}, {r}, {1}})
	for _, cs := range sets {
		if b.Expired() {
			return
		}
		cs := cs
		c := cfg(b)
		if len(cs) > 2 || len(cs[0])+len(cs[1]) > 3 {
			c.Bound--
		}
		body, oracle := sim.Body(func(t *sim.T) { runCallers(t, newWorld(t, rd, r), r, cs, -1) })
		b.Explore(fmt.Sprintf("limit %d, callers %v", r, cs), c, body, oracle)
	}
}

// history: one caller, every sequence of sizes and gaps.
func history(b *run.B, rd bool, r int64) {
	depth := 3
	if b.Thorough() {
		depth = 4
	}
	histories(b, rd, r, depth, sizes(r), []int64{0, sec * 3 / 10, sec * 7 / 10, sec * 13 / 10})
}

// large: limits and calls that don't fit 16, 20 or 32 bits.
func large(b *run.B, rd bool) {
	if vs.RaceEnabled {
		return
	}
	histories(b, rd, 70000, 3, []int64{1, 65536, 69999, 70000, 140000}, []int64{0, sec * 7 / 10})
	histories(b, rd, 65536, 3, []int64{1, 65535, 65536, 131072}, []int64{0, sec * 7 / 10})
	histories(b, rd, 1<<20+1, 3, []int64{1, 1 << 20, 1<<20 + 1, 1 << 21}, []int64{0, sec * 7 / 10})
	histories(b, rd, 1<<32, 3, []int64{1, 1 << 20}, []int64{0, sec * 7 / 10})
	histories(b, rd, 1<<31, 3, []int64{1, 1 << 20}, []int64{0})
	histories(b, rd, 1<<33+5, 3, []int64{1, 1 << 20}, []int64{0})
}

// many: many callers at once, and many windows one after the other.
func many(b *run.B, rd bool) {
	for _, r := range []int64{1, 2, 5, 40} {
		for _, k := range []int{10, 33, 70} {
			for _, n := range []int64{1, 3} {
				{
					if b.Expired() {
						return
					}
					var cs [][]int64
					for i := 0; i < k; i++ {
						cs = append(cs, []int64{n})
					}
					r := r
					body, oracle := sim.Body(func(t *sim.T) { runCallers(t, newWorld(t, rd, r), r, cs, int64(k)*n*sec) })
					c := vs.Config{MaxSteps: 1000000}
					b.Once(fmt.Sprintf("limit %d, %d callers of %d bytes", r, k, n), c, body, oracle)
				}
			}
		}
		for _, n := range []int64{1, 2, 7} {
			var c []int64
			for i := 0; i < 400; i++ {
				c = append(c, n)
			}
			r := r
			body, oracle := sim.Body(func(t *sim.T) { runCallers(t, newWorld(t, rd, r), r, [][]int64{c}, -1) })
			b.Once(fmt.Sprintf("limit %d, 400 calls of %d bytes one after the other", r, n), vs.Config{MaxSteps: 1000000}, body, oracle)
		}
	}
}

// histories are all sequences of so many calls of one caller.
func histories(b *run.B, rd bool, r int64, depth int, ss, gaps []int64) {
	type op struct{ n, gap int64 }
	var ops []op
	for _, n := range ss {
		for _, g := range gaps {
			ops = append(ops, op{n, g})
		}
	}
	idx := make([]int, depth)
	for {
		if b.Expired() {
			return
		}
		var seq []op
		for _, i := range idx {
			seq = append(seq, ops[i])
		}
		for _, err := range []error{nil, errBroken} {
			err := err
			body, oracle := sim.Body(func(t *sim.T) {
				w := newWorld(t, rd, r)
				vs.SleepNS(sec / 100)
				for k, o := range seq {
					if o.gap > 0 {
						vs.SleepNS(o.gap)
					}
					began, ended := w.call(o.n, byte(k), err)
					if ended > (began/sec+1)*sec+sec/10 { // it may look for the new window now and then
						t.Failf("call %d of %v began at %.2f s and waited until %.2f s", k, seq, float64(began)/1e9, float64(ended)/1e9)
					}
					if began/sec == ended/sec && ended > began {
						t.Failf("call %d of %v was delayed within the window", k, seq)
					}
				}
				vs.Settle()
				if err := windows(w.log, r, 0); err != nil {
					t.Failf("%v", err)
				}
			})
			b.Once(fmt.Sprintf("limit %d, sizes and gaps %v, error %v", r, seq, err), vs.Config{}, body, oracle)
		}
		k := 0
		for ; k < depth; k++ {
			idx[k]++
			if idx[k] < len(ops) {
				break
			}
			idx[k] = 0
		}
		if k == depth {
			return
		}
	}
}

var errBroken = errors.New("broken destination")

// unlimited: nothing waits, with or without the loop running.
func unlimited(b *run.B, rd bool) {
	for _, lim := range []int64{-1, -2, -1 << 63, 1 << 62, 1<<63 - 1} {
		for _, cs := range [][][]int64{{{1}, {1000}}, {{100000, 1, 0}}, {{5, 5}, {7}}} {
			for _, loop := range []bool{true, false} {
				lim, cs, loop := lim, cs, loop
				body, oracle := sim.Body(func(t *sim.T) {
					w := &world{t: t, rd: rd, rl: gio.NewRateLimitIO()}
					if lim != -1 || loop {
						if rd {
							w.rl.SetReadRate(lim)
						} else {
							w.rl.SetWriteRate(lim)
						}
					}
					if loop {
						vs.GoNamed("limiter", func() { w.rl.Run(); w.loop = true })
					} else {
						w.loop = true
						vs.GoNamed("taker", func() { w.rl.Run() })
					}
					runCallers(t, w, -1, cs, 0)
				})
				b.Explore(fmt.Sprintf("limit %d, callers %v, loop %v", lim, cs, loop), cfg(b), body, oracle)
			}
		}
	}
}

// change: the limit is set while calls are under way or waiting.
func change(b *run.B, rd bool) {
	set := func(rl *gio.RateLimitIO, v int64) {
		if rd {
			rl.SetReadRate(v)
		} else {
			rl.SetWriteRate(v)
		}
	}
	for _, x := range []struct{ from, to int64 }{{1, -1}, {1, 5}, {5, 1}, {-1, 2}, {2, -7}, {-1, -1}, {1, 100}, {5, 100}, {2, 4}} {
		for _, y := range []struct {
			at      int64
			callers int
		}{{0, 2}, {sec * 3 / 10, 2}, {0, 3}, {sec * 3 / 10, 3}, {sec * 23 / 10, 4}} {
			x, at, callers := x, y.at, y.callers
			each := 2
			if callers > 2 {
				if vs.RaceEnabled {
					continue
				}
				each = 1
			}
			body, oracle := sim.Body(func(t *sim.T) {
				w := newWorld(t, rd, x.from)
				n := make([]int, callers)
				for i := 0; i < callers; i++ {
					i := i
					vs.GoNamed(fmt.Sprintf("caller%d", i), func() {
						w.call(3, byte(i), nil)
						n[i]++
						if each > 1 {
							w.call(2, byte(i), nil)
							n[i]++
						}
					})
				}
				if at > 0 {
					vs.SleepNS(at)
				}
				set(w.rl, x.to)
				to := x.to
				if to < -1 {
					to = -1
				}
				for k := int64(0); k <= int64(each*callers)+1; k++ {
					if k*sec+sec/2 < vs.Now() {
						continue
					}
					vs.SleepNS(k*sec + sec/2 - vs.Now())
					w.busy(to)
				}
				got := 0
				for _, k := range n {
					got += k
				}
				if got != each*callers {
					t.Failf("only %d of %d calls have completed after %.1f s", got, each*callers, float64(vs.Now())/1e9)
				}
				if x.to > 0 {
					if err := windows(w.log, x.to, at/sec*sec+sec); err != nil {
						t.Failf("%v", err)
					}
				}
				if x.from > 0 && x.to > 0 {
					r := x.from
					if x.to > r {
						r = x.to
					}
					if err := windows(w.log, r, 0); err != nil {
						t.Failf("%v", err)
					}
				}
			})
			c := cfg(b)
			if at > 0 || !b.Thorough() {
				c.Bound--
			}
			if callers > 2 {
				c.Bound = 1
				if b.Thorough() && callers == 3 {
					c.Bound = 2
				}
			}
			if b.Expired() {
				return
			}
			b.Explore(fmt.Sprintf("limit %d set to %d after %v, %d callers with %d calls each", x.from, x.to, time.Duration(at), callers, each), c, body, oracle)
		}
	}
}

// slow: a call whose destination never returns must not hold up others.
func slow(b *run.B, rd bool) {
	for _, r := range []int64{-1, 1, 3} {
		r := r
		body, oracle := sim.Body(func(t *sim.T) {
			w := newWorld(t, rd, r)
			vs.GoNamed("stuck", func() {
				e := &end{log: &w.log, o: &w.o, never: true}
				if rd {
					_ = w.rl.Read(e, make([]byte, 2))
				} else {
					_ = w.rl.Write(e, make([]byte, 2))
				}
			})
			n := make([]int, 2)
			for i := range n {
				i := i
				vs.GoNamed(fmt.Sprintf("caller%d", i), func() {
					w.call(2, 9, nil)
					n[i] = 1
				})
			}
			vs.SleepNS(3*sec + sec/2)
			vs.Settle()
			if n[0]+n[1] != 2 {
				t.Failf("only %d of 2 calls have completed after 3.5 s", n[0]+n[1])
			}
			if r > 0 {
				if err := windows(w.log, r, 0); err != nil {
					t.Failf("%v", err)
				}
			}
		})
		c := cfg(b)
		c.Bound--
		b.Explore(fmt.Sprintf("limit %d", r), c, body, oracle)
	}
}

// both: readers and writers have limits of their own.
func both(b *run.B) {
	for _, x := range []struct{ r, w int64 }{{1, -1}, {-1, 1}, {2, 1}, {1, 3}} {
		x := x
		body, oracle := sim.Body(func(t *sim.T) {
			wr := newWorld(t, false, x.w)
			wr.rl.SetReadRate(x.r)
			rd := &world{t: t, rd: true, rl: wr.rl}
			n := make([]int, 2)
			vs.GoNamed("writer", func() {
				for i := 0; i < 2; i++ {
					wr.call(2, byte(i), nil)
					n[0]++
				}
			})
			vs.GoNamed("reader", func() {
				for i := 0; i < 2; i++ {
					rd.call(2, byte(i), nil)
					n[1]++
				}
			})
			vs.Settle()
			if x.w < 0 && n[0] != 2 || x.r < 0 && n[1] != 2 {
				t.Failf("unlimited calls wait: %v", n)
			}
			vs.SleepNS(2*sec + sec/2)
			vs.Settle()
			if n[0] != 2 || n[1] != 2 {
				t.Failf("after 2.5 s writes and reads %v of 2", n)
			}
			if x.w > 0 {
				if err := windows(wr.log, x.w, 0); err != nil {
					t.Failf("writes: %v", err)
				}
			}
			if x.r > 0 {
				if err := windows(rd.log, x.r, 0); err != nil {
					t.Failf("reads: %v", err)
				}
			}
		})
		b.Explore(fmt.Sprintf("read limit %d, write limit %d", x.r, x.w), cfg(b), body, oracle)
	}
}

// stop: Stop at any moment ends the loop and returns.
func stop(b *run.B) {
	for _, r := range []int64{-1, 1} {
		for _, at := range []int64{0, 1, sec - 1, sec, sec + 1, 3 * sec} {
			r, at := r, at
			body, oracle := sim.Body(func(t *sim.T) {
				w := newWorld(t, false, r)
				vs.GoNamed("caller", func() {
					w.call(1, 1, nil)
					w.call(1, 2, nil)
				})
				vs.SleepNS(at)
				ret := false
				vs.GoNamed("stopper", func() { w.rl.Stop(); ret = true })
				vs.Settle()
				if !ret {
					t.Failf("Stop has not returned")
				}
				if !w.loop {
					t.Failf("the loop has not ended")
				}
			})
			b.Explore(fmt.Sprintf("limit %d, Stop after %v", r, time.Duration(at)), cfg(b), body, oracle)
		}
	}
}
