// C22: the read loop hands over every byte once and always stops. The real
// loop runs against a sender, a consumer and a finisher under all schedules.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	"time"

	gio "gotor/io"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
)

const bufSize = 4

func main() {
	run.Main(run.Spec{
		ID:    "C22",
		Level: "model_checking",
		Rule:  "all schedules up to the deviation bound of sender, read loop, consumer and finisher; streams of 0 to 4 reads of 1 to 9 bytes over a 4-byte buffer; ends: none, end of stream, reset, either together with the last data, an error that is not repeated, a failing deadline, silence past the timeout; Finish called by the consumer after each step or by another thread at any moment, once, twice or by two at once; consumers that stop after each number of reads with or without saying ready",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for k := range inputs(tier) {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("deliver/%d", k), Fn: func(b *run.B) { deliver(b, k) }})
				for _, where := range []string{"consumer", "other", "two"} {
					where := where
					bs = append(bs, run.Block{Name: fmt.Sprintf("finish/%s/%d", where, k), Fn: func(b *run.B) { finish(b, k, where) }})
				}
			}
			bs = append(bs, run.Block{Name: "silence", Fn: silence})
			return bs
		},
	})
}

const (
	endNone = iota
	endEOF
	endReset
	endEOFJoin
	endResetJoin
	endDeadline // setting the read deadline fails
	endOnce     // a read fails, later ones would wait
	endOnceJoin // the same, with the last data
	endClosed   // the connection was closed by us
	ends
)

// inputs are the streams, as reads.
func inputs(tier string) [][]string {
	in := [][]string{{}, {"a"}, {"abcd"}, {"ab", "cd"}, {"abcdefghi"}, {"abc", "defgh", "i"}}
	if tier == "thorough" {
		in = append(in, []string{"abcde"}, []string{"a", "b", "c", "d"}, []string{"abcdefgh", "ij"})
	}
	return in
}

func bounds(b *run.B) vs.Config {
	c := vs.Config{Bound: 2, MaxTime: int64(3 * time.Hour)}
	if b.Thorough() {
		c.Bound = 4
		if vs.RaceEnabled {
			c.Bound = 3
		}
	}
	return c
}

func setup(end int) *sim.Conn {
	c := sim.New("p", "10.0.0.1", 5001)
	c.Join = end == endEOFJoin || end == endResetJoin || end == endOnceJoin
	c.OneShot = end == endOnce || end == endOnceJoin
	return c
}

// feed plays the peer.
func feed(c *sim.Conn, in []string, end int) {
	switch end {
	case endEOFJoin, endResetJoin, endOnceJoin:
		// data and end arrive together
		for i, x := range in {
			if i < len(in)-1 {
				c.Send([]byte(x))
			}
		}
		var e error
		if end != endEOFJoin {
			e = syscall.ECONNRESET
		}
		var last []byte
		if len(in) > 0 {
			last = []byte(in[len(in)-1])
		}
		c.SendLast(last, e)
		return
	}
	for _, x := range in {
		c.Send([]byte(x))
	}
	switch end {
	case endEOF:
		c.SendEOF()
	case endReset, endOnce:
		c.Break(syscall.ECONNRESET)
	case endClosed:
		_ = c.Close()
	}
}

func errOK(e error, end int) bool {
	switch end {
	case endEOF, endEOFJoin:
		return errors.Is(e, io.EOF)
	case endReset, endResetJoin, endOnce, endOnceJoin:
		return errors.Is(e, syscall.ECONNRESET)
	}
	return e != nil
}

// take receives once: data, an error, or nothing to come.
func take(rl *gio.ReadLoop, stop <-chan bool) (d []byte, e error, stopped bool) {
	dc, ec := rl.ReadData(), rl.ReadError()
	c1 := vs.RecvCase[[]byte](dc)
	c2 := vs.RecvCase[error](ec)
	c3 := vs.RecvCase[bool](stop)
	switch vs.Select(false, c1, c2, c3) {
	case 0:
		return c1.Val(), nil, false
	case 1:
		return nil, c2.Val(), false
	}
	return nil, nil, true
}

func deliver(b *run.B, k int) {
	in := inputs(b.Tier)[k]
	all := ""
	for _, x := range in {
		all += x
	}
	for end := endNone; end < ends; end++ {
		for _, hold := range []int{0, 1, 2} {
			end, hold := end, hold
			if end == endDeadline && len(in) > 0 {
				continue
			}
			body, oracle := sim.Body(func(t *sim.T) {
				c := setup(end)
				if end == endDeadline {
					c.FailDeadline = 1
				}
				rl := gio.NewReadLoop(bufSize, c, time.Hour)
				ended := false
				vs.GoNamed("loop", func() { rl.Run(); ended = true })
				var got []byte
				var err error
				after := false
				stop := make(chan bool, 1)
				vs.GoNamed("consumer", func() {
					for {
						d, e, st := take(rl, stop)
						if st {
							return
						}
						if e != nil {
							if err != nil {
								t.Failf("second error: %v after %v", e, err)
							}
							err = e
							continue
						}
						if err != nil {
							after = true
						}
						if len(d) == 0 {
							t.Failf("empty data")
						}
						cp := append([]byte(nil), d...)
						switch hold {
						case 1:
							vs.Step(&dummy, "hold", true, nil)
						case 2:
							vs.SleepNS(int64(time.Minute))
						}
						if !bytes.Equal(cp, d) {
							t.Failf("delivered %q was overwritten with %q before Ready", cp, d)
						}
						got = append(got, cp...)
						rl.Ready()
					}
				})
				feed(c, in, end)
				vs.Settle()
				vs.SleepNS(int64(20 * time.Minute))
				vs.Settle()
				vs.Send(stop)(true)
				vs.Settle()
				if end == endClosed {
					if !bytes.HasPrefix([]byte(all), got) {
						t.Failf("delivered %q of %q", got, all)
					}
				} else if string(got) != all {
					t.Failf("delivered %q of %q", got, all)
				}
				if after {
					t.Failf("data after the error")
				}
				if end == endNone && err != nil {
					t.Failf("error %v", err)
				}
				if end != endNone {
					if err == nil {
						t.Failf("the end of the stream was not reported")
					} else if !errOK(err, end) {
						t.Failf("reported %v", err)
					}
				}
				rl.Finish()
				vs.Settle()
				if !ended {
					t.Failf("the loop has not ended after Finish")
				}
				rl.Finish()
			})
			b.Explore(fmt.Sprintf("reads %q, end %d, consumer kind %d", in, end, hold), bounds(b), body, oracle)
		}
	}
}

var dummy vs.Obj

// finish: Finish at any moment.
func finish(b *run.B, k int, where string) {
	in := inputs(b.Tier)[k]
	all := ""
	for _, x := range in {
		all += x
	}
	for end := endNone; end < ends; end++ {
		// the consumer leaves after n deliveries, saying ready for the last or not
		for n := 0; n <= 2 && n <= len(in); n++ {
			for _, ready := range []bool{true, false} {
				if n == 0 && !ready {
					continue
				}
				end, n, ready := end, n, ready
				body, oracle := sim.Body(func(t *sim.T) {
					c := setup(end)
					if end == endDeadline {
						c.FailDeadline = len(in)
					}
					rl := gio.NewReadLoop(bufSize, c, time.Hour)
					ended, left, fin := false, false, 0
					stop := make(chan bool, 1)
					vs.GoNamed("loop", func() { rl.Run(); ended = true })
					var got []byte
					vs.GoNamed("consumer", func() {
						for i := 0; i < n; i++ {
							d, e, st := take(rl, stop)
							if e != nil || st {
								break
							}
							got = append(got, d...)
							if i < n-1 || ready {
								rl.Ready()
							}
						}
						if where == "consumer" {
							rl.Finish()
							fin++
						}
						left = true
					})
					if where == "other" || where == "two" {
						vs.GoNamed("finisher", func() {
							rl.Finish()
							fin++
							vs.Send(stop)(true)
						})
					}
					fin2 := where != "two"
					if !fin2 {
						vs.GoNamed("finisher2", func() { rl.Finish(); fin2 = true })
					}
					vs.GoNamed("peer", func() { feed(c, in, end) })
					vs.Settle()
					if where == "consumer" && !left {
						// waits for data that doesn't come
						vs.Send(stop)(true)
					}
					vs.Settle()
					vs.SleepNS(int64(10 * time.Second))
					vs.Settle()
					if fin == 0 || !fin2 {
						t.Failf("Finish has not returned")
					}
					if !left {
						t.Failf("the consumer is stuck")
					}
					if !ended {
						t.Failf("the loop has not ended after Finish")
					}
					if !bytes.HasPrefix([]byte(all), got) {
						t.Failf("delivered %q of %q", got, all)
					}
					again := false
					vs.GoNamed("again", func() { rl.Finish(); again = true })
					vs.Settle()
					if !again {
						t.Failf("Finish after the loop has ended has not returned")
					}
				})
				cfg := bounds(b)
				cfg.Bound--
				if where == "two" && !b.Thorough() {
					if vs.RaceEnabled {
						cfg.Bound = 0
					}
					if vs.RaceEnabled && k > 2 {
						return
					}
				}
				b.Explore(fmt.Sprintf("reads %q, end %d, consumer leaves after %d, ready %v, Finish by %s", in, end, n, ready, where), cfg, body, oracle)
			}
		}
	}
}

// silence past the timeout is an error; data postpones it.
func silence(b *run.B) {
	for _, gaps := range [][]time.Duration{{}, {59 * time.Second}, {59 * time.Second, 59 * time.Second}} {
		gaps := gaps
		body, oracle := sim.Body(func(t *sim.T) {
			c := setup(endNone)
			rl := gio.NewReadLoop(bufSize, c, time.Minute)
			ended := false
			vs.GoNamed("loop", func() { rl.Run(); ended = true })
			var got []byte
			var err error
			at := int64(0)
			vs.GoNamed("consumer", func() {
				for err == nil {
					d, e, _ := take(rl, nil)
					if e != nil {
						err = e
						at = vs.Now()
						break
					}
					got = append(got, d...)
					rl.Ready()
				}
				rl.Finish()
			})
			last := int64(0)
			for _, g := range gaps {
				vs.SleepNS(int64(g))
				c.Send([]byte("x"))
				last = vs.Now()
				vs.Settle()
			}
			vs.SleepNS(int64(5 * time.Minute))
			vs.Settle()
			if len(got) != len(gaps) {
				t.Failf("delivered %d bytes of %d", len(got), len(gaps))
			}
			if err == nil || !errors.Is(err, os.ErrDeadlineExceeded) {
				t.Failf("silence reported as %v", err)
			} else if d := time.Duration(at - last); d < time.Minute || d > 2*time.Minute {
				t.Failf("timeout after %v", d)
			}
			if !ended {
				t.Failf("the loop has not ended")
			}
		})
		b.Explore(fmt.Sprintf("gaps %v", gaps), bounds(b), body, oracle)
	}
}
