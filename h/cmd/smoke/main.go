// smoke: self-test of the controlled scheduler on toy programs with known
// answers. Not a property check; run with ./check.sh smoke.
package main

import (
	"fmt"
	"os"
	"sort"
	"time"

	"gotor/zv/vatomic"
	"gotor/zv/vcontext"
	"gotor/zv/vs"
	"gotor/zv/vsync"
	"gotor/zv/vtime"
)

var bad int

func expect(name string, cfg vs.Config, body func(), want map[string]bool, wantErr bool) {
	for _, nc := range []bool{false, true} {
		if nc && wantErr && vs.RaceEnabled {
			continue // the race detector reports a pair once
		}
		cfg.NoCache = nc
		got := map[string]bool{}
		failed := ""
		res := vs.Explore(cfg, body, func(x *vs.Exec) error {
			k := x.Outcome
			for _, o := range x.Obs {
				k += " " + o
			}
			got[k] = true
			if x.Races > 0 {
				failed = "race"
			}
			if x.Outcome == "panic" {
				failed = x.Panic.Value
			}
			return nil
		})
		ok := len(got) == len(want)
		for k := range want {
			if !got[k] {
				ok = false
			}
		}
		var ks []string
		for k := range got {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if wantErr != (failed != "") {
			ok = false
		}
		if !ok {
			bad++
		}
		fmt.Printf("%-22s cache=%-5v ok=%v execs=%d pruned=%d states=%d bound=%d unb=%v div=%d %v fail=%q\n", name, !nc, ok, res.Execs, res.Pruned, res.States, res.Bound, res.Unbounded, res.Diverged, ks, failed)
		if res.Diverged > 0 {
			bad++
		}
	}
}

func set(ss ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

func main() {
	big := vs.Config{Bound: 4}
	expect("mutex counter", big, func() {
		var mu vsync.Mutex
		var wg vsync.WaitGroup
		n := 0
		for i := 0; i < 3; i++ {
			wg.Add(1)
			vs.Go(func() { mu.Lock(); n++; mu.Unlock(); wg.Done() })
		}
		wg.Wait()
		vs.Observe("%d", n)
	}, set("done 3"), false)
	expect("lost update", big, func() {
		var n vatomic.Int64
		var wg vsync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			vs.Go(func() { v := n.Load(); n.Store(v + 1); wg.Done() })
		}
		wg.Wait()
		vs.Observe("%d", n.Load())
	}, set("done 1", "done 2"), false)
	expect("abba deadlock", big, func() {
		var a, b vsync.Mutex
		var wg vsync.WaitGroup
		wg.Add(2)
		vs.Go(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); wg.Done() })
		vs.Go(func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); wg.Done() })
		wg.Wait()
	}, set("done", "deadlock"), false)
	expect("chan order", big, func() {
		c := make(chan int)
		for i := 0; i < 2; i++ {
			i := i
			vs.Go(func() { vs.Send(c)(i) })
		}
		a := vs.Recv(c)
		b := vs.Recv(c)
		vs.Observe("%d%d", a, b)
	}, set("done 01", "done 10"), false)
	expect("select", big, func() {
		c, d := make(chan int, 1), make(chan int, 1)
		vs.Go(func() { vs.Send(c)(1) })
		vs.Go(func() { vs.Send(d)(2) })
		r := vs.RecvCase[int](c)
		q := vs.RecvCase[int](d)
		switch vs.Select(false, r, q) {
		case 0:
			vs.Observe("c%d", r.Val())
		case 1:
			vs.Observe("d%d", q.Val())
		}
	}, set("done c1", "done d2"), false)
	expect("close", big, func() {
		c := make(chan int, 2)
		vs.Go(func() { vs.Send(c)(1); vs.Close(c) })
		v, ok := vs.Recv2(c)
		w, ok2 := vs.Recv2(c)
		vs.Observe("%v%v%v%v", v, ok, w, ok2)
	}, set("done 1true0false"), false)
	expect("send on closed", big, func() {
		c := make(chan int, 1)
		vs.Go(func() { vs.Close(c) })
		vs.Send(c)(1)
		vs.Settle()
	}, set("done", "panic"), true)
	expect("timer select", vs.Config{Bound: 4, ClockDev: true}, func() {
		c := make(chan int)
		vs.Go(func() { vtime.Sleep(time.Second); vs.Send(c)(1) })
		r := vs.RecvCase[int](c)
		t := vs.RecvCase[time.Time](vtime.After(2 * time.Second))
		if vs.Select(false, r, t) == 0 {
			vs.Observe("msg at %d", vs.Now()/1e9)
		} else {
			vs.Observe("timeout at %d", vs.Now()/1e9)
			vs.Recv(c)
		}
	}, set("done msg at 1", "done msg at 2", "done timeout at 2", "done msg at 3", "done timeout at 3"), false)
	expect("spin", big, func() {
		var f vatomic.Int64
		vs.Go(func() { f.Store(1) })
		for f.Load() == 0 {
			vs.Loop()
		}
		vs.Observe("x")
	}, set("done x"), false)
	expect("livelock", big, func() {
		var f vatomic.Int64
		for f.Load() == 0 {
			vs.Loop()
		}
	}, set("livelock"), false)
	expect("spin needs time", big, func() {
		var f vatomic.Int64
		vs.Go(func() { vtime.Sleep(time.Second); f.Store(1) })
		for f.Load() == 0 {
			vs.Loop()
		}
		vs.Observe("%d", vs.Now()/1e9)
	}, set("done 1"), false)
	if os.Getenv("DBG") != "" {
		x := vs.Replay(vs.Config{Bound: 2, MaxSteps: 60}, nil, func() {
			var mu vsync.Mutex
			ready := false
			vs.Go(func() { mu.Lock(); ready = true; mu.Unlock() })
			for {
				vs.Loop()
				mu.Lock()
				r := ready
				mu.Unlock()
				if r {
					break
				}
			}
			vs.Observe("x")
		})
		fmt.Println(x.Outcome, x.Choices)
		for _, t := range x.Trace {
			fmt.Println(t)
		}
	}
	expect("mutex spin", vs.Config{Bound: 2}, func() {
		var mu vsync.Mutex
		ready := false
		vs.Go(func() { mu.Lock(); ready = true; mu.Unlock() })
		for {
			vs.Loop()
			mu.Lock()
			r := ready
			mu.Unlock()
			if r {
				break
			}
		}
		vs.Observe("x")
	}, set("done x"), false)
	expect("wg negative", big, func() {
		var wg vsync.WaitGroup
		wg.Done()
	}, set("panic"), true)
	expect("cond", big, func() {
		var mu vsync.Mutex
		c := vsync.NewCond(&mu)
		q := 0
		vs.Go(func() { mu.Lock(); q++; c.Signal(); mu.Unlock() })
		mu.Lock()
		for q == 0 {
			c.Wait()
		}
		mu.Unlock()
		vs.Observe("x")
	}, set("done x"), false)
	expect("rwmutex", big, func() {
		var mu vsync.RWMutex
		n := 0
		vs.Go(func() { mu.Lock(); n = 1; n = 2; mu.Unlock() })
		mu.RLock()
		v := n
		mu.RUnlock()
		vs.Observe("%d", v)
		vs.Settle()
	}, set("done 0", "done 2"), false)
	expect("3 sends bound", vs.Config{Bound: 6}, func() {
		c := make(chan int, 3)
		var wg vsync.WaitGroup
		for i := 0; i < 3; i++ {
			i := i
			wg.Add(1)
			vs.Go(func() { vs.Send(c)(i); wg.Done() })
		}
		wg.Wait()
		vs.Observe("%d%d%d", vs.Recv(c), vs.Recv(c), vs.Recv(c))
	}, set("done 012", "done 021", "done 102", "done 120", "done 201", "done 210"), false)
	expect("choose", big, func() {
		vs.Observe("%d", vs.Choose(3, false, "x"))
	}, set("done 0", "done 1", "done 2"), false)
	expect("context cancel", big, func() {
		p, stop := vcontext.WithCancel(vcontext.Background())
		c, stop2 := vcontext.WithTimeout(vcontext.WithValue(p, "k", 1), time.Second)
		defer stop2()
		vs.Go(stop)
		vs.Recv(c.Done())
		vs.Observe("%v %v", c.Err(), vs.Now())
	}, set("done context canceled 0"), false)
	expect("context timeout", big, func() {
		c, stop := vcontext.WithTimeout(vcontext.Background(), time.Second)
		defer stop()
		d, stop2 := vcontext.WithCancel(c)
		defer stop2()
		vs.Recv(d.Done())
		vs.Observe("%v %v", d.Err() == vcontext.DeadlineExceeded, vs.Now())
	}, set("done true 1000000000"), false)
	if vs.RaceEnabled {
		q := 0
		expect("no race: context", big, func() {
			c, stop := vcontext.WithCancel(vcontext.Background())
			vs.Go(func() { q++; stop() })
			vs.Recv(c.Done())
			q++
		}, set("done"), false)
		n := 0
		expect("race", big, func() {
			var wg vsync.WaitGroup
			wg.Add(2)
			for i := 0; i < 2; i++ {
				vs.Go(func() { n++; wg.Done() })
			}
			wg.Wait()
		}, set("done"), true)
		expect("no race: chan", big, func() {
			m := 0
			c := make(chan int)
			vs.Go(func() { m++; vs.Send(c)(1) })
			vs.Recv(c)
			m++
		}, set("done"), false)
		expect("no race: buffered", big, func() {
			m := 0
			c := make(chan int, 1)
			vs.Go(func() { vs.Send(c)(1); m++; vs.Send(c)(1) })
			vs.Recv(c)
			vs.Recv(c)
			m++
		}, set("done"), false)
		expect("no race: atomic", big, func() {
			m := 0
			var f vatomic.Int64
			vs.Go(func() { m++; f.Store(1) })
			for f.Load() == 0 {
				vs.Loop()
			}
			m++
		}, set("done"), false)
		expect("no race: mutex", big, func() {
			m := 0
			var mu vsync.Mutex
			var wg vsync.WaitGroup
			wg.Add(2)
			for i := 0; i < 2; i++ {
				vs.Go(func() { mu.Lock(); m++; mu.Unlock(); wg.Done() })
			}
			wg.Wait()
			m++
		}, set("done"), false)
		p := 0
		expect("race: unlocked read", big, func() {
			var mu vsync.Mutex
			vs.Go(func() { mu.Lock(); p++; mu.Unlock() })
			vs.Observe("%v", p < 0)
			vs.Settle()
		}, set("done false"), true)
	}
	if bad > 0 {
		fmt.Println("SMOKE FAILED", bad)
		os.Exit(1)
	}
	fmt.Println("smoke ok")
}
