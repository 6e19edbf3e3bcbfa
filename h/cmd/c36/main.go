// C36: an idle client rests and a busy one stays bounded. A real started swarm
// goes through histories of peers and listener events; after each it has to
// come to rest, wake up rarely, and keep threads, memory and open files in
// proportion to the live connections. The real program has to use next to no
// processor time while nothing happens.
package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"gotor/zv/vnet"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/ref"
	"vh/run"
	"vh/sim"
	"vh/sw"
	"vh/tor"
	"vh/trk"
	"vh/wire"
)

const sec = int64(time.Second)

// What is still proportionate: two orders of magnitude above what a ticker for
// keep-alives and one for requests take.
const (
	maxWakes   = 50    // clock times at which something runs, per connection and second
	maxSteps   = 20000 // scheduling steps, per connection and second
	maxThreads = 10    // per connection
	extra      = 8     // threads without any connection
)

func main() {
	run.Main(run.Spec{
		ID:    "C36",
		Level: "model_checking",
		Rule:  "a started swarm (everything, a part or nothing held, with and without an upload limit) and every sequence of up to 2 (thorough 3) of 21 events (good peers incoming, dialled, without a bitfield, leaving, resetting, silent, flooding, taking nothing, sending halves and garbage, failing accepts for a while or until further notice, a closed listener, undiallable peers), with windows of 20 s after each event and after 400 s; every schedule up to the bound of delays of single events; floods of every message kind by a peer that takes nothing, a part or all, and messages without an end; 64 connections coming and going in every way with large pieces, and hundreds of requests: threads, heap and open files compared; the real program left alone with everything, a part and nothing held, with no, idle, unreachable and departed peers and the processor time it took",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range events {
				i := i
				bs = append(bs, run.Block{Name: "rest/" + events[i], Fn: func(b *run.B) { rest(b, i) }})
				bs = append(bs, run.Block{Name: "schedules/" + events[i], Fn: func(b *run.B) { schedules(b, i) }})
			}
			for i := range floods {
				i := i
				bs = append(bs, run.Block{Name: "flood/" + floods[i].how, Fn: func(b *run.B) { flood(b, i) }})
			}
			for i := range ends {
				i := i
				bs = append(bs, run.Block{Name: "turnover/" + ends[i], Fn: func(b *run.B) { turnover(b, i) }})
			}
			bs = append(bs, run.Block{Name: "files", Fn: files})
			for i := range procs {
				i := i
				bs = append(bs, run.Block{Name: "process/" + procs[i], Fn: func(b *run.B) { process(b, i) }})
			}
			return bs
		},
	})
}

var (
	lay   = tor.New(4, 6, 9)
	helds = [][]bool{{true, true, true, true}, {true, false, true, false}, {false, false, false, false}}
	disks = map[string]*sim.Disk{}
)

func disk(l *tor.Layout, h int) *sim.Disk {
	k := fmt.Sprint(l, h)
	if disks[k] == nil {
		var held []bool
		for i := int64(0); i < l.NumPieces(); i++ {
			held = append(held, helds[h][i%4])
		}
		disks[k] = sim.NewDisk(l, held)
	}
	return disks[k]
}

type world struct {
	lay   *tor.Layout
	d     *sim.Disk
	held  []bool
	s     *swarm.Swarm
	l     *sim.Listener
	dial  map[string]func() (net.Conn, error)
	conns []*sim.Conn
	dials int // dials that take their time
	down  bool
}

func newWorld(l *tor.Layout, h int, rate int64) *world {
	sw.Setup()
	vos.Sched = false
	w := &world{lay: l, d: disk(l, h), l: &sim.Listener{}, dial: map[string]func() (net.Conn, error){}}
	for i := int64(0); i < l.NumPieces(); i++ {
		w.held = append(w.held, helds[h][i%4])
	}
	w.s = w.d.Swarm(w.held)
	if rate > 0 {
		w.s.RLIO.SetWriteRate(rate)
	}
	vnet.ListenHook = func(string, string) (net.Listener, error) { return w.l, nil }
	vnet.DialHook = func(_, a string, _ time.Duration) (net.Conn, error) {
		if f := w.dial[a]; f != nil {
			return f()
		}
		return nil, syscall.ECONNREFUSED
	}
	return w
}

func (w *world) conn(label string) *sim.Conn {
	c := sim.New(label, fmt.Sprintf("10.0.%d.%d", len(w.conns)/200, len(w.conns)%200+1), 5000+len(w.conns))
	c.NoTime = true
	w.conns = append(w.conns, c)
	return c
}

func (w *world) hello() []byte {
	return sim.Handshake(w.d.Tor.Infohash(), "-XX0001-zyxwvutsrqpo")
}

// known is a peer the tracker told us of.
func (w *world) known(f func() (net.Conn, error)) {
	ip, port := fmt.Sprintf("10.2.%d.%d", len(w.dial)/200, len(w.dial)%200+1), uint16(7000+len(w.dial))
	w.s.Peers = append(w.s.Peers, peer.MakePeer("", net.ParseIP(ip), port))
	w.dial[fmt.Sprintf("%s:%d", ip, port)] = f
}

func (w *world) all() []byte {
	h := make([]bool, w.lay.NumPieces())
	for i := range h {
		h[i] = true
	}
	return wire.Msg{Type: wire.Bitfield, Data: sim.Wire(h)}.Encode()
}

func ask(k int) []byte {
	var b []byte
	for i := 0; i < k; i++ {
		b = append(b, wire.Msg{Type: wire.Request, Index: uint32(i % 2 * 2), ReqLen: 3}.Encode()...)
	}
	return b
}

var events = []string{"good", "no bitfield", "some pieces", "requests", "leaves", "leaves at once", "resets", "silent", "half handshake", "half message", "takes nothing", "takes part", "flood", "garbage", "hostile", "accept fails", "accept keeps failing", "accept works again", "listener closes", "dialled", "undiallable"}

// before says that an event happens before the start.
func early(how string) bool { return how == "dialled" || how == "undiallable" }

func (w *world) event(how string) {
	switch how {
	case "accept fails":
		for i := 0; i < 3; i++ {
			w.l.Push(nil, &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE})
		}
		return
	case "accept keeps failing":
		w.l.Fail(syscall.EMFILE)
		return
	case "accept works again":
		w.l.Fail(nil)
		return
	case "listener closes":
		w.down = true
		_ = w.l.Close()
		return
	case "undiallable":
		w.dials++
		w.known(func() (net.Conn, error) {
			vs.SleepNS(130 * sec)
			return nil, syscall.ETIMEDOUT
		})
		return
	}
	if w.down {
		return // nobody can connect
	}
	c := w.conn(how)
	hs := w.hello()
	switch how {
	case "good", "dialled":
		c.Send(hs, w.all())
	case "no bitfield":
		c.Send(hs)
	case "some pieces":
		h := make([]bool, w.lay.NumPieces())
		h[1] = true
		c.Send(hs, wire.Msg{Type: wire.Bitfield, Data: sim.Wire(h)}.Encode())
	case "requests":
		c.Send(hs, append(w.all(), ask(5)...))
	case "leaves":
		c.Send(hs, w.all(), ask(2))
		c.SendEOF()
	case "leaves at once":
		c.SendEOF()
	case "resets":
		c.Send(hs, ask(2))
		c.Break(syscall.ECONNRESET)
	case "silent":
	case "half handshake":
		c.Send(hs[:40])
	case "half message":
		c.Send(hs, ask(1)[:9])
	case "takes nothing":
		c.Cap = 68 + 6 + 5
		c.Send(hs, append(w.all(), ask(3)...))
	case "takes part":
		c.Cap, c.Partial = 68+6+5+9, true
		c.Send(hs, append(w.all(), ask(4)...))
	case "flood":
		c.Send(hs, ask(200))
	case "garbage":
		c.Send(bytes.Repeat([]byte("GET / HTTP/1.1\r\n"), 100))
	case "hostile":
		c.Send(hs, append(w.all(), 0xff, 0xff, 0xff, 0xff, 7, 0, 0))
	}
	if how == "dialled" {
		w.known(func() (net.Conn, error) { return c, nil })
		return
	}
	w.l.Push(c, nil)
}

// open is the number of connections that are not closed.
func (w *world) open() int {
	n := 0
	for _, c := range w.conns {
		if !c.Closed() {
			n++
		}
	}
	return n
}

// bounded wants threads in proportion to the connections there are.
func (w *world) bounded(t *sim.T, when string) bool {
	n := w.open() + w.dials
	if l := vs.Live(); len(l) > maxThreads*n+extra {
		t.Failf("%s: %d threads for %d connections: %.600s", when, len(l), n, strings.Join(l, ", "))
		return false
	}
	return true
}

// window lets a span pass in which nobody does anything.
func (w *world) window(t *sim.T, when string, seconds int64) bool {
	n := int64(w.open() + w.dials + 1)
	s0, w0 := vs.Work()
	vs.SleepNS(seconds * sec)
	vs.Settle()
	s1, w1 := vs.Work()
	if k := w1 - w0; k > maxWakes*n*seconds {
		t.Failf("%s: something ran at %d times within %d seconds in which nobody did anything, with %d connections", when, k, seconds, n-1)
		return false
	}
	if k := s1 - s0; k > maxSteps*n*seconds {
		t.Failf("%s: %d steps within %d seconds in which nobody did anything, with %d connections", when, k, seconds, n-1)
		return false
	}
	return w.bounded(t, when)
}

type history struct {
	evs  []string
	h    int
	rate int64
}

func (hi *history) desc() string {
	return fmt.Sprintf("%s; held %v, upload limit %d", strings.Join(hi.evs, ", "), helds[hi.h], hi.rate)
}

func (hi *history) run(t *sim.T, explore bool) {
	vs.Quiet(true)
	w := newWorld(lay, hi.h, hi.rate)
	for _, e := range hi.evs {
		if early(e) {
			w.event(e)
		}
	}
	if explore {
		for _, e := range hi.evs {
			if !early(e) {
				w.event(e)
			}
		}
		vs.Quiet(false)
		vs.GoNamed("start", w.s.Start)
		vs.Settle()
		w.window(t, "after the start", 1)
		vs.Quiet(true)
		w.window(t, "later", 20)
		return
	}
	vs.GoNamed("start", w.s.Start)
	vs.Settle()
	if !w.window(t, "after the start", 20) {
		return
	}
	for i, e := range hi.evs {
		if early(e) {
			continue
		}
		w.event(e)
		vs.Settle()
		if !w.bounded(t, fmt.Sprintf("at event %d, %s", i, e)) || !w.window(t, fmt.Sprintf("after event %d, %s", i, e), 20) {
			return
		}
	}
	// everybody stays silent
	w.l.Fail(nil)
	vs.SleepNS(400 * sec)
	vs.Settle()
	if w.dials = 0; !w.window(t, "after 400 seconds of silence", 20) {
		return
	}
	if w.down {
		return // some may never have been accepted
	}
	if n := w.open(); n > 0 {
		t.Failf("%d connections are open after 400 seconds of silence", n)
	}
}

func once(b *run.B, desc string, f func(t *sim.T)) {
	bd, oracle := sim.Body(f)
	b.Once(desc, vs.Config{MaxSteps: 20000000, NoSpin: true}, bd, oracle)
}

func rest(b *run.B, i int) {
	one := func(h int, rate int64, evs ...string) {
		hi := &history{evs, h, rate}
		once(b, hi.desc(), func(t *sim.T) { hi.run(t, false) })
	}
	for h := range helds {
		for _, rate := range []int64{0, 40} {
			one(h, rate, events[i])
			for j := range events {
				if b.Expired() {
					return
				}
				if rate > 0 && h > 0 && !b.Thorough() {
					continue
				}
				one(h, rate, events[i], events[j])
				for k := range events {
					if !b.Thorough() || b.Expired() {
						break
					}
					one(h, rate, events[i], events[j], events[k])
				}
			}
		}
	}
}

func schedules(b *run.B, i int) {
	n := 1
	if b.Thorough() {
		n = 2
	}
	for h := range helds {
		if b.Expired() || events[i] == "flood" {
			return
		}
		hi := &history{[]string{events[i]}, h, 0}
		bd, oracle := sim.Body(func(t *sim.T) { hi.run(t, true) })
		b.Explore(hi.desc(), vs.Config{Bound: n, Delay: true, MaxSteps: 5000000, NoSpin: true}, bd, oracle)
	}
}

// ---- floods

var floods = []struct {
	how string
	msg func(w *world) []byte
}{
	{"requests", func(w *world) []byte { return ask(2) }},
	{"bitfields", func(w *world) []byte { return w.all() }},
	{"keep-alives", func(w *world) []byte { return []byte{0, 0, 0, 0} }},
	{"have", func(w *world) []byte { return wire.Msg{Type: wire.Have, Index: 1}.Encode() }},
	{"interested", func(w *world) []byte { return []byte{0, 0, 0, 1, 2} }},
	{"unknown", func(w *world) []byte { return append([]byte{0, 0, 4, 1, 99}, make([]byte, 1024)...) }},
	{"blocks", func(w *world) []byte {
		return wire.Msg{Type: wire.Piece, Index: 0, Data: make([]byte, 4)}.Encode()
	}},
	{"large messages", func(w *world) []byte { return append([]byte{0, 15, 0, 1, 99}, make([]byte, 15<<16)...) }},
}

// heap is how much memory is in use.
func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func flood(b *run.B, i int) {
	total := 3 << 20
	if b.Thorough() {
		total = 12 << 20
	}
	for h := range helds {
		for _, capped := range []int64{-1, 68 + 6 + 5, 68 + 6 + 5 + 1000} {
			for _, rate := range []int64{0, 1000} {
				h, capped, rate := h, capped, rate
				if b.Expired() {
					return
				}
				m := floods[i].msg(newWorld(lay, h, 0))
				k := total / len(m)
				if len(m) < 100 {
					k = 60000 / len(m) // every message takes a number of steps
				}
				once(b, fmt.Sprintf("%d x %s, a peer that takes %d bytes, held %v, upload limit %d", k, floods[i].how, capped, helds[h], rate), func(t *sim.T) {
					vs.Quiet(true)
					w := newWorld(lay, h, rate)
					c := w.conn("flood")
					c.Cap = capped
					c.Send(w.hello())
					c.Send(bytes.Repeat(m, k))
					w.l.Push(c, nil)
					h0 := heap()
					vs.GoNamed("start", w.s.Start)
					vs.Settle()
					if !w.bounded(t, "while being flooded") {
						return
					}
					// what a message and the buffers take, once over for what is garbage
					if h1 := heap(); h1-h0 > 4<<20+int64(total)/4 {
						t.Failf("%d bytes more in use after a flood of %d", h1-h0, k*len(m))
						return
					}
					vs.SleepNS(5 * sec)
					vs.Settle()
					if !w.bounded(t, "after 5 seconds of being flooded") {
						return
					}
					vs.SleepNS(400 * sec)
					vs.Settle()
					if w.window(t, "400 seconds after a flood", 20) && w.open() > 0 && rate == 0 {
						t.Failf("still connected 400 seconds after a flood")
					}
				})
			}
		}
	}
	backlog(b, i)
	endless(b, i)
}

// endless: a message that doesn't end is not collected without limit.
func endless(b *run.B, i int) {
	if floods[i].how != "large messages" {
		return
	}
	chunk := make([]byte, 1<<20)
	for h := range helds {
		for _, claim := range []uint32{2 << 20, 16 << 20, 64 << 20, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			for _, id := range []byte{0, 5, 6, 7, 20, 99} {
				h, claim, id := h, claim, id
				if b.Expired() {
					return
				}
				once(b, fmt.Sprintf("40 mebibytes of a message of %d, kind %d, held %v", claim, id, helds[h]), func(t *sim.T) {
					vs.Quiet(true)
					w := newWorld(lay, h, 0)
					c := w.conn("flood")
					c.Send(w.hello(), w.all(), []byte{byte(claim >> 24), byte(claim >> 16), byte(claim >> 8), byte(claim), id})
					for k := 0; k < 40; k++ {
						c.Send(chunk)
					}
					w.l.Push(c, nil)
					h0 := heap()
					vs.GoNamed("start", w.s.Start)
					vs.Settle()
					if h1 := heap(); h1-h0 > 8<<20 && !c.Closed() {
						t.Failf("%d bytes more in use", h1-h0)
					}
				})
			}
		}
	}
}

// backlog: requests of a peer that takes no replies are left unread in the end.
func backlog(b *run.B, i int) {
	if floods[i].how != "requests" {
		return
	}
	big := tor.New(1<<15, 4<<15)
	for _, rate := range []int64{0, 1} {
		rate := rate
		once(b, fmt.Sprintf("100000 requests that get no room for replies, upload limit %d", rate), func(t *sim.T) {
			vs.Quiet(true)
			w := newWorld(big, 0, rate)
			c := w.conn("flood")
			c.Cap = 68 + 6 + 5
			c.Send(w.hello())
			h0 := heap()
			q := ask(1)
			copy(q[len(q)-4:], []byte{0, 0, 0x40, 0})
			c.Send(bytes.Repeat(q, 100000))
			w.l.Push(c, nil)
			vs.GoNamed("start", w.s.Start)
			vs.Settle()
			vs.SleepNS(20 * sec)
			vs.Settle()
			if !w.bounded(t, "with 100000 requests open") {
				return
			}
			if h1 := heap(); h1-h0 > 16<<20 {
				t.Failf("%d bytes more in use with replies waiting", h1-h0)
				return
			}
			if c.Unread() == 0 {
				t.Failf("100000 requests have been read of which none could be answered")
			}
		})
	}
}

// ---- turnover

var ends = []string{"end of stream", "reset", "bad handshake", "hostile", "silence", "no data taken", "dialled"}

// turnover: connections that have ended leave nothing behind.
func turnover(b *run.B, i int) {
	n := 64
	if b.Thorough() {
		n = 256
	}
	big := tor.New(1<<20, 2<<20, 1<<20)
	for h := range helds {
		h := h
		if b.Expired() {
			return
		}
		once(b, fmt.Sprintf("%d connections, %s, held %v", n, ends[i], helds[h]), func(t *sim.T) {
			vs.Quiet(true)
			w := newWorld(big, h, 0)
			end := func(c *sim.Conn) {
				switch ends[i] {
				case "reset":
					c.Break(syscall.ECONNRESET)
				case "hostile":
					c.Send([]byte{0xff, 0xff, 0xff, 0xff, 7})
				case "silence", "no data taken":
				default:
					c.SendEOF()
				}
			}
			if ends[i] == "dialled" {
				for k := 0; k < n; k++ {
					c, k := w.conn("dialled"), k
					c.Send(w.hello(), w.all(), ask(1))
					w.known(func() (net.Conn, error) {
						vs.SleepNS(int64(k) * 13 * sec / 1000)
						return c, nil
					})
				}
			}
			var h0 int64
			var f0 int
			if ends[i] != "dialled" {
				vs.GoNamed("start", w.s.Start)
				vs.Settle()
			}
			h0, f0 = heap(), fds()
			if ends[i] == "dialled" {
				vs.GoNamed("start", w.s.Start)
				vs.SleepNS(10 * sec)
				vs.Settle()
				for _, c := range w.conns {
					end(c)
				}
				vs.Settle()
			}
			for k := 0; k < n && ends[i] != "dialled"; k++ {
				vs.SleepNS(13 * sec / 1000) // no two at the same time of a second
				c := w.conn("short")
				hs := w.hello()
				if ends[i] == "bad handshake" {
					hs[30] ^= 1
				}
				if ends[i] == "no data taken" {
					c.Cap = 68 + 6 + 5
				}
				c.Send(hs, w.all(), ask(1))
				w.l.Push(c, nil)
				vs.Settle()
				end(c)
				vs.Settle()
			}
			vs.SleepNS(400 * sec)
			vs.Settle()
			if w.open() > 0 {
				t.Failf("%d connections are still open", w.open())
				return
			}
			if !w.window(t, "after all have left", 20) {
				return
			}
			// each had a buffer of a mebibyte
			if h1 := heap(); h1-h0 > int64(n)<<20/4 {
				t.Failf("%d bytes more in use after %d connections have ended", h1-h0, n)
				return
			}
			if f1 := fds(); f1 > f0+8 {
				t.Failf("%d files open before, %d after", f0, f1)
			}
		})
	}
}

// fds is how many files this process has open.
func fds() int {
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(e)
}

// files: serving opens no more and no more files.
func files(b *run.B) {
	for _, l := range []*tor.Layout{lay, tor.New(4, 1, 1, 1, 1, 1, 1, 1, 1, 9), tor.New(1<<14, 3<<14)} {
		for h := 0; h < 2; h++ {
			l, h := l, h
			once(b, fmt.Sprintf("300 requests to %v, held %v", l, helds[h]), func(t *sim.T) {
				vs.Quiet(true)
				w := newWorld(l, h, 0)
				c := w.conn("peer")
				c.Send(w.hello(), w.all())
				w.l.Push(c, nil)
				vs.GoNamed("start", w.s.Start)
				vs.Settle()
				f0 := fds()
				for k := 0; k < 100; k++ {
					c.Send(ask(3))
					vs.Settle()
				}
				// the files may be opened when they are needed, and kept
				if f1 := fds(); f1 > f0+len(l.Lens)+8 {
					t.Failf("%d files open before 300 requests, %d after", f0, f1)
				}
				c.SendEOF()
				vs.Settle()
			})
		}
	}
}

// ---- the program

var procs = []string{"alone", "idle peer", "peer that left", "silent peer", "unreachable", "dialled", "two torrents' worth"}

var slots = make(chan bool, 4)

// process leaves the real program alone and looks at what it takes.
func process(b *run.B, i int) {
	var wg sync.WaitGroup
	type res struct {
		h   int
		lim bool
		err error
	}
	var out []*res
	for h := range helds {
		for _, lim := range []bool{false, true} {
			r := &res{h: h, lim: lim}
			out = append(out, r)
			wg.Add(1)
			go func() {
				defer wg.Done()
				slots <- true
				defer func() { <-slots }()
				for k := 0; k < 6; k++ {
					// somebody else may get the port first
					if r.err = leave(procs[i], r.h, r.lim, b.Thorough()); r.err == nil || !strings.Contains(r.err.Error(), "address already in use") {
						break
					}
				}
			}()
		}
	}
	wg.Wait()
	for _, r := range out {
		r := r
		b.Case(func() string {
			return fmt.Sprintf("the program, %s, held %v, limits %v", procs[i], helds[r.h], r.lim)
		}, func() error { return r.err })
		b.Distinct(1)
	}
}

var (
	bmu         sync.Mutex
	bnum, bport int
)

func leave(what string, h int, lim, thorough bool) error {
	bmu.Lock()
	bnum++
	dir := filepath.Join(run.Scratch, fmt.Sprintf("p%d", bnum))
	bmu.Unlock()
	defer os.RemoveAll(dir)
	wd := filepath.Join(dir, "wd")
	if err := os.MkdirAll(wd, 0700); err != nil {
		panic(err)
	}
	l := tor.New(1<<10, 3<<10, 2000)
	if what == "two torrents' worth" {
		l = tor.New(1<<10, 1<<17, 1<<17, 5)
	}
	srv := trk.Start()
	defer srv.Close()
	inf := map[string]interface{}{"name": l.Name, "piece length": l.PieceLen, "pieces": l.Hashes()}
	var fs []interface{}
	for k, n := range l.Lens {
		var p []interface{}
		for _, c := range strings.Split(filepath.ToSlash(l.Path(k)), "/") {
			p = append(p, c)
		}
		fs = append(fs, map[string]interface{}{"length": n, "path": p})
	}
	inf["files"] = fs
	raw := ref.Ben(map[string]interface{}{"announce": "http://" + srv.Addr + "/announce", "info": inf})
	tf := filepath.Join(dir, "t.torrent")
	if err := os.WriteFile(tf, []byte(raw), 0600); err != nil {
		panic(err)
	}
	if h < 2 {
		for k := range l.Lens {
			d := append([]byte(nil), l.FileBytes(k)...)
			if h == 1 && len(d) > 1500 {
				d[1500] ^= 1
			}
			p := l.Local(wd, k)
			if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
				panic(err)
			}
			if err := os.WriteFile(p, d, 0600); err != nil {
				panic(err)
			}
		}
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer ln.Close()
	lp := ln.Addr().(*net.TCPAddr).Port
	switch what {
	case "dialled":
		body := "d8:completei1e10:incompletei1e8:intervali1800e5:peers6:\x7f\x00\x00\x01" + string([]byte{byte(lp >> 8), byte(lp)}) + "e"
		srv.Body(body)
	case "unreachable":
		// nobody listens there
		srv.Body("d8:completei1e10:incompletei1e8:intervali1800e5:peers12:\x7f\x00\x00\x01\x00\x01\x7f\x00\x00\x02\x00\x01e")
	}
	port := free()
	args := []string{"-i", tf, "-w", wd, "-p", strconv.Itoa(port)}
	if lim {
		args = append(args, "-u", "100B", "-d", "100B")
	}
	c := exec.Command(os.Getenv("VH_BIN"), args...)
	c.Dir = wd
	// ends with the thread that starts it
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so strings.Builder
	c.Stdout = &tail{b: &so}
	c.Stderr = &tail{b: &so}
	if err := c.Start(); err != nil {
		panic(err)
	}
	ended := make(chan bool)
	go func() { _ = c.Wait(); close(ended) }()
	stop := func() { _ = c.Process.Kill(); <-ended }
	// it is up when it takes connections
	var pc net.Conn
	for k := 0; ; k++ {
		if pc, err = net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
			break
		}
		select {
		case <-ended:
			return fmt.Errorf("the program ends: %.4000s", so.String())
		case <-time.After(20 * time.Millisecond):
		}
		if k > 1000 {
			stop()
			return fmt.Errorf("the program does not listen on port %d: %.300s", port, so.String())
		}
	}
	defer pc.Close()
	ih := infohash(raw)
	hs := sim.Handshake(ih, "-XX0001-zyxwvutsrqpo")
	switch what {
	case "alone", "unreachable", "two torrents' worth", "dialled":
		pc.Close()
	case "idle peer":
		_, _ = pc.Write(hs)
	case "peer that left":
		_, _ = pc.Write(hs)
		time.Sleep(50 * time.Millisecond)
		pc.Close()
	case "silent peer":
	}
	if what == "dialled" {
		_ = ln.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Second))
		dc, err := ln.Accept()
		if err != nil {
			stop()
			return fmt.Errorf("the program does not dial: %v", err)
		}
		defer dc.Close()
		_, _ = dc.Write(hs)
	}
	time.Sleep(300 * time.Millisecond)
	before := cpu(c.Process.Pid)
	span := 1500 * time.Millisecond
	if thorough {
		span *= 4
	}
	select {
	case <-ended:
		return fmt.Errorf("the program ends by itself: %.4000s", so.String())
	case <-time.After(span):
	}
	used := cpu(c.Process.Pid) - before
	stop()
	if used > span/8 {
		return fmt.Errorf("took %v of processor time within %v in which nothing happened", used, span)
	}
	return nil
}

// tail keeps the first bytes of what is written.
type tail struct {
	mu sync.Mutex
	b  *strings.Builder
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 4096 {
		t.b.Write(p)
	}
	return len(p), nil
}

// cpu is the processor time a process of ours has used so far.
func cpu(pid int) time.Duration {
	d, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(d[bytes.LastIndexByte(d, ')')+1:]))
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond
}

// free is a port that nobody listens on, below those that connections get.
func free() int {
	for {
		bmu.Lock()
		bport++
		p := 10000 + (os.Getpid()*37+bport*1009)%22000
		bmu.Unlock()
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", p)); err == nil {
			l.Close()
			return p
		}
	}
}

func infohash(raw string) string {
	sp, _ := ref.TopSpans(raw, "info")
	h := sha1.Sum([]byte(raw[sp[0][0]:sp[0][1]]))
	return string(h[:])
}
