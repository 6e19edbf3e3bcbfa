// C30: starting a swarm contacts each known peer exactly once and listens. A
// real swarm is created from options, torrent and tracker and started; dialling,
// listening and the connections are simulated.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"gotor/zv/vnet"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/ref"
	"vh/run"
	"vh/sim"
	"vh/sw"
	"vh/tor"
	"vh/wire"
)

const sec = int64(time.Second)

func main() {
	run.Main(run.Spec{
		ID:    "C30",
		Level: "model_checking",
		Fresh: true,
		Rule:  "swarms started from options and a tracker reply of up to 3 peers (compact and dictionary, IPv4 and IPv6) where each peer accepts and behaves, refuses, hangs or fails late, closes, stays silent, answers for another torrent, sends garbage or a hostile message, resets, takes no data, or answers in pieces, together with up to 2 incoming connections that do the same, or fail to be accepted, in every combination, also from the addresses of the tracker's peers, with 6 ports and IPv4 and IPv6 hosts; up to 60 peers, and crowds of 150 good and 600 misbehaving ones at the same time; and all schedules up to the bound of delays of selected combinations. Each tracker peer must have been dialled exactly once and nobody else, the configured port been listened on once, every behaving peer been served within three quarters of a second whatever the others do, and every misbehaving one been closed",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range outs {
				i := i
				if !vs.RaceEnabled {
					for j := range outs {
						j := j
						bs = append(bs, run.Block{Name: "combinations/" + outs[i] + "/" + outs[j], Fn: func(b *run.B) { combos(b, i, j) }})
					}
				}
			}
			for k := range selected {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("schedules/%d", k), Fn: func(b *run.B) { schedules(b, k) }})
			}
			if !vs.RaceEnabled {
				bs = append(bs, run.Block{Name: "many", Fn: many}, run.Block{Name: "crowd", Fn: crowd}, run.Block{Name: "incoming", Fn: incomings}, run.Block{Name: "formats", Fn: formats}, run.Block{Name: "both ways", Fn: both})
			}
			for k := range bs {
				fn, p := bs[k].Fn, ports[k%len(ports)]
				bs[k].Fn = func(b *run.B) {
					port = p
					fn(b)
				}
			}
			return bs
		},
	})
}

// the port given; it differs by block
var (
	port  string
	ports = []string{"6881", "60666", "65535", "32768", "1", "256"}
)

// outs are behaviours of a peer the tracker returned.
var outs = []string{"good", "refused", "hanging", "timeout", "closes", "silent", "other", "garbage", "hostile", "stuck", "slow"}

// ins are behaviours of an incoming connection.
var ins = []string{"good", "closes", "silent", "other", "garbage", "hostile", "stuck", "slow", "reset", "fails"}

var (
	lay  = tor.New(4, 6, 9)
	held = []bool{true, false, true, false}
)

var ready bool

func prepare() {
	if ready {
		return
	}
	ready = true
	sw.Args = []string{"-p", port}
	sw.Put(lay)
	vos.Sched = false
	c := append([]byte(nil), lay.Content...)
	for i, h := range held {
		if !h {
			lo, hi := lay.Range(int64(i))
			for k := lo; k < hi; k++ {
				c[k] ^= 0x5a
			}
		}
	}
	off := int64(0)
	for i, n := range lay.Lens {
		p := lay.Local(sw.WD, i)
		if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, c[off:off+n], 0600); err != nil {
			panic(err)
		}
		off += n
	}
}

type addr struct {
	ip   string
	port int
}

func (a addr) String() string { return net.JoinHostPort(a.ip, fmt.Sprint(a.port)) }

func addrs(n int) []addr {
	var out []addr
	for i := 0; i < n; i++ {
		out = append(out, addr{fmt.Sprintf("10.1.%d.%d", i/200, i%200+1), 7000 + i})
	}
	return out
}

func compact(as []addr) string {
	var b []byte
	for _, a := range as {
		b = append(b, net.ParseIP(a.ip).To4()...)
		b = append(b, byte(a.port>>8), byte(a.port))
	}
	return body(string(b))
}

func body(peers interface{}) string {
	return ref.Ben(map[string]interface{}{"interval": int64(1800), "complete": int64(1), "incomplete": int64(2), "peers": peers})
}

func dicts(as []addr, ids bool) string {
	var ps []interface{}
	for i, a := range as {
		d := map[string]interface{}{"ip": a.ip, "port": int64(a.port)}
		if ids {
			d["peer id"] = fmt.Sprintf("-YY%04d-abcdefghijkl", i)
		}
		ps = append(ps, d)
	}
	return body(ps)
}

// remote is a peer and what it does.
type remote struct {
	how  string
	a    addr
	c    *sim.Conn
	in   bool
	data []byte
}

type world struct {
	dialled  []string
	listened []string
	l        *sim.Listener
	byAddr   map[string]*remote
	never    vs.Obj
}

//go:norace
func (w *world) note(a string) { w.dialled = append(w.dialled, a) }

//go:norace
func (w *world) noteListen(a string) { w.listened = append(w.listened, a) }

//go:norace
func (w *world) seen() (d, l []string) { return w.dialled, w.listened }

func (w *world) dial(network, a string, timeout time.Duration) (net.Conn, error) {
	w.note(a)
	r := w.byAddr[a]
	if r == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.EHOSTUNREACH}
	}
	wait := int64(0)
	switch r.how {
	case "refused":
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	case "hanging":
		wait = 100000 * sec
	case "timeout":
		wait = 130 * sec
	}
	if wait > 0 {
		if timeout > 0 && int64(timeout) < wait {
			wait = int64(timeout)
		}
		vs.SleepNS(wait)
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ETIMEDOUT}
	}
	return r.c, nil
}

func (w *world) listen(network, a string) (net.Listener, error) {
	w.noteListen(network + " " + a)
	return w.l, nil
}

var request = wire.Msg{Type: wire.Request, Index: 2, Begin: 1, ReqLen: 2}

func bitfield() []byte {
	return wire.Msg{Type: wire.Bitfield, Data: sim.Wire([]bool{true, true, true, true})}.Encode()
}

// feed makes the peer do its part; called once the connection is there.
func (r *remote) feed(ih string) {
	hs := sim.Handshake(ih, "-XX0001-zyxwvutsrqpo")
	rq := request.Encode()
	switch r.how {
	case "good":
		r.c.Send(hs, append(bitfield(), rq...))
	case "slow":
		r.c.Send(hs[:1], hs[1:50], append(append([]byte(nil), hs[50:]...), bitfield()[:3]...), bitfield()[3:], rq[:6], rq[6:])
	case "closes":
		r.c.Hangup()
	case "reset":
		r.c.Send(hs, bitfield())
		r.c.Break(syscall.ECONNRESET)
	case "other":
		r.c.Send(sim.Handshake("AAAAAAAAAABBBBBBBBBB", "-XX0001-zyxwvutsrqpo"), rq)
	case "garbage":
		r.c.Send(bytes.Repeat([]byte("GET / HTTP/1.1\r\n"), 100))
	case "hostile":
		r.c.Send(hs, append(bitfield(), 0xff, 0xff, 0xff, 0xff, 7, 0, 0))
	case "stuck":
		r.c.Send(hs, append(bitfield(), bytes.Repeat(rq, 5)...))
	}
}

func newRemote(how string, a addr, in bool) *remote {
	r := &remote{how: how, a: a, in: in}
	n := "o"
	if in {
		n = "i"
	}
	r.c = sim.New(n+a.String(), a.ip, a.port)
	r.c.NoTime = true
	if how == "stuck" {
		r.c.Cap, r.c.Partial = 75, true
	}
	return r
}

type scenario struct {
	outs, ins []string
	reply     string
	as        []addr
	rate      int64
	errs      int
	late      bool // incoming connections come after a while
	both      int  // 1: they come from the addresses of the tracker's peers, 2: all from the first one's
}

func (sc *scenario) run(t *sim.T, quiet bool) {
	vs.Quiet(true)
	s, _, err := sw.New()
	if err != nil {
		t.Failf("the swarm can't be created: %v", err)
		return
	}
	defer s.Fileio.CloseAll()
	if sc.rate > 0 {
		s.RLIO.SetWriteRate(sc.rate)
	}
	ih := s.Tor.Infohash()
	w := &world{l: &sim.Listener{}, byAddr: map[string]*remote{}}
	var all []*remote
	for i, how := range sc.outs {
		r := newRemote(how, sc.as[i], false)
		w.byAddr[r.a.String()] = r
		all = append(all, r)
		r.feed(ih)
	}
	var inc []*remote
	for i, how := range sc.ins {
		a := addr{fmt.Sprintf("10.9.%d.%d", i/200, i%200+1), 9000 + i}
		switch {
		case sc.both == 1:
			a = sc.as[i%len(sc.as)]
		case sc.both == 2:
			a = sc.as[0]
		case (i+len(sc.ins)+len(sc.outs))%3 == 0:
			a = addr{fmt.Sprintf("2001:db8::9:%x", i+1), 9000}
		case i%2 == 1:
			a = addr{"10.9.0.1", 40000 + i} // the same host once more
		}
		r := newRemote(how, a, true)
		inc = append(inc, r)
		r.feed(ih)
	}
	all = append(all, inc...)
	vnet.DialHook, vnet.ListenHook = w.dial, w.listen
	push := func() {
		for _, r := range inc {
			if r.how == "fails" {
				for _, e := range []error{syscall.EMFILE, syscall.ECONNABORTED, errors.New("odd")} {
					w.l.Push(nil, &net.OpError{Op: "accept", Net: "tcp", Err: e})
				}
				continue
			}
			w.l.Push(r.c, nil)
		}
	}
	if !sc.late {
		push()
	}
	vs.Quiet(quiet)
	vs.GoNamed("start", s.Start)
	vs.Settle()
	vs.Quiet(true)
	if sc.late {
		vs.SleepNS(3 * sec)
		vs.Quiet(quiet)
		push()
	}
	vs.SleepNS(sec / 4)
	vs.Settle()
	vs.Quiet(true)
	vs.SleepNS(sec / 2)
	vs.Settle()
	if !strings.Contains(strings.Join(sc.ins, " "), "fails") {
		// nobody has to wait for the others
		for _, r := range all {
			if r.how == "good" || r.how == "slow" {
				r.judge(t, ih, s.Id, false)
			}
		}
		if t.Err != nil {
			t.Err = fmt.Errorf("after three quarters of a second: %v", t.Err)
			return
		}
	}
	vs.SleepNS(5 * sec)
	vs.Settle()
	for _, r := range all {
		r.judge(t, ih, s.Id, false)
	}
	sc.judge(t, w)
	if t.Err != nil || !quiet {
		return
	}
	// somebody else comes
	last := newRemote("good", addr{"10.9.1.1", 9999}, true)
	last.feed(ih)
	w.l.Push(last.c, nil)
	vs.SleepNS(4 * sec)
	vs.Settle()
	last.judge(t, ih, s.Id, false)
	if t.Err != nil {
		return
	}
	vs.SleepNS(100*sec + 250*sec*b2i(sc.long()))
	vs.Settle()
	for _, r := range all {
		r.judge(t, ih, s.Id, sc.long())
	}
	sc.judge(t, w)
}

func b2i(x bool) int64 {
	if x {
		return 1
	}
	return 0
}

func (sc *scenario) long() bool {
	return strings.Contains(strings.Join(sc.outs, " ")+strings.Join(sc.ins, " "), "stuck")
}

func (sc *scenario) judge(t *sim.T, w *world) {
	d, l := w.seen()
	var want []string
	for i := range sc.outs {
		want = append(want, sc.as[i].String())
	}
	got := append([]string(nil), d...)
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Failf("dialled %v, the tracker's peers are %v", got, want)
	}
	if len(l) != 1 {
		t.Failf("listened on %v", l)
		return
	}
	h, p, err := net.SplitHostPort(strings.TrimPrefix(l[0], "tcp "))
	if ip := net.ParseIP(h); err != nil || p != port || !strings.HasPrefix(l[0], "tcp ") || h != "" && (ip == nil || !ip.IsUnspecified()) {
		t.Failf("listened on %q, the port is %s", l[0], port)
	}
}

// judge the peer after a few seconds, or much later.
func (r *remote) judge(t *sim.T, ih, id string, late bool) {
	who := r.how + " " + r.c.Label
	st := r.c.Stream()
	hs := sim.Handshake(ih, id)
	switch r.how {
	case "refused", "hanging", "timeout", "fails":
		return
	case "closes", "silent", "other", "garbage", "hostile", "reset":
		if !r.c.Closed() {
			t.Failf("%s: the connection is still open", who)
		}
	case "stuck":
		if late && !r.c.Closed() {
			t.Failf("%s: the connection is still open", who)
		}
	case "good", "slow":
		if late {
			return
		}
		if r.c.Closed() {
			t.Failf("%s: the connection was closed", who)
			return
		}
		if len(st) < 68 || !bytes.Equal(st[:68], hs) {
			t.Failf("%s: got %.80x, no handshake", who, st)
			return
		}
		ms, rest, err := wire.Split(st[68:])
		if err != nil || len(rest) > 0 {
			t.Failf("%s: got %x", who, st)
			return
		}
		n, un := 0, false
		for i, m := range ms {
			switch m.Type {
			case wire.Piece:
				n++
				if m.Index != 2 || m.Begin != 1 || !bytes.Equal(m.Data, lay.Piece(2)[1:3]) {
					t.Failf("%s: got %v", who, m)
				}
			case wire.Unchoke:
				un = true
			case wire.Bitfield:
				if i != 0 || !bytes.Equal(m.Data, sim.Wire(held)) {
					t.Failf("%s: got %v as message %d", who, m, i)
				}
			}
		}
		if n != 1 || !un {
			t.Failf("%s: not served: %v", who, ms)
		}
	}
}

func (sc *scenario) desc() string {
	if len(sc.outs)+len(sc.ins) > 100 {
		return fmt.Sprintf("%d tracker peers, %d incoming, like %v, late %v", len(sc.outs), len(sc.ins), append(append([]string(nil), sc.outs...), sc.ins...)[:4], sc.late)
	}
	return fmt.Sprintf("tracker peers %v, incoming %v, upload limit %d, late %v, addresses shared %d", sc.outs, sc.ins, sc.rate, sc.late, sc.both)
}

func once(b *run.B, sc *scenario) {
	prepare()
	if sc.as == nil {
		sc.as = addrs(len(sc.outs))
	}
	if sc.reply == "" {
		sc.reply = compact(sc.as)
	}
	sw.Srv.Body(sc.reply)
	bd, oracle := sim.Body(func(t *sim.T) { sc.run(t, true) })
	b.Once(sc.desc(), vs.Config{MaxSteps: 20000000}, bd, oracle)
}

// combos: every combination.
func combos(b *run.B, i, j int) {
	incs := [][]string{{}, {"good"}}
	for _, x := range ins {
		incs = append(incs, []string{x, "good"})
	}
	if b.Thorough() {
		for _, x := range ins {
			for _, y := range ins {
				incs = append(incs, []string{x, y, "good"})
			}
		}
	}
	third := append([]string{""}, outs...)
	for _, o := range third {
		for _, in := range incs {
			if b.Expired() {
				return
			}
			if o != "" && o != "good" && o != outs[i] && !b.Thorough() && (len(in) != 2 || in[0] != ins[(i+j)%len(ins)]) {
				continue
			}
			if o != "" && len(in) > 2 {
				continue
			}
			os := []string{outs[i], outs[j]}
			if o != "" {
				os = append(os, o)
			}
			once(b, &scenario{outs: os, ins: in, late: len(in) == 2 && (i+j)%2 == 1})
		}
	}
}

// incomings without tracker peers, and with an upload limit.
func incomings(b *run.B) {
	for _, x := range ins {
		for _, y := range ins {
			for _, late := range []bool{false, true} {
				for _, rate := range []int64{0, 3, 100} {
					if b.Expired() {
						return
					}
					in := []string{x, y, "good"}
					if rate == 3 {
						in = []string{x, y}
						if x == "good" || y == "good" || x == "slow" || y == "slow" {
							continue // served too slowly to be judged
						}
						in = nil
					}
					once(b, &scenario{ins: in, late: late, rate: rate})
				}
			}
		}
	}
}

// both: tracker peers that also connect to us, from the same address, one or
// several times.
func both(b *run.B) {
	for _, x := range outs {
		for _, y := range ins {
			for _, late := range []bool{false, true} {
				for _, how := range []int{1, 2} {
					if b.Expired() {
						return
					}
					once(b, &scenario{outs: []string{x, "good"}, ins: []string{y, "good", "good"}, late: late, both: how})
				}
			}
		}
	}
}

// many peers.
func many(b *run.B) {
	for _, n := range []int{0, 1, 4, 5, 8, 20, 60} {
		for rot := 0; rot < len(outs); rot++ {
			if b.Expired() {
				return
			}
			var os []string
			for i := 0; i < n; i++ {
				os = append(os, outs[(i+rot)%len(outs)])
			}
			once(b, &scenario{outs: os, ins: []string{"good"}})
		}
		var os []string
		for i := 0; i < n; i++ {
			os = append(os, "good")
		}
		once(b, &scenario{outs: os, ins: []string{"good", "good"}})
	}
	var in []string
	for i := 0; i < 40; i++ {
		in = append(in, ins[i%len(ins)])
	}
	once(b, &scenario{outs: []string{"good"}, ins: in})
	once(b, &scenario{outs: []string{"good"}, ins: in, late: true})
}

// crowd: hundreds of connections, at the same time.
func crowd(b *run.B) {
	rep := func(n int, how ...string) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, how[i%len(how)])
		}
		return
	}
	for _, late := range []bool{false, true} {
		once(b, &scenario{outs: rep(150, "good"), ins: []string{"good"}, late: late})
		once(b, &scenario{outs: rep(300, outs...), ins: []string{"good"}, late: late})
		once(b, &scenario{outs: []string{"good"}, ins: rep(150, "good"), late: late})
		once(b, &scenario{outs: []string{"good"}, ins: rep(600, "closes", "other", "reset", "silent", "hostile", "garbage"), late: late})
		once(b, &scenario{outs: []string{"good"}, ins: append(rep(300, "silent"), "good"), late: late})
		once(b, &scenario{outs: rep(120, "refused", "hanging", "timeout"), ins: rep(40, "slow", "good"), late: late})
		if b.Expired() {
			return
		}
	}
}

// formats of the tracker's reply, and addresses.
func formats(b *run.B) {
	sets := [][]addr{
		{{"10.0.0.1", 1}, {"10.0.0.1", 65535}, {"10.0.0.2", 1}},
		{{"1.2.3.4", 6881}, {"255.255.255.254", 80}},
		{{"2001:db8::1", 6881}, {"10.0.0.1", 6882}},
		{{"2001:db8::1", 6881}, {"2001:db8::2", 6881}, {"fe80::1", 65535}},
		{{"10.0.0.1", 256}, {"10.0.0.1", 1}, {"10.0.1.0", 1}},
	}
	for _, as := range sets {
		for _, how := range [][]string{{"good", "good", "good"}, {"refused", "good", "good"}, {"good", "hanging", "good"}} {
			prepare()
			os := how[:len(as)]
			v4 := true
			for _, a := range as {
				v4 = v4 && !strings.Contains(a.ip, ":")
			}
			if v4 {
				once(b, &scenario{outs: os, as: as, ins: []string{"good"}})
			}
			once(b, &scenario{outs: os, as: as, reply: dicts(as, true), ins: []string{"good"}})
		}
	}
}

var selected = []scenario{
	{outs: []string{"good", "good"}, ins: []string{"good"}},
	{outs: []string{"refused", "good"}, ins: []string{"other", "good"}},
	{outs: []string{"hanging", "good", "closes"}, ins: []string{"good"}},
	{outs: []string{"good"}, ins: []string{"fails", "good"}},
	{outs: []string{"good", "good", "good"}},
	{outs: []string{"silent", "good"}, ins: []string{"silent", "good"}},
	{ins: []string{"good", "good"}},
	{outs: []string{"hostile", "good"}, ins: []string{"hostile", "good"}},
	{outs: []string{"refused", "timeout", "refused"}, ins: []string{"closes", "good"}},
	{outs: []string{"stuck", "good"}, ins: []string{"stuck", "good"}, rate: 1000},
}

func schedules(b *run.B, k int) {
	prepare()
	sc := selected[k]
	sc.as = addrs(len(sc.outs))
	sc.reply = compact(sc.as)
	n := 1
	if len(sc.outs)+len(sc.ins) <= 3 {
		n = 2
	}
	if b.Thorough() {
		n = 2
		if len(sc.outs)+len(sc.ins) <= 3 {
			n = 3
		}
	}
	if vs.RaceEnabled && n > 1 {
		n--
	}
	sw.Srv.Body(sc.reply)
	bd, oracle := sim.Body(func(t *sim.T) { sc.run(t, false) })
	b.Explore(sc.desc(), vs.Config{Bound: n, Delay: true, MaxSteps: 2000000}, bd, oracle)
}
