// C17: only correctly handshaken peers of this torrent are served. Byte
// streams, their splits, delays, endings and write failures are enumerated
// against FromIncoming and FromBootstrap.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"strings"
	"syscall"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"gotor/zv/vnet"
	"gotor/zv/vs"
	"vh/run"
	"vh/sim"
	"vh/tor"
	"vh/wire"
)

const pid = "-XX0001-zyxwvutsrqpo"

func main() {
	run.Main(run.Spec{
		ID:    "C17",
		Level: "model_checking",
		Rule:  "incoming and outgoing: every one-byte change of the 68 bytes, every truncation followed by end of stream, error or silence, shifted and swapped fields, every way to split the bytes into two or three reads, bytewise delivery, delays between the parts, following data, odd peer ids and (IPv4, IPv6) addresses, all held sets of torrents of 1 to 9 pieces, failing writes and dials; and all schedules (bounded deviations) of two connections set up at once",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for _, out := range []bool{false, true} {
				out := out
				dir := map[bool]string{false: "incoming", true: "outgoing"}[out]
				for k := 0; k < 4; k++ {
					k := k
					bs = append(bs, run.Block{Name: fmt.Sprintf("%s/bytes/%d", dir, k), Fn: func(b *run.B) { corrupt(b, out, k) }})
				}
				bs = append(bs,
					run.Block{Name: dir + "/short", Fn: func(b *run.B) { short(b, out) }},
					run.Block{Name: dir + "/splits", Fn: func(b *run.B) { splits(b, out) }},
					run.Block{Name: dir + "/held", Fn: func(b *run.B) { heldSets(b, out) }},
					run.Block{Name: dir + "/writes", Fn: func(b *run.B) { writes(b, out) }},
					run.Block{Name: dir + "/schedules", Fn: func(b *run.B) { schedules(b, out) }},
				)
			}
			bs = append(bs, run.Block{Name: "dial", Fn: dial}, run.Block{Name: "addresses", Fn: addresses})
			return bs
		},
	})
}

// part of the peer's stream: bytes after a delay.
type part struct {
	after time.Duration
	d     []byte
}

const (
	endOpen = iota
	endEOF
	endReset
)

type result struct {
	ph     *swarm.PeerHandler
	err    error
	done   bool
	at     int64
	leak   string
	during []byte
}

// connect runs the set-up of one connection with the peer's stream and waits
// for its end.
func connect(d *sim.Disk, s *swarm.Swarm, c *sim.Conn, out bool, parts []part, end int) *result {
	r := &result{}
	got := 0
	start := func() {
		if out {
			vnet.DialHook = func(network, addr string, timeout time.Duration) (net.Conn, error) {
				if network != "tcp" || addr != "10.0.0.1:5001" {
					return nil, fmt.Errorf("dialled %s %s", network, addr)
				}
				return c, nil
			}
			r.ph, r.err = swarm.FromBootstrap(peer.MakePeer("", net.ParseIP("10.0.0.1"), 5001), s)
		} else {
			r.ph, r.err = swarm.FromIncoming(c, s)
		}
		r.at = vs.Now()
		r.done = true
	}
	vs.GoNamed("setup", start)
	for _, p := range parts {
		if p.after > 0 {
			vs.SleepNS(int64(p.after))
		}
		if !out && got < 68 && len(c.Stream()) > 0 {
			r.leak = fmt.Sprintf("sent %x after %d bytes of the handshake", c.Stream(), got)
		}
		c.Send(p.d)
		got += len(p.d)
		vs.Settle()
	}
	switch end {
	case endEOF:
		c.SendEOF()
	case endReset:
		c.Break(syscall.ECONNRESET)
	}
	for i := 0; i < 40 && !r.done; i++ {
		vs.Settle()
		if !r.done {
			vs.SleepNS(int64(250 * time.Millisecond))
		}
	}
	return r
}

func handshake(d *sim.Disk, id string) []byte { return sim.Handshake(d.Tor.Infohash(), id) }

// judge compares the outcome with what the property says. accept: 1 must be
// accepted, 0 must be refused, -1 either.
func judge(t *sim.T, d *sim.Disk, held []bool, c *sim.Conn, out bool, r *result, accept int) {
	if r.leak != "" {
		t.Failf("%s", r.leak)
		return
	}
	if !r.done {
		t.Failf("set-up has not ended after %.1f s", float64(vs.Now())/1e9)
		return
	}
	ok := r.err == nil && r.ph != nil
	if !ok && r.err == nil {
		t.Failf("no handler and no error")
		return
	}
	if accept == 1 && !ok {
		t.Failf("refused: %v", r.err)
		return
	}
	if accept == 0 && ok {
		t.Failf("accepted")
		return
	}
	st := c.Stream()
	hs := handshake(d, sim.ID)
	if !ok {
		if !c.Closed() {
			t.Failf("refused (%v), but the connection is open", r.err)
		}
		if !out && len(st) > 0 {
			t.Failf("refused (%v), but %d bytes were sent: %x", r.err, len(st), st)
		}
		if out && !bytes.Equal(st, hs) {
			t.Failf("refused; sent %x instead of the handshake", st)
		}
		return
	}
	if c.Closed() {
		t.Failf("accepted, but the connection is closed")
		return
	}
	n := len(hs)
	if len(st) < n {
		n = len(st)
	}
	if !bytes.Equal(st[:n], hs) {
		t.Failf("sent %x instead of our handshake %x", st[:n], hs)
		return
	}
	ms, rest, err := wire.Split(st[n:])
	if err != nil || len(rest) > 0 {
		t.Failf("after the handshake: %x (%v)", st[n:], err)
		return
	}
	if out && len(ms) == 0 {
		return
	}
	if len(ms) != 1 || ms[0].Type != wire.Bitfield || !bytes.Equal(ms[0].Data, sim.Wire(held)) {
		t.Failf("handshake is followed by %v, we hold %x", ms, sim.Wire(held))
	}
}

var std = tor.New(4, 6, 3)

func stdHeld() []bool { return []bool{true, false, true} }

func once(b *run.B, desc string, d *sim.Disk, held []bool, out bool, parts []part, end int, accept int, prep func(*sim.Conn)) {
	body, oracle := sim.Body(func(t *sim.T) {
		c := sim.New("p", "10.0.0.1", 5001)
		if prep != nil {
			prep(c)
		}
		s := d.Swarm(held)
		r := connect(d, s, c, out, parts, end)
		judge(t, d, held, c, out, r, accept)
	})
	b.Once(desc, vs.Config{}, body, oracle)
}

func corrupt(b *run.B, out bool, part_ int) {
	d := sim.NewDisk(std, stdHeld())
	good := handshake(d, pid)
	for pos := part_; pos < 68; pos += 4 {
		want := 0
		if pos >= 20 && pos < 28 || pos >= 48 {
			want = 1
		}
		for v := 0; v < 256; v++ {
			x := byte(v)
			if x == good[pos] {
				continue
			}
			if !b.Thorough() && x != good[pos]^1 && x != good[pos]^0x80 && x != good[pos]^0x20 && x != good[pos]+1 && x != good[pos]-1 && v != 0 && v != 255 && v != 1 && v != 68 && v != 18 {
				continue
			}
			if b.Expired() {
				return
			}
			h := append([]byte(nil), good...)
			h[pos] = x
			for _, end := range []int{endOpen, endEOF} {
				once(b, fmt.Sprintf("byte %d is %#02x, end %d", pos, x, end), d, stdHeld(), out, []part{{0, h}}, end, want, nil)
			}
			once(b, fmt.Sprintf("byte %d is %#02x, in two reads", pos, x), d, stdHeld(), out, []part{{0, h[:(pos+20)%67+1]}, {0, h[(pos+20)%67+1:]}}, endOpen, want, nil)
		}
	}
	if part_ != 0 {
		return
	}
	// whole-field changes
	ih := d.Tor.Infohash()
	other := "01234567890123456789"
	type named struct {
		n string
		h []byte
	}
	up := bytes.ToUpper(good)
	for _, x := range []named{
		{"other infohash", sim.Handshake(other, pid)},
		{"infohash and id swapped", sim.Handshake(pid, ih)},
		{"infohash in the reserved bytes", append(append([]byte("\x13BitTorrent protocol"), ih[:8]...), append([]byte(other), pid...)...)},
		{"no reserved bytes", append([]byte("\x13BitTorrent protocol"+ih+pid), 0, 0, 0, 0, 0, 0, 0, 0)},
		{"zeroes", make([]byte, 68)},
		{"upper case", up},
		{"shifted by one", append([]byte{0}, good[:67]...)},
		{"missing first byte", append(append([]byte(nil), good[1:]...), 0)},
		{"empty infohash", sim.Handshake(string(make([]byte, 20)), pid)},
		{"our own bitfield", bytes.Repeat([]byte{0, 0, 0, 2, 5, 0xa0}, 12)[:68]},
		{"http", bytes.Repeat([]byte("GET / HTTP/1.1\r\n\r\n"), 4)[:68]},
	} {
		for _, cut := range []int{1, 19, 20, 28, 48, 67} {
			once(b, fmt.Sprintf("%s, split at %d", x.n, cut), d, stdHeld(), out, []part{{0, x.h[:cut]}, {0, x.h[cut:]}}, endOpen, 0, nil)
		}
		once(b, x.n, d, stdHeld(), out, []part{{0, x.h}}, endOpen, 0, nil)
		once(b, x.n+" followed by a good handshake", d, stdHeld(), out, []part{{0, x.h}, {0, good}}, endOpen, 0, nil)
	}
	for _, id := range []string{sim.ID, "-YY0000-0123456789ab", sim.ID[:8] + "zzzzzzzzzzzz", string(make([]byte, 20)), strings.Repeat("\xff", 20), strings.Repeat(" ", 20), "\x13BitTorrent protocol", ih} {
		once(b, fmt.Sprintf("peer id %q", id), d, stdHeld(), out, []part{{0, handshake(d, id)}}, endOpen, 1, nil)
	}
}

func short(b *run.B, out bool) {
	d := sim.NewDisk(std, stdHeld())
	good := handshake(d, pid)
	for n := 0; n < 68; n++ {
		for end := endOpen; end <= endReset; end++ {
			for _, delay := range []time.Duration{0, 100 * time.Millisecond, 700 * time.Millisecond} {
				for _, cut := range []int{0, 1, n / 2, n} {
					var ps []part
					ps = append(ps, part{delay, good[:min(cut, n)]})
					ps = append(ps, part{delay / 7, good[min(cut, n):n]})
					once(b, fmt.Sprintf("first %d bytes, in parts of %d, delay %v, end %d", n, cut, delay, end), d, stdHeld(), out, ps, end, 0, nil)
				}
			}
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func splits(b *run.B, out bool) {
	d := sim.NewDisk(std, stdHeld())
	good := handshake(d, pid)
	tails := [][]byte{nil, {0}, {0, 0, 0, 0}, wire.Msg{Type: wire.Bitfield, Data: []byte{0xe0}}.Encode(), bytes.Repeat([]byte{0, 0, 0, 1, 2}, 100)}
	for _, tail := range tails {
		all := append(append([]byte(nil), good...), tail...)
		for i := 1; i <= 68; i++ {
			for _, delay := range []time.Duration{0, 500 * time.Millisecond} {
				for _, end := range []int{endOpen, endEOF} {
					once(b, fmt.Sprintf("split at %d, %d following bytes, delay %v, end %d", i, len(tail), delay, end), d, stdHeld(), out, []part{{0, all[:i]}, {delay, all[i:]}}, end, 1, nil)
				}
			}
		}
		for i := 1; i < 68; i++ {
			for j := i + 1; j <= 68; j++ {
				if !b.Thorough() && (i+j)%5 != 0 {
					continue
				}
				if len(tail) > 0 && !b.Thorough() {
					break
				}
				if b.Expired() {
					return
				}
				once(b, fmt.Sprintf("split at %d and %d, %d following bytes", i, j, len(tail)), d, stdHeld(), out, []part{{0, all[:i]}, {0, all[i:j]}, {0, all[j:]}}, endOpen, 1, nil)
			}
		}
		for _, delay := range []time.Duration{0, 5 * time.Millisecond} {
			var ps []part
			for i := range all {
				ps = append(ps, part{delay, all[i : i+1]})
				if i == 67 {
					delay = 0
				}
			}
			once(b, fmt.Sprintf("byte by byte, delay %v, %d following", delay, len(tail)), d, stdHeld(), out, ps, endOpen, 1, nil)
		}
		// slow: past any sensible timeout, either answer will do, but it ends
		var ps []part
		for i := range good {
			ps = append(ps, part{300 * time.Millisecond, good[i : i+1]})
		}
		once(b, "a byte every 300 ms", d, stdHeld(), out, ps, endOpen, -1, nil)
	}
}

func heldSets(b *run.B, out bool) {
	for n := int64(1); n <= 9; n++ {
		l := tor.New(2, 2*n-1)
		if n%2 == 0 {
			l = tor.New(2, n, n)
		}
		for m := 0; m < 1<<uint(n); m++ {
			if !b.Thorough() && n > 5 && m%7 != 0 && m != 1<<uint(n)-1 {
				continue
			}
			if b.Expired() {
				return
			}
			held := make([]bool, n)
			for i := range held {
				held[i] = m>>uint(i)&1 == 1
			}
			d := diskFor(l)
			once(b, fmt.Sprintf("%d pieces, held %b", n, m), d, held, out, []part{{0, handshake(d, pid)}}, endOpen, 1, nil)
		}
	}
	for _, n := range []int64{16, 17, 63, 64, 65, 1000} {
		l := tor.New(1, n)
		d := diskFor(l)
		for k := 0; k < 4; k++ {
			held := make([]bool, n)
			for i := range held {
				held[i] = []bool{true, false, i%3 == 0, i == len(held)-1}[k]
			}
			once(b, fmt.Sprintf("%d pieces, pattern %d", n, k), d, held, out, []part{{0, handshake(d, pid)}}, endOpen, 1, nil)
		}
	}
}

var disks = map[string]*sim.Disk{}

// diskFor keeps one disk per shape; the content doesn't matter here.
func diskFor(l *tor.Layout) *sim.Disk {
	k := fmt.Sprint(l.PieceLen, l.Lens)
	if disks[k] == nil {
		if len(disks) > 20 {
			disks = map[string]*sim.Disk{}
		}
		disks[k] = sim.NewDisk(l, nil)
	}
	return disks[k]
}

// writes: our own sending fails at every point.
func writes(b *run.B, out bool) {
	d := sim.NewDisk(std, stdHeld())
	good := handshake(d, pid)
	for at := 1; at <= 2; at++ {
		if out && at == 2 {
			continue
		}
		for _, n := range []int{0, 1, 5, 20, 67, 68} {
			at, n := at, n
			body, oracle := sim.Body(func(t *sim.T) {
				c := sim.New("p", "10.0.0.1", 5001)
				c.FailWrite, c.FailPart = at, n
				r := connect(d, d.Swarm(stdHeld()), c, out, []part{{0, good}}, endOpen)
				if !r.done {
					t.Failf("set-up has not ended")
				} else if len(c.Stream()) < 68 && r.err == nil {
					t.Failf("no error")
				} else if r.err != nil && !c.Closed() {
					t.Failf("connection is open")
				}
			})
			b.Once(fmt.Sprintf("write %d fails after %d bytes", at, n), vs.Config{}, body, oracle)
		}
	}
	// a peer that takes nothing
	for _, lim := range []int64{0, 1, 67, 68, 70} {
		lim := lim
		body, oracle := sim.Body(func(t *sim.T) {
			c := sim.New("p", "10.0.0.1", 5001)
			c.Cap = lim
			r := connect(d, d.Swarm(stdHeld()), c, out, []part{{0, good}}, endOpen)
			vs.SleepNS(int64(20 * time.Second))
			c.Limit(-1)
			vs.Settle()
			vs.SleepNS(int64(10 * time.Second))
			if !r.done {
				t.Failf("set-up has not ended")
			} else if r.err != nil && !c.Closed() {
				t.Failf("connection is open")
			}
		})
		b.Once(fmt.Sprintf("peer takes %d bytes for a while", lim), vs.Config{}, body, oracle)
	}
}

func dial(b *run.B) {
	d := sim.NewDisk(std, stdHeld())
	for _, ip := range []string{"10.0.0.1", "2001:db8::1", "255.255.255.255"} {
		for _, e := range []error{syscall.ECONNREFUSED, errors.New("timeout")} {
			ip, e := ip, e
			body, oracle := sim.Body(func(t *sim.T) {
				var addr string
				n := 0
				vnet.DialHook = func(network, a string, timeout time.Duration) (net.Conn, error) {
					addr = a
					n++
					return nil, e
				}
				ph, err := swarm.FromBootstrap(peer.MakePeer("", net.ParseIP(ip), 5001), d.Swarm(stdHeld()))
				if err == nil || ph != nil {
					t.Failf("failing dial gives %v, %v", ph, err)
				}
				if want := net.JoinHostPort(ip, "5001"); addr != want || n != 1 {
					t.Failf("dialled %s (%d times), want %s", addr, n, want)
				}
			})
			b.Once(fmt.Sprintf("dialling %s fails: %v", ip, e), vs.Config{}, body, oracle)
		}
	}
}

// addresses: where an incoming connection comes from does not matter.
func addresses(b *run.B) {
	d := sim.NewDisk(std, stdHeld())
	good := handshake(d, pid)
	bad := append([]byte(nil), good...)
	bad[40] ^= 1
	for _, ip := range []string{"0.0.0.0", "1.2.3.4", "10.0.0.1", "127.0.0.1", "192.168.1.1", "255.255.255.255", "::1", "::", "2001:db8::1", "fe80::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "64:ff9b::1.2.3.4"} {
		for _, port := range []int{0, 1, 80, 1023, 5001, 6881, 32767, 32768, 65535} {
			for k, h := range [][]byte{good, bad} {
				ip, port, k, h := ip, port, k, h
				body, oracle := sim.Body(func(t *sim.T) {
					c := sim.New("p", ip, port)
					r := connect(d, d.Swarm(stdHeld()), c, false, []part{{0, h}}, endOpen)
					judge(t, d, stdHeld(), c, false, r, 1-k)
				})
				b.Once(fmt.Sprintf("connection from %s port %d, handshake %d", ip, port, k), vs.Config{}, body, oracle)
			}
		}
	}
}

// schedules: two connections at once, in parts, one of them bad.
func schedules(b *run.B, out bool) {
	d := sim.NewDisk(std, stdHeld())
	good := handshake(d, pid)
	bad := append([]byte(nil), good...)
	bad[30] ^= 4
	bound := 2
	if b.Thorough() {
		bound = 4
	}
	for k, second := range [][]byte{good, bad, good[:40]} {
		k, second := k, second
		body, oracle := sim.Body(func(t *sim.T) {
			s := d.Swarm(stdHeld())
			cs := []*sim.Conn{sim.New("p", "10.0.0.1", 5001), sim.New("q", "10.0.0.2", 5002)}
			rs := []*result{{}, {}}
			if out {
				vnet.DialHook = func(network, addr string, timeout time.Duration) (net.Conn, error) {
					if addr == "10.0.0.1:5001" {
						return cs[0], nil
					}
					return cs[1], nil
				}
			}
			for i, h := range [][]byte{good, second} {
				i, h := i, h
				vs.GoNamed(fmt.Sprintf("setup%d", i), func() {
					if out {
						rs[i].ph, rs[i].err = swarm.FromBootstrap(peer.MakePeer("", net.ParseIP(fmt.Sprintf("10.0.0.%d", i+1)), uint16(5001+i)), s)
					} else {
						rs[i].ph, rs[i].err = swarm.FromIncoming(cs[i], s)
					}
					rs[i].done = true
				})
				cs[i].Send(h[:33])
				vs.GoNamed(fmt.Sprintf("peer%d", i), func() { cs[i].Send(h[33:]) })
			}
			vs.Settle()
			vs.SleepNS(int64(5 * time.Second))
			vs.Settle()
			judge(t, d, stdHeld(), cs[0], out, rs[0], 1)
			judge(t, d, stdHeld(), cs[1], out, rs[1], map[int]int{0: 1}[k])
		})
		b.Explore(fmt.Sprintf("two at once, second is kind %d", k), vs.Config{Bound: bound}, body, oracle)
	}
}
