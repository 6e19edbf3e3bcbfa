// C32: one identity per run. A real swarm is created from options, torrent file
// and tracker and started; what it says of itself to the tracker, to the peers
// it dials, to those that connect, and where it listens has to agree.
package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"gotor/zv/vnet"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/ref"
	"vh/run"
	"vh/sim"
	"vh/sw"
	"vh/tor"
	"vh/trk"
	"vh/wire"
)

const sec = int64(time.Second)

var ports = []string{"6881", "1", "80", "255", "256", "257", "32767", "32768", "60666", "65535"}

func main() {
	run.Main(run.Spec{
		ID:    "C32",
		Level: "model_checking",
		Fresh: true,
		Rule:  "every combination of a torrent file (22 kinds: canonical or odd spellings, keys in any order, before and after other keys, several layouts; infohashes with every kind of byte), one of 10 ports, a tracker reply of 0 to 3 peers and 0 to 2 incoming connections, whose handshakes carry other ids or ours, the tracker listing ourselves as a peer or not, with time passing in between or not; every schedule up to the bound of delays of selected combinations. The announce, every handshake in either direction and the listening socket must carry the SHA-1 of the file's info bytes, one 20-byte peer id starting with -GT0000- and the given port; the ids of different runs differ",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range ports {
				i := i
				if !vs.RaceEnabled {
					bs = append(bs, run.Block{Name: "port/" + ports[i], Fn: func(b *run.B) { combos(b, i) }})
				}
			}
			for k := range selected {
				k := k
				bs = append(bs, run.Block{Name: fmt.Sprintf("schedules/%d", k), Fn: func(b *run.B) { schedules(b, k) }})
			}
			if !vs.RaceEnabled {
				bs = append(bs, run.Block{Name: "ids", Fn: ids})
			}
			return bs
		},
	})
}

// file is a torrent file and the SHA-1 of its info bytes.
type file struct {
	name string
	lay  *tor.Layout
	data string
	ih   string
}

var lays = []*tor.Layout{tor.New(4, 6, 9), tor.New(4, 10), tor.New(2, 3, 0, 4)}

// files in all spellings; the announce URL is the tracker's.
func files() (out []file) {
	ann := "http://" + sw.Srv.Addr + "/announce"
	for k, l := range lays {
		add := func(name, info, rest string, after bool) {
			d := "d8:announce" + ref.Ben(ann)
			if after {
				d += "4:info" + info + rest + "e"
			} else {
				d += rest + "4:info" + info + "e"
			}
			h := sha1.Sum([]byte(info))
			out = append(out, file{fmt.Sprintf("%s/%d", name, k), l, d, string(h[:])})
		}
		fs := ""
		if len(l.Lens) > 1 {
			fs = "5:filesl"
			for i, n := range l.Lens {
				fs += fmt.Sprintf("d6:lengthi%de4:pathl%see", n, ref.Ben(l.Path(i)))
			}
			fs += "e"
		} else {
			fs = fmt.Sprintf("6:lengthi%de", l.Total())
		}
		nm, pl, ps := "4:name"+ref.Ben(l.Name), fmt.Sprintf("12:piece lengthi%de", l.PieceLen), "6:pieces"+ref.Ben(l.Hashes())
		add("canonical", "d"+fs+nm+pl+ps+"e", "", true)
		add("unsorted", "d"+ps+pl+nm+fs+"e", "", true)
		add("extra", "d"+fs+nm+pl+ps+"7:privatei1e6:source3:abce", "7:comment4:info13:creation datei1e", true)
		add("empty extra", "d0:0:"+fs+nm+pl+ps+"e", "3:zzzd4:infodee", true)
		add("before", "d"+fs+nm+pl+ps+"1:xlee", "7:comment0:", false)
		add("nested", "d4:infod1:ai1ee"+fs+nm+pl+ps+"e", "3:abcl4:infoe", false)
		// an infohash with a zero, a percent sign or a space at the ends
		for i, want := range []string{"\x00", "%", "+", " "} {
			if k != i%len(lays) {
				continue
			}
			for x := 0; ; x++ {
				info := fmt.Sprintf("d%s%s%s%s1:xi%dee", fs, nm, pl, ps, x)
				h := sha1.Sum([]byte(info))
				if strings.HasPrefix(string(h[:]), want) || strings.HasSuffix(string(h[:]), want) {
					add(fmt.Sprintf("hash %q", want), info, "", true)
					break
				}
			}
		}
	}
	return out
}

var held = map[*tor.Layout][]bool{}

func place() {
	vos.Sched = false
	for k, l := range lays {
		h := make([]bool, l.NumPieces())
		c := append([]byte(nil), l.Content...)
		for i := range h {
			h[i] = (i+k)%2 == 0
			if !h[i] {
				lo, hi := l.Range(int64(i))
				for j := lo; j < hi; j++ {
					c[j] ^= 0x5a
				}
			}
		}
		held[l] = h
		off := int64(0)
		for i, n := range l.Lens {
			p := l.Local(dir(k), i)
			_ = os.MkdirAll(filepath.Dir(p), 0700)
			if err := os.WriteFile(p, c[off:off+n], 0600); err != nil {
				panic(err)
			}
			off += n
		}
	}
}

// all layouts are named differently in the one working directory.
func dir(int) string { return sw.WD }

var (
	prepared bool
	all      []file
)

func prepare(port string) {
	if prepared {
		return
	}
	prepared = true
	sw.Args = []string{"-p", port}
	for k, l := range lays {
		l.Name = fmt.Sprintf("t%d", k)
	}
	sw.Setup()
	place()
	all = files()
}

type scenario struct {
	f    file
	port string
	outs int
	ins  int
	ids  int // which ids the peers have
}

func (sc *scenario) desc() string {
	return fmt.Sprintf("torrent %s, port %s, %d tracker peers, %d incoming, ids %d", sc.f.name, sc.port, sc.outs, sc.ins, sc.ids)
}

type world struct {
	conns  map[string]*sim.Conn
	dials  []string
	listen []string
	l      *sim.Listener
}

//go:norace
func (w *world) dial(network, a string, _ time.Duration) (net.Conn, error) {
	w.dials = append(w.dials, a)
	if c := w.conns[a]; c != nil {
		return c, nil
	}
	return nil, &net.OpError{Op: "dial", Net: network, Err: fmt.Errorf("nobody is at %s", a)}
}

//go:norace
func (w *world) listening(network, a string) (net.Listener, error) {
	w.listen = append(w.listen, network+" "+a)
	return w.l, nil
}

//go:norace
func (w *world) ports() []string { return w.listen }

// reply to an announce; with the fourth kind of ids it lists ourselves, too,
// with our id and our port.
func (sc *scenario) reply(r trk.Request) string {
	var ps []interface{}
	for i := 0; i < sc.outs; i++ {
		ps = append(ps, map[string]interface{}{"ip": fmt.Sprintf("10.1.0.%d", i+1), "port": int64(7000 + i), "peer id": fmt.Sprintf("-YY%04d-abcdefghijkl", i)})
	}
	if sc.ids == 3 {
		_, q, _ := strings.Cut(r.URI, "?")
		var port int64
		id := ""
		for _, p := range trk.Query(q) {
			switch p[0] {
			case "peer_id":
				id = p[1]
			case "port":
				_, _ = fmt.Sscan(p[1], &port)
			}
		}
		us := map[string]interface{}{"ip": "10.3.0.1", "port": port, "peer id": id}
		ps = append(ps, us)
		if sc.outs%2 == 1 { // at the front
			ps = append([]interface{}{us}, ps[:len(ps)-1]...)
		}
	}
	return ref.Ben(map[string]interface{}{"interval": int64(1800), "complete": int64(1), "incomplete": int64(2), "peers": ps})
}

func (sc *scenario) run(t *sim.T, quiet bool) {
	vs.Quiet(true)
	if err := os.WriteFile(sw.TF, []byte(sc.f.data), 0600); err != nil {
		panic(err)
	}
	sw.Srv.Func(sc.reply)
	s, reqs, err := sw.New()
	if err != nil {
		t.Failf("the swarm can't be created: %v", err)
		return
	}
	defer s.Fileio.CloseAll()
	id := announced(t, sc, reqs)
	if t.Err != nil {
		return
	}
	peerID := []string{"-XX0001-zyxwvutsrqpo", strings.Repeat("\x00", 20), id, "-XX0001-zyxwvutsrqpo"}[sc.ids]
	w := &world{l: &sim.Listener{}, conns: map[string]*sim.Conn{}}
	vnet.DialHook, vnet.ListenHook = w.dial, w.listening
	var conns []*sim.Conn
	mk := func(label, ip string, port int) *sim.Conn {
		c := sim.New(label, ip, port)
		c.NoTime = true
		c.Send(sim.Handshake(sc.f.ih, peerID), append(wire.Msg{Type: wire.Bitfield, Data: sim.Wire(make([]bool, sc.f.lay.NumPieces()))}.Encode(), wire.Msg{Type: wire.Interested}.Encode()...))
		conns = append(conns, c)
		return c
	}
	for i := 0; i < sc.outs; i++ {
		c := mk(fmt.Sprintf("o%d", i), fmt.Sprintf("10.1.0.%d", i+1), 7000+i)
		w.conns[fmt.Sprintf("10.1.0.%d:%d", i+1, 7000+i)] = c
	}
	var in []*sim.Conn
	for i := 0; i < sc.ins; i++ {
		in = append(in, mk(fmt.Sprintf("i%d", i), fmt.Sprintf("10.9.0.%d", i+1), 9000+i))
	}
	// time passes before the start and between incoming connections
	gap := int64(0)
	if (sc.outs+sc.ins+sc.ids)%2 == 1 || sc.ins == 2 {
		gap = 17*sec/10 + 12345
	}
	vs.SleepNS(gap)
	if gap == 0 {
		for _, c := range in {
			w.l.Push(c, nil)
		}
	}
	vs.Quiet(quiet)
	vs.GoNamed("start", s.Start)
	vs.Settle()
	vs.Quiet(true)
	if gap > 0 {
		for _, c := range in {
			vs.SleepNS(gap)
			vs.Quiet(quiet)
			w.l.Push(c, nil)
			vs.Settle()
			vs.Quiet(true)
		}
	}
	vs.SleepNS(sec / 2)
	vs.Settle()
	l := w.ports()
	if len(l) != 1 {
		t.Failf("listens on %v", l)
		return
	}
	if _, p, err := net.SplitHostPort(strings.TrimPrefix(l[0], "tcp ")); err != nil || p != sc.port {
		t.Failf("listens on %q, announced port %s", l[0], sc.port)
		return
	}
	want := sim.Handshake(sc.f.ih, id)
	for _, c := range conns {
		st := c.Stream()
		if peerID == id {
			// ourselves: what comes of it is not our business here
			if len(st) > 0 && (len(st) < 68 || !bytes.Equal(st[:68], want)) {
				t.Failf("%s got %.80x, the handshake is %x", c.Label, st, want)
			}
			continue
		}
		if len(st) < 68 || !bytes.Equal(st[:68], want) {
			t.Failf("%s got %.80x, the handshake is %x", c.Label, st, want)
			return
		}
		if bytes.Count(st, []byte("BitTorrent protocol")) != 1 {
			t.Failf("%s got several handshakes: %x", c.Label, st)
			return
		}
		if c.Closed() {
			t.Failf("%s was dropped", c.Label)
			return
		}
	}
	for _, r := range sw.Srv.Take() {
		if got := announced(t, sc, []trk.Request{r}); got != id {
			t.Failf("announced as %q, then as %q", id, got)
		}
	}
}

// announced judges the announces and returns the id they carry.
func announced(t *sim.T, sc *scenario, reqs []trk.Request) (id string) {
	if len(reqs) != 1 {
		t.Failf("%d announces", len(reqs))
		return
	}
	_, q, _ := strings.Cut(reqs[0].URI, "?")
	n := map[string]int{}
	val := map[string]string{}
	for _, p := range trk.Query(q) {
		n[p[0]]++
		val[p[0]] = p[1]
	}
	for _, k := range []string{"info_hash", "peer_id", "port"} {
		if n[k] != 1 {
			t.Failf("the announce has %s %d times: %s", k, n[k], q)
			return
		}
	}
	id = val["peer_id"]
	if val["info_hash"] != sc.f.ih {
		t.Failf("announced infohash %x, that of the file is %x", val["info_hash"], sc.f.ih)
	}
	if val["port"] != sc.port {
		t.Failf("announced port %s, given %s", val["port"], sc.port)
	}
	if len(id) != 20 || !strings.HasPrefix(id, "-GT0000-") {
		t.Failf("announced peer id %q", id)
	}
	return id
}

func combos(b *run.B, i int) {
	prepare(ports[i])
	for _, f := range all {
		for outs := 0; outs <= 3; outs++ {
			for ins := 0; ins <= 2; ins++ {
				for ids := 0; ids < 4; ids++ {
					if b.Expired() {
						return
					}
					sc := &scenario{f, ports[i], outs, ins, ids}
					bd, oracle := sim.Body(func(t *sim.T) { sc.run(t, true) })
					b.Once(sc.desc(), vs.Config{MaxSteps: 200000}, bd, oracle)
				}
			}
		}
	}
}

var selected = []struct{ f, outs, ins, ids int }{
	{0, 1, 1, 0}, {7, 2, 0, 0}, {1, 0, 2, 1}, {2, 2, 1, 0}, {3, 1, 2, 0}, {9, 2, 2, 0},
}

func schedules(b *run.B, k int) {
	prepare("6881")
	x := selected[k]
	n := 2
	if x.outs+x.ins > 2 {
		n = 1
	}
	if b.Thorough() {
		n++
	}
	if vs.RaceEnabled {
		n = 1
	}
	sc := &scenario{all[x.f], "6881", x.outs, x.ins, x.ids}
	bd, oracle := sim.Body(func(t *sim.T) { sc.run(t, false) })
	b.Explore(sc.desc(), vs.Config{Bound: n, Delay: true, MaxSteps: 200000}, bd, oracle)
}

// ids of many runs.
func ids(b *run.B) {
	prepare("6881")
	got := map[string]int{}
	n := 50
	if b.Thorough() {
		n = 500
	}
	for i := 0; i < n; i++ {
		i := i
		b.Case(func() string { return fmt.Sprintf("run %d", i) }, func() error {
			sc := &scenario{f: all[i%len(all)], port: "6881", outs: i % 3, ids: i % 4}
			if err := os.WriteFile(sw.TF, []byte(sc.f.data), 0600); err != nil {
				panic(err)
			}
			sw.Srv.Func(sc.reply)
			s, reqs, err := sw.New()
			if err != nil {
				return err
			}
			s.Fileio.CloseAll()
			t := &sim.T{}
			id := announced(t, sc, reqs)
			if k, has := got[id]; has && t.Err == nil {
				return fmt.Errorf("runs %d and %d both have the id %q", k, i, id)
			}
			got[id] = i
			if t.Err == nil && s.Id != id {
				return fmt.Errorf("the swarm's id is %q, announced %q", s.Id, id)
			}
			return t.Err
		})
	}
}
