// C24: tracker replies are read faithfully or rejected.
package main

import (
	"fmt"
	"net"
	"strconv"
	"strings"
	"sync"

	"gotor/torrent"
	"gotor/tracker"
	"vh/ref"
	"vh/run"
	"vh/tor"
	"vh/trk"
)

func main() {
	run.Main(run.Spec{
		ID:    "C24",
		Level: "exploration",
		Rule:  "tracker replies: every presence subset of the fields with every form of the peer list; for every field every value of a catalogue (all types, negative, boundary), alone, in every pair of fields and (thorough) every triple; every compact list length from 0 to 30 and every byte value at every place of a compact peer; dictionary lists of up to 3 peers over catalogues of addresses, ports and ids, with missing and ill-typed entries; every truncation, and every byte replaced by every other byte, of a set of valid replies; replies that are no dictionary; announced over HTTP to the real client and compared with a reference reading",
		Note:  []string{"ill-typed or negative optional fields may be ignored or refused", "trailing data and non-canonical spellings may be refused or read"},
		Blocks: func(tier string) []run.Block {
			th := tier == "thorough"
			bs := []run.Block{{Name: "presence", Fn: presence}, {Name: "compact", Fn: compact}, {Name: "lists", Fn: lists}, {Name: "bodies", Fn: bodies}, {Name: "large", Fn: large}}
			for i := range fields {
				i := i
				bs = append(bs, run.Block{Name: "pairs/" + fields[i].key, Fn: func(b *run.B) { pairs(b, i, th) }})
			}
			for i := range valid {
				i := i
				for part := 0; part < 4; part++ {
					part := part
					bs = append(bs, run.Block{Name: fmt.Sprintf("mutations/%d/%d", i, part), Fn: func(b *run.B) { mutations(b, valid[i], part, th) }})
				}
			}
			return bs
		},
	})
}

var once sync.Once
var srv *trk.Tracker
var tr *torrent.Torrent

func announce(body string) (*tracker.Response, error) {
	once.Do(func() {
		srv = trk.Start()
		var err error
		if tr, err = tor.New(4, 6).Torrent(run.Scratch, "http://"+srv.Addr+"/announce"); err != nil {
			panic(err)
		}
	})
	srv.Body(body)
	r, err := tracker.Get(tr, tracker.NewStats(1, 2, 3), 6881, "-GT0000-abcdefghijkl")
	n := len(srv.Take())
	if n != 1 {
		return nil, fmt.Errorf("harness: %d requests", n)
	}
	return r, err
}

type pr struct {
	ip   net.IP
	port uint16
	id   string
}

// want is the reference reading: must be refused, may be refused, the values.
type want struct {
	refuse, may  bool
	reason       string
	hasReason    bool
	inter, se, l uint64
	min          uint64
	warn, tid    string
	peers        []pr
	anyID        bool
}

func read(body string) (w want) {
	v, end, verdict := ref.Parse(body)
	if verdict == ref.Bad {
		return want{refuse: true}
	}
	if verdict != ref.OK || end != len(body) {
		w.may = true
	}
	d, ok := v.(map[string]interface{})
	if !ok {
		return want{refuse: true}
	}
	if r, ok := d["failure reason"].(string); ok {
		return want{refuse: true, reason: r, hasReason: !w.may}
	}
	num := func(k string, req bool) uint64 {
		n, ok := d[k].(int64)
		if !ok || n < 0 {
			if req {
				w.refuse = true
			} else if _, there := d[k]; there {
				w.may = true
			}
			return 0
		}
		return uint64(n)
	}
	w.inter, w.se, w.l = num("interval", true), num("complete", true), num("incomplete", true)
	w.min = num("min interval", false)
	str := func(k string) string {
		s, ok := d[k].(string)
		if _, there := d[k]; there && !ok {
			w.may = true
		}
		return s
	}
	w.warn, w.tid = str("warning message"), str("tracker id")
	if _, there := d["failure reason"]; there {
		w.may = true
	}
	switch p := d["peers"].(type) {
	case string:
		if len(p)%6 != 0 {
			w.refuse = true
		}
		for i := 0; i+6 <= len(p); i += 6 {
			w.peers = append(w.peers, pr{net.IPv4(p[i], p[i+1], p[i+2], p[i+3]), uint16(p[i+4])<<8 | uint16(p[i+5]), ""})
		}
	case []interface{}:
		for _, e := range p {
			ed, ok := e.(map[string]interface{})
			if !ok {
				w.refuse = true
				continue
			}
			ip, ok1 := ed["ip"].(string)
			port, ok2 := ed["port"].(int64)
			id, ok3 := ed["peer id"].(string)
			if !ok1 || !ok2 || port < 0 || port > 65535 || parseIP(ip) == nil {
				w.refuse = true
				continue
			}
			if !ok3 || port == 0 {
				w.may = true
			}
			w.peers = append(w.peers, pr{parseIP(ip), uint16(port), id})
		}
	default:
		w.refuse = true
	}
	return w
}

// parseIP is a small reader of its own for the IPv4 part; IPv6 goes to net.
func parseIP(s string) net.IP {
	if strings.Contains(s, ":") {
		if strings.Contains(s, "%") {
			return nil
		}
		return net.ParseIP(s)
	}
	f := strings.Split(s, ".")
	if len(f) != 4 {
		return nil
	}
	var b [4]byte
	for i, x := range f {
		n, err := strconv.Atoi(x)
		if err != nil || n < 0 || n > 255 || strconv.Itoa(n) != x {
			return nil
		}
		b[i] = byte(n)
	}
	return net.IPv4(b[0], b[1], b[2], b[3])
}

func judge(body string) error {
	w := read(body)
	r, err := announce(body)
	if err != nil {
		if strings.HasPrefix(err.Error(), "harness:") {
			return err
		}
		if w.hasReason && !strings.Contains(err.Error(), w.reason) {
			return fmt.Errorf("the error %q does not contain the failure reason %q", err, w.reason)
		}
		if !w.refuse && !w.may {
			return fmt.Errorf("refused: %v", err)
		}
		return nil
	}
	if w.refuse {
		return fmt.Errorf("accepted: %v", r)
	}
	if r == nil || r.State == nil {
		return fmt.Errorf("neither a response nor an error")
	}
	s := r.State
	if s.Interval() != w.inter || s.Seeders() != w.se || s.Leechers() != w.l || s.MinInterval() != w.min || s.Warning() != w.warn || s.Tid() != w.tid {
		return fmt.Errorf("got interval %d, complete %d, incomplete %d, min interval %d, warning %q, tracker id %q, want %d %d %d %d %q %q",
			s.Interval(), s.Seeders(), s.Leechers(), s.MinInterval(), s.Warning(), s.Tid(), w.inter, w.se, w.l, w.min, w.warn, w.tid)
	}
	if len(r.Peers) != len(w.peers) {
		return fmt.Errorf("%d peers, want %d", len(r.Peers), len(w.peers))
	}
	for i, p := range w.peers {
		g := r.Peers[i]
		if !g.Ip().Equal(p.ip) || g.Port() != p.port || g.Id() != p.id {
			return fmt.Errorf("peer %d is %q at %v port %d, want %q at %v port %d", i, g.Id(), g.Ip(), g.Port(), p.id, p.ip, p.port)
		}
		h, port, err := net.SplitHostPort(g.Addr())
		if err != nil || !p.ip.Equal(net.ParseIP(h)) || port != strconv.Itoa(int(p.port)) {
			return fmt.Errorf("peer %d: %q is not the dialable address of %v port %d (%v)", i, g.Addr(), p.ip, p.port, err)
		}
	}
	return nil
}

func one(b *run.B, body string) {
	b.Case(func() string { return fmt.Sprintf("%.1500q", body) }, func() error { return judge(body) })
	b.Distinct(1)
}

func S(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }
func I(n int64) string  { return fmt.Sprintf("i%de", n) }

type field struct {
	key    string
	good   string
	values []string
}

var scalars = []string{"", "i0e", "i1e", "i1800e", "i9223372036854775807e", "i4294967296e", "i-1e", "i-9223372036854775808e", "0:", "1:5", "2:-1", "4:1800", "le", "de", "li5ee", "d1:ai5ee"}
var ints = scalars
var strs = append(append([]string{}, scalars...), S("a warning"), S("\x00\xff"), S(strings.Repeat("long ", 100)), S("%d %s %v\n"))

const twoPeers = "12:\x7f\x00\x00\x01\x1a\xe1\xff\xfe\x00\x09\x00\x50"

var goodDict = "ld2:ip9:127.0.0.17:peer id20:aaaaaaaaaaaaaaaaaaaa4:porti6881eed2:ip3:::17:peer id20:bbbbbbbbbbbbbbbbbbbb4:porti80eee"

var fields = []field{
	{"complete", "i5e", ints},
	{"failure reason", "", strs},
	{"incomplete", "i7e", ints},
	{"interval", "i1800e", ints},
	{"min interval", "i60e", ints},
	{"peers", twoPeers, append(append([]string{}, scalars...), twoPeers, goodDict, "5:abcde", "6:abcdef", "7:abcdefg", "12:abcdefghijkl", "13:abcdefghijklm", "l6:abcdefe", "ldee", "lli1eee")},
	{"peers6", "", []string{"", "0:", S("0123456789abcdefgh"), "i1e"}},
	{"tracker id", S("tid"), strs},
	{"warning message", S("beware"), strs},
	{"zzz", "", []string{"", "i-5e", "0:", "llleee", "d0:0:e"}},
}

func body(vals []string) string {
	var s strings.Builder
	s.WriteByte('d')
	for i, v := range vals {
		if v != "" {
			s.WriteString(S(fields[i].key) + v)
		}
	}
	s.WriteByte('e')
	return s.String()
}

func goods() []string {
	v := make([]string, len(fields))
	for i := range fields {
		v[i] = fields[i].good
	}
	return v
}

func presence(b *run.B) {
	for m := 0; m < 1<<len(fields); m++ {
		for _, p := range []string{twoPeers, goodDict, "0:", "le"} {
			v := goods()
			for i := range v {
				if v[i] == "" {
					v[i] = fields[i].values[2]
				}
				if m>>i&1 == 1 {
					v[i] = ""
				}
			}
			if v[5] != "" {
				v[5] = p
			} else if p != twoPeers {
				continue
			}
			one(b, body(v))
		}
		if b.Expired() {
			return
		}
	}
}

func pairs(b *run.B, i int, triples bool) {
	for _, x := range fields[i].values {
		v := goods()
		v[i] = x
		one(b, body(v))
		for j := i + 1; j < len(fields); j++ {
			for _, y := range fields[j].values {
				v[j] = y
				one(b, body(v))
				if triples {
					for k := j + 1; k < len(fields); k++ {
						for _, z := range fields[k].values {
							v[k] = z
							one(b, body(v))
						}
						v[k] = fields[k].good
					}
				}
			}
			v[j] = fields[j].good
			if b.Expired() {
				return
			}
		}
	}
}

func withPeers(p string) string {
	v := goods()
	v[5] = p
	return body(v)
}

func compact(b *run.B) {
	for n := 0; n <= 30; n++ {
		for salt := 0; salt < 4; salt++ {
			one(b, withPeers(S(string(tor.Bytes(int64(n), salt)))))
		}
		one(b, withPeers(S(strings.Repeat("\x00", n))))
		one(b, withPeers(S(strings.Repeat("\xff", n))))
	}
	for pos := 0; pos < 12; pos++ {
		for c := 0; c < 256; c++ {
			p := []byte("\x0a\x00\x00\x01\x1a\xe1\x0a\x00\x00\x02\x1a\xe2")
			p[pos] = byte(c)
			one(b, withPeers(S(string(p))))
		}
	}
	// equal peers stay as often as they are listed
	one(b, withPeers(S(strings.Repeat("\x0a\x00\x00\x01\x1a\xe1", 5))))
}

var ips = []string{"", "i1e", S("127.0.0.1"), S("255.255.255.255"), S("0.0.0.0"), S("::1"), S("2001:db8::ff00:42:8329"), S("2001:0DB8:0:0:0:0:0:1"), S("::ffff:1.2.3.4"), S("fe80::1"), S("::"), "0:",
	S("256.1.1.1"), S("1.2.3"), S("1.2.3.4.5"), S("1.2.3.4 "), S(" 1.2.3.4"), S("-1.2.3.4"), S("1.2.3.-4"), S("01.2.3.4"), S("localhost"), S("1.2.3.4:80"), S("[::1]"), S(":::"), S("g::1"), S("1:2:3:4:5:6:7"), S("1:2:3:4:5:6:7:8:9"), S("::1\x00"), S("fe80::1%eth0"), S(strings.Repeat("1", 1000))}
var ports = []string{"", "i0e", "i1e", "i80e", "i65535e", "i65536e", "i65537e", "i131072e", "i-1e", "i-65535e", "i4294967376e", "i9223372036854775807e", S("80"), "le"}
var ids = []string{"", S("aaaaaaaaaaaaaaaaaaaa"), S("\x00\xff\n"), "i1e", S("x"), "0:"}

func peer(ip, port, id string) string {
	s := "d"
	for i, v := range []string{ip, id, port} {
		if v != "" {
			s += S([]string{"ip", "peer id", "port"}[i]) + v
		}
	}
	return s + "e"
}

func lists(b *run.B) {
	for _, ip := range ips {
		for _, po := range ports {
			for _, id := range ids {
				one(b, withPeers("l"+peer(ip, po, id)+"e"))
			}
		}
	}
	elems := []string{peer(ips[2], ports[3], ids[1]), peer(ips[5], ports[4], ids[2]), peer(ips[6], ports[2], ids[1]), peer(ips[8], ports[4], ids[4]), peer(ips[12], ports[3], ids[1]), peer(ips[2], ports[5], ids[1]), "i1e", "0:", "le", "de"}
	for _, x := range elems {
		for _, y := range elems {
			one(b, withPeers("l"+x+y+"e"))
			for _, z := range elems {
				one(b, withPeers("l"+x+y+z+"e"))
			}
		}
	}
	// every single port and every byte of an address in dictionary form
	for p := 0; p < 1<<16; p += 251 {
		one(b, withPeers("l"+peer(S(fmt.Sprintf("10.%d.%d.%d", p%256, (p/7)%256, p/256)), I(int64(p)), ids[1])+"e"))
	}
}

func bodies(b *run.B) {
	for _, s := range []string{"", "d", "e", "de", "le", "i5e", "0:", "5:hello", "<html></html>", "null", "\x00", "d5:peers0:", "d8:intervali1e", "ld5:peers0:ee", strings.Repeat("l", 20000), strings.Repeat("d1:a", 20000), strings.Repeat("9", 100000), "i" + strings.Repeat("9", 100000) + "e", "99999999999999999999:", "d14:failure reason0:e", "d14:failure reason5:nopes", "d14:failure reasoni5ee", "d14:failure reason3:no!e", "d14:failure reason" + S(strings.Repeat("%s%d", 30)) + "e"} {
		one(b, s)
	}
	// every body of up to two bytes, and of three from the structural ones
	for x := 0; x < 256; x++ {
		one(b, string([]byte{byte(x)}))
	}
	st := "dlie0123:-p"
	for _, x := range st {
		for _, y := range st {
			for _, z := range st {
				for _, u := range st {
					one(b, string([]rune{x, y, z, u}))
				}
			}
		}
	}
}

func large(b *run.B) {
	for _, n := range []int{50, 200, 5000} {
		one(b, withPeers(S(string(tor.Bytes(int64(6*n), n)))))
		one(b, withPeers(S(string(tor.Bytes(int64(6*n+1), n)))))
		one(b, withPeers("l"+strings.Repeat(peer(ips[6], ports[4], ids[1]), n)+"e"))
		one(b, withPeers("l"+strings.Repeat(peer(ips[6], ports[4], ids[1]), n)+peer(ips[12], ports[4], ids[1])+"e"))
	}
}

var valid = []string{
	body(goods()),
	withPeers(goodDict),
	"d8:completei0e10:incompletei0e8:intervali900e5:peers6:\x01\x02\x03\x04\x1a\xe1e",
	"d14:failure reason9:not founde",
}

func mutations(b *run.B, s string, part int, thorough bool) {
	for i := part; i < len(s); i += 4 {
		one(b, s[:i])
		one(b, s[:i]+s[i+1:])
		for c := 0; c < 256; c++ {
			if !thorough && c > 31 && c < 127 && !strings.ContainsRune("0123456789deil:-. ", rune(c)) {
				continue
			}
			if !thorough && (c < 31 || c >= 127) && c%16 != 0 {
				continue
			}
			one(b, s[:i]+string([]byte{byte(c)})+s[i+1:])
			if thorough {
				one(b, s[:i]+string([]byte{byte(c)})+s[i:])
			}
		}
		if b.Expired() {
			return
		}
	}
}
