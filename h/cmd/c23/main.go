// C23: tracker announces carry the exact parameters.
package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"

	"gotor/torrent"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/tracker"
	"vh/run"
	"vh/trk"
)

func main() {
	run.Main(run.Spec{
		ID:    "C23",
		Level: "exploration",
		Rule:  "announces over HTTP to a loopback tracker that records the request: every byte value at every place of the peer id, 2000 (thorough 20000) infohashes with every byte value at every place, every power of two and its neighbours for each statistic in every position (each pair of them), ports at every boundary (thorough: all 65536), a catalogue of announce URLs with their own paths and queries times peer ids; malformed, unsupported and unreachable URLs; a reply cut off after every byte, or garbage in its place",
		Blocks: func(tier string) []run.Block {
			th := tier == "thorough"
			var bs []run.Block
			for i := 0; i < 4; i++ {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("ids/%d", i), Fn: func(b *run.B) { ids(b, i) }},
					run.Block{Name: fmt.Sprintf("hashes/%d", i), Fn: func(b *run.B) { hashes(b, i, th) }},
					run.Block{Name: fmt.Sprintf("ports/%d", i), Fn: func(b *run.B) { portsOf(b, i, th) }},
					run.Block{Name: fmt.Sprintf("stats/%d", i), Fn: func(b *run.B) { stats(b, i, th) }})
			}
			bs = append(bs, run.Block{Name: "urls", Fn: urls}, run.Block{Name: "bad-urls", Fn: badURLs}, run.Block{Name: "transfers", Fn: transfers})
			return bs
		},
	})
}

var once sync.Once
var srv *trk.Tracker

func addr() string {
	once.Do(func() { srv = trk.Start() })
	return srv.Addr
}

// make builds a torrent; salt decides its infohash.
func mk(announce string, salt int) *torrent.Torrent {
	ti, err := info.NewTorInfo(fmt.Sprintf("n%d", salt), 4, strings.Repeat("h", 20), []filesd.EntryBase{filesd.MakeFileEntry("n", 4)})
	if err != nil {
		panic(err)
	}
	t, err := torrent.NewTorrent(ti, announce)
	if err != nil {
		panic(err)
	}
	return t
}

const id0 = "-GT0000-abcdefghijkl"

type ann struct {
	url  string // with %s for the host
	salt int
	id   string
	port uint16
	up   uint64
	dn   uint64
	left uint64
}

func (a ann) String() string {
	return fmt.Sprintf("%s infohash %d id %q port %d up %d down %d left %d", a.url, a.salt, a.id, a.port, a.up, a.dn, a.left)
}

func one(b *run.B, a ann) {
	b.Case(func() string { return a.String() }, func() error { return judge(a) })
	b.Distinct(1)
}

func judge(a ann) error {
	host := addr()
	u := strings.Replace(a.url, "HOST", host, 1)
	t := mk(u, a.salt)
	srv.Body("d8:completei1e10:incompletei2e8:intervali3e5:peers0:e")
	srv.Take()
	_, err := tracker.Get(t, tracker.NewStats(a.dn, a.up, a.left), a.port, a.id)
	if err != nil {
		return fmt.Errorf("announce failed: %v", err)
	}
	rs := srv.Take()
	if len(rs) != 1 {
		return fmt.Errorf("%d requests, want 1", len(rs))
	}
	r := rs[0]
	if r.Method != "GET" {
		return fmt.Errorf("method %q", r.Method)
	}
	if r.Host != host {
		return fmt.Errorf("host %q, want %q", r.Host, host)
	}
	path, raw, _ := strings.Cut(r.URI, "?")
	pu, err := url.Parse(u)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	wp := pu.EscapedPath()
	if wp == "" {
		wp = "/"
	}
	if path != wp {
		return fmt.Errorf("path %q, want %q", path, wp)
	}
	got := trk.Query(raw)
	want := map[string]string{
		"info_hash": t.Infohash(), "peer_id": a.id, "port": fmt.Sprint(a.port),
		"uploaded": fmt.Sprint(a.up), "downloaded": fmt.Sprint(a.dn), "left": fmt.Sprint(a.left), "compact": "1",
	}
	var rest []string
	seen := map[string]bool{}
	own := trk.Query(pu.RawQuery)
	isOwn := map[[2]string]int{}
	for _, p := range own {
		isOwn[p]++
	}
	for _, p := range got {
		if isOwn[p] > 0 {
			isOwn[p]--
			continue
		}
		w, ok := want[p[0]]
		switch {
		case ok && seen[p[0]]:
			return fmt.Errorf("parameter %q twice in %q", p[0], raw)
		case ok && p[1] != w:
			return fmt.Errorf("parameter %q is %q, want %q", p[0], p[1], w)
		case ok:
			seen[p[0]] = true
		default:
			rest = append(rest, p[0])
		}
	}
	for k := range want {
		if !seen[k] {
			return fmt.Errorf("parameter %q is missing from %q", k, raw)
		}
	}
	for p, n := range isOwn {
		if n > 0 {
			return fmt.Errorf("the announce URL's own parameter %q is lost: %q", p, raw)
		}
	}
	// further parameters (event, numwant, key ...) may be there, but not the
	// URL's own ones in another form
	sort.Strings(rest)
	for _, p := range own {
		for _, k := range rest {
			if k == p[0] {
				return fmt.Errorf("the URL's own parameter %q changed: %q", k, raw)
			}
		}
	}
	return nil
}

func ids(b *run.B, part int) {
	for pos := part; pos < 20; pos += 4 {
		for c := 0; c < 256; c++ {
			id := []byte(id0)
			id[pos] = byte(c)
			one(b, ann{"http://HOST/announce", 1, string(id), 6881, 0, 0, 0})
		}
	}
	if part == 0 {
		for c := 0; c < 256; c++ {
			one(b, ann{"http://HOST/announce?k=v", 1, strings.Repeat(string([]byte{byte(c)}), 20), 6881, 0, 0, 0})
		}
		for _, id := range []string{"%41%42%43%44%45%46%4", "a+b&c=d e%20f?g#h/i;j", "&port=1&info_hash=xyz", "\x00\xff\xfe\x80\xc3\x28\xe2\x82\xacabcdefghijk"} {
			one(b, ann{"http://HOST/announce", 1, id, 6881, 0, 0, 0})
		}
	}
}

func hashes(b *run.B, part int, th bool) {
	n := 2000
	if th {
		n = 20000
	}
	for i := part; i < n; i += 4 {
		one(b, ann{"http://HOST/announce", i, id0, 6881, 0, 0, 0})
	}
}

func portsOf(b *run.B, part int, th bool) {
	for p := part; p < 1<<16; p += 4 {
		if th || p < 64 || p > 65472 || (p&(p-1)) == 0 || ((p+1)&p) == 0 || p%997 == 0 || p == 6881 || p == 60666 {
			one(b, ann{"http://HOST/a", 2, id0, uint16(p), 1, 2, 3})
		}
	}
}

func stats(b *run.B, part int, th bool) {
	vals := []uint64{0, 1}
	for k := 1; k < 64; k++ {
		vals = append(vals, 1<<k-1, 1<<k)
		if th {
			vals = append(vals, 1<<k+1)
		}
	}
	vals = append(vals, 1<<64-2, 1<<64-1, 9999999999999999999, 10000000000000000000)
	for i, x := range vals {
		if i%4 != part {
			continue
		}
		one(b, ann{"http://HOST/a", 3, id0, 1, x, 1001, 1002})
		one(b, ann{"http://HOST/a", 3, id0, 1, 1001, x, 1002})
		one(b, ann{"http://HOST/a", 3, id0, 1, 1001, 1002, x})
		for j, y := range vals {
			if !th && j%5 != i%5 {
				continue
			}
			one(b, ann{"http://HOST/a", 3, id0, 1, x, y, 5})
			one(b, ann{"http://HOST/a", 3, id0, 1, 5, x, y})
			one(b, ann{"http://HOST/a", 3, id0, 1, y, 5, x})
		}
		if b.Expired() {
			return
		}
	}
}

func urls(b *run.B) {
	paths := []string{"", "/", "/announce", "/announce/", "/a%20b/%2Fc", "/announce.php", "/ann/aabbccddeeff/announce", "//x", "/a;b", "/ü"}
	qs := []string{"", "?", "?passkey=abc", "?a=1&b=2", "?a=1&a=2", "?x", "?x=", "?=y", "?k=a%20b%26c%3Dd", "?k=a+b", "?k=%00%ff", "?uk=ABC/DEF==", "?a=1&&b=2", "?info=1&porto=2", "?a=b=c", "?key=%E2%82%AC", "?z=1&y=2&x=3", "?q=" + strings.Repeat("v", 500), "?passkey=abc;def", "?a=%zz&b=1"}
	for _, p := range paths {
		for _, q := range qs {
			if p == "" && q != "" {
				continue
			}
			for _, frag := range []string{"", "#frag"} {
				one(b, ann{"http://HOST" + p + q + frag, 4, id0, 6881, 1, 2, 3})
			}
			one(b, ann{"HTTP://HOST" + p + q, 5, "&=+ %?#/\x00\xff;abcdefghi", 65535, 1, 2, 3})
		}
	}
}

// fails: the announce must give an error.
func fails(b *run.B, desc, u string, prep func()) {
	b.Case(func() string { return desc }, func() error {
		addr()
		if prep != nil {
			prep()
		}
		r, err := tracker.Get(mk(strings.Replace(u, "HOST", srv.Addr, 1), 6), tracker.NewStats(1, 2, 3), 6881, id0)
		srv.Take()
		if err == nil {
			return fmt.Errorf("no error, response %v", r)
		}
		return nil
	})
	b.Distinct(1)
}

func badURLs(b *run.B) {
	for _, u := range []string{"", " ", ":", "::", "://", "http:", "http:/", "http://", "http:///announce", "//127.0.0.1/a", "announce", "/announce", "127.0.0.1:6969/announce", "http://[::1", "http://[::1]x/", "http://127.0.0.1:x/", "http://127.0.0.1:-1/", "http://127.0.0.1:99999/", "http://127.0.0.1:1/", "http://%zz/", "http://127.0.0.1/%zz", "http://127.0.0.1/\x00", "http://a b/", "\x7f", "http://127.0.0.1\n/", "udp://HOST/announce", "ftp://HOST/", "file:///etc/hostname", "wss://HOST/", "data:,d8:intervali1e8:completei0e10:incompletei0e5:peers0:e", "https://HOST/announce", "httpx://HOST/", "http://user:p w@HOST/", "mailto:x@y", "magnet:?xt=urn:btih:abc", "http://0.0.0.0:1/", "http://[::1]:1/", "http://127.0.0.1:1/?a=b#c"} {
		fails(b, fmt.Sprintf("announce URL %q", u), u, nil)
	}
	for c := 0; c < 256; c++ {
		fails(b, fmt.Sprintf("announce URL of byte %d", c), string([]byte{byte(c)}), nil)
		fails(b, fmt.Sprintf("scheme of byte %d", c), string([]byte{byte(c)})+"://HOST/a", nil)
	}
}

func transfers(b *run.B) {
	body := "d8:completei1e10:incompletei2e8:intervali3e5:peers0:e"
	full := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
	old := fmt.Sprintf("HTTP/1.0 200 OK\r\n\r\n%s", body)
	chunked := fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", len(body), body)
	for _, p := range [][2]string{{"length", full}, {"close-delimited", old}, {"chunked", chunked}} {
		name, s := p[0], p[1]
		end := len(s)
		if name == "chunked" {
			end -= 2 // the final line end may be missing
		}
		for n := 0; n < end; n++ {
			n := n
			fails(b, fmt.Sprintf("%s reply cut off after %d of %d bytes", name, n, len(s)), "http://HOST/a", func() { srv.Raw([]byte(s[:n]), true) })
		}
		b.Case(func() string { return name + " reply in full" }, func() error {
			addr()
			srv.Raw([]byte(s), true)
			_, err := tracker.Get(mk("http://"+srv.Addr+"/a", 6), tracker.NewStats(1, 2, 3), 6881, id0)
			srv.Take()
			return err
		})
	}
	for _, s := range []string{"garbage\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/9.9 200 OK\r\n\r\n", "\x00\x00\x00\x00\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n" + body, "HTTP/1.1 200 OK\r\nContent-Length: 5x\r\n\r\n" + body, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + body, "HTTP/1.1 301 Moved\r\nLocation: ::bad\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 302 Found\r\nLocation: udp://127.0.0.1/\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 302 Found\r\nLocation: /loop\r\nContent-Length: 0\r\n\r\n"} {
		s := s
		fails(b, fmt.Sprintf("reply %q", s), "http://HOST/a", func() { srv.Raw([]byte(s), !strings.Contains(s, "/loop")) })
	}
}
