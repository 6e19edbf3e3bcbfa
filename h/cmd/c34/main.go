// C34: inspecting a torrent shows its metadata and touches nothing. The real
// program runs its info command on every torrent of the families; its output
// is judged against the reference reading, the file tree against itself.
package main

import (
	"crypto/sha1"
	"fmt"
	"io/fs"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vh/meta"
	"vh/ref"
	"vh/run"
	"vh/tor"
	"vh/trk"
)

func main() {
	run.Main(run.Spec{
		ID:    "C34",
		Level: "exploration",
		Rule:  "the real program's info command on: every single- and multi-file torrent (up to 3, thorough 4 files) with lengths and piece lengths from a set of values at all unit boundaries up to 2^62; names, paths and announce URLs of a catalogue; every one-field and two-field damage of a valid torrent, every truncation of one; valid torrents with one more key, of 22 values, anywhere; and for a torrent with content every state of the working directory {absent, empty, complete, damaged, short, long, a folder in the way, read-only}, with every option given as well. Output judged by the reference reading, the file tree (names, modes, sizes, times, bytes) compared before and after, the tracker must not have heard of it",
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range sizes {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("single/%d", sizes[i]), Fn: func(b *run.B) { single(b, sizes[i]) }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("multi/%d", sizes[i]), Fn: func(b *run.B) { multi(b, sizes[i]) }})
			}
			bs = append(bs, run.Block{Name: "names", Fn: names}, run.Block{Name: "damage", Fn: damage}, run.Block{Name: "truncated", Fn: truncated}, run.Block{Name: "extras", Fn: func(b *run.B) { meta.Extras(func(what, data string) { one(b, what, data) }) }}, run.Block{Name: "states", Fn: states})
			return bs
		},
	})
}

var sizes = []int64{0, 1, 5, 1000, 1023, 1024, 1025, 1536, 10239, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 19, 1<<30 - 1, 1 << 30, 3 << 29, 1<<31 - 1, 1 << 31, 1<<40 - 1, 1 << 40, 5 << 39, 1 << 50, 1<<60 - 1, 1 << 60, 1 << 62}

var (
	once        sync.Once
	srv         *trk.Tracker
	box, wd, tf string
)

func setup() {
	once.Do(func() {
		srv = trk.Start()
		box = filepath.Join(run.Scratch, "box")
		wd = filepath.Join(box, "wd")
		tf = filepath.Join(box, "t.torrent")
		if err := os.MkdirAll(wd, 0700); err != nil {
			panic(err)
		}
	})
}

// tree is everything below the box.
func tree() string {
	var out []string
	_ = filepath.WalkDir(box, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			out = append(out, p+" "+err.Error())
			return nil
		}
		i, err := e.Info()
		if err != nil {
			out = append(out, p+" "+err.Error())
			return nil
		}
		s := fmt.Sprintf("%s %v %d %v", p, i.Mode(), i.Size(), i.ModTime().UnixNano())
		if i.Mode().IsRegular() {
			d, err := os.ReadFile(p)
			s += fmt.Sprintf(" %x %v", sha1.Sum(d), err)
		}
		out = append(out, s)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// prog runs the program.
func prog(args ...string) (out string, code int, err error) {
	c := exec.Command(os.Getenv("VH_BIN"), args...)
	c.Dir = wd
	if _, e := os.Stat(wd); e != nil {
		c.Dir = box
	}
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(30*time.Second, func() { _ = c.Process.Kill() })
	_ = c.Wait()
	if !t.Stop() {
		return so.String(), -1, fmt.Errorf("the program does not end")
	}
	if strings.Contains(se.String(), "goroutine ") || c.ProcessState.ExitCode() < 0 {
		return so.String(), c.ProcessState.ExitCode(), fmt.Errorf("the program crashed: %.400s", se.String())
	}
	return so.String(), c.ProcessState.ExitCode(), nil
}

func one(b *run.B, what, data string, extra ...string) {
	b.Case(func() string { return fmt.Sprintf("%s %.300q %q", what, data, extra) }, func() error {
		setup()
		if err := os.WriteFile(tf, []byte(data), 0600); err != nil {
			panic(err)
		}
		args := append([]string{"-i", tf, "-w", wd, "-cmd", "info"}, extra...)
		before := tree()
		srv.Take()
		out, code, err := prog(args...)
		if err != nil {
			return err
		}
		if after := tree(); after != before {
			return fmt.Errorf("the files were\n%s\nand are\n%s", before, after)
		}
		if n := len(srv.Take()); n > 0 {
			return fmt.Errorf("the tracker got %d requests", n)
		}
		m, v, why := meta.Read(data)
		if v == meta.Reject {
			if code == 0 {
				return fmt.Errorf("exit status 0 for a torrent that can't be loaded (%s)", why)
			}
			return nil
		}
		if code != 0 {
			if v == meta.Accept {
				return fmt.Errorf("exit status %d", code)
			}
			return nil
		}
		if m == nil || v == meta.May || hash(data) == "" {
			return nil
		}
		return shows(out, m, hash(data))
	})
	b.Distinct(1)
}

// hash is the infohash, or nothing if it is not clear.
func hash(data string) string {
	sp, ok := ref.TopSpans(data, "info")
	if !ok || len(sp) != 1 {
		return ""
	}
	return fmt.Sprintf("%x", sha1.Sum([]byte(data[sp[0][0]:sp[0][1]])))
}

var (
	rePieces = regexp.MustCompile(`Pieces:\s*\[(\d+) x (\S+) (\w+)\]`)
	reLen    = regexp.MustCompile(`Length:\s*\[(\d+) b\]`)
	reHuman  = regexp.MustCompile(`Length:\s*\[([\d.]+) (\w+)\]`)
)

var unit = map[string]int{"B": 0, "KiB": 1, "MiB": 2, "GiB": 3, "TiB": 4, "PiB": 5, "EiB": 6}

// human checks that a number with a unit is n bytes, to the given number of
// decimals (negative: all).
func human(num, u string, n int64, decimals int) error {
	x, err := strconv.ParseFloat(num, 64)
	k, ok := unit[u]
	if err != nil || !ok {
		return fmt.Errorf("%s %s is no size", num, u)
	}
	want := float64(n) / math.Pow(1024, float64(k))
	if k > 0 && want < 1 || k < 6 && want >= 1024 {
		return fmt.Errorf("%s %s is no good unit for %d bytes", num, u, n)
	}
	tol := want * 1e-12
	if decimals >= 0 {
		tol = 0.5000001 * math.Pow(10, -float64(decimals))
	}
	if math.Abs(x-want) > tol {
		return fmt.Errorf("%s %s is shown, it is %d bytes", num, u, n)
	}
	return nil
}

// shows judges the program's output.
func shows(out string, m *meta.Meta, ih string) error {
	bad := func(format string, args ...interface{}) error {
		return fmt.Errorf("%s; output %.600q", fmt.Sprintf(format, args...), out)
	}
	for _, s := range []string{"[" + m.Name + "]", "[" + m.Announce + "]", "[" + ih + "]"} {
		if !strings.Contains(out, s) {
			return bad("%q is not shown", s)
		}
	}
	rest := out[strings.Index(out, "["+ih+"]"):]
	p := rePieces.FindStringSubmatch(rest)
	if p == nil {
		return bad("no pieces are shown")
	}
	np := len(m.Hashes) / 20
	if p[1] != strconv.Itoa(np) {
		return bad("%s pieces are shown, there are %d", p[1], np)
	}
	if err := human(p[2], p[3], m.PieceLen, -1); err != nil {
		return bad("piece length: %v", err)
	}
	l := reLen.FindStringSubmatch(rest)
	if l == nil || l[1] != strconv.FormatInt(m.Total(), 10) {
		return bad("length %v is shown, it is %d", l, m.Total())
	}
	if h := reHuman.FindStringSubmatch(rest); h == nil {
		return bad("no length is shown")
	} else if err := human(h[1], h[2], m.Total(), 2); err != nil {
		return bad("length: %v", err)
	}
	if !m.Multi || len(m.Files) < 2 {
		return nil
	}
	at := strings.Index(rest, "Files:")
	if at < 0 {
		return bad("no files are shown")
	}
	rest = rest[at:]
	for i, f := range m.Files {
		path := strings.Join(f.Path, "/")
		at := strings.Index(rest, " : "+path+"\n")
		if at < 0 {
			return bad("file %d, %q, is not shown in its place", i, path)
		}
		line := rest[strings.LastIndex(rest[:at], "\n")+1 : at]
		rest = rest[at+len(" : "+path):]
		line = strings.TrimSpace(line)
		j := strings.IndexAny(line, "BKMGTPE")
		if j < 0 {
			return bad("file %d is shown with size %q", i, line)
		}
		if err := human(strings.TrimSpace(line[:j]), line[j:], f.Len, -1); err != nil {
			return bad("file %d: %v", i, err)
		}
	}
	if n := strings.Count(rest, " : "); n > 0 && !strings.Contains(strings.Join(paths(m), ""), " : ") {
		return bad("more than the %d files are shown", len(m.Files))
	}
	return nil
}

func paths(m *meta.Meta) (out []string) {
	for _, f := range m.Files {
		out = append(out, strings.Join(f.Path, "/"))
	}
	return
}

func np(total, pl int64) int64 {
	n := total / pl
	if total%pl > 0 {
		n++
	}
	return n
}

func hashes(n int64) string { return string(tor.Bytes(20*n, 7)) }

func file(announce, name string, pl int64, lens []int64, ps [][]string) string {
	info := map[string]interface{}{"name": name, "piece length": pl}
	t := int64(0)
	if ps == nil {
		t = lens[0]
		info["length"] = t
	} else {
		var fl []interface{}
		for i, n := range lens {
			var p []interface{}
			for _, c := range ps[i] {
				p = append(p, c)
			}
			fl = append(fl, map[string]interface{}{"length": n, "path": p})
			t += n
		}
		info["files"] = fl
	}
	info["pieces"] = hashes(np(t, pl))
	return ref.Ben(map[string]interface{}{"announce": announce, "info": info})
}

func ann() string { setup(); return "http://" + srv.Addr + "/announce" }

func single(b *run.B, n int64) {
	for _, pl := range sizes {
		if pl < 1 || np(n, pl) > 2000 || b.Expired() {
			continue
		}
		one(b, "single", file(ann(), "n", pl, []int64{n}, nil))
	}
}

func multi(b *run.B, n int64) {
	ps := [][]string{{"a"}, {"d", "b"}, {"d", "e", "c"}, {"z"}}
	var few []int64
	for i, s := range sizes {
		if i%3 == 0 || b.Thorough() {
			few = append(few, s)
		}
	}
	for _, m := range few {
		for _, k := range append([]int64{-1}, few...) {
			if b.Expired() {
				return
			}
			lens := []int64{n, m}
			if k >= 0 {
				lens = append(lens, k)
			}
			t, over := int64(0), false
			for _, x := range lens {
				t += x
				over = over || t < 0
			}
			if over {
				continue
			}
			for _, pl := range []int64{1, 1024, 1 << 20, 1<<31 - 1, 1 << 61} {
				if np(t, pl) <= 500 {
					one(b, "multi", file(ann(), "n", pl, lens, ps[:len(lens)]))
					break
				}
			}
			if b.Thorough() && k >= 0 && t < 1<<61 {
				lens = append(lens, 7)
				one(b, "multi", file(ann(), "n", 1<<62, lens, ps))
			}
		}
	}
}

func names(b *run.B) {
	ns := []string{"n", "a b", "[x]", "é", "日本", "%d%s", "x]y[", strings.Repeat("n", 200), " ", "-", "n\tn", "name: [z]", ".hidden", "n.", "a:b", "\xff\xfe", "\\n", "CON", "*", "~", "$HOME"}
	for _, n := range ns {
		for _, pre := range []string{"", "x", "%25", "?passkey=a&b=c", "é", " ", "]"} {
			one(b, "name", file(ann()+pre, n, 4, []int64{10}, nil))
			one(b, "name", file(ann()+pre, n, 4, []int64{3, 4, 5}, [][]string{{"a"}, {n, "b"}, {"c", n}}))
		}
	}
	for _, n := range ns {
		for _, m := range ns {
			if n != m {
				one(b, "paths", file(ann(), "n", 4, []int64{3, 4, 5}, [][]string{{n}, {m}, {"d", n, m}}))
			}
		}
	}
}

func values() []string {
	return []string{"", "i0e", "i1e", "i-1e", "i5e", "i9223372036854775807e", "i-9223372036854775808e", "i9223372036854775808e", "0:", "1:a", "le", "l1:ae", "de", meta.S(hashes(1)), meta.S(hashes(2)), meta.S(hashes(2)[1:]), "ld6:lengthi5e4:pathl1:qeee", "ld4:pathl1:qeee", "ld6:lengthi5eee"}
}

func build(multi bool, over map[string]string) string {
	get := func(k, v string) string {
		if o, ok := over[k]; ok {
			v = o
		}
		if v == "" {
			return ""
		}
		return meta.S(k) + v
	}
	s := "d"
	if multi {
		s += get("files", "l"+meta.FileDict(2, "q")+meta.FileDict(3, "r")+"e") + get("length", "")
	} else {
		s += get("files", "") + get("length", "i5e")
	}
	s += get("name", "1:n") + get("piece length", "i3e") + get("pieces", meta.S(hashes(2))) + "e"
	return "d" + get("announce", meta.S(ann())) + get("info", s) + "e"
}

var fields = []string{"announce", "info", "name", "piece length", "pieces", "length", "files"}

func damage(b *run.B) {
	for _, mu := range []bool{false, true} {
		one(b, "whole", build(mu, nil))
		for i, f := range fields {
			for _, v := range values() {
				one(b, "damaged", build(mu, map[string]string{f: v}))
				if !b.Thorough() && i > 2 {
					continue
				}
				for _, g := range fields[i+1:] {
					for k, w := range values() {
						if b.Expired() {
							return
						}
						if b.Thorough() || k%4 == 0 {
							one(b, "damaged", build(mu, map[string]string{f: v, g: w}))
						}
					}
				}
			}
		}
	}
}

func truncated(b *run.B) {
	for _, mu := range []bool{false, true} {
		d := build(mu, nil)
		for i := range d {
			one(b, "truncated", d[:i])
			if b.Thorough() {
				one(b, "byte dropped", d[:i]+d[i+1:])
			}
		}
		one(b, "followed by more", d+"x")
	}
	// not even a file
	b.Case(func() string { return "no torrent file" }, func() error {
		setup()
		_ = os.Remove(tf)
		before := tree()
		_, code, err := prog("-i", tf, "-w", wd, "-cmd", "info")
		if err == nil && code == 0 {
			err = fmt.Errorf("exit status 0")
		}
		if after := tree(); err == nil && after != before {
			err = fmt.Errorf("the files were\n%s\nand are\n%s", before, after)
		}
		return err
	})
}

// states of the working directory.
func states(b *run.B) {
	opts := [][]string{nil, {"-p", "1"}, {"-u", "5K"}, {"-d", "7M"}, {"-p", "65535", "-u", "0", "-d", "-1"}}
	for _, l := range []*tor.Layout{tor.New(4, 10), tor.New(4, 3, 0, 6)} {
		l.Name = "t"
		ps := [][]string(nil)
		if len(l.Lens) > 1 {
			l.Paths = []string{"a", "d/b", "d/c"}
			ps = [][]string{{"a"}, {"d", "b"}, {"d", "c"}}
		}
		for _, st := range []string{"no folder", "empty", "complete", "damaged", "short", "long", "folder", "read-only", "link", "partial file"} {
			for _, o := range opts {
				if b.Expired() {
					return
				}
				setup()
				_ = exec.Command("chmod", "-R", "u+rwX", box).Run()
				_ = os.RemoveAll(wd)
				if st != "no folder" {
					_ = os.MkdirAll(wd, 0700)
				}
				for i := range l.Lens {
					p := l.Local(wd, i)
					d := l.FileBytes(i)
					switch st {
					case "no folder", "empty":
						continue
					case "damaged":
						d = []byte(strings.Repeat("x", len(d)))
					case "short":
						d = d[:len(d)/2]
					case "long":
						d = append(append([]byte(nil), d...), "more"...)
					case "partial file":
						if i > 0 {
							continue
						}
					}
					_ = os.MkdirAll(filepath.Dir(p), 0700)
					switch st {
					case "folder":
						_ = os.MkdirAll(p, 0700)
						continue
					case "link":
						_ = os.WriteFile(filepath.Join(box, "aside"), d, 0600)
						_ = os.Symlink(filepath.Join(box, "aside"), p)
						continue
					}
					if err := os.WriteFile(p, d, 0600); err != nil {
						panic(err)
					}
					if st == "read-only" {
						_ = os.Chmod(p, 0400)
					}
				}
				if st == "read-only" {
					_ = os.Chmod(wd, 0500)
				}
				one(b, "working directory "+st, file(ann(), l.Name, l.PieceLen, l.Lens, ps), o...)
				_ = os.Chmod(wd, 0700)
				_ = os.Remove(filepath.Join(box, "aside"))
			}
		}
	}
	_ = os.RemoveAll(wd)
	_ = os.MkdirAll(wd, 0700)
}
