// C05: a torrent's files stay inside the working directory. Names and path
// components are enumerated from a catalogue of ordinary and hostile ones.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"gotor/torrent/fileio"
	"gotor/zv/vos"
	"vh/meta"
	"vh/run"
)

var comps = []string{"a", "b", "..", ".", "", "...", "a/b", "/", "/etc", "../x", "a/..", "a/../..", "./a", "a/", "//", "..\\x", "\\", "C:", "~", "\x00", "é", "-r", "..a", "a..", " ", "tor", "../tor", "../tor2", strings.Repeat("n", 255), "a/../a", "a//b", "..\x00", "..\n", "$HOME", "%2e%2e", "A"}

var wds = []string{"", ".", "/w", "/w/", "/w/x/../y", "rel", "rel/dir/", "../up", "..", "/", "./", "w w"}

func main() {
	run.Main(run.Spec{
		ID:    "C05",
		Level: "exploration",
		Rule:  "every name and every path of up to 2 (thorough 3) components from a catalogue of 36 ordinary and hostile strings, as single- and multi-file torrents in 12 working directories; every pair of files with paths of up to 2 components; every component of the catalogue at every place (and every pair of places) of paths of up to 12 components; an odd or repeated path at every place among up to 70 files; over 380 strings that some decoding or trimming would turn into special ones, as name and in every place of short paths; valid torrents with one more key, of 22 values, anywhere; files of accepted small torrents are created in a contained scratch folder. Paths are judged lexically after cleaning",
		Note:  []string{"symbolic links and case-insensitive file systems are not modelled", "components of letters, digits, dots and blanks other than the special ones count as ordinary"},
		Blocks: func(tier string) []run.Block {
			var bs []run.Block
			for i := range comps {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("names/%d", i), Fn: func(b *run.B) { names(b, comps[i], tier == "thorough") }})
				bs = append(bs, run.Block{Name: fmt.Sprintf("pairs/%d", i), Fn: func(b *run.B) { pairs(b, comps[i]) }})
			}
			for i := range wds {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("folders/%d", i), Fn: func(b *run.B) { folders(b, wds[i]) }})
			}
			bs = append(bs, run.Block{Name: "created", Fn: created}, run.Block{Name: "many", Fn: many}, run.Block{Name: "late", Fn: late})
			bs = append(bs, run.Block{Name: "extras", Fn: func(b *run.B) { meta.Extras(func(_, data string) { one(b, data, "/w") }) }})
			bs = append(bs, run.Block{Name: "disguised", Fn: disguised})
			for i := range comps {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("deep/%d", i), Fn: func(b *run.B) { deep(b, comps[i]) }})
			}
			return bs
		},
	})
}

func below(p, dir string) bool {
	a, err := filepath.Abs(p)
	if err != nil {
		return false
	}
	d, err := filepath.Abs(dir)
	if err != nil {
		return false
	}
	if d == "/" {
		return a != "/" && strings.HasPrefix(a, "/")
	}
	return strings.HasPrefix(a, d+"/")
}

func single(name string) string {
	return meta.D("announce", "1:u", "info", meta.D("length", "i5e", "name", meta.S(name), "piece length", "i3e", "pieces", meta.S(meta.Hashes(2))))
}

func multi(name string, paths ...[]string) string {
	var fs []string
	for _, p := range paths {
		fs = append(fs, meta.FileDict(2, p...))
	}
	return meta.D("announce", "1:u", "info", meta.D("files", meta.L(fs...), "name", meta.S(name), "piece length", "i100e", "pieces", meta.S(meta.Hashes(1))))
}

func judge(data, wd string) error {
	m, v, _ := meta.Read(data)
	t, err := meta.Load(data, wd)
	if err != nil {
		if v == meta.Accept {
			return fmt.Errorf("ordinary names are rejected: %v", err)
		}
		return nil
	}
	if v == meta.Reject {
		return fmt.Errorf("accepted")
	}
	dir := wd
	if m.Multi {
		dir = wd + "/" + m.Name
		if wd == "" {
			dir = m.Name
		}
	}
	seen := map[string]int{}
	for i, f := range t.Info().Files() {
		p := f.LocalPath()
		if !below(p, wd) {
			return fmt.Errorf("file %d is at %q, not below the working directory %q", i, p, wd)
		}
		if m.Multi && (!below(dir, wd) || !below(p, dir)) {
			return fmt.Errorf("file %d is at %q, not below the torrent's folder %q", i, p, dir)
		}
		a, _ := filepath.Abs(p)
		if j, ok := seen[a]; ok {
			return fmt.Errorf("files %d and %d share the path %q", j, i, p)
		}
		seen[a] = i
		if v == meta.Accept {
			want := append([]string{wd, m.Name}, m.Files[i].Path...)
			if !m.Multi {
				want = []string{wd, m.Name}
			}
			w, _ := filepath.Abs(filepath.Join(want...))
			if a != w {
				return fmt.Errorf("file %d is at %q, want %q", i, a, w)
			}
		}
	}
	return nil
}

func one(b *run.B, data, wd string) {
	b.Case(func() string { return fmt.Sprintf("working directory %q, %.700q", wd, data) }, func() error { return judge(data, wd) })
	b.Distinct(1)
}

func names(b *run.B, name string, thorough bool) {
	one(b, single(name), "/w")
	one(b, multi(name), "/w")
	one(b, multi(name, nil), "/w")
	for _, x := range comps {
		one(b, multi(name, []string{x}), "/w")
		for _, y := range comps {
			one(b, multi(name, []string{x, y}), "/w")
			if thorough {
				for _, z := range comps {
					one(b, multi(name, []string{x, y, z}), "/w")
				}
			} else if y == ".." || x == ".." {
				for _, z := range []string{"a", "..", "tor", ".", ""} {
					one(b, multi(name, []string{x, y, z}), "/w")
					one(b, multi(name, []string{z, x, y}), "/w")
				}
			}
		}
		if b.Expired() {
			return
		}
	}
}

func pairs(b *run.B, x string) {
	var paths [][]string
	for _, y := range comps {
		paths = append(paths, []string{y})
		for _, z := range []string{"a", "b", "..", ".", "", "a/b", "/"} {
			paths = append(paths, []string{y, z}, []string{z, y})
		}
	}
	for _, p := range paths {
		one(b, multi("tor", []string{x}, p), "/w")
		one(b, multi("tor", []string{x, "a"}, p), "/w")
		one(b, multi("tor", p, []string{"a", x}), "/w")
		one(b, multi("tor", []string{"a", "b", "c"}, p, []string{x}), "/w")
		if b.Expired() {
			return
		}
	}
}

func folders(b *run.B, wd string) {
	for _, name := range comps {
		one(b, single(name), wd)
		for _, x := range comps {
			one(b, multi(name, []string{x}), wd)
			one(b, multi(name, []string{x, "a"}, []string{"b"}), wd)
			one(b, multi(name, []string{"a", x}, []string{"a", "b"}), wd)
		}
	}
}

// created: whatever loads is prepared on disk; every change outside the
// working directory is caught by the containment of the os stand-in.
func created(b *run.B) {
	for _, name := range comps {
		for _, x := range append([]string{"\x01single"}, comps...) {
			name, x := name, x
			data := multi(name, []string{x}, []string{"zz", x})
			if x == "\x01single" {
				data = single(name)
			}
			b.Case(func() string { return fmt.Sprintf("created: %.500q", data) }, func() error {
				wd := filepath.Join(run.Scratch, "work")
				defer vos.RemoveAll(wd)
				t, err := meta.Load(data, wd)
				if err != nil {
					return nil
				}
				old := vos.Root
				vos.Root = wd
				defer func() { vos.Root = old }()
				f := fileio.NewFileIO(t.Info())
				_ = f.OCATAll(t.Info().Files())
				_ = f.CloseAll()
				return nil
			})
			b.Distinct(1)
		}
	}
}

func many(b *run.B) {
	for _, n := range []int{10, 100, 1000} {
		for _, dup := range []bool{false, true} {
			n, dup := n, dup
			b.Case(func() string { return fmt.Sprintf("%d files, last one again: %v", n, dup) }, func() error {
				var ps [][]string
				for i := 0; i < n; i++ {
					ps = append(ps, []string{fmt.Sprintf("d%d", i%7), fmt.Sprintf("f%d", i)})
				}
				if dup {
					ps[n-1] = ps[0]
				}
				var fs []string
				for _, p := range ps {
					fs = append(fs, meta.FileDict(0, p...))
				}
				fs = append(fs, meta.FileDict(2, "last"))
				return judge(meta.D("announce", "1:u", "info", meta.D("files", meta.L(fs...), "name", "3:tor", "piece length", "i100e", "pieces", meta.S(meta.Hashes(1)))), "/w")
			})
		}
	}
}

// disguises are strings that some decoding, trimming or replacing would turn
// into "..", ".", nothing or a path with a separator.
var disguises = func() []string {
	r := []string{"\u2025", "\uff0e\uff0e", "\u2024\u2024", "a\u2215b", "a\uff0fb", "a\u2044b", "&#46;&#46;", "&period;&period;", "%252e%252e", "..;", "..:", "..*", "..?", "..|", "..#", "..~1", "$(echo ..)", "${HOME}", "~root", "\\\\..", "..%2fx", "..%2Fx", "..%5cx", "%2fetc", "%00..", "a%2f..%2f..", "C:..", "C:\\..", "\\\\?\\..", "NUL", "con", ".\\..", "\"..\"", "'..'", "`..`"}
	for _, j := range []string{"\xff", "\xc3", "\x00", " ", "\t", "\n", "\r\n", "\u200b", "\ufeff", "\u00ad", "\u00a0", "\x7f", "\x1b", "\b", "*", "?", "\"", "'", "<", "|", ":", "%", "\\"} {
		for _, d := range []string{".", ".."} {
			r = append(r, j+d, d+j, j+d+j, d+j+"a")
		}
		r = append(r, "."+j+".", j, j+j, j+"."+j+"."+j)
	}
	for _, a := range []string{".", "%2e", "%2E", "\\x2e", "\\u002e", "\\056", "=2E", "&#x2e;"} {
		for _, c := range []string{".", "%2e", "%2E", "\\x2e", "\\u002e", "\\056", "=2E", "&#x2e;"} {
			if a+c != ".." {
				r = append(r, a+c, a+c+"%2f", a+c+"\\")
			}
		}
	}
	return r
}()

// disguised: such strings as the name and in every place of short paths, once
// or several times.
func disguised(b *run.B) {
	for _, x := range disguises {
		one(b, single(x), "/w")
		for _, name := range []string{"tor", x} {
			for _, p := range [][]string{{x}, {x, x}, {x, "a"}, {"a", x}, {x, x, "a"}, {"a", x, x, x}, {"a", x, x, "b"}, {x, x, x}, {"a", "..", x}} {
				one(b, multi(name, p), "/w")
				one(b, multi(name, []string{"a", "f"}, p, []string{"g"}), "/w")
				one(b, multi(name, p, append([]string{"d"}, p...)), "rel")
			}
		}
		if b.Expired() {
			return
		}
	}
}

// deep: one component of the catalogue at every place of a path of up to 12
// components (and of a few long ones), alone and with a second one (the same or "..") at every other place.
func deep(b *run.B, x string) {
	path := func(n int) []string {
		p := make([]string, n)
		for i := range p {
			p[i] = string(rune('a' + i))
		}
		return p
	}
	for n := 1; n <= 12; n++ {
		for i := 0; i < n; i++ {
			p := path(n)
			p[i] = x
			one(b, multi("tor", p), "/w")
			one(b, multi("tor", []string{"first"}, p, []string{"last"}), "/w")
			for j := 0; j < n; j++ {
				if j != i {
					q := append([]string{}, p...)
					q[j] = ".."
					one(b, multi("tor", q), "/w")
					q = append([]string{}, p...)
					q[j] = x
					one(b, multi("tor", q), "/w")
				}
			}
		}
		if n == 12 {
			for _, m := range []int{17, 33, 65, 130} {
				for i := 0; i < m; i++ {
					q := make([]string, m)
					for k := range q {
						q[k] = "a"
					}
					q[i] = x
					one(b, multi("tor", q), "/w")
					one(b, multi("tor", []string{"b"}, q), "/w")
					// and to the end
					for k := i + 1; k < m; k++ {
						q[k] = x
					}
					one(b, multi("tor", q), "/w")
				}
			}
		}
		// the tail of the path is one component over and over
		for k := 1; k <= n; k++ {
			p := path(n)
			for i := n - k; i < n; i++ {
				p[i] = x
			}
			one(b, multi("tor", p), "/w")
			p = path(n)
			for i := 0; i < k; i++ {
				p[i] = x
			}
			one(b, multi("tor", p), "/w")
		}
	}
}

// late: the only odd path of a torrent stands at any place among 1, 2, 5, 20
// or 70 files, and equals any other one.
func late(b *run.B) {
	for _, n := range []int{1, 2, 5, 20, 70} {
		base := func() [][]string {
			var ps [][]string
			for i := 0; i < n; i++ {
				p := []string{fmt.Sprintf("f%d", i)}
				if i%3 == 1 {
					p = []string{"d", p[0]}
				}
				ps = append(ps, p)
			}
			return ps
		}
		big := func(ps [][]string) string {
			var fs []string
			for _, p := range ps {
				fs = append(fs, meta.FileDict(1, p...))
			}
			return meta.D("announce", "1:u", "info", meta.D("files", meta.L(fs...), "name", "3:tor", "piece length", "i100e", "pieces", meta.S(meta.Hashes(1))))
		}
		for i := 0; i < n; i++ {
			for _, x := range comps {
				ps := base()
				ps[i] = []string{x}
				one(b, big(ps), "/w")
				ps[i] = []string{"s", x}
				one(b, big(ps), "/w")
				ps[i] = []string{x, "s"}
				one(b, big(ps), "/w")
			}
			for j := 0; j < i; j++ {
				ps := base()
				ps[i] = ps[j]
				one(b, big(ps), "/w")
			}
		}
	}
}
