// Package meta is the reference reading of torrent files.
package meta

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"gotor/torrent"
	"vh/ref"
	"vh/run"
)

type File struct {
	Path []string
	Len  int64
}

type Meta struct {
	Announce string
	Name     string
	PieceLen int64
	Hashes   string
	Multi    bool
	Files    []File
}

// Verdict says what loading must do.
type Verdict int

const (
	Accept Verdict = iota // must load, and say exactly what Meta says
	May                   // may load, but then must say what Meta says (if given)
	Reject                // must not load
)

func Ordinary(c string) bool {
	return c != "" && c != "." && c != ".." && !strings.ContainsAny(c, "/\\\x00")
}

// Read interprets a torrent file.
func Read(data string) (m *Meta, v Verdict, why string) {
	val, _, r := ref.Parse(data)
	if r == ref.Bad {
		return nil, Reject, "not bencoding"
	}
	top, ok := val.(map[string]interface{})
	if !ok {
		return nil, Reject, "not a dictionary"
	}
	if r == ref.Loose {
		v = May
	}
	m = &Meta{}
	if a, has := top["announce"]; !has {
		v = May
	} else if m.Announce, ok = a.(string); !ok {
		return nil, Reject, "announce is no string"
	}
	info, ok := top["info"].(map[string]interface{})
	if !ok {
		return nil, Reject, "no info dictionary"
	}
	if m.Name, ok = info["name"].(string); !ok {
		return nil, Reject, "no name"
	}
	if m.PieceLen, ok = info["piece length"].(int64); !ok {
		return nil, Reject, "no piece length"
	}
	if m.Hashes, ok = info["pieces"].(string); !ok {
		return nil, Reject, "no hashes"
	}
	if m.PieceLen <= 0 {
		return nil, Reject, "piece length not positive"
	}
	if m.PieceLen > 1<<31-1 {
		v = May
	}
	if !Ordinary(m.Name) {
		v = May
	}
	_, hasFiles := info["files"]
	_, hasLen := info["length"]
	n, isInt := info["length"].(int64)
	if hasFiles && hasLen {
		if v != Reject {
			v = May
		}
		if isInt {
			return nil, May, "both length and files"
		}
	}
	if isInt {
		m.Files = []File{{[]string{m.Name}, n}}
	} else {
		fl, ok := info["files"].([]interface{})
		if !ok {
			return nil, Reject, "neither length nor files"
		}
		m.Multi = true
		for _, x := range fl {
			d, ok := x.(map[string]interface{})
			if !ok {
				return nil, Reject, "a file is no dictionary"
			}
			l, ok := d["length"].(int64)
			if !ok {
				return nil, Reject, "a file has no length"
			}
			pl, ok := d["path"].([]interface{})
			if !ok {
				return nil, Reject, "a file has no path"
			}
			if len(pl) == 0 {
				return nil, Reject, "a file's path is empty"
			}
			f := File{nil, l}
			for _, c := range pl {
				s, ok := c.(string)
				if !ok {
					return nil, Reject, "a path component is no string"
				}
				if !Ordinary(s) {
					v = May
				}
				f.Path = append(f.Path, s)
			}
			m.Files = append(m.Files, f)
		}
		if len(m.Files) == 0 {
			v = May
		}
	}
	total := new(big.Int)
	seen := map[string]bool{}
	for _, f := range m.Files {
		if f.Len < 0 {
			return nil, Reject, "negative length"
		}
		total.Add(total, big.NewInt(f.Len))
		p := filepath.Clean(strings.Join(f.Path, "/"))
		if seen[p] {
			v = May
		}
		seen[p] = true
	}
	if !total.IsInt64() {
		return nil, Reject, "total length beyond 64 bits"
	}
	if total.Sign() == 0 {
		v = May
	}
	if len(m.Hashes)%20 != 0 {
		return nil, Reject, "hashes not a multiple of 20 bytes"
	}
	np := new(big.Int).Add(total, big.NewInt(m.PieceLen-1))
	np.Div(np, big.NewInt(m.PieceLen))
	if np.Cmp(big.NewInt(int64(len(m.Hashes)/20))) != 0 {
		return nil, Reject, fmt.Sprintf("%d hashes for %v pieces", len(m.Hashes)/20, np)
	}
	return m, v, ""
}

func (m *Meta) Total() int64 {
	t := int64(0)
	for _, f := range m.Files {
		t += f.Len
	}
	return t
}

// Load loads data as a torrent file through the client.
func Load(data, wd string) (*torrent.Torrent, error) {
	p := filepath.Join(run.Scratch, "in.torrent")
	if err := os.WriteFile(p, []byte(data), 0600); err != nil {
		panic(err)
	}
	return torrent.FromTorrentFile(p, wd)
}

// Consistent checks what must hold of every loaded torrent.
func Consistent(t *torrent.Torrent) error {
	ti := t.Info()
	if ti == nil {
		return fmt.Errorf("loaded torrent without metadata")
	}
	pl := ti.PieceLen()
	if pl <= 0 {
		return fmt.Errorf("piece length %d", pl)
	}
	total := new(big.Int)
	for _, f := range ti.Files() {
		if f.Length() < 0 {
			return fmt.Errorf("file length %d", f.Length())
		}
		total.Add(total, big.NewInt(f.Length()))
	}
	if !total.IsInt64() || total.Int64() != ti.Length() {
		return fmt.Errorf("total length %d, files have %v", ti.Length(), total)
	}
	np := ti.Length() / pl
	if ti.Length()%pl != 0 {
		np++
	}
	if ti.NumPieces() != np {
		return fmt.Errorf("%d pieces, want %d", ti.NumPieces(), np)
	}
	if np > 0 && ti.LastPieceLen() != ti.Length()-(np-1)*pl {
		return fmt.Errorf("last piece length %d, want %d", ti.LastPieceLen(), ti.Length()-(np-1)*pl)
	}
	if int64(len(ti.Hashes())) != 20*np {
		return fmt.Errorf("%d hash bytes for %d pieces", len(ti.Hashes()), np)
	}
	for i := int64(0); i < np; i++ {
		if ti.PieceHash(i) != ti.Hashes()[20*i:20*i+20] {
			return fmt.Errorf("hash of piece %d", i)
		}
		sum := int64(0)
		ls, err := ti.PieceLookup(i)
		if err != nil {
			return fmt.Errorf("piece %d: %v", i, err)
		}
		for _, l := range ls {
			sum += l.Loc.ReadAmnt
		}
		want := pl
		if i == np-1 {
			want = ti.LastPieceLen()
		}
		if sum != want {
			return fmt.Errorf("piece %d has %d bytes, want %d", i, sum, want)
		}
	}
	_ = t.String()
	return nil
}

// Says checks that t reports exactly m.
func (m *Meta) Says(t *torrent.Torrent) error {
	ti := t.Info()
	if t.Announce() != m.Announce {
		return fmt.Errorf("announce %q, want %q", t.Announce(), m.Announce)
	}
	if ti.Name() != m.Name || ti.PieceLen() != m.PieceLen || ti.Hashes() != m.Hashes {
		return fmt.Errorf("name %q piece length %d hashes %x, want %q %d %x", ti.Name(), ti.PieceLen(), ti.Hashes(), m.Name, m.PieceLen, m.Hashes)
	}
	if ti.Length() != m.Total() {
		return fmt.Errorf("length %d, want %d", ti.Length(), m.Total())
	}
	if len(ti.Files()) != len(m.Files) {
		return fmt.Errorf("%d files, want %d", len(ti.Files()), len(m.Files))
	}
	for i, f := range ti.Files() {
		if f.Length() != m.Files[i].Len || f.TorPath() != strings.Join(m.Files[i].Path, "/") {
			return fmt.Errorf("file %d is %q of %d bytes, want %q of %d", i, f.TorPath(), f.Length(), m.Files[i].Path, m.Files[i].Len)
		}
	}
	return nil
}

// Judge loads data and compares with the reference reading.
func Judge(data, wd string) (*torrent.Torrent, *Meta, error) {
	m, v, why := Read(data)
	t, err := Load(data, wd)
	if err != nil {
		if t != nil {
			return nil, nil, fmt.Errorf("Load returns both a torrent and the error %v", err)
		}
		if v == Accept {
			return nil, nil, fmt.Errorf("a valid torrent is rejected: %v", err)
		}
		return nil, nil, nil
	}
	if t == nil {
		return nil, nil, fmt.Errorf("neither torrent nor error")
	}
	_, _, r := ref.Parse(data)
	if v == Reject && r != ref.Loose {
		return nil, nil, fmt.Errorf("accepted although: %s", why)
	}
	if err := Consistent(t); err != nil {
		return nil, nil, err
	}
	if m != nil {
		if r != ref.Loose {
			if err := m.Says(t); err != nil {
				return nil, nil, err
			}
		}
	}
	return t, m, nil
}

// Raw builders: B(key, raw value, key, raw value, ...) in the given order.
func D(kv ...string) string {
	var s strings.Builder
	s.WriteByte('d')
	for i := 0; i < len(kv); i += 2 {
		s.WriteString(S(kv[i]))
		s.WriteString(kv[i+1])
	}
	s.WriteByte('e')
	return s.String()
}

func S(s string) string        { return fmt.Sprintf("%d:%s", len(s), s) }
func I(n int64) string         { return fmt.Sprintf("i%de", n) }
func L(items ...string) string { return "l" + strings.Join(items, "") + "e" }
func Hashes(n int) string      { return strings.Repeat("0123456789abcdefghij", n)[:20*n] }
func FileDict(n int64, comps ...string) string {
	var cs []string
	for _, c := range comps {
		cs = append(cs, S(c))
	}
	return D("length", I(n), "path", L(cs...))
}
