// Package tor builds torrents for the checks: known contents, laid out over
// files, with the reference view of where every byte belongs.
package tor

import (
	"crypto/sha1"
	"fmt"
	"path/filepath"
	"strings"

	"gotor/torrent"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
)

// Layout is a torrent's shape and content.
type Layout struct {
	Name     string
	PieceLen int64
	Lens     []int64
	Paths    []string // torrent paths; nil: f0, f1, ...
	Content  []byte

	hashes string
}

// Bytes gives n distinct-looking bytes: no two positions within 64 KiB that
// are a multiple of any small piece length apart are equal by construction of
// the pattern's period.
func Bytes(n int64, salt int) []byte {
	d := make([]byte, n)
	x := uint32(salt)*2654435761 + 12345
	for i := range d {
		x = x*1664525 + 1013904223
		d[i] = byte(x >> 24)
		if d[i] == 0 {
			d[i] = byte(i%255) + 1
		}
	}
	return d
}

// New makes a layout with generated content.
func New(pieceLen int64, lens ...int64) *Layout {
	l := &Layout{Name: "tor", PieceLen: pieceLen, Lens: lens}
	l.Content = Bytes(l.Total(), int(pieceLen)+len(lens))
	return l
}

func (l *Layout) Total() int64 {
	t := int64(0)
	for _, n := range l.Lens {
		t += n
	}
	return t
}

func (l *Layout) NumPieces() int64 { return (l.Total() + l.PieceLen - 1) / l.PieceLen }

func (l *Layout) Path(i int) string {
	if l.Paths != nil {
		return l.Paths[i]
	}
	if len(l.Lens) == 1 {
		return l.Name
	}
	return fmt.Sprintf("f%d", i)
}

// Range of piece i in the content.
func (l *Layout) Range(i int64) (int64, int64) {
	lo := i * l.PieceLen
	hi := lo + l.PieceLen
	if t := l.Total(); hi > t {
		hi = t
	}
	return lo, hi
}

func (l *Layout) Piece(i int64) []byte {
	lo, hi := l.Range(i)
	return l.Content[lo:hi]
}

func (l *Layout) Hashes() string {
	if l.hashes != "" {
		return l.hashes
	}
	var s strings.Builder
	for i := int64(0); i < l.NumPieces(); i++ {
		h := sha1.Sum(l.Piece(i))
		s.Write(h[:])
	}
	l.hashes = s.String()
	return l.hashes
}

// Alter makes the torrent claim another hash: byte k of all hashes is xored.
func (l *Layout) Alter(k int64, x byte) *Layout {
	h := []byte(l.Hashes())
	h[k] ^= x
	c := *l
	c.hashes = string(h)
	return &c
}

// FileBytes is file i's slice of the content.
func (l *Layout) FileBytes(i int) []byte {
	off := int64(0)
	for k := 0; k < i; k++ {
		off += l.Lens[k]
	}
	return l.Content[off : off+l.Lens[i]]
}

func (l *Layout) Local(dir string, i int) string {
	if len(l.Lens) == 1 {
		return filepath.Join(dir, l.Path(0))
	}
	return filepath.Join(dir, l.Name, l.Path(i))
}

// Info builds the client's view with local paths below dir.
func (l *Layout) Info(dir string) (*info.TorInfo, error) {
	var es []filesd.EntryBase
	for i, n := range l.Lens {
		e := filesd.MakeFileEntry(l.Path(i), n)
		e.SetLocalPath(l.Local(dir, i))
		es = append(es, e)
	}
	return info.NewTorInfo(l.Name, l.PieceLen, l.Hashes(), es)
}

func (l *Layout) Torrent(dir, announce string) (*torrent.Torrent, error) {
	ti, err := l.Info(dir)
	if err != nil {
		return nil, err
	}
	return torrent.NewTorrent(ti, announce)
}

func (l *Layout) String() string {
	return fmt.Sprintf("files %v in pieces of %d", l.Lens, l.PieceLen)
}
