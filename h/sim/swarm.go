package sim

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"

	"gotor/bf"
	gio "gotor/io"
	"gotor/peer"
	"gotor/swarm"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/run"
	"vh/sw"
	"vh/tor"
)

// ID is our peer id.
const ID = "-GT0000-0123456789ab"

// Disk is a torrent with content on the scratch file system, opened once and
// used by all executions of a scenario.
type Disk struct {
	L   *tor.Layout
	Tor *torrent.Torrent
	F   *fileio.FileIO
	dir string
}

// Path of file i.
func (d *Disk) Path(i int) string { return d.L.Local(d.dir, i) }

var diskSeq int

// Dir is the working directory.
func (d *Disk) Dir() string { return d.dir }

// NewDisk lays the content out; pieces not in held are overwritten with junk.
// held nil: all.
func NewDisk(l *tor.Layout, held []bool) *Disk {
	vos.Sched = false
	diskSeq++
	dir := filepath.Join(run.Scratch, fmt.Sprintf("disk%d", diskSeq))
	t, err := l.Torrent(dir, "http://127.0.0.1:1/announce")
	if err != nil {
		panic(err)
	}
	d := &Disk{L: l, Tor: t, F: fileio.NewFileIO(t.Info()), dir: dir}
	c := append([]byte(nil), l.Content...)
	for i, h := range held {
		if !h {
			lo, hi := l.Range(int64(i))
			for k := lo; k < hi; k++ {
				c[k] ^= 0xa5
			}
		}
	}
	off := int64(0)
	for i, n := range l.Lens {
		p := l.Local(dir, i)
		if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, c[off:off+n], 0600); err != nil {
			panic(err)
		}
		off += n
	}
	if err := d.F.OCATAll(t.Info().Files()); err != nil {
		panic(err)
	}
	return d
}

// Swarm is a swarm over the disk holding the given pieces (nil: all).
func (d *Disk) Swarm(held []bool) *swarm.Swarm {
	n := d.L.NumPieces()
	b := bf.NewBitfield(n)
	for i := int64(0); i < n; i++ {
		if held == nil || held[i] {
			b.Set(i, true)
		}
	}
	return Assemble(d.Tor, d.F, b)
}

var known = map[string]bool{"State": true, "Stats": true, "Peers": true, "Tor": true, "Fileio": true, "RLIO": true,
	"Bf": true, "PPT": true, "Id": true, "Port": true, "ChErr": true}

// Grown is set if the swarm has fields that only its constructor can know.
var Grown = func() bool {
	t := reflect.TypeOf(swarm.Swarm{})
	for i := 0; i < t.NumField(); i++ {
		if !known[t.Field(i).Name] {
			return true
		}
	}
	return false
}()

// Assemble makes a swarm of its parts.
func Assemble(t *torrent.Torrent, f *fileio.FileIO, b *bf.Bitfield) *swarm.Swarm {
	s := &swarm.Swarm{RLIO: gio.NewRateLimitIO()}
	if Grown {
		s = full()
	}
	s.Tor, s.Fileio, s.Bf = t, f, b
	s.PPT = swarm.NewPeerPieceTracker(uint32(t.Info().NumPieces()), b)
	s.Id, s.Port = ID, 6881
	return s
}

var fullOnce bool

// full starts a swarm up the way the program does, of which the caller then
// replaces the parts. Slower than making it from parts.
func full() *swarm.Swarm {
	old, hook := vos.Sched, vos.Hook
	vos.Sched, vos.Hook = false, nil
	defer func() { vos.Sched, vos.Hook = old, hook }()
	if !fullOnce {
		fullOnce = true
		sw.Put(tor.New(4, 4))
	}
	s, _, err := sw.New()
	if err != nil {
		panic(err)
	}
	s.Fileio.CloseAll()
	return s
}

// Handler makes a handler for an established connection.
func Handler(s *swarm.Swarm, c *Conn) *swarm.PeerHandler {
	a := c.remote.(*net.TCPAddr)
	return swarm.NewPeerHandler(peer.MakePeer("-XX0000-abcdefghijkl", a.IP, uint16(a.Port)), s, c)
}

// Wire is the packed form of a set of pieces.
func Wire(h []bool) []byte {
	b := make([]byte, (len(h)+7)/8)
	for i, x := range h {
		if x {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return b
}

// Handshake is the 68 bytes of a handshake.
func Handshake(infohash, id string) []byte {
	return []byte("\x13BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00" + infohash + id)
}

// T collects the first failure of an execution's body.
type T struct{ Err error }

func (t *T) Failf(format string, args ...interface{}) {
	if t.Err == nil {
		t.Err = fmt.Errorf(format, args...)
	}
}

// Body wraps a body that reports failures to t, and its oracle.
func Body(f func(t *T)) (func(), func(*vs.Exec) error) {
	var t *T
	return func() {
			x := &T{}
			t = x
			f(x)
		}, func(x *vs.Exec) error {
			if err := vs.DefaultCheck(x); err != nil {
				return err
			}
			return t.Err
		}
}
