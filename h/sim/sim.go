// Package sim is the network between the client and its peers during an
// exploration: connections whose every read, write, deadline and close is a
// scheduling step, with virtual time, and peers the harness speaks for.
package sim

import (
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"gotor/zv/vs"
	"gotor/zv/vtime"
)

// Out is one Write of the client that was accepted.
type Out struct {
	Data []byte
	At   int64 // virtual nanoseconds
	Seq  int   // order over all connections
}

// Conn is the client's end of a connection.
type Conn struct {
	Label string
	// Cap limits how many bytes are accepted before the peer has taken them
	// (negative: no limit).
	Cap int64
	// FailWrite makes the n-th write (from 1) fail, after FailPart bytes.
	FailWrite int
	FailPart  int
	// OnlyWrites keeps a failed write from making reads fail, too.
	OnlyWrites bool
	// NoTime leaves the clock out of the writer's state; set it when the oracle
	// doesn't look at times.
	NoTime bool
	// Partial makes writes take what there is room for, bit by bit, one Write
	// after the other, the way a socket does. Without it a Write takes effect
	// at once when there is room for all of it.
	Partial bool
	// Join delivers the end of the stream together with the last data.
	Join bool
	// OneShot forgets a read error once it has been returned.
	OneShot bool
	// FailDeadline makes the n-th SetReadDeadline (from 1) fail.
	FailDeadline int

	wbusy  bool
	rdls   int
	rd, wr vs.Obj
	in     [][]byte
	eof    bool
	rerr   error
	broken bool // writes fail
	out    []Out
	outN   int64
	taken  int64
	writes int
	closed bool
	closes int
	rdl    int64 // virtual time, 0: none, negative: long past
	wdl    int64
	hasR   bool
	hasW   bool
	rop    *vs.Op
	wops   []*vs.Op
	local  net.Addr
	remote net.Addr
	seq    *int
	ops    int // reads and writes so far, for fault enumeration
}

var seqs int

// New makes a connection with the given remote address.
func New(label, ip string, port int) *Conn {
	return &Conn{Label: label, Cap: -1, local: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6881}, remote: &net.TCPAddr{IP: net.ParseIP(ip), Port: port}, seq: &seqs}
}

//go:norace
func (c *Conn) LocalAddr() net.Addr { return c.local }

//go:norace
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

//go:norace
func (c *Conn) rpast() bool { return c.hasR && (c.rdl < 0 || vs.Now() >= c.rdl) }

//go:norace
func (c *Conn) wpast() bool { return c.hasW && (c.wdl < 0 || vs.Now() >= c.wdl) }

func (c *Conn) Read(b []byte) (int, error) {
	d, err := c.read(len(b))
	n := copy(b, d)
	return n, err
}

//go:norace
func (c *Conn) read(n int) (d []byte, err error) {
	if vs.Killing() {
		return nil, net.ErrClosed
	}
	op := &vs.Op{Kind: "recv " + c.Label, Obj: &c.rd, Productive: true}
	op.Enabled = func() bool {
		return c.closed || c.rpast() || len(c.in) > 0 || c.eof || c.rerr != nil || n == 0
	}
	op.Exec = func() {
		c.rop = nil
		switch {
		case c.closed:
			err = opErr("read", net.ErrClosed)
		case c.rpast():
			err = opErr("read", os.ErrDeadlineExceeded)
		case n == 0:
		case len(c.in) > 0:
			x := c.in[0]
			if len(x) > n {
				d, c.in[0] = x[:n], x[n:]
			} else {
				d, c.in = x, c.in[1:]
			}
			if c.Join && len(c.in) == 0 && (c.eof || c.rerr != nil) && len(d) == len(x) {
				if err = io.EOF; c.rerr != nil {
					err = opErr("read", c.rerr)
				}
			}
		case c.rerr != nil:
			err = opErr("read", c.rerr)
		default:
			err = io.EOF
		}
		if c.OneShot && err != nil {
			c.rerr = nil
		}
		d = append([]byte(nil), d...)
	}
	c.arm(op)
	vs.Do(op)
	if c.hasR {
		vs.NoteClock()
	}
	return private(d), err
}

// private copies d on the calling thread.
//
//go:norace
func private(d []byte) []byte {
	if d == nil {
		return nil
	}
	o := make([]byte, len(d))
	for i := range d {
		o[i] = d[i]
	}
	return o
}

// arm looks at the deadline after the thread stops at the step and before it
// waits there.
//
//go:norace
func (c *Conn) arm(op *vs.Op) {
	c.rop = op
	if c.hasR && c.rdl > 0 {
		op.Deadline = c.rdl
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	d := append([]byte(nil), b...)
	return c.write(d)
}

//go:norace
func (c *Conn) write(d []byte) (n int, err error) {
	if vs.Killing() {
		return 0, net.ErrClosed
	}
	if !c.NoTime {
		vs.NoteClock()
	}
	if c.Partial {
		return c.writeBits(d)
	}
	op := &vs.Op{Kind: "send " + c.Label, Obj: &c.wr, Productive: true}
	op.Enabled = func() bool {
		return c.closed || c.wpast() || c.broken || c.Cap < 0 || c.outN+int64(len(d)) <= c.taken+c.Cap
	}
	op.Exec = func() {
		for i, o := range c.wops {
			if o == op {
				c.wops = append(c.wops[:i:i], c.wops[i+1:]...)
				break
			}
		}
		switch {
		case c.closed:
			err = opErr("write", net.ErrClosed)
		case c.wpast():
			err = opErr("write", os.ErrDeadlineExceeded)
		case c.broken:
			err = opErr("write", syscall.EPIPE)
		default:
			c.writes++
			k := len(d)
			if c.writes == c.FailWrite {
				if c.FailPart < k {
					k = c.FailPart
				}
				err = opErr("write", syscall.ECONNRESET)
				c.broken = true
				if !c.OnlyWrites {
					c.rerr = syscall.ECONNRESET
				}
			}
			n = k
			if k > 0 {
				c.out = append(c.out, Out{Data: d[:k], At: vs.Now(), Seq: *c.seq})
				*c.seq++
				c.outN += int64(k)
			}
		}
	}
	c.wops = append(c.wops, op)
	if c.hasW && c.wdl > 0 {
		op.Deadline = c.wdl
	}
	vs.Do(op)
	return n, err
}

//go:norace
func (c *Conn) writeBits(d []byte) (n int, err error) {
	vs.Do(&vs.Op{Kind: "wlock " + c.Label, Obj: &c.wr, Productive: true, Enabled: func() bool { return c.closed || !c.wbusy }, Exec: func() {
		if c.closed {
			err = opErr("write", net.ErrClosed)
			return
		}
		c.wbusy = true
	}})
	for more := err == nil; more; {
		op := &vs.Op{Kind: "send " + c.Label, Obj: &c.wr, Productive: true}
		op.Enabled = func() bool {
			return c.closed || c.wpast() || c.broken || c.Cap < 0 || n == len(d) || c.outN < c.taken+c.Cap
		}
		op.Exec = func() {
			for i, o := range c.wops {
				if o == op {
					c.wops = append(c.wops[:i:i], c.wops[i+1:]...)
					break
				}
			}
			switch {
			case c.closed:
				err = opErr("write", net.ErrClosed)
			case c.wpast():
				err = opErr("write", os.ErrDeadlineExceeded)
			case c.broken:
				err = opErr("write", syscall.EPIPE)
			default:
				k := len(d) - n
				if room := c.taken + c.Cap - c.outN; c.Cap >= 0 && int64(k) > room {
					k = int(room)
				}
				if k > 0 {
					c.out = append(c.out, Out{Data: d[n : n+k], At: vs.Now(), Seq: *c.seq})
					*c.seq++
					c.outN += int64(k)
					n += k
				}
			}
			if err != nil || n == len(d) {
				c.wbusy, more = false, false
			}
		}
		c.wops = append(c.wops, op)
		if c.hasW && c.wdl > 0 {
			op.Deadline = c.wdl
		}
		vs.Do(op)
	}
	return n, err
}

func virtual(t time.Time) int64 {
	v := int64(t.Sub(vtime.Base))
	if v <= 0 {
		v = -1
	}
	return v
}

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

//go:norace
func (c *Conn) SetReadDeadline(t time.Time) error {
	if vs.Killing() {
		return net.ErrClosed
	}
	vs.NoteClock()
	var err error
	vs.Do(&vs.Op{Kind: "rdeadline " + c.Label, Obj: &c.rd, Productive: true, Exec: func() {
		if c.rdls++; c.rdls == c.FailDeadline {
			err = opErr("set", syscall.ENOTCONN)
			return
		}
		if c.closed {
			err = opErr("set", net.ErrClosed)
			return
		}
		c.hasR = !t.IsZero()
		c.rdl = 0
		if c.hasR {
			c.rdl = virtual(t)
		}
		if c.rop != nil {
			c.rop.Deadline = 0
			if c.rdl > 0 {
				c.rop.Deadline = c.rdl
			}
		}
	}})
	return err
}

//go:norace
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if vs.Killing() {
		return net.ErrClosed
	}
	vs.NoteClock()
	var err error
	vs.Do(&vs.Op{Kind: "wdeadline " + c.Label, Obj: &c.wr, Productive: true, Exec: func() {
		if c.closed {
			err = opErr("set", net.ErrClosed)
			return
		}
		c.hasW = !t.IsZero()
		c.wdl = 0
		if c.hasW {
			c.wdl = virtual(t)
		}
		for _, o := range c.wops {
			o.Deadline = 0
			if c.wdl > 0 {
				o.Deadline = c.wdl
			}
		}
	}})
	return err
}

//go:norace
func (c *Conn) Close() error {
	if vs.Killing() {
		return nil
	}
	var err error
	vs.Do(&vs.Op{Kind: "close " + c.Label, Obj: &c.wr, Productive: true, Exec: func() {
		c.closes++
		if c.closed {
			err = opErr("close", net.ErrClosed)
			return
		}
		c.closed = true
	}})
	vs.Do(&vs.Op{Kind: "closed", Obj: &c.rd, Productive: true, Immediate: true})
	return err
}

// ---- the peer's side

//go:norace
func (c *Conn) peer(kind string, o *vs.Obj, f func()) {
	vs.Do(&vs.Op{Kind: "peer " + kind + " " + c.Label, Obj: o, Productive: true, Exec: f})
}

// Send delivers data to the client; each element is what one Read gets.
//
//go:norace
func (c *Conn) Send(chunks ...[]byte) {
	c.peer("send", &c.rd, func() {
		for _, d := range chunks {
			if len(d) > 0 {
				c.in = append(c.in, d)
			}
		}
	})
}

// SendEOF ends the peer's stream.
//
//go:norace
func (c *Conn) SendEOF() { c.peer("eof", &c.rd, func() { c.eof = true }) }

// Break ends the stream with an error; writes fail from now on.
//
//go:norace
func (c *Conn) Break(err error) {
	c.peer("break", &c.rd, func() { c.rerr = err; c.broken = true })
	vs.Do(&vs.Op{Kind: "broken", Obj: &c.wr, Productive: true, Immediate: true})
}

// Hangup is the peer closing its socket: end of stream, writes fail.
//
//go:norace
func (c *Conn) Hangup() {
	c.peer("hangup", &c.rd, func() { c.eof = true; c.broken = true })
	vs.Do(&vs.Op{Kind: "broken", Obj: &c.wr, Productive: true, Immediate: true})
}

// Take makes the peer read everything written so far.
//
//go:norace
func (c *Conn) Take() { c.peer("take", &c.wr, func() { c.taken = c.outN }) }

// Limit sets Cap.
//
//go:norace
func (c *Conn) Limit(n int64) { c.peer("limit", &c.wr, func() { c.Cap = n; c.taken = c.outN }) }

// Writes are the client's writes so far, in order. Not a scheduling step.
//
//go:norace
func (c *Conn) Writes() []Out { return c.out }

// Failed reports that the write to fail has happened.
//
//go:norace
func (c *Conn) Failed() bool { return c.FailWrite > 0 && c.writes >= c.FailWrite }

// Stream is everything the client wrote.
//
//go:norace
func (c *Conn) Stream() []byte {
	var b []byte
	for _, o := range c.out {
		b = append(b, o.Data...)
	}
	return b
}

// Closed reports that the client closed the connection.
//
//go:norace
func (c *Conn) Closed() bool { return c.closed }

// Unread is the number of bytes the client has not read yet.
//
//go:norace
func (c *Conn) Unread() int {
	n := 0
	for _, d := range c.in {
		n += len(d)
	}
	return n
}

// ---- listener

// Listener hands connections to the client.
type Listener struct {
	Addr_  string
	o      vs.Obj
	q      []net.Conn
	errs   []error
	closed bool
	fail   error
}

func (l *Listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4zero, Port: 6881} }

//go:norace
func (l *Listener) Accept() (c net.Conn, err error) {
	if vs.Killing() {
		return nil, net.ErrClosed
	}
	vs.Do(&vs.Op{Kind: "accept", Obj: &l.o, Productive: l.fail == nil,
		Enabled: func() bool { return l.closed || len(l.q) > 0 || l.fail != nil },
		Exec: func() {
			if l.closed {
				err = opErr("accept", net.ErrClosed)
				return
			}
			if l.fail != nil {
				err = opErr("accept", l.fail)
				return
			}
			c, err = l.q[0], l.errs[0]
			l.q, l.errs = l.q[1:], l.errs[1:]
		}})
	return c, err
}

//go:norace
func (l *Listener) Close() error {
	if vs.Killing() {
		return nil
	}
	vs.Do(&vs.Op{Kind: "unlisten", Obj: &l.o, Productive: true, Exec: func() { l.closed = true }})
	return nil
}

// Fail makes every Accept fail with err (nil: no longer).
//
//go:norace
func (l *Listener) Fail(err error) {
	vs.Do(&vs.Op{Kind: "fail accepts", Obj: &l.o, Productive: true, Exec: func() { l.fail = err }})
}

// Push makes the next Accept return c and err.
//
//go:norace
func (l *Listener) Push(c net.Conn, err error) {
	vs.Do(&vs.Op{Kind: "connect", Obj: &l.o, Productive: true, Exec: func() {
		l.q = append(l.q, c)
		l.errs = append(l.errs, err)
	}})
}

// SendLast delivers data and the end of the stream in one step; err nil: end of
// stream.
//
//go:norace
func (c *Conn) SendLast(d []byte, err error) {
	c.peer("last", &c.rd, func() {
		if len(d) > 0 {
			c.in = append(c.in, d)
		}
		if err == nil {
			c.eof = true
		} else {
			c.rerr, c.broken = err, true
		}
	})
}

// Link makes what the client writes to each of the connections arrive at the
// other one, split by cut (nil: as it was written), until one is closed.
func Link(a, b *Conn, cut func([]byte) [][]byte) {
	vs.GoNamed("carry "+a.Label+" to "+b.Label, func() { carry(a, b, cut) })
	vs.GoNamed("carry "+b.Label+" to "+a.Label, func() { carry(b, a, cut) })
}

//go:norace
func carry(a, b *Conn, cut func([]byte) [][]byte) {
	k := 0
	for {
		var data [][]byte
		end := false
		vs.Do(&vs.Op{Kind: "carry " + a.Label, Obj: &a.wr, Productive: true,
			Enabled: func() bool { return len(a.out) > k || a.closed },
			Exec: func() {
				data = nil
				for ; k < len(a.out); k++ {
					data = append(data, private(a.out[k].Data))
				}
				a.taken = a.outN
				end = a.closed
			}})
		for _, d := range data {
			if cut != nil {
				b.Send(cut(d)...)
			} else {
				b.Send(d)
			}
		}
		if end {
			b.Hangup()
			return
		}
	}
}
