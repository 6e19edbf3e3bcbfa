// Package wire is the reference model of the peer wire protocol.
package wire

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"gotor/bf"
	"gotor/p2p"
)

// Message ids; KeepAlive has none on the wire.
const (
	Choke, Unchoke, Interested, NotInterested, Have, Bitfield, Request, Piece, Cancel = 0, 1, 2, 3, 4, 5, 6, 7, 8
	KeepAlive                                                                         = 255
)

// Msg is a message of the model.
type Msg struct {
	Type                 int
	Index, Begin, ReqLen uint32
	Data                 []byte // block, or bitfield bytes
}

func (m Msg) String() string {
	switch m.Type {
	case KeepAlive:
		return "keepalive"
	case Choke:
		return "choke"
	case Unchoke:
		return "unchoke"
	case Interested:
		return "interested"
	case NotInterested:
		return "notinterested"
	case Have:
		return fmt.Sprintf("have(%d)", m.Index)
	case Bitfield:
		return fmt.Sprintf("bitfield(%s)", hex(m.Data))
	case Request, Cancel:
		return fmt.Sprintf("type%d(%d,%d,%d)", m.Type, m.Index, m.Begin, m.ReqLen)
	case Piece:
		return fmt.Sprintf("piece(%d,%d,%d bytes %s)", m.Index, m.Begin, len(m.Data), hex(m.Data))
	}
	return fmt.Sprintf("type%d", m.Type)
}

func hex(b []byte) string {
	if len(b) > 12 {
		return fmt.Sprintf("%x...", b[:12])
	}
	return fmt.Sprintf("%x", b)
}

// Encode is the wire form.
func (m Msg) Encode() []byte {
	var body []byte
	u := func(v uint32) { body = append(body, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	switch m.Type {
	case KeepAlive:
		return []byte{0, 0, 0, 0}
	case Have:
		u(m.Index)
	case Bitfield:
		body = append(body, m.Data...)
	case Request, Cancel:
		u(m.Index)
		u(m.Begin)
		u(m.ReqLen)
	case Piece:
		u(m.Index)
		u(m.Begin)
		body = append(body, m.Data...)
	}
	out := make([]byte, 4, 5+len(body))
	binary.BigEndian.PutUint32(out, uint32(1+len(body)))
	out = append(out, byte(m.Type))
	return append(out, body...)
}

// Equal compares two messages.
func Equal(a, b Msg) bool {
	return a.Type == b.Type && a.Index == b.Index && a.Begin == b.Begin && a.ReqLen == b.ReqLen && bytes.Equal(a.Data, b.Data)
}

// Gotor builds gotor's message. A bitfield gets all its bytes' bits.
func (m Msg) Gotor() (p2p.Message, error) {
	switch m.Type {
	case KeepAlive:
		return &p2p.KeepAliveSingleton, nil
	case Choke:
		return p2p.NewMsgChoke(), nil
	case Unchoke:
		return p2p.NewMsgUnchoke(), nil
	case Interested:
		return p2p.NewMsgInterested(), nil
	case NotInterested:
		return p2p.NewMsgNotInterested(), nil
	case Have:
		return p2p.NewMsgHave(m.Index), nil
	case Bitfield:
		x, err := bf.FromBytes(append(make([]byte, 5), m.Data...), int64(8*len(m.Data)))
		if err != nil {
			return nil, err
		}
		return p2p.NewMsgBitfield(x), nil
	case Request:
		return p2p.NewMsgRequest(m.Index, m.Begin, m.ReqLen), nil
	case Piece:
		return p2p.NewMsgPiece(m.Index, m.Begin, m.Data), nil
	}
	return nil, fmt.Errorf("no such message")
}

// From reads gotor's message back (copying its data).
func From(m p2p.Message) (Msg, error) {
	if m == nil {
		return Msg{}, fmt.Errorf("nil message")
	}
	out := Msg{Type: int(m.Mtype())}
	switch x := m.(type) {
	case *p2p.MsgKeepAlive, *p2p.MsgChoke, *p2p.MsgUnchoke, *p2p.MsgInterested, *p2p.MsgNotInterested:
	case *p2p.MsgHave:
		out.Index = x.Index()
	case *p2p.MsgBitfield:
		out.Data = append([]byte{}, x.Bitfield().Data()...)
	case *p2p.MsgRequest:
		out.Index, out.Begin, out.ReqLen = x.Index(), x.Begin(), x.ReqLen()
	case *p2p.MsgPiece:
		out.Index, out.Begin = x.Index(), x.Begin()
		out.Data = append([]byte{}, x.Block()...)
	default:
		return out, fmt.Errorf("message of type %T", m)
	}
	want := 0
	switch m.(type) {
	case *p2p.MsgKeepAlive:
		want = KeepAlive
	case *p2p.MsgChoke:
		want = Choke
	case *p2p.MsgUnchoke:
		want = Unchoke
	case *p2p.MsgInterested:
		want = Interested
	case *p2p.MsgNotInterested:
		want = NotInterested
	case *p2p.MsgHave:
		want = Have
	case *p2p.MsgBitfield:
		want = Bitfield
	case *p2p.MsgRequest:
		want = Request
	case *p2p.MsgPiece:
		want = Piece
	}
	if out.Type != want {
		return out, fmt.Errorf("%T says it is type %d", m, out.Type)
	}
	if l := len(out.Encode()); int(m.Length())+4 != l {
		return out, fmt.Errorf("%v: Length() = %d, wire form has %d bytes", out, m.Length(), l)
	}
	return out, nil
}

// Split cuts a byte stream into whole messages; rest is the unfinished tail.
func Split(b []byte) (msgs []Msg, rest []byte, err error) {
	for len(b) >= 4 {
		n := uint64(binary.BigEndian.Uint32(b))
		if uint64(len(b)) < 4+n {
			return msgs, b, nil
		}
		m, e := parse(b[4 : 4+n])
		if e != nil {
			return msgs, b, e
		}
		msgs = append(msgs, m)
		b = b[4+n:]
	}
	return msgs, b, nil
}

func parse(b []byte) (Msg, error) {
	if len(b) == 0 {
		return Msg{Type: KeepAlive}, nil
	}
	m := Msg{Type: int(b[0])}
	p := b[1:]
	need := func(n int) error {
		if len(p) != n {
			return fmt.Errorf("message id %d with %d payload bytes", b[0], len(p))
		}
		return nil
	}
	u := func(i int) uint32 { return binary.BigEndian.Uint32(p[i:]) }
	switch m.Type {
	case Choke, Unchoke, Interested, NotInterested:
		return m, need(0)
	case Have:
		if e := need(4); e != nil {
			return m, e
		}
		m.Index = u(0)
	case Bitfield:
		m.Data = append([]byte{}, p...)
	case Request, Cancel:
		if e := need(12); e != nil {
			return m, e
		}
		m.Index, m.Begin, m.ReqLen = u(0), u(4), u(8)
	case Piece:
		if len(p) < 8 {
			return m, fmt.Errorf("piece message with %d payload bytes", len(p))
		}
		m.Index, m.Begin = u(0), u(4)
		m.Data = append([]byte{}, p[8:]...)
	default:
		return m, fmt.Errorf("message id %d", b[0])
	}
	return m, nil
}
