package vs

import (
	"reflect"
	"unsafe"
)

type waiter struct {
	th   *Thread
	val  interface{}
	sel  *selState
	idx  int
	done bool
}

type selState struct {
	fired bool
}

type chanState struct {
	obj    Obj
	keep   interface{}
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	native func() (interface{}, bool, bool) // polls the native channel: value, ok, ready
}

func (w *waiter) live() bool { return !w.done && (w.sel == nil || !w.sel.fired) }

// enqueue appends w, dropping waiters that are through now and then.
func enqueue(q *[]*waiter, w *waiter) {
	if len(*q) == cap(*q) && len(*q) >= 8 {
		keep := make([]*waiter, 0, len(*q))
		for _, x := range *q {
			if x.live() {
				keep = append(keep, x)
			}
		}
		if len(keep) == len(*q) {
			keep = *q
		}
		*q = keep
	}
	*q = append(*q, w)
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if w.live() {
			return true
		}
	}
	return false
}

func chanPtr[T any](c chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (s *Sched) state(p unsafe.Pointer, keep interface{}, capacity int) *chanState {
	cs, ok := s.chans[p]
	if !ok {
		cs = &chanState{keep: keep, cap: capacity}
		cs.obj.epoch = s.epoch
		if s.cur != nil {
			cs.obj.id = mix(s.cur.H, 555)
		}
		cs.obj.h = cs.obj.id
		s.chans[p] = cs
	}
	return cs
}

// complete wakes w with the given result.
func (s *Sched) complete(w *waiter, val interface{}, ok bool) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
	}
	w.th.parked = false
	w.th.op = &Op{Kind: "wake", Productive: true}
	w.th.Res = int64(w.idx)
	w.th.ResAny = val
	w.th.ResOk = ok
	w.th.H = mix(w.th.H, s.curH())
}

func (s *Sched) curH() uint64 {
	if s.cur == nil {
		return s.clockH
	}
	return s.cur.H
}

// trySend attempts the send without blocking; panics in the sender are
// signalled by returning "closed".
func (s *Sched) trySend(cs *chanState, v interface{}) (done bool, closed bool) {
	if cs.closed {
		return false, true
	}
	if w := popLive(&cs.recvq); w != nil {
		s.complete(w, v, true)
		return true, false
	}
	if len(cs.buf) < cs.cap {
		cs.buf = append(cs.buf, v)
		return true, false
	}
	return false, false
}

func (s *Sched) tryRecv(cs *chanState) (v interface{}, ok bool, done bool) {
	if len(cs.buf) > 0 {
		v = cs.buf[0]
		cs.buf = cs.buf[1:]
		if w := popLive(&cs.sendq); w != nil {
			cs.buf = append(cs.buf, w.val)
			s.complete(w, nil, true)
		}
		return v, true, true
	}
	if w := popLive(&cs.sendq); w != nil {
		v = w.val
		s.complete(w, nil, true)
		return v, true, true
	}
	if cs.closed {
		return nil, false, true
	}
	if cs.native != nil {
		if v, ok, ready := cs.native(); ready {
			return v, ok, true
		}
	}
	return nil, false, false
}

func (cs *chanState) sendReady() bool {
	return cs.closed || hasLive(cs.recvq) || len(cs.buf) < cs.cap
}

func (cs *chanState) recvReady() bool {
	return len(cs.buf) > 0 || cs.closed || hasLive(cs.sendq)
}

type closedSend struct{}

// Send returns the function that sends its argument on c.
//
//go:norace
func Send[T any](c chan<- T) func(T) {
	return func(v T) { send(c, v) }
}

//go:norace
func send[T any](c chan<- T, v T) {
	s := active.Load()
	if s == nil {
		c <- v
		return
	}
	if s.killing {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if p == nil {
		Do(&Op{Kind: "send(nil)", Enabled: func() bool { return false }})
		return
	}
	RaceReleaseMerge(p)
	var val interface{} = box[T]{v}
	bad := false
	op := &Op{Kind: "send", Productive: true}
	op.Exec = func() {
		cs := s.state(p, c, cap(c))
		op.Obj = &cs.obj
		done, closed := s.trySend(cs, val)
		if closed {
			bad = true
			return
		}
		if !done {
			op.Park = true
			enqueue(&cs.sendq, &waiter{th: s.cur, val: val})
		}
	}
	t := Do(op)
	if bad || (t.ResAny != nil && isClosedSend(t.ResAny)) {
		t.ResAny = nil
		panic("send on closed channel")
	}
	RaceAcquire(unsafe.Add(p, 1))
}

func isClosedSend(v interface{}) bool { _, ok := v.(closedSend); return ok }

type box[T any] struct{ v T }

//go:norace
func unbox[T any](v interface{}) T {
	if b, ok := v.(box[T]); ok {
		return b.v
	}
	var z T
	return z
}

// Recv receives from c.
//
//go:norace
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 receives from c with the closed indication.
//
//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	s := active.Load()
	var zero T
	if s == nil {
		v, ok := <-c
		return v, ok
	}
	if s.killing {
		return zero, false
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if p == nil {
		Do(&Op{Kind: "recv(nil)", Enabled: func() bool { return false }})
		return zero, false
	}
	RaceReleaseMerge(unsafe.Add(p, 1))
	op := &Op{Kind: "recv", Productive: true}
	op.Exec = func() {
		cs := s.state(p, c, cap(c))
		op.Obj = &cs.obj
		if cs.native == nil {
			cs.native = nativePoll(c)
		}
		v, ok, done := s.tryRecv(cs)
		if done {
			s.cur.ResAny, s.cur.ResOk = v, ok
			return
		}
		op.Park = true
		enqueue(&cs.recvq, &waiter{th: s.cur})
	}
	t := Do(op)
	RaceAcquire(p)
	v, ok := t.ResAny, t.ResOk
	t.ResAny = nil
	if !ok {
		return zero, false
	}
	return unbox[T](v), true
}

func nativePoll[T any](c <-chan T) func() (interface{}, bool, bool) {
	return func() (interface{}, bool, bool) {
		select {
		case v, ok := <-c:
			return box[T]{v}, ok, true
		default:
			return nil, false, false
		}
	}
}

// Close closes c.
//
//go:norace
func Close[T any](c chan<- T) {
	s := active.Load()
	if s == nil {
		close(c)
		return
	}
	if s.killing {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if p == nil {
		panic("close of nil channel")
	}
	RaceReleaseMerge(p)
	bad := false
	op := &Op{Kind: "close", Productive: true}
	op.Exec = func() {
		cs := s.state(p, c, cap(c))
		op.Obj = &cs.obj
		if cs.closed {
			bad = true
			return
		}
		cs.closed = true
		for {
			w := popLive(&cs.recvq)
			if w == nil {
				break
			}
			s.complete(w, nil, false)
		}
		for {
			w := popLive(&cs.sendq)
			if w == nil {
				break
			}
			s.complete(w, closedSend{}, false)
		}
	}
	Do(op)
	if bad {
		panic("close of closed channel")
	}
}

// Len is len(c).
//
//go:norace
func Len[T any](c <-chan T) int {
	s := active.Load()
	if s == nil {
		return len(c)
	}
	if s.killing || c == nil {
		return 0
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	op := &Op{Kind: "len"}
	op.Exec = func() {
		cs := s.state(p, c, cap(c))
		op.Obj = &cs.obj
		s.cur.Res = int64(len(cs.buf))
	}
	return int(Do(op).Res)
}

// PostC sends v to the channel from a controller callback without blocking
// (used by timers); it reports whether the value was taken.
func PostC[T any](c chan T, v T) bool {
	s := active.Load()
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	save := s.cur
	s.cur = nil
	cs := s.state(p, c, cap(c))
	done, _ := s.trySend(cs, box[T]{v})
	cs.obj.h = mix(cs.obj.h, s.clockH)
	s.cur = save
	return done
}

// DrainC empties the channel's buffer (timer Stop/Reset semantics).
//
//go:norace
func DrainC[T any](c chan T) {
	s := active.Load()
	if s == nil || s.killing {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	op := &Op{Kind: "drain", Immediate: true}
	op.Exec = func() {
		if cs, ok := s.chans[p]; ok {
			cs.buf = nil
			op.Obj = &cs.obj
		}
	}
	Do(op)
}

// ---------------------------------------------------------------------------
// Select.

type Case interface {
	ptr() unsafe.Pointer
	isSend() bool
	value() interface{}
	state(s *Sched) *chanState
	set(v interface{}, ok bool)
	rcase() reflect.SelectCase
	setNative(v reflect.Value, ok bool)
}

type RecvC[T any] struct {
	c  <-chan T
	v  T
	ok bool
}

//go:norace
func RecvCase[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{c: c} }

//go:norace
func (r *RecvC[T]) Val() T { return r.v }

//go:norace
func (r *RecvC[T]) Val2() (T, bool) { return r.v, r.ok }

//go:norace
func (r *RecvC[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)) }
func (r *RecvC[T]) isSend() bool        { return false }
func (r *RecvC[T]) value() interface{}  { return nil }
func (r *RecvC[T]) state(s *Sched) *chanState {
	cs := s.state(r.ptr(), r.c, cap(r.c))
	if cs.native == nil {
		cs.native = nativePoll(r.c)
	}
	return cs
}

//go:norace
func (r *RecvC[T]) set(v interface{}, ok bool) {
	r.ok = ok
	if ok {
		r.v = unbox[T](v)
	}
}
func (r *RecvC[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (r *RecvC[T]) setNative(v reflect.Value, ok bool) {
	r.ok = ok
	if ok {
		reflect.ValueOf(&r.v).Elem().Set(v)
	}
}

type SendC[T any] struct {
	c chan<- T
	v T
}

//go:norace
func SendCase[T any](c chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return mkSend(c, v) }
}

//go:norace
func mkSend[T any](c chan<- T, v T) *SendC[T] { return &SendC[T]{c: c, v: v} }

//go:norace
func (r *SendC[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)) }
func (r *SendC[T]) isSend() bool        { return true }

//go:norace
func (r *SendC[T]) value() interface{}            { return box[T]{r.v} }
func (r *SendC[T]) state(s *Sched) *chanState     { return s.state(r.ptr(), r.c, cap(r.c)) }
func (r *SendC[T]) set(v interface{}, ok bool)    {}
func (r *SendC[T]) setNative(reflect.Value, bool) {}
func (r *SendC[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.c), Send: reflect.ValueOf(&r.v).Elem()}
}

// Select performs a select statement and returns the index of the chosen case
// (-1 for default).
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	s := active.Load()
	if s == nil {
		return nativeSelect(hasDefault, cases)
	}
	if s.killing {
		return -1
	}
	for _, c := range cases {
		if p := c.ptr(); p != nil {
			if c.isSend() {
				RaceReleaseMerge(p)
			} else {
				RaceReleaseMerge(unsafe.Add(p, 1))
			}
		}
	}
	op := &Op{Kind: "select"}
	badSend := false
	op.Exec = func() { s.execSelect(op, hasDefault, cases, &badSend) }
	t := Do(op)
	k := int(t.Res)
	v, ok := t.ResAny, t.ResOk
	t.ResAny = nil
	if k >= 0 && k < len(cases) {
		c := cases[k]
		if c.isSend() {
			if badSend || (v != nil && isClosedSend(v)) {
				panic("send on closed channel")
			}
			RaceAcquire(unsafe.Add(c.ptr(), 1))
		} else {
			RaceAcquire(c.ptr())
			c.set(v, ok)
		}
	}
	return k
}

func (s *Sched) execSelect(op *Op, hasDefault bool, cases []Case, badSend *bool) {
	var ready []int
	var objs []*chanState
	for i, c := range cases {
		if c.ptr() == nil {
			objs = append(objs, nil)
			continue
		}
		cs := c.state(s)
		objs = append(objs, cs)
		if c.isSend() {
			if cs.sendReady() {
				ready = append(ready, i)
			}
		} else {
			if !cs.recvReady() && cs.native != nil {
				if v, ok, r := cs.native(); r {
					if ok {
						cs.buf = append(cs.buf, v)
					} else {
						cs.closed = true
					}
				}
			}
			if cs.recvReady() {
				ready = append(ready, i)
			}
		}
	}
	// the step depends on every channel involved
	for _, cs := range objs {
		if cs != nil {
			s.cur.H = mix(s.cur.H, cs.obj.h)
		}
	}
	defer func() {
		for _, cs := range objs {
			if cs != nil {
				cs.obj.h = mix(s.cur.H, cs.obj.id)
			}
		}
	}()
	if len(ready) == 0 {
		if hasDefault {
			s.cur.Res = -1
			return
		}
		sel := &selState{}
		for i, c := range cases {
			if objs[i] == nil {
				continue
			}
			w := &waiter{th: s.cur, sel: sel, idx: i}
			if c.isSend() {
				w.val = c.value()
				enqueue(&objs[i].sendq, w)
			} else {
				enqueue(&objs[i].recvq, w)
			}
		}
		op.Park = true
		return
	}
	k := 0
	if len(ready) > 1 {
		costs := make([]int, len(ready))
		if s.cfg.SelectCost {
			for i := 1; i < len(costs); i++ {
				costs[i] = 1
			}
		}
		k = s.decide(costs, func(i int) string { return "select case " + itoa(ready[i]) })
	}
	i := ready[k]
	s.cur.Res = int64(i)
	s.cur.H = mix(s.cur.H, uint64(i)+31)
	op.Productive = true
	s.prog++
	cs := objs[i]
	if cases[i].isSend() {
		_, closed := s.trySend(cs, cases[i].value())
		if closed {
			*badSend = true
		}
		return
	}
	v, ok, _ := s.tryRecv(cs)
	s.cur.ResAny, s.cur.ResOk = v, ok
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func nativeSelect(hasDefault bool, cases []Case) int {
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		rc = append(rc, c.rcase())
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	if len(rc) == 0 {
		select {}
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	cases[i].setNative(v, ok)
	return i
}
