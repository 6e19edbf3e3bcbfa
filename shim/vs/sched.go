// Package vs is a controlled scheduler: every instrumented goroutine of the
// code under test runs one at a time, stops before each synchronisation
// operation, and a controller decides which one goes next. Explore enumerates
// all decisions depth-first up to a bound on deviations (preemptions, early
// timers, adverse environment answers).
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"unsafe"
)

// ---------------------------------------------------------------------------
// Passive mode: loop budget, used when no exploration is active.

var (
	active     atomic.Pointer[Sched]
	loopCount  int64
	loopBudget int64 = 1 << 62
	hung       int32
)

// HangError is what Loop panics with when the loop budget of a case is spent.
type HangError struct{}

func (HangError) Error() string { return "loop budget exhausted: the call does not terminate" }

// SetLoopBudget resets the loop counter and allows n more loop iterations.
func SetLoopBudget(n int64) {
	atomic.StoreInt64(&loopCount, 0)
	atomic.StoreInt32(&hung, 0)
	loopBudget = n
}

// Hung reports whether the budget was exhausted since SetLoopBudget, also when
// the code under test recovered from the panic.
func Hung() bool { return atomic.LoadInt32(&hung) != 0 }

// LoopsUsed is the number of loop iterations since SetLoopBudget.
func LoopsUsed() int64 { return atomic.LoadInt64(&loopCount) }

// Loop is called at the head of every loop iteration of instrumented code.
//
//go:norace
func Loop() {
	s := active.Load()
	if s == nil {
		loopCount++
		if loopCount > loopBudget {
			atomic.StoreInt32(&hung, 1)
			panic(HangError{})
		}
		return
	}
	s.loop()
}

// Charge counts a write of n bytes to the loop budget, so that a file can't be
// written for ever.
//
//go:norace
func Charge(n int64) {
	if active.Load() != nil {
		return
	}
	loopCount += 1000 + n/32
	if loopCount > loopBudget {
		atomic.StoreInt32(&hung, 1)
		panic(HangError{})
	}
}

// Active reports whether an exploration is running.
//
//go:norace
func Active() bool { return active.Load() != nil }

// ---------------------------------------------------------------------------
// Threads, objects, operations.

// Obj identifies a shared object for dependency tracking.
type Obj struct {
	h     uint64
	epoch uint64
	id    uint64
	race  [2]byte
}

func (o *Obj) R0() unsafe.Pointer { return unsafe.Pointer(&o.race[0]) }
func (o *Obj) R1() unsafe.Pointer { return unsafe.Pointer(&o.race[1]) }

// Op is one scheduling step.
type Op struct {
	Kind       string
	Obj        *Obj
	Reset      func()      // brings the object back to its initial state in a new execution
	Enabled    func() bool // nil: always
	Exec       func()      // run by the controller when the step is taken
	Deadline   int64       // virtual time at which Enabled must be looked at again (0: none)
	Productive bool        // changes something another thread can observe
	Immediate  bool        // not a scheduling point
	Read       bool        // leaves Obj as it was
	Weak       bool        // productive only outside a spin phase (lock traffic)
	Park       bool        // set by Exec: the thread waits until Unpark
	settle     bool
	exit       bool
	yieldAt    uint64
	spin       bool
	pure       bool // nothing but looping
}

type Thread struct {
	ID      int
	Name    string
	H       uint64
	wake    chan struct{}
	op      *Op
	parked  bool
	done    bool
	started bool
	killed  bool

	Res    int64 // results written by the controller, read by the thread
	ResAny interface{}
	ResOk  bool
	loops  int64 // loop iterations since the last productive step
	ops    int64 // steps in that span
	steps  int64
	daemon bool
	weak   bool // lock traffic since the last yield
	phase  bool // spinning: nothing productive since the last yield
}

type PanicInfo struct {
	Thread string
	Value  string
	Stack  string
}

// Decision is one recorded choice.
type Decision struct {
	N     int // number of alternatives
	Taken int // index taken
	Used  int // deviations used before this decision
	Costs []int
	Sig   uint64 // signature of the state the decision was taken in
}

type timer struct {
	at     int64
	seq    int64
	fire   func()
	active bool
	name   string
}

// Sched is one execution.
type Sched struct {
	cfg     *Config
	epoch   uint64
	threads []*Thread
	cur     *Thread
	races   int // reported by the race detector
	mail    chan *Op
	mailR   byte
	allR    byte
	now     int64
	timers  []*timer
	tseq    int64
	clockH  uint64

	prefix  []int
	pos     int
	dec     []Decision
	used    int // deviations used
	psigs   []uint64
	obs     []string
	obsH    uint64
	live    []int // scratch
	steps   int64
	prog    uint64 // productive steps so far
	lull    int    // rounds in which only spinning threads ran
	main    *Thread
	advs    int64
	chans   map[unsafe.Pointer]*chanState
	addrs   map[unsafe.Pointer]*Obj
	visited map[uint64]uint8
	trace   []string

	quiet    bool // take the first choice, without recording a decision
	killing  bool
	killed   chan struct{}
	Outcome  string // "done", "deadlock", "livelock", "horizon", "panic", "pruned"
	Panic    *PanicInfo
	Blocked  []string
	diverged string
}

const clockID = -1

var epochCounter uint64

//go:norace
func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a *= 0xff51afd7ed558ccd
	a ^= a >> 32
	return a
}

//go:norace
func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// touch makes o belong to this execution.
func (s *Sched) touch(t *Thread, o *Obj, reset func()) {
	if o.epoch != s.epoch {
		o.epoch = s.epoch
		o.id = mix(t.H, 77)
		o.h = o.id
		if reset != nil {
			reset()
		}
	}
}

// Touch makes o belong to this execution; for use in Exec.
func Touch(o *Obj) {
	s := active.Load()
	s.touch(s.cur, o, nil)
}

// Cur is the running thread.
//
//go:norace
func Cur() *Thread {
	s := active.Load()
	if s == nil {
		return nil
	}
	return s.cur
}

// Do performs op for the running thread and returns when it has been executed.
//
//go:norace
func Do(op *Op) *Thread {
	s := active.Load()
	t := s.cur
	if s.killing {
		t = s.curKilled()
		return t
	}
	RaceRelease(unsafe.Pointer(&s.mailR))
	raceDisable()
	t.op = op
	s.mail <- op
	<-t.wake
	raceEnable()
	if t.killed {
		runtime.Goexit()
	}
	return t
}

//go:norace
func (s *Sched) curKilled() *Thread { return s.cur }

// Killing reports that the execution is over and threads are being unwound.
//
//go:norace
func Killing() bool {
	s := active.Load()
	return s != nil && s.killing
}

//go:norace
func (s *Sched) loop() {
	t := s.cur
	if s.killing {
		// unwinding: a deferred function that loops must not hang the explorer
		t.loops++
		if t.loops > 1000000 {
			runtime.Goexit()
		}
		return
	}
	t.loops++
	limit := int64(1000000)
	if t.ops > 0 {
		limit = 6
	}
	if t.loops >= limit {
		at := s.prog
		Do(&Op{Kind: "spin", spin: true, yieldAt: at, pure: limit > 6})
		t.loops = 0
		t.ops = 0
	}
}

// Step is a scheduling point on o that waits for enabled.
//
//go:norace
func Step(o *Obj, kind string, productive bool, enabled func() bool) {
	if !Active() {
		return
	}
	Do(&Op{Kind: kind, Obj: o, Enabled: enabled, Productive: productive})
}

// StepReset is Step with a reset function for the object's state.
//
//go:norace
func StepReset(o *Obj, kind string, productive bool, reset func(), enabled func() bool, deadline int64) {
	if !Active() {
		return
	}
	Do(&Op{Kind: kind, Obj: o, Enabled: enabled, Productive: productive, Reset: reset, Deadline: deadline})
}

// ---------------------------------------------------------------------------
// Spawning.

// Go starts f as a new thread (or a plain goroutine in passive mode).
//
//go:norace
func Go(f func()) { goNamed("", false, f) }

// GoNamed is Go with a name for traces.
func GoNamed(name string, f func()) { goNamed(name, false, f) }

//go:norace
func goNamed(name string, daemon bool, f func()) {
	s := active.Load()
	if s == nil {
		go f()
		return
	}
	if s.killing {
		return
	}
	t := &Thread{wake: make(chan struct{}, 1), daemon: daemon, Name: name}
	t.op = &Op{Kind: "start"}
	Do(&Op{Kind: "go", Immediate: true, Productive: true, Exec: func() { s.addThread(t) }})
	go s.body(t, f)
}

func (s *Sched) addThread(t *Thread) {
	t.ID = len(s.threads)
	if t.Name == "" {
		t.Name = fmt.Sprintf("g%d", t.ID)
	}
	if s.cur != nil {
		t.H = mix(s.cur.H, uint64(1000+t.ID))
	} else {
		t.H = mix(12345, uint64(t.ID))
	}
	s.threads = append(s.threads, t)
}

//go:norace
func (s *Sched) body(t *Thread, f func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	if t.killed {
		s.exited(t)
		return
	}
	defer s.finish(t)
	f()
}

//go:norace
func (s *Sched) exited(t *Thread) {
	raceDisable()
	s.killed <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sched) finish(t *Thread) {
	if r := recover(); r != nil {
		if !s.killing {
			st := string(debug.Stack())
			s.Panic = &PanicInfo{Thread: t.Name, Value: fmt.Sprint(r), Stack: st}
		}
	}
	if s.killing {
		s.exited(t)
		return
	}
	RaceRelease(unsafe.Pointer(&s.mailR))
	raceDisable()
	s.mail <- &Op{exit: true}
	raceEnable()
}

// ---------------------------------------------------------------------------
// Waiting helpers for harnesses.

// Settle waits until no other thread can run without time passing. For the
// race detector everything done so far happens before its return.
//
//go:norace
func Settle() {
	s := active.Load()
	if s == nil || s.killing {
		return
	}
	Do(&Op{Kind: "settle", settle: true, Exec: func() { RaceRelease(unsafe.Pointer(&s.allR)) }})
	RaceAcquire(unsafe.Pointer(&s.allR))
}

// Await waits until cond holds (cond reads harness state only).
func Await(kind string, cond func() bool) { Do(&Op{Kind: kind, Enabled: cond}) }

// Choose is a decision of the environment with n answers; the answers after
// the first cost one deviation each if costly.
//
//go:norace
func Choose(n int, costly bool, what string) int {
	if n <= 1 || !Active() {
		return 0
	}
	s := active.Load()
	if s.killing {
		return 0
	}
	t := Do(&Op{Kind: "choose", Immediate: true, Exec: func() {
		costs := make([]int, n)
		if costly {
			for i := 1; i < n; i++ {
				costs[i] = 1
			}
		}
		k := s.decide(costs, func(i int) string { return fmt.Sprintf("%s=%d", what, i) })
		s.cur.Res = int64(k)
		s.cur.H = mix(s.cur.H, uint64(900+k))
	}})
	return int(t.Res)
}

// Quiet turns branching off (a set-up phase takes its default schedule) or on
// again.
func Quiet(on bool) {
	s := active.Load()
	if s == nil || s.killing {
		return
	}
	Do(&Op{Kind: "quiet", Immediate: true, Exec: func() { s.quiet = on }})
}

// ---------------------------------------------------------------------------
// Clock.

// Now is the virtual time in nanoseconds since the start of the execution.
//
//go:norace
func Now() int64 {
	s := active.Load()
	if s == nil {
		return 0
	}
	return s.now
}

// NoteClock makes the running thread depend on the current time.
//
//go:norace
func NoteClock() {
	s := active.Load()
	if s == nil || s.killing {
		return
	}
	s.cur.H = mix(s.cur.H, uint64(s.now)+5)
}

// TimerHandle is a scheduled event.
type TimerHandle struct{ t *timer }

// AddTimer schedules fire (run by the controller) d from now. An Immediate step.
//
//go:norace
func AddTimer(d int64, name string, fire func()) *TimerHandle {
	s := active.Load()
	if s.killing {
		return &TimerHandle{&timer{}}
	}
	if d < 0 {
		d = 0
	}
	s.tseq++
	tm := &timer{at: s.now + d, seq: s.tseq, fire: fire, active: true, name: name}
	h := &TimerHandle{tm}
	NoteClock()
	Do(&Op{Kind: "timer", Immediate: true, Exec: func() { s.timers = append(s.timers, tm) }})
	return h
}

// AddTimerC is AddTimer for use inside controller callbacks (tickers).
func AddTimerC(d int64, name string, fire func()) *TimerHandle {
	s := active.Load()
	s.tseq++
	tm := &timer{at: s.now + d, seq: s.tseq, fire: fire, active: true, name: name}
	s.timers = append(s.timers, tm)
	return &TimerHandle{tm}
}

// Stop cancels the timer and reports whether it was pending.
//
//go:norace
func (h *TimerHandle) Stop() bool {
	s := active.Load()
	if s == nil || s.killing || h == nil || h.t == nil {
		return false
	}
	was := h.t.active
	tm := h.t
	Do(&Op{Kind: "tstop", Immediate: true, Exec: func() { tm.active = false }})
	return was
}

// StopC is Stop for controller callbacks.
func (h *TimerHandle) StopC() { h.t.active = false }

// SpawnC starts a thread from a controller callback (time.AfterFunc).
func SpawnC(name string, f func()) {
	s := active.Load()
	t := &Thread{wake: make(chan struct{}, 1), Name: name}
	t.op = &Op{Kind: "start"}
	save := s.cur
	s.cur = nil
	s.addThread(t)
	s.cur = save
	go s.body(t, f)
}

// SleepNS blocks the running thread for d nanoseconds of virtual time.
//
//go:norace
func SleepNS(d int64) {
	s := active.Load()
	if s == nil || s.killing {
		return
	}
	if d <= 0 {
		Do(&Op{Kind: "sleep0"})
		return
	}
	at := s.now + d
	NoteClock()
	Do(&Op{Kind: "sleep", Deadline: at, Productive: true, Enabled: func() bool { return s.now >= at }})
	NoteClock()
}

func (s *Sched) nextTime() (int64, bool) {
	best := int64(-1)
	for _, tm := range s.timers {
		if tm.active && (best < 0 || tm.at < best) {
			best = tm.at
		}
	}
	for _, t := range s.threads {
		if t.done || t.op == nil || t.parked {
			continue
		}
		if d := t.op.Deadline; d > s.now && (best < 0 || d < best) {
			best = d
		}
	}
	if best < 0 {
		return 0, false
	}
	if best < s.now {
		best = s.now
	}
	return best, true
}

func (s *Sched) advance() {
	at, ok := s.nextTime()
	if !ok {
		return
	}
	s.now = at
	s.advs++
	s.prog++
	s.clockH = mix(s.clockH, uint64(at))
	if s.cfg.Trace {
		s.trace = append(s.trace, fmt.Sprintf("clock -> %.3fs", float64(at)/1e9))
	}
	// fire due timers in order
	for {
		var best *timer
		for _, tm := range s.timers {
			if tm.active && tm.at <= s.now && (best == nil || tm.at < best.at || (tm.at == best.at && tm.seq < best.seq)) {
				best = tm
			}
		}
		if best == nil {
			break
		}
		best.active = false
		s.clockH = mix(s.clockH, uint64(best.seq))
		best.fire()
	}
	live := s.timers[:0]
	for _, tm := range s.timers {
		if tm.active {
			live = append(live, tm)
		}
	}
	s.timers = live
}

// ---------------------------------------------------------------------------
// Atomics: keyed by address.

// AtomicStep is the scheduling point in front of an atomic operation on p.
//
//go:norace
func AtomicStep(p unsafe.Pointer, read bool) {
	s := active.Load()
	if s == nil || s.killing {
		return
	}
	op := &Op{Kind: "atomic", Read: read}
	op.Exec = func() {
		o := s.addrs[p]
		if o == nil {
			o = &Obj{}
			s.addrs[p] = o
			s.touch(s.cur, o, nil)
		}
		op.Obj = o
	}
	Do(op)
}

// Progress notes that the running thread changed something others may wait for.
//
//go:norace
func Progress() {
	s := active.Load()
	if s == nil || s.killing {
		return
	}
	s.prog++
	s.lull = 0
	t := s.cur
	t.phase = false
	t.loops, t.ops = 0, 0
}
