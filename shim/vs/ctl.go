package vs

import (
	"fmt"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Config describes one exploration.
type Config struct {
	Name       string
	Bound      int   // deviations (preemptions, early clock, costly choices)
	MaxSteps   int64 // per execution; 0: 20000
	MaxTime    int64 // virtual nanoseconds; 0: 1 hour
	ClockDev   bool  // the clock may advance while threads can run (cost 1)
	SelectCost bool  // picking another ready select case costs a deviation
	Delay      bool  // every choice but the first costs a deviation (delay bounding), select cases too
	NoCache    bool
	NoSpin     bool // a thread that keeps going round while nobody else can run is a livelock, even if time could pass
	Trace      bool
	Deadline   time.Time
	MaxExecs   int64
}

// Exec is a finished execution, as seen by the oracle.
type Exec struct {
	Outcome string
	Panic   *PanicInfo
	Blocked []string
	Obs     []string
	Now     int64
	Choices []int
	Steps   int64
	Trace   []string
	Races   int
}

// Result summarises an exploration.
type Result struct {
	Execs, Pruned, Steps, States, Decisions int64
	Bound                                   int  // highest bound fully explored, -1: none
	Complete                                bool // everything up to Config.Bound
	Unbounded                               bool // nothing was cut off by the bound: the exploration covers every schedule
	Diverged                                int64
	MaxSteps                                int64
	MaxThreads                              int
	Outcomes                                map[string]int64
	Err                                     error
	Fail                                    *Exec
}

// Use keeps the import of this package used.
var Use = 0

func (s *Sched) key() uint64 {
	k := mix(s.clockH, s.obsH)
	for _, t := range s.threads {
		st := uint64(1)
		if t.done {
			st = 3
		} else if t.parked {
			st = 5
		}
		k += mix(t.H, st)
	}
	if s.cur != nil {
		k = mix(k, s.cur.H)
	}
	return k
}

func (s *Sched) decide(costs []int, what func(int) string) int {
	if len(costs) <= 1 || s.quiet {
		return 0
	}
	k := 0
	sig := s.key() ^ uint64(len(costs))
	if s.pos < len(s.prefix) {
		k = s.prefix[s.pos]
		if k >= len(costs) || (s.pos < len(s.psigs) && s.psigs[s.pos] != sig) {
			if s.diverged == "" {
				s.diverged = fmt.Sprintf("decision %d: %d alternatives, prefix says %d", s.pos, len(costs), k)
			}
			if k >= len(costs) {
				k = 0
			}
		}
	}
	s.pos++
	s.dec = append(s.dec, Decision{N: len(costs), Taken: k, Used: s.used, Costs: costs, Sig: sig})
	s.used += costs[k]
	if s.cfg.Trace {
		s.trace = append(s.trace, fmt.Sprintf("  choice %d of %d: %s", k, len(costs), what(k)))
	}
	return k
}

func (s *Sched) enabled(t *Thread) bool {
	if t.done || t.parked || t.op == nil {
		return false
	}
	if t.op.settle {
		return false
	}
	if t.op.spin {
		return s.prog > t.op.yieldAt
	}
	if t.op.Enabled != nil {
		return t.op.Enabled()
	}
	return true
}

var zeroCosts [1024]int
var preCosts [1024]int

func init() {
	for i := 1; i < len(preCosts); i++ {
		preCosts[i] = 1
	}
}

// pick chooses the next thread; nil ends the execution (s.Outcome is set).
func (s *Sched) pick() *Thread {
	for {
		live := s.live[:0]
		curEnabled := false
		for _, t := range s.threads {
			if s.enabled(t) {
				if t == s.cur && !t.op.spin && t.op.Kind != "sleep0" {
					curEnabled = true
				} else {
					live = append(live, t.ID)
				}
			}
		}
		s.live = live
		if !curEnabled && len(live) == 0 {
			// only spinning or blocked threads are left
			spinners := false
			rounds := 2
			for _, t := range s.threads {
				if !t.done && !t.parked && t.op != nil && t.op.spin {
					spinners = true
					if t.weak {
						// a loop that takes and releases locks may be going somewhere
						rounds = 400
					}
					if s.cfg.NoSpin {
						// nor has one that is only long to be taken for endless
						n := 20000
						if t.op.pure {
							n = 60
						}
						if rounds < n {
							rounds = n
						}
					}
				}
			}
			if spinners && s.lull < rounds {
				s.lull++
				s.prog++
				continue
			}
			if spinners && s.cfg.NoSpin {
				s.Outcome = "livelock"
				s.describeBlocked()
				return nil
			}
			for _, t := range s.threads {
				if !t.done && !t.parked && t.op != nil && t.op.settle {
					s.lull = 0
					return t
				}
			}
			if at, ok := s.nextTime(); ok {
				if at > s.cfg.MaxTime {
					s.Outcome = "horizon"
					s.describeBlocked()
					return nil
				}
				s.lull = 0
				s.advance()
				continue
			}
			if spinners {
				s.Outcome = "livelock"
			} else {
				s.Outcome = "deadlock"
			}
			s.describeBlocked()
			return nil
		}
		n := len(live)
		if curEnabled {
			n++
		}
		clock := false
		if s.cfg.ClockDev {
			if at, ok := s.nextTime(); ok && at <= s.cfg.MaxTime {
				clock = true
			}
		}
		total := n
		if clock {
			total++
		}
		if total == 1 || s.quiet {
			if curEnabled {
				return s.cur
			}
			return s.threads[live[0]]
		}
		// a decision: prune states already explored with at most as many deviations
		if s.visited != nil && s.pos >= len(s.prefix) {
			k := s.key()
			if curEnabled {
				k ^= 0x55
			}
			if u, ok := s.visited[k]; ok && int(u) <= s.used {
				s.Outcome = "pruned"
				return nil
			}
			s.visited[k] = uint8(s.used)
		}
		var costs []int
		if curEnabled || s.cfg.Delay {
			costs = preCosts[:total]
		} else {
			costs = zeroCosts[:total]
			if clock {
				costs = make([]int, total)
				costs[total-1] = 1
			}
		}
		k := s.decide(costs, func(i int) string {
			if clock && i == total-1 {
				return "clock"
			}
			if curEnabled {
				if i == 0 {
					return s.cur.Name
				}
				i--
			}
			return s.threads[live[i]].Name
		})
		if clock && k == total-1 {
			s.advance()
			continue
		}
		if curEnabled {
			if k == 0 {
				return s.cur
			}
			k--
		}
		return s.threads[live[k]]
	}
}

func (s *Sched) describeBlocked() {
	for _, t := range s.threads {
		if !t.done && t.op != nil {
			s.Blocked = append(s.Blocked, t.Name+":"+t.op.Kind)
		}
	}
}

// perform executes t's pending operation in the controller. It reports
// whether the thread goes on.
func (s *Sched) perform(t *Thread) bool {
	op := t.op
	s.cur = t
	h0 := t.H
	if op.Kind == "wake" {
		// results were stored by the thread that completed the operation
	} else if op.Exec != nil {
		op.Exec()
	}
	t.H = mix(t.H, uint64(len(op.Kind))+h0)
	if op.Obj != nil {
		t.H = mix(t.H, op.Obj.h)
		if !op.Read {
			op.Obj.h = mix(t.H, op.Obj.id)
		}
	}
	if op.spin {
		t.phase = true
		t.weak = false
	} else if op.Productive && !op.Weak {
		s.prog++
		s.lull = 0
		t.phase = false
		t.weak = false
		t.loops, t.ops = 0, 0
	} else if op.Productive {
		if !t.phase {
			s.prog++
		}
		t.weak = true
		t.ops++
	} else {
		t.ops++
	}
	if s.cfg.Trace {
		s.trace = append(s.trace, fmt.Sprintf("%s: %s", t.Name, op.Kind))
	}
	if op.Park {
		t.parked = true
		op.Park = false
		return false
	}
	return true
}

// resume lets t run until its next scheduling point.
func (s *Sched) resume(t *Thread) {
	for {
		s.steps++
		t.steps++
		t.op = nil
		s.cur = t
		raceDisable()
		t.wake <- struct{}{}
		op := <-s.mail
		raceEnable()
		RaceAcquire(unsafe.Pointer(&s.mailR))
		if op.exit {
			t.done = true
			t.op = nil
			s.prog++
			s.lull = 0
			return
		}
		t.op = op
		if op.Obj != nil {
			s.touch(t, op.Obj, op.Reset)
		}
		if !op.Immediate {
			return
		}
		if !s.perform(t) {
			return
		}
	}
}

func (s *Sched) run(body func()) {
	r0 := RaceErrors()
	main := &Thread{wake: make(chan struct{}, 1), Name: "main"}
	main.op = &Op{Kind: "start"}
	s.addThread(main)
	s.main = main
	go s.body(main, body)
	for {
		if main.done {
			s.Outcome = "done"
			break
		}
		if s.steps > s.cfg.MaxSteps {
			s.Outcome = "horizon"
			s.describeBlocked()
			break
		}
		t := s.pick()
		if t == nil {
			break
		}
		if !s.perform(t) {
			continue
		}
		s.resume(t)
		if s.Panic != nil {
			s.Outcome = "panic"
			break
		}
	}
	// What the deferred calls of killed threads do is not part of the execution
	s.races = RaceErrors() - r0
	s.unwind()
}

func (s *Sched) unwind() {
	s.killing = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.done {
			continue
		}
		s.cur = t
		t.killed = true
		t.loops = 0
		raceDisable()
		t.wake <- struct{}{}
		<-s.killed
		raceEnable()
	}
}

func newSched(cfg *Config) *Sched {
	epochCounter++
	return &Sched{
		cfg:    cfg,
		epoch:  epochCounter,
		mail:   make(chan *Op),
		killed: make(chan struct{}),
		chans:  map[unsafe.Pointer]*chanState{},
		addrs:  map[unsafe.Pointer]*Obj{},
	}
}

func (c *Config) norm() {
	if c.MaxSteps == 0 {
		c.MaxSteps = 20000
	}
	if c.MaxTime == 0 {
		c.MaxTime = int64(time.Hour)
	}
	c.SelectCost = c.SelectCost || c.Delay
}

func runOne(cfg *Config, prefix []int, sigs []uint64, visited map[uint64]uint8, body func()) *Sched {
	s := newSched(cfg)
	s.prefix, s.psigs, s.visited = prefix, sigs, visited
	active.Store(s)
	defer active.Store(nil)
	s.run(body)
	return s
}

func (s *Sched) exec(races int) *Exec {
	x := &Exec{Outcome: s.Outcome, Panic: s.Panic, Blocked: s.Blocked, Obs: s.obs, Now: s.now, Steps: s.steps, Trace: s.trace, Races: races}
	for _, d := range s.dec {
		x.Choices = append(x.Choices, d.Taken)
	}
	return x
}

// Replay runs one schedule with tracing.
func Replay(cfg Config, choices []int, body func()) *Exec {
	cfg.norm()
	cfg.Trace = true
	s := runOne(&cfg, choices, nil, nil, body)
	return s.exec(s.races)
}

// DefaultCheck accepts only executions that ended and raced nowhere.
func DefaultCheck(x *Exec) error {
	switch x.Outcome {
	case "done":
	case "panic":
		return fmt.Errorf("panic in %s: %s\n%s", x.Panic.Thread, x.Panic.Value, trimStack(x.Panic.Stack))
	default:
		return fmt.Errorf("%s at t=%.3fs; waiting: %s", x.Outcome, float64(x.Now)/1e9, strings.Join(x.Blocked, ", "))
	}
	if x.Races > 0 {
		return fmt.Errorf("data race (see the race detector's report)")
	}
	return nil
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/zv/") || strings.Contains(l, "runtime/") || strings.Contains(l, "zvs.") {
			continue
		}
		out = append(out, l)
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Explore enumerates the schedules of body. check is called after every
// execution that was not pruned; its error stops the exploration.
func Explore(cfg Config, body func(), check func(*Exec) error) Result {
	cfg.norm()
	res := Result{Bound: -1, Outcomes: map[string]int64{}}
	for b := 0; b <= cfg.Bound; b++ {
		var visited map[uint64]uint8
		if !cfg.NoCache {
			visited = map[uint64]uint8{}
		}
		var prefix []int
		var sigs []uint64
		cut := false
		for {
			if (!cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline)) || (cfg.MaxExecs > 0 && res.Execs >= cfg.MaxExecs) {
				res.States += int64(len(visited))
				return res
			}
			s := runOne(&cfg, prefix, sigs, visited, body)
			races := s.races
			res.Execs++
			res.Steps += s.steps
			res.Decisions += int64(len(s.dec))
			if s.steps > res.MaxSteps {
				res.MaxSteps = s.steps
			}
			if len(s.threads) > res.MaxThreads {
				res.MaxThreads = len(s.threads)
			}
			if s.diverged != "" {
				res.Diverged++
			}
			if s.Outcome == "pruned" && races == 0 {
				res.Pruned++
			} else {
				x := s.exec(races)
				if x.Outcome == "pruned" {
					x.Outcome = "done"
				}
				key := x.Outcome
				if len(x.Obs) > 0 {
					key += " " + strings.Join(x.Obs, ";")
				}
				if len(res.Outcomes) < 2000 {
					res.Outcomes[key]++
				}
				if err := check(x); err != nil {
					res.Err, res.Fail = err, x
					res.States += int64(len(visited))
					return res
				}
			}
			// next: deepest decision with an alternative within the bound
			i := len(s.dec) - 1
			next := -1
			for ; i >= 0; i-- {
				d := s.dec[i]
				for k := d.Taken + 1; k < d.N; k++ {
					if d.Used+d.Costs[k] <= b {
						next = k
						break
					}
					cut = true
				}
				if next >= 0 {
					break
				}
			}
			if i < 0 {
				break
			}
			np := make([]int, i+1)
			ns := make([]uint64, i+1)
			for j := 0; j < i; j++ {
				np[j] = s.dec[j].Taken
				ns[j] = s.dec[j].Sig
			}
			np[i] = next
			ns[i] = s.dec[i].Sig
			prefix, sigs = np, ns
		}
		res.Bound = b
		res.States += int64(len(visited))
		if !cut {
			res.Unbounded = true
			break
		}
	}
	res.Complete = true
	return res
}

// Observe adds to the observed outcome of the execution.
//
//go:norace
func Observe(format string, args ...interface{}) {
	s := active.Load()
	if s == nil || s.killing {
		return
	}
	o := fmt.Sprintf(format, args...)
	s.note(o)
}

//go:norace
func (s *Sched) note(o string) {
	s.obs = append(s.obs, o)
	s.obsH = mix(s.obsH, hashStr(o))
}

// Live returns the names and pending operations of the threads that have not
// ended, except the calling one.
//
//go:norace
func Live() []string {
	s := active.Load()
	var out []string
	for _, t := range s.threads {
		if !t.done && t != s.cur && t.op != nil {
			out = append(out, t.Name+":"+t.op.Kind)
		}
	}
	sort.Strings(out)
	return out
}

// Work is how many steps have been taken so far, and how many times the clock
// has moved on.
//
//go:norace
func Work() (steps, wakes int64) {
	s := active.Load()
	return s.steps, s.advs
}
