// Package run drives a property check: the enumeration is cut into named
// blocks, worker processes run blocks and report, a parent collects the
// results, confirms violations by running them again, and writes the evidence.
package run

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"gotor/zv/vlog"
	"gotor/zv/vos"
	"gotor/zv/vs"
)

// Spec describes a check.
type Spec struct {
	ID    string
	Level string // model_checking | exploration | fault_enumeration
	Rule  string
	Note  []string // assumptions
	// Blocks lists the work; the list must be the same in every process.
	Blocks func(tier string) []Block
	// Budget is the loop budget of a passive case (default 20M iterations).
	Budget int64
	// MemMB limits a worker's address space (default 6144; ignored under -race).
	MemMB int
	// Fresh gives every block a process of its own (the program's options are
	// read once per process).
	Fresh bool
}

type Block struct {
	Name string
	Fn   func(*B)
}

// Stats are added up over blocks.
type Stats struct {
	Cases       int64            `json:"cases"`
	Distinct    int64            `json:"distinct"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Execs       int64            `json:"execs"`
	Pruned      int64            `json:"pruned"`
	Diverged    int64            `json:"diverged"`
	Incomplete  int64            `json:"incomplete"`
	Counts      map[string]int64 `json:"counts,omitempty"`
	Outcomes    int64            `json:"outcomes"`
	MinBound    int              `json:"min_bound"`
	Scenarios   int64            `json:"scenarios"`
	Unbounded   int64            `json:"unbounded"`
	MaxSteps    int64            `json:"max_steps"`
}

// Violation identifies one failing case.
type Violation struct {
	Property string   `json:"property"`
	Block    string   `json:"block"`
	Index    int64    `json:"index"`
	Desc     string   `json:"desc"`
	Err      string   `json:"error"`
	Choices  []int    `json:"choices,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Race     bool     `json:"race,omitempty"`
	Tier     string   `json:"tier"`
	Flaky    bool     `json:"flaky,omitempty"`
}

type report struct {
	Block   int          `json:"block"`
	Stats   Stats        `json:"stats"`
	Viols   []*Violation `json:"viols,omitempty"`
	Samples []string     `json:"samples,omitempty"`
	Secs    float64      `json:"secs"`
	Skipped bool         `json:"skipped,omitempty"`
	Known   []string     `json:"known,omitempty"`
}

// B is the context of a running block.
type B struct {
	Tier  string
	Name  string
	spec  *Spec
	rep   report
	idx   int64
	only  int64 // run only this case (-1: all)
	trace *os.File
	dead  time.Time
	stop  bool
	known map[string]string
	rpl   []int // choices to replay
}

var caseSeq int64 // heartbeat

// Thorough reports the thorough tier.
func (b *B) Thorough() bool { return b.Tier == "thorough" }

// Expired reports that the time is up; enumeration loops should end.
func (b *B) Expired() bool {
	if b.stop {
		return true
	}
	if b.idx&63 == 0 && time.Now().After(b.dead) {
		b.stop = true
		b.rep.Stats.Incomplete++
	}
	return b.stop
}

// Stopped reports that the block has found its violation.
func (b *B) Stopped() bool { return b.stop }

func (b *B) Count(name string, n int64) {
	if b.rep.Stats.Counts == nil {
		b.rep.Stats.Counts = map[string]int64{}
	}
	b.rep.Stats.Counts[name] += n
}

func (b *B) States(n int64)      { b.rep.Stats.States += n }
func (b *B) Transitions(n int64) { b.rep.Stats.Transitions += n }
func (b *B) Distinct(n int64)    { b.rep.Stats.Distinct += n }
func (b *B) Traces(n int64)      { b.rep.Stats.Traces += n }

func (b *B) Sample(format string, args ...interface{}) {
	if len(b.rep.Samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		b.rep.Samples = append(b.rep.Samples, s)
	}
}

// Guard runs f and turns panics and exhausted loop budgets into errors.
func Guard(budget int64, f func() error) (err error) {
	vs.SetLoopBudget(budget)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vs.HangError); ok {
				err = fmt.Errorf("does not terminate (loop budget of %d iterations spent)", budget)
			} else if fe, ok := r.(vlog.FatalError); ok {
				err = fmt.Errorf("the process would end: %v", fe)
			} else {
				err = fmt.Errorf("panic: %v\n%s", r, trim(string(debug.Stack())))
			}
			return
		}
		if vs.Hung() {
			err = fmt.Errorf("does not terminate (loop budget of %d iterations spent)", budget)
		}
	}()
	return f()
}

func trim(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "gotor/") || strings.Contains(l, "/inst/") {
			if !strings.Contains(l, "/zv/") {
				out = append(out, l)
			}
		}
		if len(out) >= 10 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Mark announces the case about to run (crash attribution) and reports
// whether it should run.
func (b *B) begin(desc func() string) bool {
	b.idx++
	if b.only >= 0 && b.idx != b.only {
		return false
	}
	if b.stop {
		return false
	}
	atomic.AddInt64(&caseSeq, 1)
	if b.trace != nil {
		d := desc()
		_, _ = b.trace.WriteAt([]byte(fmt.Sprintf("%-20d %-4000.4000s\n", b.idx, d)), 0)
	}
	return true
}

// Case runs one case in passive mode. f must build everything it uses.
func (b *B) Case(desc func() string, f func() error) {
	if !b.begin(desc) {
		return
	}
	b.rep.Stats.Cases++
	if len(b.rep.Samples) == 0 && b.only < 0 {
		b.Sample("%s", desc())
	}
	budget := b.spec.Budget
	if budget == 0 {
		budget = 20_000_000
	}
	vos.Escapes = vos.Escapes[:0]
	err := Guard(budget, f)
	if err == nil && len(vos.Escapes) > 0 {
		err = fmt.Errorf("file system change outside the working directory: %v", vos.Escapes)
	}
	if err == nil {
		return
	}
	again, runs := 0, 5
	if vs.Hung() {
		runs = 2 // takes its time
	}
	for i := 0; i < runs; i++ {
		atomic.AddInt64(&caseSeq, 1)
		vos.Escapes = vos.Escapes[:0]
		e := Guard(budget, f)
		if e != nil || len(vos.Escapes) > 0 {
			again++
		}
	}
	v := &Violation{Property: b.spec.ID, Block: b.Name, Index: b.idx, Desc: clip(desc(), 4000), Err: clip(err.Error(), 6000), Tier: b.Tier}
	v.Flaky = again < 2
	b.violate(v)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (b *B) violate(v *Violation) {
	if k := b.knownKey(v); k != "" {
		for _, o := range b.rep.Known {
			if o == k {
				return
			}
		}
		b.rep.Known = append(b.rep.Known, k)
		return
	}
	if v.Flaky {
		b.Count("not_reproduced", 1)
		fmt.Fprintf(os.Stderr, "not reproduced on re-run: %s: %s: %s\n", v.Block, v.Desc, v.Err)
		return
	}
	b.rep.Viols = append(b.rep.Viols, v)
	b.stop = true
}

// knownKey finds the known finding whose key is contained in the violation.
func (b *B) knownKey(v *Violation) string {
	for k, what := range b.known {
		if k == v.Block+"|"+v.Desc {
			return what
		}
	}
	return ""
}

// Explore enumerates the schedules of body. oracle judges each complete
// execution; nil: it must end without panic, deadlock or race.
func (b *B) Explore(desc string, cfg vs.Config, body func(), oracle func(*vs.Exec) error) {
	d := func() string { return desc }
	once := cfg.MaxExecs == 1
	if !b.begin(d) {
		return
	}
	if oracle == nil {
		oracle = vs.DefaultCheck
	}
	if cfg.Deadline.IsZero() {
		cfg.Deadline = b.dead
	}
	if b.rpl != nil {
		x := vs.Replay(cfg, b.rpl, body)
		if err := oracle(x); err != nil {
			b.rep.Viols = append(b.rep.Viols, &Violation{Property: b.spec.ID, Block: b.Name, Index: b.idx, Desc: desc, Err: err.Error(), Choices: b.rpl, Tier: b.Tier, Trace: x.Trace})
		}
		return
	}
	res := vs.Explore(cfg, body, func(x *vs.Exec) error {
		atomic.AddInt64(&caseSeq, 1)
		return oracle(x)
	})
	st := &b.rep.Stats
	st.Cases += res.Execs
	st.Execs += res.Execs
	st.Pruned += res.Pruned
	st.States += res.States
	st.Transitions += res.Steps
	st.Traces += res.Execs
	st.Distinct += res.Execs - res.Pruned
	st.Diverged += res.Diverged
	st.Outcomes += int64(len(res.Outcomes))
	if !once {
		st.Scenarios++
	}
	if res.Unbounded && !once {
		st.Unbounded++
	}
	if res.MaxSteps > st.MaxSteps {
		st.MaxSteps = res.MaxSteps
	}
	if res.Err == nil && once {
		b.Count("single_schedule_cases", 1)
		if len(b.rep.Samples) == 0 {
			b.Sample("%s", desc)
		}
		if res.Pruned > 0 {
			st.Incomplete++
		}
		return
	}
	if res.Err == nil {
		if !res.Complete || res.Diverged > 0 {
			st.Incomplete++
			b.Count("incomplete: "+b.Name+"/"+desc, 1)
		}
		bd := res.Bound
		if res.Unbounded {
			bd = 99
		}
		if st.Scenarios == 1 || bd < st.MinBound {
			st.MinBound = bd
		}
		var oc []string
		for k, n := range res.Outcomes {
			oc = append(oc, fmt.Sprintf("%s x%d", clip(k, 120), n))
		}
		sort.Strings(oc)
		if len(oc) > 6 {
			oc = append(oc[:6], fmt.Sprintf("... %d outcomes", len(res.Outcomes)))
		}
		b.Sample("%s: %d executions, %d states, bound %d, outcomes: %s", desc, res.Execs, res.States, res.Bound, strings.Join(oc, " | "))
		return
	}
	v := &Violation{Property: b.spec.ID, Block: b.Name, Index: b.idx, Desc: desc, Err: clip(res.Err.Error(), 6000), Choices: res.Fail.Choices, Tier: b.Tier, Race: res.Fail.Races > 0}
	if v.Choices == nil {
		v.Choices = []int{}
	}
	again := 0
	if v.Race {
		again = 5 // the detector reports each pair once per process; the parent confirms in a fresh one
	} else {
		for i := 0; i < 5; i++ {
			x := vs.Replay(cfg, res.Fail.Choices, body)
			if oracle(x) != nil {
				again++
			}
			v.Trace = x.Trace
		}
	}
	v.Flaky = again < 5
	if len(v.Trace) > 400 {
		v.Trace = append(v.Trace[:400], "...")
	}
	b.violate(v)
}

// Once runs body under one fair schedule only, for enumerations of inputs.
func (b *B) Once(desc string, cfg vs.Config, body func(), oracle func(*vs.Exec) error) {
	cfg.MaxExecs = 1
	b.Explore(desc, cfg, body, oracle)
}

// Scratch is a fresh empty directory for this process.
var Scratch string

// Main runs the check.
func Main(spec Spec) {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if len(os.Args) > 1 && os.Args[1] == "--child" {
		child(&spec, tier)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "--replay" {
		replay(&spec, os.Args[2])
		return
	}
	os.Exit(parent(&spec, tier))
}

func deadline() time.Time {
	if s := os.Getenv("VH_DEADLINE"); s != "" {
		n, _ := strconv.ParseInt(s, 10, 64)
		return time.Unix(n, 0)
	}
	return time.Now().Add(time.Hour)
}

func loadKnown(spec *Spec) map[string]string {
	out := map[string]string{}
	f, err := os.ReadFile(os.Getenv("VH_KNOWN"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(f), "\n") {
		// finding: property=<id> key=<block|desc> what=<text>
		if !strings.HasPrefix(l, "finding: property="+spec.ID+" ") {
			continue
		}
		k := strings.Index(l, " key=")
		w := strings.Index(l, " what=")
		if k < 0 || w < k {
			continue
		}
		out[l[k+5:w]] = l[w+6:]
	}
	return out
}

func child(spec *Spec, tier string) {
	// processes that the harness starts must not keep our pipes open
	syscall.CloseOnExec(3)
	syscall.CloseOnExec(4)
	if !vs.RaceEnabled {
		runtime.GOMAXPROCS(2)
		mb := spec.MemMB
		if mb == 0 {
			mb = 6144
		}
		lim := syscall.Rlimit{Cur: uint64(mb) << 20, Max: uint64(mb) << 20}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	} else {
		runtime.GOMAXPROCS(2)
	}
	debug.SetGCPercent(400)
	base := os.Getenv("VH_SCRATCH")
	dir, err := os.MkdirTemp(base, "c")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	Scratch = dir
	vos.Root = dir
	vos.Stdout = &vos.File{File: devnull()}
	defer os.RemoveAll(dir)
	if err := os.Chdir(dir); err != nil {
		os.Exit(4)
	}
	blocks := spec.Blocks(tier)
	known := loadKnown(spec)
	out := os.NewFile(3, "reports")
	enc := json.NewEncoder(out)
	only := int64(-1)
	if s := os.Getenv("VH_ONLY"); s != "" {
		only, _ = strconv.ParseInt(s, 10, 64)
	}
	var rpl []int
	if s := os.Getenv("VH_CHOICES"); s != "" {
		_ = json.Unmarshal([]byte(s), &rpl)
		if rpl == nil {
			rpl = []int{}
		}
	}
	// heartbeat
	hb := os.NewFile(4, "heartbeat")
	go func() {
		last := int64(-1)
		for {
			time.Sleep(500 * time.Millisecond)
			if n := atomic.LoadInt64(&caseSeq); n != last {
				last = n
				_, _ = hb.Write([]byte{1})
			}
		}
	}()
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		k, err := strconv.Atoi(sc.Text())
		if err != nil || k < 0 || k >= len(blocks) {
			os.Exit(4)
		}
		b := &B{Tier: tier, Name: blocks[k].Name, spec: spec, only: only, dead: deadline(), known: known, rpl: rpl}
		if only >= 0 || os.Getenv("VH_TRACEFILE") != "" {
			// looking for what went wrong; that must not be cut short
			b.dead = time.Now().Add(8 * time.Minute)
		}
		b.rep.Block = k
		b.rep.Stats.MinBound = 99
		if p := os.Getenv("VH_TRACEFILE"); p != "" {
			b.trace, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
		}
		t0 := time.Now()
		if time.Now().After(b.dead) {
			b.rep.Skipped = true
			b.rep.Stats.Incomplete++
		} else {
			blocks[k].Fn(b)
		}
		atomic.AddInt64(&caseSeq, 1)
		b.rep.Secs = time.Since(t0).Seconds()
		if b.trace != nil {
			b.trace.Close()
		}
		if err := enc.Encode(&b.rep); err != nil {
			os.Exit(4)
		}
	}
}

func devnull() *os.File {
	f, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	return f
}

type worker struct {
	cmd   *exec.Cmd
	in    *os.File
	out   *bufio.Reader
	beat  int64
	errb  *tail
	outF  *os.File
	hbF   *os.File
	dirty bool
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// keep head and tail
		t.b = append(t.b[:16384:16384], t.b[len(t.b)-32768:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func spawn(extra ...string) (*worker, error) {
	ir, iw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	or, ow, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	hr, hw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w := &worker{in: iw, out: bufio.NewReaderSize(or, 1<<20), errb: &tail{}, outF: or, hbF: hr}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(exe, "--child")
	w.cmd.Stdin = ir
	w.cmd.Stderr = w.errb
	w.cmd.ExtraFiles = []*os.File{ow, hw}
	w.cmd.Env = append(os.Environ(), extra...)
	w.cmd.Env = append(w.cmd.Env, "GORACE=halt_on_error=0 exitcode=0 history_size=2", "GOTRACEBACK=all")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	ir.Close()
	ow.Close()
	hw.Close()
	atomic.StoreInt64(&w.beat, time.Now().UnixNano())
	go func() {
		buf := make([]byte, 64)
		for {
			n, err := hr.Read(buf)
			if n > 0 {
				atomic.StoreInt64(&w.beat, time.Now().UnixNano())
			}
			if err != nil {
				return
			}
		}
	}()
	return w, nil
}

func (w *worker) close() {
	w.in.Close()
	_ = w.cmd.Wait()
	w.outF.Close()
	w.hbF.Close()
}

const stallLimit = 100 * time.Second

// do runs block k in the worker. died: the process ended or stalled.
func (w *worker) do(k int) (rep *report, died string) {
	atomic.StoreInt64(&w.beat, time.Now().UnixNano())
	if _, err := fmt.Fprintln(w.in, k); err != nil {
		return nil, "worker gone"
	}
	type res struct {
		rep *report
		err error
	}
	ch := make(chan res, 1)
	go func() {
		line, err := w.out.ReadBytes('\n')
		if err != nil {
			ch <- res{nil, err}
			return
		}
		var r report
		err = json.Unmarshal(line, &r)
		ch <- res{&r, err}
	}()
	for {
		select {
		case r := <-ch:
			if r.err != nil {
				_ = w.cmd.Wait()
				return nil, "crash: " + crashText(w.errb.String())
			}
			return r.rep, ""
		case <-time.After(time.Second):
			idle := time.Since(time.Unix(0, atomic.LoadInt64(&w.beat)))
			if idle > stallLimit {
				_ = w.cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				_ = w.cmd.Process.Kill()
				<-ch
				_ = w.cmd.Wait()
				return nil, fmt.Sprintf("no progress for %v: %s", stallLimit, crashText(w.errb.String()))
			}
		}
	}
}

func crashText(s string) string {
	i := strings.Index(s, "fatal error:")
	if j := strings.Index(s, "panic:"); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if j := strings.Index(s, "runtime: goroutine stack exceeds"); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		i = 0
	}
	return clip(s[i:], 3000)
}

func parent(spec *Spec, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	limit := 300
	if tier == "thorough" {
		limit = 740
	}
	if s := os.Getenv("VH_LIMIT"); s != "" {
		limit, _ = strconv.Atoi(s)
	}
	dead := t0.Add(time.Duration(limit) * time.Second)
	os.Setenv("VH_DEADLINE", strconv.FormatInt(dead.Unix(), 10))
	os.Setenv("VERIF_TIER", tier)
	blocks := spec.Blocks(tier)
	procs := runtime.NumCPU()
	if s := os.Getenv("VH_PROCS"); s != "" {
		procs, _ = strconv.Atoi(s)
	}
	if procs > len(blocks) {
		procs = len(blocks)
	}
	var mu sync.Mutex
	next := 0
	var reps []*report
	var viols []*Violation
	var internal []string
	known := map[string]bool{}
	stop := false
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if stop || next >= len(blocks) {
			return -1
		}
		next++
		return next - 1
	}
	live := map[*worker]bool{}
	var wg sync.WaitGroup
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func() {
			runtime.LockOSThread() // Pdeathsig follows the thread
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					mu.Lock()
					delete(live, w)
					mu.Unlock()
					w.close()
				}
			}()
			for {
				k := take()
				if k < 0 {
					return
				}
				if w == nil {
					var err error
					if w, err = spawn(); err != nil {
						mu.Lock()
						internal = append(internal, "spawn: "+err.Error())
						stop = true
						mu.Unlock()
						return
					}
					mu.Lock()
					live[w] = true
					mu.Unlock()
				}
				rep, died := w.do(k)
				mu.Lock()
				stopped := stop
				mu.Unlock()
				if died != "" {
					mu.Lock()
					delete(live, w)
					mu.Unlock()
					w = nil
					if stopped {
						return
					}
					if time.Now().After(dead.Add(30 * time.Second)) {
						// the deadline passed inside one long case
						mu.Lock()
						reps = append(reps, &report{Block: k, Skipped: true, Stats: Stats{Incomplete: 1, MinBound: -1}})
						mu.Unlock()
						continue
					}
					v, note := attribute(spec, blocks[k].Name, k, died, tier)
					mu.Lock()
					if v != nil {
						viols = append(viols, v)
						stop = true
					} else {
						internal = append(internal, fmt.Sprintf("block %s: %s (%s)", blocks[k].Name, note, clip(died, 400)))
						reps = append(reps, &report{Block: k, Skipped: true, Stats: Stats{Incomplete: 1, MinBound: -1}})
					}
					mu.Unlock()
					continue
				}
				if spec.Fresh {
					mu.Lock()
					delete(live, w)
					mu.Unlock()
					w.close()
					w = nil
				}
				mu.Lock()
				reps = append(reps, rep)
				for _, s := range rep.Known {
					known[s] = true
				}
				for _, v := range rep.Viols {
					if !stop && (!v.Race || confirmRace(spec, v, k)) {
						viols = append(viols, v)
						stop = true
					}
				}
				if stop {
					for o := range live {
						if o != w {
							_ = o.cmd.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	wall := time.Since(t0).Seconds()

	// evidence
	var st Stats
	st.Counts = map[string]int64{}
	st.MinBound = 99
	var samples []string
	secs := map[string]float64{}
	sort.Slice(reps, func(i, j int) bool { return reps[i].Block < reps[j].Block })
	for _, r := range reps {
		st.Cases += r.Stats.Cases
		st.Distinct += r.Stats.Distinct
		st.States += r.Stats.States
		st.Transitions += r.Stats.Transitions
		st.Traces += r.Stats.Traces
		st.Execs += r.Stats.Execs
		st.Pruned += r.Stats.Pruned
		st.Diverged += r.Stats.Diverged
		st.Incomplete += r.Stats.Incomplete
		st.Outcomes += r.Stats.Outcomes
		st.Scenarios += r.Stats.Scenarios
		st.Unbounded += r.Stats.Unbounded
		if r.Stats.MaxSteps > st.MaxSteps {
			st.MaxSteps = r.Stats.MaxSteps
		}
		if r.Stats.Scenarios > 0 && r.Stats.MinBound < st.MinBound {
			st.MinBound = r.Stats.MinBound
		}
		for k, n := range r.Stats.Counts {
			st.Counts[k] += n
		}
		if len(r.Samples) > 0 && len(samples) < 24 {
			samples = append(samples, blocks[r.Block].Name+": "+r.Samples[0])
		}
		secs[blocks[r.Block].Name] = r.Secs
	}
	exhaustive := st.Incomplete == 0 && len(internal) == 0 && len(viols) == 0 && len(reps) == len(blocks)
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	cov := map[string]interface{}{
		"evaluations":         st.Cases,
		"distinct_nontrivial": st.Distinct,
		"rule":                spec.Rule,
		"samples":             samples,
		"exhaustive":          exhaustive,
		"blocks":              len(reps),
		"blocks_total":        len(blocks),
	}
	if st.States > 0 || spec.Level == "model_checking" {
		cov["states"] = st.States
		cov["transitions"] = st.Transitions
		cov["traces_validated_against_impl"] = st.Traces
	}
	if st.Scenarios > 0 {
		cov["schedules_executed"] = st.Execs
		cov["schedules_cut_by_state_cache"] = st.Pruned
		cov["scenarios"] = st.Scenarios
		cov["scenarios_without_bound_cutoff"] = st.Unbounded
		cov["deviation_bound_completed"] = st.MinBound
		cov["distinct_outcomes"] = st.Outcomes
		cov["longest_execution_steps"] = st.MaxSteps
		cov["race_detector"] = vs.RaceEnabled
	}
	if len(st.Counts) > 0 {
		cov["counts"] = st.Counts
	}
	if len(internal) > 0 {
		cov["internal_notes"] = internal
	}
	slow := make([]string, 0, len(secs))
	for k, s := range secs {
		if s > 5 {
			slow = append(slow, fmt.Sprintf("%s %.1fs", k, s))
		}
	}
	sort.Strings(slow)
	if len(slow) > 0 {
		cov["slow_blocks"] = slow
	}
	ev := map[string]interface{}{
		"property": spec.ID, "tier": tier, "seed": seed, "level": spec.Level,
		"coverage": cov, "wall_s": wall, "violations": len(viols),
	}
	if len(spec.Note) > 0 {
		ev["assumptions"] = spec.Note
	}
	if p := os.Getenv("VH_EVIDENCE"); p != "" {
		writeEvidence(p, ev)
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.ID, k)
	}
	for _, n := range internal {
		fmt.Fprintln(os.Stderr, "note:", n)
	}
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d executions, blocks %d/%d, exhaustive=%v, %.1fs\n",
		spec.ID, tier, st.Cases, st.States, st.Transitions, st.Execs, len(reps), len(blocks), exhaustive, wall)
	if os.Getenv("VH_VERBOSE") != "" {
		for _, s := range samples {
			fmt.Println("  ", s)
		}
		for _, s := range slow {
			fmt.Println("  slow:", s)
		}
		for k, n := range st.Counts {
			fmt.Println("   count:", k, n)
		}
	}
	if len(viols) > 0 {
		for _, v := range viols {
			p := saveReplay(v)
			fmt.Printf("  case: %s\n  %s\n", clip(v.Desc, 800), strings.ReplaceAll(clip(v.Err, 3000), "\n", "\n  "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, p)
		}
		return 1
	}
	return 0
}

// writeEvidence merges with the evidence an earlier part of the same check
// run wrote (VH_MERGE names it).
func writeEvidence(p string, ev map[string]interface{}) {
	if os.Getenv("VH_MERGE") != "" {
		if old, err := os.ReadFile(p); err == nil {
			var prev map[string]interface{}
			if json.Unmarshal(old, &prev) == nil {
				merge(prev, ev)
				ev = prev
			}
		}
	}
	d, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, append(d, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

func merge(prev, ev map[string]interface{}) {
	num := func(x interface{}) float64 {
		switch x := x.(type) {
		case float64:
			return x
		case int64:
			return float64(x)
		case int:
			return float64(x)
		}
		return 0
	}
	prev["wall_s"] = num(prev["wall_s"]) + num(ev["wall_s"])
	prev["violations"] = int64(num(prev["violations"]) + num(ev["violations"]))
	pc, _ := prev["coverage"].(map[string]interface{})
	nc, _ := ev["coverage"].(map[string]interface{})
	for k, v := range nc {
		switch x := v.(type) {
		case bool:
			if k == "exhaustive" {
				o, _ := pc[k].(bool)
				pc[k] = o && x
			} else {
				o, _ := pc[k].(bool)
				pc[k] = o || x
			}
		case []string:
			l, _ := pc[k].([]interface{})
			for _, s := range x {
				l = append(l, s)
			}
			pc[k] = l
		case map[string]int64:
			m, _ := pc[k].(map[string]interface{})
			if m == nil {
				m = map[string]interface{}{}
			}
			for n, c := range x {
				m[n] = int64(num(m[n])) + c
			}
			pc[k] = m
		case string:
			if _, ok := pc[k]; !ok {
				pc[k] = x
			}
		default:
			if k == "deviation_bound_completed" {
				if o, ok := pc[k]; !ok || num(v) < num(o) {
					pc[k] = int64(num(v))
				} else {
					pc[k] = int64(num(o))
				}
				continue
			}
			if k == "longest_execution_steps" {
				if num(v) < num(pc[k]) {
					v = pc[k]
				}
				pc[k] = int64(num(v))
				continue
			}
			pc[k] = int64(num(pc[k]) + num(v))
		}
	}
	if a, ok := ev["assumptions"]; ok {
		if _, have := prev["assumptions"]; !have {
			prev["assumptions"] = a
		}
	}
}

func saveReplay(v *Violation) string {
	d, _ := json.MarshalIndent(v, "", " ")
	h := sha256.Sum256(d)
	dir := os.Getenv("VH_REPLAYS")
	if dir == "" {
		dir = "."
	}
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, v.Property+"-"+hex.EncodeToString(h[:5])+".json")
	if err := os.WriteFile(p, append(d, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "replay file:", err)
	}
	return p
}

// confirmRace replays the schedule in a fresh process.
func confirmRace(spec *Spec, v *Violation, k int) bool {
	ch, _ := json.Marshal(v.Choices)
	for i := 0; i < 3; i++ {
		w, err := spawn("VH_ONLY="+strconv.FormatInt(v.Index, 10), "VH_CHOICES="+string(ch))
		if err != nil {
			return false
		}
		w.cmd.Stdout = nil
		rep, died := w.do(k)
		if died == "" {
			w.close()
			if len(rep.Viols) > 0 {
				v.Err += "\n" + clip(w.errb.String(), 4000)
				return true
			}
		} else {
			return true
		}
	}
	return false
}

// attribute reruns a block whose worker died, with case tracing, to find the
// case that kills it, and confirms it alone.
func attribute(spec *Spec, name string, k int, died, tier string) (*Violation, string) {
	tf := filepath.Join(os.Getenv("VH_SCRATCH"), fmt.Sprintf("trace-%d", k))
	defer os.Remove(tf)
	w, err := spawn("VH_TRACEFILE=" + tf)
	if err != nil {
		return nil, err.Error()
	}
	rep, died2 := w.do(k)
	if died2 == "" {
		w.close()
		if len(rep.Viols) > 0 {
			return rep.Viols[0], ""
		}
		return nil, "worker died once, not on the second run"
	}
	b, _ := os.ReadFile(tf)
	if len(b) < 21 {
		if !strings.Contains(died2, "panic:") && !strings.Contains(died2, "fatal error:") || strings.Contains(died2, "out of memory") || strings.Contains(died2, "cannot allocate") {
			return nil, "worker dies before its first case"
		}
		// the client's code can't even be set up
		return &Violation{Property: spec.ID, Block: name, Desc: "setting up " + name, Err: "the process dies: " + clip(died2, 4000), Tier: tier}, ""
	}
	idx, _ := strconv.ParseInt(strings.TrimSpace(string(b[:20])), 10, 64)
	desc := strings.TrimSpace(string(b[21:]))
	// alone, twice
	for i := 0; i < 2; i++ {
		w, err := spawn("VH_ONLY=" + strconv.FormatInt(idx, 10))
		if err != nil {
			return nil, err.Error()
		}
		rep, d := w.do(k)
		if d == "" {
			w.close()
			if len(rep.Viols) > 0 {
				return rep.Viols[0], ""
			}
			return nil, "case " + desc + " kills the worker only after others: " + clip(died2, 500)
		}
		died2 = d
	}
	return &Violation{Property: spec.ID, Block: name, Index: idx, Desc: desc, Err: "the process dies: " + clip(died2, 4000), Tier: tier}, ""
}

func replay(spec *Spec, path string) {
	d, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var v Violation
	if err := json.Unmarshal(d, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	os.Setenv("VERIF_TIER", v.Tier)
	for k, b := range spec.Blocks(v.Tier) {
		if b.Name != v.Block {
			continue
		}
		env := []string{"VH_ONLY=" + strconv.FormatInt(v.Index, 10)}
		if v.Choices != nil {
			ch, _ := json.Marshal(v.Choices)
			env = append(env, "VH_CHOICES="+string(ch))
		}
		w, err := spawn(env...)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		rep, died := w.do(k)
		fmt.Println(w.errb.String())
		if died != "" {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", died, spec.ID, path)
			os.Exit(1)
		}
		w.close()
		if len(rep.Viols) > 0 {
			fmt.Printf("%s\n%s\n%s\nVIOLATION property=%s replay=%s\n", rep.Viols[0].Desc, rep.Viols[0].Err, strings.Join(rep.Viols[0].Trace, "\n"), spec.ID, path)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, "no such block:", v.Block)
	os.Exit(4)
}
