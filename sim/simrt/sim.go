// Package simrt is the deterministic simulator: every goroutine of the code
// under test is a coroutine ("task") of one process, only one task runs at a
// time, and every decision (who runs next, which ready select case, when the
// clock jumps) is taken here from one seed, or read back from a replay file.
package simrt

import (
	"fmt"
	"hash/fnv"
	"iter"
	"math"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Granularity of preemption.
const (
	ModeAtomic = 0 // tasks switch only when they block or at explicit yields
	ModeSync   = 1 // also at every mutex/channel/timer operation
	ModeStmt   = 2 // also before every statement (of the enabled packages)
)

// Switch is a recorded preemption: task T at its local step N is preempted
// in favour of task To (-1: the clock jumps to the next timer first).
type Switch struct {
	T  int `json:"t"`
	N  int `json:"n"`
	To int `json:"to"`
}

// Pick is a recorded choice which differs from the default.
type Pick struct {
	I int `json:"i"` // index of the decision
	V int `json:"v"` // the value chosen
}

// Schedule is everything the scheduler decided in a run (defaults omitted).
type Schedule struct {
	Switches []Switch `json:"switches,omitempty"`
	Picks    []Pick   `json:"picks,omitempty"`
	Sels     []Pick   `json:"sels,omitempty"`
}

// Config of a run.
type Config struct {
	Mode     int     `json:"mode"`
	Policy   string  `json:"policy"`  // rw | pct | fifo
	PreemptP float64 `json:"preempt"` // 1/mean gap of statements
	SyncP    float64 `json:"syncp"`   // per sync point (at least PreemptP)
	Depth    int     `json:"depth"`   // pct: number of priority change points
	StallP   float64 `json:"stall"`   // chance that the clock jumps though a task is runnable
	MapSeed  uint64  `json:"mapseed"` // 0: sorted
	PoolSeed uint64  `json:"poolseed"`
	MaxSteps int     `json:"maxsteps"`
	Tear     bool    `json:"tear,omitempty"` // writes of multi-word values take a while
	Pkgs     string  `json:"pkgs"` // comma list of package suffixes with statement preemption; "" = all
}

// Violation found in a run.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type taskState int8

const (
	tsRunnable taskState = iota
	tsBlocked
	tsIdle
	tsDone
)

// Task is a simulated goroutine.
type Task struct {
	ID      int
	Name    string
	Bg      bool // started by the code under test
	state   taskState
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	steps   int
	nextPre int // local step of the next preemption check
	prio    int
	what    string // what it is blocked on
	wv      any    // value handed over
	wok     bool
	wcase   int
	wgen    int
	killed  bool
	site    int // last statement
}

type killedT struct{}

var killed = killedT{}

type timerEv struct {
	when    time.Duration
	seq     int
	fire    func()
	dead    bool
	pending bool
}

// Stats of a run.
type Stats struct {
	Steps, Switches, Preempts, Picks, Sels, Stalls, Timers, Tasks, Windows int
	SimTime                                                       time.Duration
	SwitchHash                                                    uint64
	Log                                                           uint64
	LogN                                                          int
}

// Sim is one simulated run.
type Sim struct {
	cfg       Config
	rng       *Rand
	replay    bool
	rp        map[int][]Switch // by task, ordered by N
	rpPicks   map[int]int
	rpSels    map[int]int
	rec       Schedule
	tasks     []*Task
	runq      []*Task
	cur       *Task
	now       time.Duration
	timers    []*timerEv
	tseq      int
	steps     int
	picks     int
	sels      int
	lastYield int
	target    *Task // forced next task
	stall     bool
	viol      *Violation
	ended     bool
	chans     map[unsafe.Pointer]*chanState
	pctN      int
	pkgOn     []bool
	stats     Stats
	log       []string
	keepLog   bool
	logh      uint64
	mapN      uint64
	poolN     uint64
	inSched   bool
	vals      map[string]any
	pctPts    []int
	lowPrio   int
	live      int
	tseqEv    int64
	tears     []tear
}

var cur *Sim
var epoch int

// Cur returns the running simulation, or nil.
func Cur() *Sim { return cur }

// Epoch changes with every run.
func Epoch() int { return epoch }

// Base is the simulated time of the start of each run.
var Base = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

// New prepares a run.
func New(cfg Config, seed uint64, sch *Schedule, keepLog bool) *Sim {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 2_000_000
	}
	s := &Sim{cfg: cfg, rng: NewRand(seed), chans: map[unsafe.Pointer]*chanState{}, keepLog: keepLog, vals: map[string]any{}}
	s.logh = 14695981039346656037
	if sch != nil {
		s.replay = true
		s.rp = map[int][]Switch{}
		for _, w := range sch.Switches {
			s.rp[w.T] = append(s.rp[w.T], w)
		}
		for _, v := range s.rp {
			sort.SliceStable(v, func(i, j int) bool { return v[i].N < v[j].N })
		}
		s.rpPicks = map[int]int{}
		for _, p := range sch.Picks {
			s.rpPicks[p.I] = p.V
		}
		s.rpSels = map[int]int{}
		for _, p := range sch.Sels {
			s.rpSels[p.I] = p.V
		}
	}
	s.pkgOn = make([]bool, len(Pkgs)+1)
	for i, p := range Pkgs {
		on := cfg.Pkgs == ""
		if !on {
			for _, w := range strings.Split(cfg.Pkgs, ",") {
				if strings.HasSuffix(p, w) {
					on = true
				}
			}
		}
		s.pkgOn[i] = on
	}
	if cfg.Policy == "pct" {
		k := Choose(s.rng, 30, 100, 300, 1000, 3000)
		for i := 0; i < cfg.Depth; i++ {
			s.pctPts = append(s.pctPts, 1+s.rng.Intn(k))
		}
		sort.Ints(s.pctPts)
	}
	return s
}

// Run executes main as the first client task until every client is done,
// then ends the run.
func (s *Sim) Run(main func()) (*Violation, *Schedule, Stats) {
	epoch++
	cur = s
	defer func() { cur = nil }()
	s.spawn("main", false, main)
	s.loop()
	s.ended = true
	for _, t := range s.tasks { // unwind what is left
		if t.state != tsDone {
			t.killed = true
			s.cur = t
			t.stop()
			t.state = tsDone
		}
	}
	s.stats.Steps = s.steps
	s.stats.SimTime = s.now
	s.stats.Tasks = len(s.tasks)
	s.stats.Log = s.logh
	return s.viol, &s.rec, s.stats
}

// LogLines returns the kept event log.
func (s *Sim) LogLines() []string { return s.log }

func (s *Sim) spawn(name string, bg bool, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Bg: bg}
	s.tasks = append(s.tasks, t)
	t.prio = 1000 + s.lowPrio
	if s.cfg.Policy == "pct" && !s.replay {
		t.prio = 1000 + s.rng.Intn(1000)
	}
	s.setGap(t)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if r != any(killed) {
					if !s.ended {
						s.fail("panic", fmt.Sprintf("task %d (%s): %v", t.ID, t.Name, r), string(debug.Stack()))
					}
				}
			}
			t.state = tsDone
		}()
		fn()
	})
	t.state = tsRunnable
	s.runq = append(s.runq, t)
	return t
}

func (s *Sim) fail(kind, msg, detail string) {
	if s.viol == nil && !s.ended {
		s.viol = &Violation{Kind: kind, Msg: msg}
		if detail != "" {
			s.note("detail: " + detail)
		}
		s.event("VIOLATION %s: %s", kind, msg)
	}
	s.ended = true
}

func (s *Sim) event(format string, args ...any) {
	line := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	_, _ = h.Write([]byte(line))
	s.logh = (s.logh ^ h.Sum64()) * 1099511628211
	s.stats.LogN++
	if s.keepLog {
		id := -1
		if s.cur != nil {
			id = s.cur.ID
		}
		s.log = append(s.log, fmt.Sprintf("%-12v t%-2d %s", s.now, id, line))
	}
}

func (s *Sim) loop() {
	for !s.ended {
		t := s.pick()
		if t == nil {
			return
		}
		if t != s.cur {
			s.stats.Switches++
			s.stats.SwitchHash = (s.stats.SwitchHash ^ uint64(t.ID*1000003+t.steps)) * 1099511628211
		}
		s.cur = t
		s.lastYield = s.steps
		t.next()
		if t.state == tsDone {
			s.unq(t)
			if !t.Bg && s.allClientsDone() {
				return
			}
		}
	}
}

func (s *Sim) allClientsDone() bool {
	for _, t := range s.tasks {
		if !t.Bg && t.state != tsDone {
			return false
		}
	}
	return true
}

func (s *Sim) unq(t *Task) {
	for i, x := range s.runq {
		if x == t {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

func (s *Sim) inq(t *Task) bool { return t.state == tsRunnable }

// pick decides which task runs next; nil ends the run.
func (s *Sim) pick() *Task {
	if t := s.target; t != nil {
		s.target = nil
		if t.state == tsRunnable {
			s.unq(t)
			s.runq = append(s.runq, t) // goes last in FIFO order
			return t
		}
	}
	for {
		if len(s.runq) == 0 {
			if s.wakeIdle() {
				return s.runq[0] // it must see the idle system: no stall here
			}
			if s.advance() {
				continue
			}
			s.deadlock()
			return nil
		}
		n := len(s.runq)
		idx := 0
		s.picks++
		if s.replay {
			if v, ok := s.rpPicks[s.picks]; ok {
				if v == -1 {
					s.advanceStall()
					continue
				}
				for i, t := range s.runq {
					if t.ID == v {
						idx = i
					}
				}
				if idx != 0 {
					s.rec.Picks = append(s.rec.Picks, Pick{s.picks, v})
				}
			}
		} else {
			if s.cfg.StallP > 0 && s.canStall() && s.rng.Float64() < s.cfg.StallP {
				s.rec.Picks = append(s.rec.Picks, Pick{s.picks, -1})
				s.advanceStall()
				continue
			}
			if n > 1 {
				switch s.cfg.Policy {
				case "pct":
					for i, t := range s.runq {
						if t.prio > s.runq[idx].prio {
							idx = i
						}
					}
				case "fifo":
				default:
					idx = s.rng.Intn(n)
				}
				if idx != 0 {
					s.rec.Picks = append(s.rec.Picks, Pick{s.picks, s.runq[idx].ID})
				}
			}
		}
		s.stats.Picks++
		t := s.runq[idx]
		s.runq = append(s.runq[:idx], s.runq[idx+1:]...)
		s.runq = append(s.runq, t)
		return t
	}
}

func (s *Sim) advanceStall() {
	if s.advance() {
		s.stats.Stalls++
		Count("fault:stall(clock jumps over runnable tasks)")
	}
}

func (s *Sim) wakeIdle() bool {
	for _, t := range s.tasks {
		if t.state == tsIdle {
			t.state = tsRunnable
			s.runq = append(s.runq, t)
			return true
		}
	}
	return false
}

func (s *Sim) deadlock() {
	var sb []string
	for _, t := range s.tasks {
		if !t.Bg && t.state != tsDone {
			sb = append(sb, fmt.Sprintf("%s blocked on %s", t.Name, t.what))
		}
	}
	for _, t := range s.tasks {
		if t.Bg && t.state != tsDone {
			sb = append(sb, fmt.Sprintf("bg %s blocked on %s", t.Name, t.what))
		}
	}
	s.fail("deadlock", strings.Join(sb, "; "), "")
}

// --- time

func (s *Sim) hasTimer() bool {
	for _, e := range s.timers {
		if !e.dead {
			return true
		}
	}
	return false
}

// canStall: there is a timer a slow machine may reach.
func (s *Sim) canStall() bool {
	for _, e := range s.timers {
		if !e.dead && e.when-s.now <= time.Minute {
			return true
		}
	}
	return false
}

// next removes and returns the earliest timer.
func (s *Sim) next(until time.Duration, seq int) *timerEv {
	var best *timerEv
	bi := -1
	for i, e := range s.timers {
		if e.dead {
			continue
		}
		if best == nil || e.when < best.when || (e.when == best.when && e.seq < best.seq) {
			best, bi = e, i
		}
	}
	if best == nil || best.when > until || best.seq > seq {
		return nil
	}
	s.timers = append(s.timers[:bi], s.timers[bi+1:]...)
	if len(s.timers) > 64 { // drop the dead
		k := s.timers[:0]
		for _, e := range s.timers {
			if !e.dead {
				k = append(k, e)
			}
		}
		s.timers = k
	}
	return best
}

// advance lets the clock jump to the next timer. All timers of that instant
// fire together, unless tasks are not to be interleaved.
func (s *Sim) advance() bool {
	e := s.next(math.MaxInt64, math.MaxInt)
	if e == nil {
		return false
	}
	if e.when > s.now {
		s.now = e.when
	}
	prev, seq := s.inSched, s.tseq
	s.inSched = true
	for e != nil {
		e.pending = false
		s.stats.Timers++
		e.fire()
		if s.cfg.Mode == ModeAtomic {
			break
		}
		e = s.next(s.now, seq)
	}
	s.inSched = prev
	return true
}

func (s *Sim) addTimer(d time.Duration, fire func()) *timerEv {
	if d < 0 {
		d = 0
	}
	s.tseq++
	e := &timerEv{when: s.now + d, seq: s.tseq, fire: fire, pending: true}
	s.timers = append(s.timers, e)
	return e
}

// Timer is a handle of a simulated timer.
type Timer struct{ e *timerEv }

// AddTimer runs fire (in the scheduler, it must not block) after d.
func AddTimer(d time.Duration, fire func()) *Timer { return &Timer{cur.addTimer(d, fire)} }

// Cancel reports whether the timer was still pending.
func (t *Timer) Cancel() bool {
	if t.e == nil {
		return false
	}
	was := t.e.pending && !t.e.dead
	t.e.dead = true
	t.e.pending = false
	return was
}

// Now is the simulated time.
func Now() time.Time {
	if cur == nil {
		return time.Now()
	}
	return Base.Add(cur.now)
}

// Elapsed is the simulated time since the start of the run.
func Elapsed() time.Duration {
	if cur == nil {
		return 0
	}
	return cur.now
}

// Sleep blocks the task for d of simulated time.
func Sleep(d time.Duration) {
	s := cur
	if s == nil {
		return
	}
	t := s.cur
	s.addTimer(d, func() { s.ready(t) })
	s.block(fmt.Sprintf("Sleep(%v)", d))
}

// --- blocking

// block parks the current task until ready is called for it.
func (s *Sim) block(what string) {
	t := s.cur
	if t.killed {
		panic(killed)
	}
	t.state = tsBlocked
	t.what = what
	s.unq(t)
	s.switchOut(t)
	t.what = ""
}

func (s *Sim) ready(t *Task) {
	if t.state == tsBlocked {
		t.state = tsRunnable
		s.runq = append(s.runq, t)
	}
}

func (s *Sim) switchOut(t *Task) {
	if !t.yield(struct{}{}) || t.killed {
		t.killed = true
		panic(killed)
	}
	if s.ended {
		panic(killed)
	}
}

// WaitIdle parks the calling task until nothing else can run without the
// clock moving.
func WaitIdle() {
	s := cur
	t := s.cur
	t.state = tsIdle
	t.what = "WaitIdle"
	s.unq(t)
	s.switchOut(t)
	t.what = ""
}

// Yield is an explicit scheduling point (used by clients between and
// inside operations).
func Yield() {
	s := cur
	if s == nil {
		return
	}
	if s.cur.killed {
		panic(killed)
	}
	s.switchOut(s.cur)
}

// --- preemption points

func (s *Sim) setGap(t *Task) {
	if s.replay {
		l := s.rp[t.ID]
		for len(l) > 0 && l[0].N <= t.steps {
			l = l[1:]
		}
		s.rp[t.ID] = l
		if len(l) > 0 {
			t.nextPre = l[0].N
		} else {
			t.nextPre = 1 << 60
		}
		return
	}
	p := s.cfg.PreemptP
	if s.cfg.Mode == ModeAtomic || p <= 0 || s.cfg.Policy == "fifo" || (s.cfg.Mode == ModeSync && s.cfg.Policy != "pct") {
		t.nextPre = 1 << 60
		return
	}
	if s.cfg.Policy == "pct" {
		t.nextPre = t.steps + 1
		if s.cfg.Mode == ModeStmt || s.cfg.Mode == ModeSync {
			t.nextPre = t.steps + 1 + s.rng.Intn(3)
		}
		return
	}
	gap := 1
	if p < 1 {
		gap = 1 + s.rng.Intn(int(2/p)) // mean 1/p
	}
	t.nextPre = t.steps + gap
}

// Y is the statement-level preemption point inserted by the instrumenter.
func Y(site int) {
	s := cur
	if s == nil || s.inSched {
		return
	}
	t := s.cur
	t.site = site
	t.steps++
	s.steps++
	if t.killed {
		return // unwinding: let the deferred calls pass
	}
	if s.steps > s.cfg.MaxSteps {
		s.fail("unbounded", fmt.Sprintf("more than %d steps, task %d (%s) at %s", s.cfg.MaxSteps, t.ID, t.Name, siteName(site)), "")
		panic(killed)
	}
	if s.cfg.Mode != ModeAtomic && s.steps-s.lastYield > 20000 { // fairness: a spinning task must let others run
		s.lastYield = s.steps
		if len(s.runq) > 1 {
			s.lowPrio--
			t.prio = s.lowPrio
			s.switchOut(t)
		} else if s.hasTimer() {
			s.advance()
		}
	}
	if t.steps >= t.nextPre {
		if s.replay {
			s.preempt(t, site)
		} else if s.cfg.Mode == ModeStmt && s.pkgOn[site>>16] {
			s.preempt(t, site)
		}
	}
}

// syncPoint is the preemption point of synchronisation operations.
func (s *Sim) syncPoint() {
	t := s.cur
	if s.inSched || t == nil {
		return
	}
	t.steps++
	s.steps++
	if t.killed {
		return
	}
	if s.steps > s.cfg.MaxSteps {
		s.fail("unbounded", fmt.Sprintf("more than %d steps, task %d (%s)", s.cfg.MaxSteps, t.ID, t.Name), "")
		panic(killed)
	}
	if s.cfg.Mode == ModeAtomic {
		return
	}
	if s.replay || s.cfg.Policy == "pct" {
		if t.steps >= t.nextPre {
			s.preempt(t, 0)
		}
	} else if s.cfg.Policy != "fifo" && s.rng.Float64() < max(s.cfg.PreemptP, s.cfg.SyncP) {
		s.preempt(t, 0)
	}
}

// preempt lets another task run, at a point where the current one could go on.
func (s *Sim) preempt(t *Task, site int) {
	if s.replay {
		l := s.rp[t.ID]
		to := -2
		if len(l) > 0 && l[0].N == t.steps {
			to = l[0].To
		}
		s.setGap(t)
		if to == -2 {
			return
		}
		s.rec.Switches = append(s.rec.Switches, Switch{t.ID, t.steps, to})
		if to == -1 {
			s.advanceStall()
			return
		}
		if to < len(s.tasks) && s.tasks[to] != t && s.tasks[to].state == tsRunnable {
			s.target = s.tasks[to]
			s.stats.Preempts++
			s.switchOut(t)
		}
		return
	}
	if s.cfg.Policy == "pct" {
		s.pctN++
		if len(s.pctPts) > 0 && s.pctN >= s.pctPts[0] {
			s.pctPts = s.pctPts[1:]
			s.lowPrio--
			t.prio = s.lowPrio
		}
		s.setGap(t)
		best := t
		for _, x := range s.runq {
			if x.prio > best.prio {
				best = x
			}
		}
		if best != t {
			s.rec.Switches = append(s.rec.Switches, Switch{t.ID, t.steps, best.ID})
			s.target = best
			s.stats.Preempts++
			s.switchOut(t)
		}
		return
	}
	s.setGap(t)
	if s.cfg.StallP > 0 && s.canStall() && s.rng.Float64() < s.cfg.StallP {
		s.rec.Switches = append(s.rec.Switches, Switch{t.ID, t.steps, -1})
		s.advanceStall()
		return
	}
	if len(s.runq) > 1 {
		i := s.rng.Intn(len(s.runq))
		if s.runq[i] == t {
			return
		}
		s.rec.Switches = append(s.rec.Switches, Switch{t.ID, t.steps, s.runq[i].ID})
		s.target = s.runq[i]
		s.stats.Preempts++
		s.switchOut(t)
	}
}

func siteName(site int) string {
	if n, ok := Sites[site]; ok {
		return n
	}
	return fmt.Sprintf("site#%d", site)
}

// --- tasks

// Go starts a goroutine of the code under test.
func Go(fn func()) {
	s := cur
	if s == nil {
		go fn()
		return
	}
	if s.cur != nil && s.cur.killed {
		return
	}
	s.spawn(fmt.Sprintf("bg%d", len(s.tasks)), true, fn)
	s.syncPoint()
}

// Client starts a client task of the scenario.
func Client(name string, fn func()) *Task {
	return cur.spawn(name, false, fn)
}

// Helper starts a scenario task the run doesn't wait for (environment).
func Helper(name string, fn func()) *Task {
	t := cur.spawn("env:"+name, true, fn)
	return t
}

// Done tells if the task has ended.
func (t *Task) Done() bool { return t.state == tsDone }

// What it is blocked on.
func (t *Task) What() string { return t.what }

// Runnable task?
func (t *Task) Runnable() bool { return t.state == tsRunnable }

// CurID is the id of the running task.
func CurID() int {
	if cur == nil || cur.cur == nil {
		return -1
	}
	return cur.cur.ID
}

// Join waits for tasks.
func Join(ts ...*Task) {
	for _, t := range ts {
		for t.state != tsDone {
			// the scheduler wakes us when idle; poll in between
			s := cur
			me := s.cur
			me.state = tsBlocked
			me.what = "Join " + t.Name
			s.unq(me)
			s.joiners(t, me)
			s.switchOut(me)
			me.what = ""
		}
	}
}

func (s *Sim) joiners(t, me *Task) {
	// wrap: a done task readies its joiners
	old := t.next
	t.next = func() (struct{}, bool) {
		a, b := old()
		if t.state == tsDone {
			s.ready(me)
		}
		return a, b
	}
}

// LiveBg lists the background tasks (of the code under test) still alive.
func LiveBg() (names []string) {
	for _, t := range cur.tasks {
		if t.Bg && t.state != tsDone && !strings.HasPrefix(t.Name, "env:") {
			names = append(names, fmt.Sprintf("%s on %s", t.Name, t.what))
		}
	}
	return
}

// Fail reports a violation and ends the run.
func Fail(kind, format string, args ...any) {
	s := cur
	if s == nil {
		panic(fmt.Sprintf(format, args...))
	}
	s.fail(kind, fmt.Sprintf(format, args...), "")
	panic(killed)
}

// Event appends to the event log.
func Event(format string, args ...any) {
	if cur != nil {
		cur.event(format, args...)
	}
}

// Seq is the global event sequence number: it grows with every step.
func Seq() int64 { cur.tseqEv++; return cur.tseqEv }

// Killed tells the current task is being unwound.
func Killed() bool { return cur != nil && (cur.ended || (cur.cur != nil && cur.cur.killed)) }

// Ended is true once the run is over (a violation, or the end).
func (s *Sim) Ended() bool { return s.ended }

// Val keeps per-run values of the shims.
func Val(key string, mk func() any) any {
	v, ok := cur.vals[key]
	if !ok {
		v = mk()
		cur.vals[key] = v
	}
	return v
}

// note keeps a line which isn't part of the hashed log (addresses...).
func (s *Sim) note(line string) {
	if s.keepLog {
		s.log = append(s.log, line)
	}
}
