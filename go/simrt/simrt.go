// Package simrt is the deterministic simulation runtime that the instrumented
// copy of ndaumath is linked against.
//
// Exactly one simulated task executes at any time; every other task is parked.
// Which task runs next is decided here, from a seeded PRNG or from an explicit
// list of switches, and nowhere else.  Instrumented code calls Yield before
// every statement, so a switch (or a crash) can land between any two
// statements of the library.
//
// Outside a simulation (package initialisation, reference models) every entry
// point is a cheap no-op or falls back to the real thing.
package simrt

import (
	"fmt"
	mrand "math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Switch is one scheduling decision: when the global step counter reached
// Step, the baton went to task To.
type Switch struct {
	Step uint64 `json:"step"`
	To   int    `json:"to"`
}

// Policy says how scheduling decisions are made in exploring mode.
type Policy struct {
	// Gap is the mean number of statements between preemptions; 0 = never.
	Gap int
	// Hot makes one in HotMod sites (by hash with HotSalt) a preemption point.
	HotMod  uint32
	HotSalt uint32
}

type state int

const (
	ready state = iota
	blocked
	sleeping
	finished
)

// Task is one simulated thread of control.
type Task struct {
	ID     int
	Name   string
	wake   chan struct{}
	st     state
	cond   func() bool
	why    string
	wakeAt int64
	killIn int64 // >0: crash this task after that many more yields
	doomed bool  // it crashes as soon as it does something that can be seen
	killed bool
	parent *Task
	group  *Group
	away   int // >0: runs code that is not part of its group (a host callback)

	site     int32 // last instrumentation point
	syncs    []uint64
	lastSync uint64
}

// Group is a set of tasks that end together (a hosted program).
type Group struct {
	Name  string
	ended bool
}

// Outcome describes how a run ended.
type Outcome struct {
	Panic     string // non-empty: a task panicked
	Stack     string
	Deadlock  string // non-empty: nothing could run
	Exhausted bool   // the step budget ran out
	Stopped   bool   // Stop was called
	Race      *Race  // unsynchronised accesses
}

// Sim is one simulated execution.
type Sim struct {
	rng      *RNG
	pol      Policy
	replay   []Switch // nil in exploring mode
	replayIx int
	isReplay bool
	Trace    []Switch

	tasks    []*Task
	cur      *Task
	idlers   []*Task // tasks waiting until nothing else can run, innermost last
	steps    uint64
	nextAt   uint64
	budget   uint64
	now      int64
	done     chan struct{}
	aborting bool
	out      Outcome

	hash     uint64 // event log hash
	pathHash uint64 // interleaving hash: which task ran which site across switches
	switches uint64
	kills    uint64
	entropy  *Entropy
	mrand    *RNG
	mr       *mrand.Rand
	chans    map[any]*chanModel
	Sites    []uint32
	mapSalt  uint64
	logOn    bool
	race     bool
	syncSeq  uint64
	cells    map[uintptr]*cell
	Log      []string
}

// S is the simulation in progress, nil outside one.
var S *Sim

// Epoch is simulated time zero.
var Epoch = time.Date(2019, 5, 1, 0, 0, 0, 0, time.UTC)

// New prepares a simulation.  If replay is non-nil the schedule is taken from
// it instead of being drawn from seed.
func New(seed uint64, pol Policy, budget uint64, replay []Switch, isReplay bool) *Sim {
	s := &Sim{
		rng: NewRNG(seed ^ 0x5c4ed), pol: pol, budget: budget,
		replay: replay, isReplay: isReplay,
		done: make(chan struct{}), hash: 1469598103934665603, pathHash: 1469598103934665603,
		chans: map[any]*chanModel{},
	}
	s.entropy = NewEntropy(NewRNG(seed ^ 0xe27209f))
	s.mrand = NewRNG(seed ^ 0x3a7d)
	s.mapSalt = NewRNG(seed ^ 0x3a9).Next()
	s.arm()
	return s
}

// KeepLog makes Event lines be retained (for replay output).
func (s *Sim) KeepLog() { s.logOn = true }

func (s *Sim) arm() {
	if s.isReplay {
		if s.replayIx < len(s.replay) {
			s.nextAt = s.replay[s.replayIx].Step
		} else {
			s.nextAt = ^uint64(0)
		}
		if s.nextAt <= s.steps {
			s.nextAt = s.steps + 1
		}
	} else if s.pol.Gap > 0 {
		s.nextAt = s.steps + 1 + uint64(s.rng.Intn(2*s.pol.Gap))
	} else {
		s.nextAt = ^uint64(0)
	}
	if s.nextAt > s.budget {
		s.nextAt = s.budget
	}
}

// Steps is the number of statements executed so far.
func (s *Sim) Steps() uint64 { return s.steps }

// Switches is the number of task switches so far.
func (s *Sim) Switches() uint64 { return s.switches }

// Kills is the number of tasks crashed so far.
func (s *Sim) Kills() uint64 { return s.kills }

// Hash is the hash of the event log.
func (s *Sim) Hash() uint64 { return s.hash }

// PathHash identifies the interleaving: the sequence of (site, task) at which
// control moved.
func (s *Sim) PathHash() uint64 { return s.pathHash }

// SimNow is simulated nanoseconds since Epoch.
func (s *Sim) SimNow() int64 { return s.now }

func mix(h uint64, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	return h
}

// Event adds a line to the event log.
func Event(format string, a ...any) {
	s := S
	if s == nil {
		return
	}
	line := fmt.Sprintf(format, a...)
	for i := 0; i < len(line); i++ {
		s.hash ^= uint64(line[i])
		s.hash *= 1099511628211
	}
	s.hash = mix(s.hash, uint64(s.now))
	if s.logOn {
		id := -1
		if s.cur != nil {
			id = s.cur.ID
		}
		s.Log = append(s.Log, fmt.Sprintf("t=%dns step=%d task=%d %s", s.now, s.steps, id, line))
	}
}

// Run executes main as task 0 and returns when every task has finished or the
// run was cut short.
func (s *Sim) Run(main func()) Outcome {
	if S != nil {
		panic("simrt: nested simulation")
	}
	S = s
	raceOn = s.race
	t := s.newTask("main", main)
	s.cur = t
	t.wake <- struct{}{}
	<-s.done
	S = nil
	raceOn = false
	s.cells = nil
	return s.out
}

func (s *Sim) newTask(name string, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}, 1), parent: s.cur}
	if s.cur != nil && s.cur.away == 0 {
		t.group = s.cur.group
	}
	s.tasks = append(s.tasks, t)
	if s.cur != nil {
		s.sync(s.cur)
	}
	s.sync(t)
	go func() {
		<-t.wake
		normal := false
		defer func() {
			if !normal && !t.killed && !s.aborting {
				if r := recover(); r != nil {
					s.out.Panic = fmt.Sprint(r)
					s.out.Stack = trimStack(string(debug.Stack()))
					s.abort()
				}
			} else {
				recover()
			}
			t.st = finished
			s.sync(t)
			s.exitTask(t)
		}()
		if s.aborting {
			runtime.Goexit()
		}
		f()
		normal = true
	}()
	return t
}

func trimStack(st string) string {
	var keep []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "ndaumath") || strings.Contains(l, "verif/hd") || strings.Contains(l, "verif/svc") || strings.Contains(l, "verif/eco") {
			keep = append(keep, strings.TrimSpace(l))
			if len(keep) >= 12 {
				break
			}
		}
	}
	return strings.Join(keep, " | ")
}

func (s *Sim) abort() {
	s.aborting = true
}

// exitTask passes the baton on from a finished task.
func (s *Sim) exitTask(t *Task) {
	if s.aborting {
		// unwind the others one by one
		for _, o := range s.tasks {
			if o.st != finished {
				s.cur = o
				o.wake <- struct{}{}
				return
			}
		}
		close(s.done)
		return
	}
	s.steps++
	n := s.pick(nil, -1)
	if n == nil {
		// everything finished, or deadlock (recorded by pick)
		if s.aborting {
			s.exitTask(t)
			return
		}
		close(s.done)
		return
	}
	s.cur = n
	n.wake <- struct{}{}
}

func (s *Sim) runnable(t *Task) bool {
	if t.group != nil && t.group.ended && t.away == 0 {
		return false
	}
	switch t.st {
	case ready:
		return true
	case blocked:
		if t.cond() {
			return true
		}
	case sleeping:
		return s.now >= t.wakeAt
	}
	return false
}

// pick chooses the next task.  self is the task giving up the baton if it can
// go on itself, nil otherwise.  Returns nil when there is nothing left to run.
func (s *Sim) pick(self *Task, site int32) *Task {
	for {
		var cand []*Task
		for _, t := range s.tasks {
			if s.runnable(t) {
				cand = append(cand, t)
			}
		}
		if len(cand) > 0 {
			n := s.choose(cand, self)
			if n.st != ready {
				n.st = ready
				n.cond = nil
			}
			s.switches++
			s.pathHash = mix(s.pathHash, uint64(uint32(site))<<20|uint64(n.ID))
			return n
		}
		if k := len(s.idlers); k > 0 {
			n := s.idlers[k-1]
			s.idlers = s.idlers[:k-1]
			n.st, n.cond = ready, nil
			s.switches++
			s.pathHash = mix(s.pathHash, uint64(uint32(site))<<20|uint64(n.ID))
			return n
		}
		// nothing runnable: advance the clock
		var next int64 = -1
		alive := false
		for _, t := range s.tasks {
			if t.st == finished {
				continue
			}
			if t.group != nil && t.group.ended && t.away == 0 {
				continue
			}
			alive = true
			if t.st == sleeping && (next < 0 || t.wakeAt < next) {
				next = t.wakeAt
			}
		}
		if !alive {
			return nil
		}
		if next < 0 {
			var w []string
			for _, t := range s.tasks {
				if t.st == blocked {
					w = append(w, fmt.Sprintf("%s waits for %s", t.Name, t.why))
				}
			}
			sort.Strings(w)
			s.out.Deadlock = strings.Join(w, "; ")
			s.abort()
			return nil
		}
		s.now = next
	}
}

func (s *Sim) choose(cand []*Task, self *Task) *Task {
	// the default, used whenever the schedule says nothing: stay, else the
	// lowest-numbered task
	def := cand[0]
	if self != nil {
		for _, c := range cand {
			if c == self {
				def = c
			}
		}
	}
	if s.isReplay {
		for s.replayIx < len(s.replay) && s.replay[s.replayIx].Step < s.steps {
			s.replayIx++
		}
		if s.replayIx < len(s.replay) && s.replay[s.replayIx].Step == s.steps {
			to := s.replay[s.replayIx].To
			s.replayIx++
			for _, c := range cand {
				if c.ID == to {
					return c
				}
			}
		}
		return def
	}
	if len(cand) == 1 {
		return cand[0]
	}
	n := cand[s.rng.Intn(len(cand))]
	if n != def {
		s.Trace = append(s.Trace, Switch{s.steps, n.ID})
	}
	return n
}

// Yield is called before every statement of instrumented code.
func Yield(site int32) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.steps++
	s.cur.site = site
	if site >= 0 && int(site) < len(s.Sites) {
		s.Sites[site]++
	}
	if k := s.cur.killIn; k > 0 {
		s.cur.killIn = k - 1
		s.cur.doomed = k == 1
	}
	if site < 0 && s.cur.doomed && !s.cur.killed {
		s.die()
	}
	if s.steps >= s.nextAt {
		s.slow(site)
	} else if s.pol.HotMod != 0 && !s.isReplay && len(s.tasks) > 1 {
		if (uint32(site)*2654435761^s.pol.HotSalt)>>7%s.pol.HotMod == 0 && s.rng.Intn(2) == 0 {
			s.preempt(site)
		}
	}
}

// Step is a scheduling point in harness code (a device doing a bit of work).
func Step() { Yield(-4) }

func (s *Sim) die() {
	s.kills++
	s.cur.killed = true
	runtime.Goexit()
}

func (s *Sim) slow(site int32) {
	if s.aborting {
		return
	}
	if s.steps >= s.budget {
		s.out.Exhausted = true
		s.abort()
		runtime.Goexit()
	}
	s.arm()
	s.preempt(site)
}

func (s *Sim) preempt(site int32) {
	self := s.cur
	if self.killed || s.aborting {
		return // deferred code of a crashed task runs to its end
	}
	n := s.pick(self, site)
	if n == nil || n == self {
		return
	}
	s.handoff(self, n)
}

func (s *Sim) handoff(self, n *Task) {
	s.cur = n
	n.wake <- struct{}{}
	<-self.wake
	if s.aborting {
		runtime.Goexit()
	}
}

// Block parks the current task until cond holds.
func Block(why string, cond func() bool) {
	s := S
	if s == nil {
		panic("simrt: blocking outside a simulation: " + why)
	}
	if s.aborting || s.cur.killed {
		return
	}
	s.steps++
	if cond() {
		return
	}
	self := s.cur
	self.st, self.cond, self.why = blocked, cond, why
	s.rest(self)
}

// Idle parks the current task until no other task can run without the clock
// moving on.
func Idle() {
	s := S
	if s.aborting || s.cur.killed {
		return
	}
	s.steps++
	self := s.cur
	self.st, self.cond, self.why = blocked, never, "the others to come to rest"
	s.idlers = append(s.idlers, self)
	s.rest(self)
}

// In runs f as part of group g.
func In(g *Group, f func()) {
	t := S.cur
	og, oa := t.group, t.away
	t.group, t.away = g, 0
	defer func() { t.group, t.away = og, oa }()
	f()
}

// Away runs f as code that does not belong to the current task's group. If
// the group has ended meanwhile, the task does not come back.
func Away(f func()) {
	t := S.cur
	t.away++
	func() {
		defer func() { t.away-- }()
		f()
	}()
	if t.group != nil && t.group.ended && t.away == 0 {
		Forever()
	}
}

// End ends a group: its tasks never run again.
func (g *Group) End() { g.ended = true }

// Ended reports whether End was called.
func (g *Group) Ended() bool { return g.ended }

// Ahead counts the tasks of g that are neither finished nor blocked.
func (g *Group) Blocked() (out []string) {
	for _, t := range S.tasks {
		if t.group == g && t.st == blocked {
			out = append(out, t.Name+" waits for "+t.why)
		}
	}
	return
}

// Sleep parks the current task for d of simulated time.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	if s.aborting || s.cur.killed {
		return
	}
	s.steps++
	if d < 0 {
		d = 0
	}
	self := s.cur
	self.st, self.wakeAt = sleeping, s.now+int64(d)
	s.rest(self)
}

func (s *Sim) rest(self *Task) {
	s.steps++
	n := s.pick(nil, -2)
	if n == nil { // deadlock: unwind
		runtime.Goexit()
	}
	if n == self {
		return
	}
	s.handoff(self, n)
}

// Go starts a new simulated task.
func Go(f func()) { GoNamed("goroutine", f) }

// GoNamed starts a new simulated task with a name.
func GoNamed(name string, f func()) *Task {
	s := S
	if s == nil {
		go f()
		return nil
	}
	t := s.newTask(name, f)
	return t
}

// Join waits until t has finished.
func Join(t *Task) {
	if t.st != finished {
		Block("end of "+t.Name, func() bool { return t.st == finished })
	}
	SyncPoint()
}

// RunKillable runs f as a separate process that crashes after n statements
// (never, if n is 0).  It reports whether f ran to its end without a crash.
//
// All processes of a simulation share the library's package variables, which
// real processes do not: one that stopped in the middle of a library call would
// leave a lock taken, or a table half built, for all others.  What it did in
// its own memory since its last visible action is gone either way, so the
// crash takes effect at the next visible action instead: a piece of storage
// written, a message (Step), or the end of f.
func RunKillable(name string, n int64, f func()) bool {
	s := S
	ok := false
	t := s.newTask(name, func() { f(); ok = true })
	t.killIn = n
	Join(t)
	if ok && t.doomed {
		s.kills++
		return false
	}
	return ok
}

// CurrentID is the running task's number.
func CurrentID() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return S.cur.ID
}

// Stop ends the run early (a violation has been recorded by the caller).
func Stop() {
	s := S
	if s == nil {
		return
	}
	s.out.Stopped = true
	s.abort()
	runtime.Goexit()
}

// Now is the simulated wall clock.
func Now() time.Time {
	if S == nil {
		return Epoch
	}
	return Epoch.Add(time.Duration(S.now))
}

// Since mirrors time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until mirrors time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// After mirrors time.After.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go(func() { Sleep(d); Send(c, Now()) })
	return c
}

// Tick-free Gosched.
func Gosched() {
	s := S
	if s == nil {
		return
	}
	s.steps++
	s.preempt(-3)
}
