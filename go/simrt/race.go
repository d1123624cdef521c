package simrt

import "unsafe"

// Unsynchronised access to shared memory.
//
// The scheduler switches between statements, so two map operations, or two
// statements on the same variable, never really overlap here although they
// can in a deployed program, where a map that is read while it is written
// ends the process and other variables tear.  Accesses to maps, to package
// state and to the elements of slices are therefore recorded, and two of
// them by different tasks, at least one a write, with no synchronisation in
// between are a violation.
//
// Synchronisation is over-approximated: every operation of package sync and
// sync/atomic, every channel operation, every start and end of a task, and
// the harness' own hand-overs are taken to order everything before them
// before everything after them, whatever object they are on.  A report is
// therefore never a false one; some races that only another lock would have
// ordered are missed.

var raceOn bool

// RaceOff is set when the code under test synchronises in a way that is not
// followed.
var RaceOff bool

// NoRace sets RaceOff.
func NoRace() bool { RaceOff = true; return true }

type acc struct {
	task  *Task
	stamp int
	site  int32
}

type cell struct {
	w    acc
	r    []acc
	keep unsafe.Pointer // the object must not be freed, its address would be reused
}

// DetectRaces turns the recording on for this simulation.
func (s *Sim) DetectRaces() { s.race = !RaceOff }

// Race describes the sites of a race found.
type Race struct {
	A, B         int32
	TaskA, TaskB string
	WA, WB       bool
}

// SyncPoint orders everything the current task did before everything that
// tasks do after their own next synchronisation.
func SyncPoint() {
	if !raceOn {
		return
	}
	if s := S; s != nil && s.cur != nil {
		s.sync(s.cur)
	}
}

func (s *Sim) sync(t *Task) {
	if !s.race {
		return
	}
	s.syncSeq++
	t.syncs = append(t.syncs, s.syncSeq)
	t.lastSync = s.syncSeq
}

// Sy passes on the result of an atomic operation.
func Sy[T any](v T) T { SyncPoint(); return v }

// R notes a read.
func R[T any](p *T) *T {
	if raceOn && p != nil {
		access(unsafe.Pointer(p), unsafe.Sizeof(*p), false)
	}
	return p
}

// W notes a write.
func W[T any](p *T) *T {
	if raceOn && p != nil {
		access(unsafe.Pointer(p), unsafe.Sizeof(*p), true)
	}
	return p
}

// MapR notes a read of a map.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if raceOn && m != nil {
		access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, false)
	}
	return m
}

// MapW notes a change of a map.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if raceOn && m != nil {
		access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, true)
	}
	return m
}

// AP notes that something is appended to s.
func AP[S ~[]E, E any](s S) S {
	if raceOn && cap(s) > len(s) {
		access(unsafe.Pointer(&s[:len(s)+1][len(s)]), 1, true)
	}
	return s
}

// CW notes that s is copied to.
func CW[S ~[]E, E any](s S) S {
	if raceOn && len(s) > 0 {
		access(unsafe.Pointer(&s[0]), 1, true)
	}
	return s
}

// CR notes that s is copied from.
func CR[S ~[]E, E any](s S) S {
	if raceOn && len(s) > 0 {
		access(unsafe.Pointer(&s[0]), 1, false)
	}
	return s
}

func access(p unsafe.Pointer, size uintptr, write bool) {
	s := S
	if s == nil || !s.race || s.cur == nil || s.cur.killed || s.aborting || size == 0 {
		return
	}
	if s.cells == nil {
		s.cells = map[uintptr]*cell{}
	}
	if size > 64 {
		size = 64
	}
	s.touch(p, 0, write)
	for o := uintptr(8); o < size; o += 8 {
		s.touch(p, o, write)
	}
}

func (s *Sim) touch(p unsafe.Pointer, o uintptr, write bool) {
	t := s.cur
	k := uintptr(p) + o
	c := s.cells[k]
	if c == nil {
		c = &cell{keep: p}
		s.cells[k] = c
	}
	me := acc{t, len(t.syncs), t.site}
	if c.w.task != nil && c.w.task != t && !s.ordered(c.w) {
		s.raced(c.w, me, true, write)
	}
	if write {
		for _, a := range c.r {
			if a.task != t && !s.ordered(a) {
				s.raced(a, me, false, write)
			}
		}
		c.w, c.r = me, c.r[:0]
		return
	}
	for i := range c.r {
		if c.r[i].task == t {
			c.r[i] = me
			return
		}
	}
	c.r = append(c.r, me)
}

// ordered says whether access a happened before what the current task does.
func (s *Sim) ordered(a acc) bool {
	return len(a.task.syncs) > a.stamp && a.task.syncs[a.stamp] < s.cur.lastSync
}

func (s *Sim) raced(a, b acc, wa, wb bool) {
	if s.out.Race == nil {
		s.out.Race = &Race{a.site, b.site, a.task.Name, b.task.Name, wa, wb}
	}
	Stop()
}
