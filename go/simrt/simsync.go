package simrt

// Stand-ins for package sync under the simulated scheduler.  The zero values
// are ready to use, as in sync.

// Mutex stands in for sync.Mutex.
type Mutex struct{ held bool }

// Lock locks.
func (m *Mutex) Lock() {
	if S == nil {
		m.held = true
		return
	}
	Gosched()
	Block("mutex", func() bool { return !m.held })
	m.held = true
	SyncPoint()
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	SyncPoint()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	SyncPoint()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	w bool
	r int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if S != nil {
		Gosched()
		Block("rwmutex", func() bool { return !m.w && m.r == 0 })
	}
	m.w = true
	SyncPoint()
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	SyncPoint()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if S != nil {
		Gosched()
		Block("rwmutex(r)", func() bool { return !m.w })
	}
	m.r++
	SyncPoint()
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	SyncPoint()
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	SyncPoint()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	SyncPoint()
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once stands in for sync.Once.
type Once struct {
	done, running bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if o.done {
		SyncPoint()
		return
	}
	if o.running {
		Block("once", func() bool { return o.done })
		SyncPoint()
		return
	}
	o.running = true
	defer func() { o.done = true; SyncPoint() }()
	f()
}

// OnceFunc stands in for sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue stands in for sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues stands in for sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct{ n int }

// Add adds.
func (w *WaitGroup) Add(d int) {
	SyncPoint()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	if w.n > 0 {
		Block("waitgroup", func() bool { return w.n <= 0 })
	}
	SyncPoint()
}

// Go runs f in a task.
func (w *WaitGroup) Go(f func()) { w.Add(1); Go(func() { defer w.Done(); f() }) }

// Pool stands in for sync.Pool; it really does hand objects back, so stale
// contents show.
type Pool struct {
	New   func() any
	items []any
}

// Get takes an item.
func (p *Pool) Get() any {
	SyncPoint()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	SyncPoint()
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map stands in for sync.Map.
type Map struct{ m map[any]any }

// Load loads.
func (m *Map) Load(k any) (any, bool) { SyncPoint(); v, ok := m.m[k]; return v, ok }

// Store stores.
func (m *Map) Store(k, v any) {
	SyncPoint()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	SyncPoint()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}

// LoadAndDelete removes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	SyncPoint()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

// Delete deletes.
func (m *Map) Delete(k any) { SyncPoint(); delete(m.m, k) }

// Clear empties.
func (m *Map) Clear() { SyncPoint(); m.m = nil }

// Swap stores and returns what was there.
func (m *Map) Swap(k, v any) (any, bool) { o, ok := m.Load(k); m.Store(k, v); return o, ok }

// CompareAndSwap stores if the old value is there.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.Load(k); !ok || v != o {
		return false
	}
	m.Store(k, n)
	return true
}

// CompareAndDelete deletes if the old value is there.
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.Load(k); !ok || v != o {
		return false
	}
	m.Delete(k)
	return true
}

// Range visits in simulator order.
func (m *Map) Range(f func(k, v any) bool) {
	SyncPoint()
	for _, k := range MapKeys(m.m) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Cond stands in for sync.Cond.
type Cond struct {
	L   Locker
	seq []*bool
}

// NewCond makes one.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	f := new(bool)
	c.seq = append(c.seq, f)
	c.L.Unlock()
	Block("cond", func() bool { return *f })
	SyncPoint()
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	SyncPoint()
	if len(c.seq) > 0 {
		*c.seq[0] = true
		c.seq = c.seq[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	SyncPoint()
	for _, f := range c.seq {
		*f = true
	}
	c.seq = nil
}
