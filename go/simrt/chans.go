package simrt

import "reflect"

// Channels keep their Go type; the real channel is only an identity (and a
// capacity).  The contents live here.
type chanModel struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter // blocked receivers (unbuffered rendezvous)
	sendq  []*waiter
}

type waiter struct {
	val  any
	ok   bool
	done bool
	grp  *group // shared by the cases of one select
	ix   int
}

type group struct {
	fired bool
	ix    int
	w     *waiter
}

func chanOf(c any) *chanModel {
	v := reflect.ValueOf(c)
	if v.IsNil() {
		return nil
	}
	s := S
	key := v.Pointer()
	m := s.chans[key]
	if m == nil {
		m = &chanModel{cap: v.Cap()}
		s.chans[key] = m
		s.keep(c)
	}
	return m
}

var kept []any

func (s *Sim) keep(c any) { kept = append(kept, c) }

// ResetChans forgets channels of earlier runs.
func ResetChans() { kept = nil }

func drop(q []*waiter) []*waiter {
	o := q[:0]
	for _, w := range q {
		if !(w.done || (w.grp != nil && w.grp.fired)) {
			o = append(o, w)
		}
	}
	return o
}

func (m *chanModel) trySend(v any) bool {
	if m.closed {
		panic("send on closed channel")
	}
	m.recvq = drop(m.recvq)
	if len(m.recvq) > 0 {
		w := m.recvq[0]
		m.recvq = m.recvq[1:]
		w.val, w.ok, w.done = v, true, true
		if w.grp != nil {
			w.grp.fired, w.grp.ix, w.grp.w = true, w.ix, w
		}
		return true
	}
	if len(m.buf) < m.cap {
		m.buf = append(m.buf, v)
		return true
	}
	return false
}

func (m *chanModel) tryRecv() (v any, ok, got bool) {
	m.sendq = drop(m.sendq)
	if len(m.buf) > 0 {
		v = m.buf[0]
		m.buf = m.buf[1:]
		if len(m.sendq) > 0 {
			w := m.sendq[0]
			m.sendq = m.sendq[1:]
			m.buf = append(m.buf, w.val)
			w.done = true
			if w.grp != nil {
				w.grp.fired, w.grp.ix, w.grp.w = true, w.ix, w
			}
		}
		return v, true, true
	}
	if len(m.sendq) > 0 {
		w := m.sendq[0]
		m.sendq = m.sendq[1:]
		w.done = true
		if w.grp != nil {
			w.grp.fired, w.grp.ix, w.grp.w = true, w.ix, w
		}
		return w.val, true, true
	}
	if m.closed {
		return nil, false, true
	}
	return nil, false, false
}

func never() bool { return false }

// SendTo models c <- v, with v assignable to the element type.
func SendTo[T any](c chan<- T) func(T) { return func(v T) { Send(c, v) } }

// SendCaseTo is SendCase with v assignable to the element type.
func SendCaseTo[T any](c chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return SendCase(c, v) }
}

// Forever blocks.
func Forever() { Block("nothing (select{})", never) }

// Send models c <- v.
func Send[T any](c chan<- T, v T) {
	if S == nil {
		c <- v
		return
	}
	m := chanOf(c)
	if m == nil {
		Block("send on nil channel", never)
		return
	}
	SyncPoint()
	defer SyncPoint()
	Gosched()
	if m.trySend(v) {
		return
	}
	w := &waiter{val: v}
	m.sendq = append(m.sendq, w)
	Block("channel send", func() bool { return w.done || m.closed })
	if !w.done && m.closed {
		panic("send on closed channel")
	}
}

// Recv models <-c.
func Recv[T any](c <-chan T) T { v, _ := Recv2(c); return v }

// Recv2 models v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	var zero T
	if S == nil {
		v, ok := <-c
		return v, ok
	}
	m := chanOf(c)
	if m == nil {
		Block("receive on nil channel", never)
		return zero, false
	}
	SyncPoint()
	defer SyncPoint()
	Gosched()
	v, ok, got := m.tryRecv()
	if !got {
		w := &waiter{}
		m.recvq = append(m.recvq, w)
		Block("channel receive", func() bool { return w.done || m.closed })
		v, ok = w.val, w.ok
		w.done = true
	}
	if !ok || v == nil {
		return zero, ok
	}
	return v.(T), ok
}

// Close models close(c).
func Close[T any](c chan<- T) {
	if S == nil {
		close(c)
		return
	}
	m := chanOf(c)
	if m == nil {
		panic("close of nil channel")
	}
	if m.closed {
		panic("close of closed channel")
	}
	m.closed = true
	SyncPoint()
}

// ChanLen models len(c).
func ChanLen[T any](c <-chan T) int {
	if S == nil {
		return len(c)
	}
	m := chanOf(c)
	if m == nil {
		return 0
	}
	SyncPoint()
	return len(m.buf)
}

// ChanSeq models range over a channel.
func ChanSeq[T any](c <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// SelCase is one case of a select.
type SelCase interface {
	try() bool
	enqueue(g *group, ix int)
	finish(w *waiter, closed bool)
	isClosed() bool
}

// RecvC is a receive case.
type RecvC[T any] struct {
	m   *chanModel
	Val T
	Ok  bool
}

// RecvCase builds a receive case.
func RecvCase[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{m: chanOf(c)} }

func (r *RecvC[T]) try() bool {
	if r.m == nil {
		return false
	}
	v, ok, got := r.m.tryRecv()
	if got {
		r.Ok = ok
		if ok && v != nil {
			r.Val = v.(T)
		}
	}
	return got
}
func (r *RecvC[T]) enqueue(g *group, ix int) {
	if r.m != nil {
		r.m.recvq = append(r.m.recvq, &waiter{grp: g, ix: ix})
	}
}
func (r *RecvC[T]) finish(w *waiter, closed bool) {
	if w != nil {
		r.Ok = w.ok
		if w.ok && w.val != nil {
			r.Val = w.val.(T)
		}
	}
}
func (r *RecvC[T]) isClosed() bool { return r.m != nil && r.m.closed }

// SendC is a send case.
type SendC[T any] struct {
	m *chanModel
	v T
}

// SendCase builds a send case.
func SendCase[T any](c chan<- T, v T) *SendC[T] { return &SendC[T]{m: chanOf(c), v: v} }

func (r *SendC[T]) try() bool { return r.m != nil && r.m.trySend(r.v) }
func (r *SendC[T]) enqueue(g *group, ix int) {
	if r.m != nil {
		r.m.sendq = append(r.m.sendq, &waiter{val: r.v, grp: g, ix: ix})
	}
}
func (r *SendC[T]) finish(w *waiter, closed bool) {
	if closed {
		panic("send on closed channel")
	}
}
func (r *SendC[T]) isClosed() bool { return r.m != nil && r.m.closed }

// Select models a select statement; -1 is the default case.
func Select(hasDefault bool, cs ...SelCase) int {
	SyncPoint()
	defer SyncPoint()
	Gosched()
	start := 0
	if len(cs) > 0 {
		start = S.mrand.Intn(len(cs))
	}
	for k := range cs {
		i := (start + k) % len(cs)
		if cs[i].try() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	g := &group{}
	for i, c := range cs {
		c.enqueue(g, i)
	}
	closedIx := -1
	Block("select", func() bool {
		if g.fired {
			return true
		}
		for i, c := range cs {
			if c.isClosed() {
				closedIx = i
				return true
			}
		}
		return false
	})
	if g.fired {
		cs[g.ix].finish(g.w, false)
		return g.ix
	}
	g.fired = true
	if closedIx >= 0 {
		cs[closedIx].finish(nil, true)
	}
	return closedIx
}
