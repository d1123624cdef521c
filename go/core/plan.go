// Package core runs scenarios: it generates plans from seeds, executes them
// under simrt, checks determinism, minimises failures and writes evidence.
package core

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/simrt"
)

// Fault is one injected fault, attached to the operation it hits.
type Fault struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
}

// Arg returns argument i, 0 if absent.
func (f Fault) Arg(i int) int64 {
	if i < len(f.A) {
		return f.A[i]
	}
	return 0
}

// Op is one operation of an actor.
type Op struct {
	T int     `json:"t"`
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
	S string  `json:"s,omitempty"`
	B string  `json:"b,omitempty"` // hex
	F []Fault `json:"f,omitempty"`
}

// Arg returns argument i, 0 if absent.
func (o Op) Arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Bytes decodes B.
func (o Op) Bytes() []byte { b, _ := hex.DecodeString(o.B); return b }

// Fault returns the op's fault of kind k, if any.
func (o Op) Fault(k string) (Fault, bool) {
	for _, f := range o.F {
		if f.K == k {
			return f, true
		}
	}
	return Fault{}, false
}

func (o Op) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "actor%d.%s%v", o.T, o.K, o.A)
	if o.S != "" {
		fmt.Fprintf(&b, " %q", o.S)
	}
	if o.B != "" {
		fmt.Fprintf(&b, " 0x%s", o.B)
	}
	for _, f := range o.F {
		fmt.Fprintf(&b, " !%s%v", f.K, f.A)
	}
	return b.String()
}

// Plan is everything that determines one run.
type Plan struct {
	Prop     string           `json:"property"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Cfg      map[string]int64 `json:"cfg,omitempty"`
	Gap      int              `json:"gap,omitempty"`
	HotMod   uint32           `json:"hot_mod,omitempty"`
	HotSalt  uint32           `json:"hot_salt,omitempty"`
	Ops      []Op             `json:"ops"`
	// Recorded: take the schedule from Sched instead of the seed.
	Recorded bool           `json:"recorded"`
	Sched    []simrt.Switch `json:"sched,omitempty"`
}

func (p *Plan) clone() *Plan {
	q := *p
	q.Ops = make([]Op, len(p.Ops))
	for i, o := range p.Ops {
		o.A = append([]int64(nil), o.A...)
		o.F = append([]Fault(nil), o.F...)
		q.Ops[i] = o
	}
	q.Sched = append([]simrt.Switch(nil), p.Sched...)
	return &q
}

// Actors lists the actor numbers that have operations.
func (p *Plan) Actors() []int {
	seen := map[int]bool{}
	var out []int
	for _, o := range p.Ops {
		if !seen[o.T] {
			seen[o.T] = true
			out = append(out, o.T)
		}
	}
	sort.Ints(out)
	return out
}

// ActorOps returns one actor's operations in order.
func (p *Plan) ActorOps(t int) []Op {
	var out []Op
	for _, o := range p.Ops {
		if o.T == t {
			out = append(out, o)
		}
	}
	return out
}

// Violation is a property found broken.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Env is what a scenario's Exec works with.
type Env struct {
	Sim    *simrt.Sim
	Plan   *Plan
	Viol   *Violation
	Faults map[string]int
	Probes map[string]int
	Known  map[string]string
	States map[uint64]struct{}
	busy   int // >0 while oracle code runs (no preemption bookkeeping needed)
}

// Fail records a violation and ends the run.
func (e *Env) Fail(class, format string, a ...any) {
	if e.Viol == nil {
		e.Viol = &Violation{class, fmt.Sprintf(format, a...)}
		simrt.Event("VIOLATION %s: %s", class, e.Viol.Msg)
	}
	simrt.Stop()
}

// Check fails unless ok.
func (e *Env) Check(ok bool, class, format string, a ...any) {
	if !ok {
		e.Fail(class, format, a...)
	}
}

// Guard runs library code that must not panic.
func (e *Env) Guard(what string, f func()) {
	if p := Catch(f); p != "" {
		e.Fail("panic:"+what, "%s panicked: %s", what, p)
	}
}

// Catch runs f and returns the text of the panic it ended with, if any.
func Catch(f func()) (msg string) {
	ok := false
	defer func() {
		if !ok {
			if r := recover(); r != nil {
				msg = fmt.Sprint(r)
				if msg == "" {
					msg = "panic"
				}
			}
		}
	}()
	f()
	ok = true
	return ""
}

// Fault counts a fault that really fired.
func (e *Env) Fault(kind string) { e.Faults[kind]++; simrt.Event("fault %s", kind) }

// Probe counts a rare condition that was reached.
func (e *Env) Probe(name string) { e.Probes[name]++ }

// KnownFinding notes that a listed finding showed up.
func (e *Env) KnownFinding(id, what string) { e.Known[id] = what }

// State adds an abstract state to the set of states reached.
func (e *Env) State(parts ...any) {
	h := uint64(1469598103934665603)
	for _, c := range fmt.Sprint(parts...) {
		h ^= uint64(c)
		h *= 1099511628211
	}
	e.States[h] = struct{}{}
}

// RunActors starts one task per actor and waits for all of them.
func (e *Env) RunActors(f func(actor int, op Op, ix int)) {
	var ts []*simrt.Task
	for _, a := range e.Plan.Actors() {
		ops := e.Plan.ActorOps(a)
		t := simrt.GoNamed(fmt.Sprintf("actor%d", a), func() {
			for i, op := range ops {
				simrt.Event("op %d %s", a, op.K)
				simrt.SyncPoint()
				f(a, op, i)
				simrt.SyncPoint()
			}
		})
		ts = append(ts, t)
	}
	for _, t := range ts {
		simrt.Join(t)
	}
}

// Hex is shorthand.
func Hex(b []byte) string { return hex.EncodeToString(b) }

// Big is shorthand.
func Big(n int64) *big.Int { return big.NewInt(n) }
