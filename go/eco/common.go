// Package eco holds the scenarios over amounts, durations, timestamps, rates,
// EAI and the price curve.
package eco

import (
	"fmt"
	"math"
	"math/big"
	"time"

	"verif/core"
	"verif/simrt"
)

type (
	env  = core.Env
	op   = core.Op
	plan = core.Plan
	rng  = simrt.RNG
)

const (
	sec  = int64(1_000_000)
	day  = 86400 * sec
	year = 365 * day
	unit = int64(100_000_000)       // napu per ndau
	one  = int64(1_000_000_000_000) // rate denominator
)

func durNS(n int64) time.Duration { return time.Duration(n) }

func abs64(x int64) int64 {
	if x < 0 {
		if x == -x {
			return 0
		}
		return -x
	}
	return x
}

func pick[T any](xs []T, i int64) (z T) {
	if len(xs) == 0 {
		return z
	}
	return xs[int(abs64(i)%int64(len(xs)))]
}

// extreme draws a 64-bit number: often near a boundary.
func extreme(r *rng) int64 {
	switch r.Intn(9) {
	case 0:
		return int64(r.Next())
	case 1:
		return math.MaxInt64 - int64(r.Intn(3))
	case 2:
		return math.MinInt64 + int64(r.Intn(3))
	case 3:
		return int64(r.Intn(5)) - 2
	case 4:
		x := int64(1) << uint(r.Intn(63))
		return x + int64(r.Intn(3)) - 1
	case 5:
		return -(int64(1) << uint(r.Intn(63))) + int64(r.Intn(3)) - 1
	case 6:
		return int64(r.Next()) >> uint(r.Intn(64))
	case 7:
		x := int64(1)
		for i := r.Intn(19); i > 0; i-- {
			x *= 10
		}
		x += int64(r.Intn(3)) - 1
		if r.Chance(3) {
			x = -x
		}
		return x
	}
	return (int64(r.Next()>>1) / unit) * []int64{1, unit, 3, 7}[r.Intn(4)]
}

// extremeU is the same for unsigned numbers.
func extremeU(r *rng) uint64 {
	switch r.Intn(4) {
	case 0:
		return math.MaxUint64 - uint64(r.Intn(3))
	case 1:
		return r.Next()
	}
	return uint64(extreme(r))
}

func bi(x int64) *big.Int   { return big.NewInt(x) }
func bu(x uint64) *big.Int  { return new(big.Int).SetUint64(x) }
func fits(x *big.Int) bool  { return x.IsInt64() }
func fitsU(x *big.Int) bool { return x.IsUint64() }

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	return err.Error()
}

// delays are the message faults of a delivery: its copies and when they come.
func deliver(e *env, o op, f func(copyNo int)) {
	n := 1
	if x, ok := o.Fault("dup"); ok {
		e.Fault("dup")
		n = 2 + int(abs64(x.Arg(0)))%3
	}
	if _, ok := o.Fault("drop"); ok {
		e.Fault("drop")
		n = 0
	}
	for i := 0; i < n; i++ {
		var d int64 = 1000
		if x, ok := o.Fault("delay"); ok {
			e.Fault("delay")
			d = 1000 + (abs64(x.Arg(0))*(int64(i)+1))%5_000_000_000
		}
		simrt.GoNamed("delivery", func() {
			simrt.Sleep(durNS(d))
			f(i)
		})
	}
}

func netFaults(r *rng) []core.Fault {
	var out []core.Fault
	switch r.Intn(8) {
	case 0:
		out = append(out, core.Fault{K: "drop"})
	case 1:
		out = append(out, core.Fault{K: "dup", A: []int64{int64(r.Intn(3))}})
	}
	if r.Chance(2) {
		out = append(out, core.Fault{K: "delay", A: []int64{int64(r.Intn(2_000_000))}})
	}
	return out
}

// process runs f as a process that may crash (fault "crash", argument: after
// how many statements); a crashed process is restarted with load, which brings
// back what was stored, and f is run again unless it had come to its end.  f must
// store its results last, after a Step.
func process(e *env, o op, load, f func()) {
	if c, ok := o.Fault("crash"); ok {
		end := false
		if !simrt.RunKillable("process", 1+abs64(c.Arg(0))%400, func() { f(); end = true }) {
			e.Fault("crash")
			load()
			if !end {
				f()
			}
			return
		}
		return
	}
	f()
}

func genCrash(r *rng, n int) []core.Fault {
	if r.Chance(n) {
		return []core.Fault{{K: "crash", A: []int64{int64(r.Intn(400))}}}
	}
	return nil
}

func sprint(f string, a ...any) string { return fmt.Sprintf(f, a...) }
