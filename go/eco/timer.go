package eco

import (
	"math"
	"time"

	"github.com/ndau/ndaumath/pkg/types"
	"verif/core"
	"verif/simrt"
)

// ---- C33: waits and measurements on the host's clock

const hostMs = int64(time.Millisecond)

// host converts a duration to the host's and checks it: never of the other
// sign, never longer, at most a millisecond shorter; what the host cannot hold
// is as long as it can hold.
func host(e *env, d types.Duration) time.Duration {
	var h time.Duration
	e.Guard("TimeDuration", func() { h = d.TimeDuration() })
	want := bi(int64(d))
	want.Mul(want, bi(1000))
	if !want.IsInt64() {
		e.Probe("beyond the host's range")
		if d > 0 && int64(h) < math.MaxInt64-hostMs || d < 0 && int64(h) > math.MinInt64+hostMs {
			e.Fail("range", "a duration of %d microseconds becomes %d ns of the host, whose longest is %d", int64(d), int64(h), int64(math.MaxInt64))
		}
		return h
	}
	near(e, "a duration of "+d.String()+" on the host", int64(h), want.Int64())
	return h
}

// near: got is want, cut towards zero by less than a millisecond.
func near(e *env, what string, got, want int64) {
	bad := got > want || got <= want-hostMs
	if want <= 0 {
		bad = got < want || got >= want+hostMs
	}
	if bad {
		e.Fail("length", "%s is %d ns, want %d", what, got, want)
	}
}

// measured converts a duration of the host.
func measured(e *env, h time.Duration) types.Duration {
	var d types.Duration
	e.Guard("DurationFrom", func() { d = types.DurationFrom(h) })
	x := bi(int64(d))
	x.Mul(x, bi(1000))
	if !x.IsInt64() {
		e.Fail("range", "%s of the host become a duration of %d microseconds", h, int64(d))
	}
	near(e, h.String()+" of the host", x.Int64(), int64(h))
	return d
}

func execC33(e *env) {
	start := time.Unix(epoch, 0)
	now := func(a int) (time.Time, types.Timestamp) {
		t := start.Add(simrt.Now().Sub(time.Unix(0, 0))).Add(time.Duration(a) * 999_999)
		v := fromTime(e, t)
		if v == nil {
			e.Fail("refused", "the clock reads %s, which is no timestamp", t)
		}
		return t, *v
	}
	last := map[int]types.Duration{}
	e.RunActors(func(a int, o op, ix int) {
		d := types.Duration(o.Arg(0))
		switch o.K {
		case "convert":
			h := host(e, d)
			b := measured(e, h)
			if x := bi(int64(d)); x.Mul(x, bi(1000)).IsInt64() {
				if gap := int64(d) - int64(b); gap >= 1000 || gap <= -1000 || d > 0 && gap < 0 || d < 0 && gap > 0 {
					e.Fail("round trip", "a duration of %d microseconds is %d after a visit to the host", int64(d), int64(b))
				}
				// the host's part of it no longer changes
				if again := measured(e, host(e, b)); again != b {
					e.Fail("round trip", "a duration of %d microseconds from the host is %d after another visit", int64(b), int64(again))
				}
			}
			measured(e, time.Duration(o.Arg(1)))
			if l, ok := last[a]; ok {
				if hl := host(e, l); l <= d && hl > h || l >= d && hl < h {
					e.Fail("order", "durations of %d and %d microseconds are %d and %d ns on the host", int64(l), int64(d), int64(hl), int64(h))
				}
			}
			last[a] = d
		case "wait":
			// a lock is taken for d; its keeper sleeps until it ends, crashing on
			// the way and working out the rest from the stored deadline
			d = types.Duration(abs64(int64(d)) % (400 * 86400 * 1_000_000))
			_, t0 := now(a)
			deadline := t0.Add(d)
			crash, crashes := o.Fault("crash")
			for n := int64(0); ; n++ {
				_, t := now(a)
				rest := deadline.Since(t)
				if rest < 1000 {
					break
				}
				if n > 4 {
					e.Fail("wait", "after %d waits for the rest of %s it is not over: %s left", n, d, rest)
				}
				h := host(e, rest)
				late := int64(0)
				if f, ok := o.Fault("late"); ok {
					late = abs64(f.Arg(0)) % 10_000_000_000
					e.Fault("late")
				}
				if crashes && n < 1+abs64(crash.Arg(1))%3 {
					e.Fault("crash")
					simrt.Sleep(time.Duration(int64(h) / 1000 * (abs64(crash.Arg(0)) % 1000)))
					continue
				}
				simrt.Sleep(h + time.Duration(late))
				_, woke := now(a)
				if woke < deadline-1000 {
					e.Fail("early", "a wait for %s from %d ends at %d, %s too early", rest, int64(t), int64(woke), deadline.Since(woke))
				}
			}
			e.Probe("waited")
		case "measure":
			// the same stretch of time by the host's clock and by timestamps
			b0, t0 := now(a)
			simrt.Sleep(time.Duration(abs64(o.Arg(0)) % 30_000_000_000_000_000))
			b1, t1 := now(a)
			m := measured(e, b1.Sub(b0))
			by := t1.Since(t0)
			if gap := int64(by) - int64(m); gap < -1 || gap > 1001 {
				e.Fail("measure", "between timestamps %d and %d lie %s, the host's clock says %s", int64(t0), int64(t1), by, m)
			}
			e.Probe("measured")
		}
		simrt.Event("%s", o.K)
		e.State("timer", o.K, size(int64(d)), len(o.F))
	})
}

func genC33(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(3, 10)
	if thorough {
		n = r.Range(5, 25)
	}
	long := func() int64 { // around what the host can hold, and other sizes
		x := int64(0)
		switch r.Intn(6) {
		case 0:
			x = math.MaxInt64/1000 + int64(r.Intn(5000)) - 2500
		case 1:
			x = int64(r.Intn(5000)) - 2500
		case 2:
			x = int64(r.Next() >> uint(1+r.Intn(62)))
		case 3:
			x = extreme(r)
		case 4:
			x = int64(1+r.Intn(600)) * year
		default:
			x = (int64(r.Next()>>1) % (math.MaxInt64 / 1000)) / 1000 * 1000
		}
		if r.Chance(2) {
			x = -x
		}
		return x
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), A: []int64{long(), extreme(r)}}
		switch r.Intn(4) {
		case 0, 1:
			o.K = "convert"
			if r.Chance(2) {
				o.A[1] = int64(r.Next() >> uint(r.Intn(64)))
			}
		case 2:
			o.K = "wait"
			o.A[0] = int64(r.Next()>>1) % []int64{3000, 1_000_000, 86400_000_000, 400 * 86400_000_000}[r.Intn(4)]
			if r.Chance(2) {
				o.F = append(o.F, core.Fault{K: "crash", A: []int64{int64(r.Intn(1000)), int64(r.Intn(3))}})
			}
			if r.Chance(3) {
				o.F = append(o.F, core.Fault{K: "late", A: []int64{int64(r.Next() >> 1)}})
			}
		case 3:
			o.K = "measure"
			o.A[0] = int64(r.Next()>>1) % []int64{3000, 3_000_000, 86400_000_000_000, 30_000_000_000_000_000}[r.Intn(4)]
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}
