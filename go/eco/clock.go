package eco

import (
	"math"
	"math/big"
	"time"

	"github.com/ndau/ndaumath/pkg/types"
	"verif/core"
	"verif/simrt"
)

// ---- C25: timestamps from bad clocks

// epoch is 2000-01-01T00:00:00Z in Unix seconds.
const epoch = int64(946684800)

// clock is one party's clock: the simulated time, distorted.
type clock struct {
	offset  int64 // seconds
	nanos   int64
	drift   int64 // parts per thousand
	stalled *time.Time
	zone    *time.Location
}

func (c *clock) read() time.Time {
	if c.stalled != nil {
		return *c.stalled
	}
	el := simrt.Now().Sub(time.Unix(0, 0))
	d := time.Duration(int64(el) / 1000 * c.drift)
	t := time.Unix(int64(el/time.Second)+c.offset, int64(el%time.Second)+c.nanos).Add(d)
	if c.zone != nil {
		return t.In(c.zone)
	}
	return t.UTC()
}

// micros is the exact number of whole microseconds since the epoch.
func micros(t time.Time) *big.Int {
	x := new(big.Int).Mul(big.NewInt(t.Unix()-epoch), bi(sec))
	return x.Add(x, big.NewInt(int64(t.Nanosecond()/1000)))
}

func execC25(e *env) {
	clocks := map[int]*clock{}
	seen := map[int][]stamp{}
	e.RunActors(func(a int, o op, ix int) {
		if clocks[a] == nil {
			clocks[a] = &clock{}
		}
		c := clocks[a]
		switch o.K {
		case "jump":
			e.Fault("clock jump")
			c.offset += o.Arg(0)
			c.nanos = o.Arg(1) % 1_000_000_000
		case "set":
			e.Fault("clock set")
			c.offset, c.nanos = o.Arg(0)-int64(simrt.Now().Sub(time.Unix(0, 0))/time.Second), o.Arg(1)%1_000_000_000
		case "drift":
			e.Fault("clock drift")
			c.drift = o.Arg(0) % 2000
		case "stall":
			e.Fault("clock stall")
			t := c.read()
			c.stalled = &t
		case "resume":
			c.stalled = nil
		case "zone":
			c.zone = time.FixedZone("somewhere", int(o.Arg(0)%86400))
		case "sleep":
			simrt.Sleep(durNS(abs64(o.Arg(0))))
		case "read":
			t := c.read()
			got := fromTime(e, t)
			if got == nil {
				break
			}
			// against everything read before, by anyone
			for _, l := range seen {
				for _, s := range l {
					order(e, s, stamp{t, *got})
				}
			}
			seen[a] = append(seen[a], stamp{t, *got})
			if len(seen[a]) > 6 {
				seen[a] = seen[a][1:]
			}
		case "shift":
			for _, s := range seen[a] {
				shift(e, s.v, o.Arg(0))
			}
			shift(e, types.Timestamp(abs64(o.Arg(1))), o.Arg(0))
		case "pair":
			x, y := types.Timestamp(abs64(o.Arg(0))), types.Timestamp(abs64(o.Arg(1)))
			pair(e, x, y)
			back(e, x)
		}
		simrt.Event("%s", o.K)
		e.State("clock", o.K, size(o.Arg(0)), len(seen[a]), c.stalled != nil)
	})
}

type stamp struct {
	t time.Time
	v types.Timestamp
}

// fromTime reads a clock into a timestamp; nil if it is refused.
func fromTime(e *env, t time.Time) *types.Timestamp {
	var v types.Timestamp
	var err error
	e.Guard("TimestampFrom", func() { v, err = types.TimestampFrom(t) })
	want := micros(t)
	before := t.Unix() < epoch
	if before || !want.IsInt64() {
		if err == nil {
			e.Fail("range", "the instant %s (%s us after the epoch) becomes timestamp %d", t, want, int64(v))
		}
		e.Probe("instant out of range")
		return nil
	}
	if err != nil {
		e.Fail("refused", "the instant %s (%s us after the epoch) is refused: %v", t, want, err)
	}
	if v < 0 || bi(int64(v)).Cmp(want) != 0 {
		e.Fail("wrong", "the instant %s becomes timestamp %d, want %s", t, int64(v), want)
	}
	back(e, v)
	return &v
}

// back converts to an instant and back.
func back(e *env, v types.Timestamp) {
	var t time.Time
	e.Guard("AsTime", func() { t = v.AsTime() })
	if micros(t).Cmp(bi(int64(v))) != 0 || t.Nanosecond()%1000 != 0 {
		e.Fail("instant", "timestamp %d is the instant %s", int64(v), t)
	}
	var w types.Timestamp
	var err error
	e.Guard("TimestampFrom", func() { w, err = types.TimestampFrom(t) })
	if err != nil || w != v {
		e.Fail("instant", "timestamp %d is the instant %s, which is timestamp %d (%s)", int64(v), t, int64(w), errText(err))
	}
}

func order(e *env, a, b stamp) {
	c := a.v.Compare(b.v)
	switch {
	case a.t.Before(b.t) && c > 0, a.t.After(b.t) && c < 0, a.t.Equal(b.t) && c != 0:
		e.Fail("order", "%s is timestamp %d and %s is %d", a.t, int64(a.v), b.t, int64(b.v))
	}
	if d := micros(b.t).Cmp(micros(a.t)); d != b.v.Compare(a.v) {
		e.Fail("order", "%s is timestamp %d and %s is %d", a.t, int64(a.v), b.t, int64(b.v))
	}
	pair(e, a.v, b.v)
}

// pair checks differences and comparison of two timestamps.
func pair(e *env, x, y types.Timestamp) {
	d := x.Since(y)
	if int64(d) != int64(x)-int64(y) {
		e.Fail("difference", "%d since %d is %d", int64(x), int64(y), int64(d))
	}
	if got := y.Add(d); got != x {
		e.Fail("difference", "%d plus the time since it until %d (%d) is %d", int64(y), int64(x), int64(d), int64(got))
	}
	if got := x.Sub(d); got != y {
		e.Fail("difference", "%d minus the time since %d (%d) is %d", int64(x), int64(y), int64(d), int64(got))
	}
	c := 0
	if d < 0 {
		c = -1
	} else if d > 0 {
		c = 1
	}
	if x.Compare(y) != c || y.Compare(x) != -c {
		e.Fail("compare", "%d since %d is %d, Compare says %d and %d", int64(x), int64(y), int64(d), x.Compare(y), y.Compare(x))
	}
}

// shift checks saturation.
func shift(e *env, v types.Timestamp, d int64) {
	clamp := func(x *big.Int) int64 {
		if x.Sign() < 0 {
			return 0
		}
		if !x.IsInt64() {
			return math.MaxInt64
		}
		return x.Int64()
	}
	if got, want := v.Add(types.Duration(d)), clamp(new(big.Int).Add(bi(int64(v)), bi(d))); int64(got) != want {
		e.Fail("saturate", "%d plus %d is %d, want %d", int64(v), d, int64(got), want)
	}
	if got, want := v.Sub(types.Duration(d)), clamp(new(big.Int).Sub(bi(int64(v)), bi(d))); int64(got) != want {
		e.Fail("saturate", "%d minus %d is %d, want %d", int64(v), d, int64(got), want)
	}
}

// genUnix draws an instant in Unix seconds.
func genUnix(r *rng) int64 {
	switch r.Intn(8) {
	case 0:
		return epoch + int64(r.Intn(5)) - 2
	case 1:
		return epoch + int64(r.Intn(300))*365*86400
	case 2: // around 292 years after the epoch
		return epoch + 9_223_372_036 + int64(r.Intn(7)) - 3
	case 3:
		return epoch + 9_223_372_036_854 + int64(r.Intn(7)) - 3 // the last timestamp
	case 4:
		return int64(r.Next()>>1) % 400_000_000_000
	case 5:
		return -int64(r.Next()>>1) % 40_000_000_000
	case 6:
		return int64(r.Next()>>1) % 20_000_000_000_000
	}
	return epoch + int64(r.Intn(1_000_000_000))
}

func genC25(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(5, 20)
	if thorough {
		n = r.Range(8, 60)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np)}
		switch r.Intn(11) {
		case 0:
			o.K, o.A = "jump", []int64{[]int64{1, -1, 3600, -3600, 86400, -86400, 31536000, -31536000, int64(r.Intn(1_000_000)) - 500_000}[r.Intn(9)], int64(r.Intn(1_000_000_000))}
		case 1, 2:
			o.K, o.A = "set", []int64{genUnix(r), []int64{0, 999, 1000, 999_999_999, 999_999_000, int64(r.Intn(1_000_000_000))}[r.Intn(6)]}
		case 3:
			o.K, o.A = "drift", []int64{int64(r.Intn(4000)) - 2000}
		case 4:
			o.K = []string{"stall", "resume"}[r.Intn(2)]
		case 5:
			o.K, o.A = "sleep", []int64{int64(r.Next()>>1) % []int64{2000, 1_000_000, 10_000_000_000}[r.Intn(3)]}
		case 6:
			o.K, o.A = "shift", []int64{extreme(r), extreme(r)}
		case 7:
			o.K, o.A = "pair", []int64{extreme(r), extreme(r)}
		case 8:
			o.K, o.A = "zone", []int64{int64(r.Intn(86400)) - 43200}
		default:
			o.K = "read"
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

var _ = core.Hex
