package eco

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/tinylib/msgp/msgp"
	"verif/core"
	"verif/simrt"
)

// ---- C20, C21, C22: EAI

// lock is what an account's lock record says at some moment.
type lock struct {
	notice int64
	uo     *int64
	bonus  int64
}

func (l *lock) GetNoticePeriod() types.Duration { return types.Duration(l.notice) }
func (l *lock) GetUnlocksOn() *types.Timestamp {
	if l.uo == nil {
		return nil
	}
	t := types.Timestamp(*l.uo)
	return &t
}
func (l *lock) GetBonusRate() eai.Rate { return eai.Rate(l.bonus) }

// period is one lock of an account's history: made at `at`, notified at
// `notify` (never, if 0), over at uo.
type period struct {
	at, notice, bonus, notify, uo int64
}

// history is everything about an account that does not depend on when its EAI
// is calculated.
type history struct {
	rows           []eai.RTRow
	t0, start, end int64 // effective opening, last EAI before the history, end
	balance        int64
	locks          []period
	breaks         []int64 // instants at which the rate may change
	maxRate        int64
	increasing     bool
}

// genRows draws a rate table.
func genRows(r *rng, increasing bool) []eai.RTRow {
	switch r.Intn(8) {
	case 0:
		return append([]eai.RTRow{}, eai.DefaultUnlockedEAI...)
	case 1:
		return nil
	}
	n := 1 + r.Intn(8)
	long := r.Chance(8) // a table with many rows
	if long {
		n = r.Range(9, 70)
	}
	var out []eai.RTRow
	from, rate := int64(0), int64(0)
	if r.Chance(2) {
		from = genSpan(r)
	}
	for i := 0; i < n; i++ {
		if increasing {
			rate += int64(r.Next()>>1) % (one / 50)
			if r.Chance(4) { // whole percents
				rate += one/100 - rate%(one/100)
			}
		} else {
			rate = int64(r.Next()>>1) % (one * 15 / 100)
			if r.Chance(5) {
				rate = 0
			}
		}
		if rate > one*15/100 {
			rate = one * 15 / 100
		}
		out = append(out, eai.RTRow{From: types.Duration(from), Rate: eai.Rate(rate)})
		if step := genSpan(r); !long {
			from += 1 + step
		} else if r.Chance(6) {
			from += 1 + step%sec
		} else {
			from += 1 + step/16
		}
		if from > 4*year {
			break
		}
	}
	return out
}

// genSpan draws a length of time: from microseconds to a year.
func genSpan(r *rng) int64 {
	switch r.Intn(6) {
	case 0:
		return int64(r.Intn(13)) * 30 * day
	case 1:
		return int64(r.Intn(400)) * day
	case 2:
		return int64(r.Next()>>1) % (100 * day)
	case 3:
		return int64(r.Intn(100_000)) * sec
	case 4:
		return int64(r.Intn(30)) * day
	}
	return int64(r.Next()>>1) % year
}

// makeHistory draws an account's history from a seed.
func makeHistory(seed int64, increasing bool) *history {
	r := simrt.NewRNG(uint64(seed))
	h := &history{increasing: increasing, rows: genRows(r, increasing)}
	for _, x := range h.rows {
		h.maxRate = max(h.maxRate, int64(x.Rate))
	}
	h.t0 = int64(r.Intn(20))*year + int64(r.Next()>>1)%year
	if r.Chance(5) {
		h.t0 = 0
	}
	h.start = h.t0
	switch r.Intn(4) {
	case 0:
		h.start += genSpan(r)
	case 1:
		if h.t0 > 2*year { // younger than its last EAI
			h.start -= genSpan(r)
		}
	}
	switch r.Intn(6) {
	case 0:
		h.balance = int64(r.Next() >> uint(2+r.Intn(40)))
	case 1:
		h.balance = int64(r.Intn(1000))
	case 2:
		h.balance = int64(r.Intn(2_000_000_000)) * unit
	default:
		h.balance = int64(r.Next()>>1) % (20_000_000 * unit)
	}
	total := 1 + genSpan(r)*int64(1+r.Intn(3))
	t := h.start
	maxBonus := int64(0)
	if r.Intn(4) > 0 {
		for i := r.Range(1, 2); i > 0; i-- {
			l := period{at: max(t, h.t0)}
			if h.start < h.t0 && t < h.t0 && r.Chance(2) {
				l.at = t // locked when a deposit made the account this young
			}
			if r.Chance(2) {
				l.at += genSpan(r) / 4
			}
			l.notice = genSpan(r)
			if r.Chance(2) {
				l.notice = int64(r.Range(1, 12)) * 30 * day
			}
			if r.Chance(8) { // a very long one
				l.notice = int64(r.Range(1, 12)) * year
			}
			l.bonus = int64(r.Intn(6)) * one / 100
			if r.Chance(3) {
				l.bonus = int64(r.Next()>>1) % (one * 5 / 100)
			}
			maxBonus = max(maxBonus, l.bonus)
			l.uo = math.MaxInt64
			last := true
			if r.Intn(4) > 0 {
				last = false
				l.notify = l.at
				if r.Intn(4) > 0 {
					l.notify += genSpan(r) / 2
				}
				l.notify = max(l.notify, 1)
				l.uo = l.notify + l.notice
				t = l.uo
				if r.Chance(2) {
					t += genSpan(r) / 4
				}
			}
			h.locks = append(h.locks, l)
			if last {
				break
			}
		}
	}
	h.end = max(h.start, h.t0) + total
	if n := len(h.locks); n > 0 {
		l := h.locks[n-1]
		// mostly: see the end of the last lock, or stop somewhere inside it
		if l.notify != 0 && r.Intn(4) > 0 {
			h.end = max(h.end, l.uo+genSpan(r)/2)
		} else {
			h.end = max(h.end, l.at+genSpan(r))
		}
	}
	h.maxRate += maxBonus
	// no single calculation may exceed what the exponential accepts
	if h.maxRate > 0 {
		lim := new(big.Int).Mul(bi(one), bi(year))
		lim.Mul(lim, bi(95)).Quo(lim, bi(100)).Quo(lim, bi(h.maxRate))
		if lim.IsInt64() && h.end-h.start > lim.Int64() {
			h.end = h.start + lim.Int64()
		}
	}
	h.end = max(h.end, h.start)
	set := map[int64]bool{}
	add := func(t int64) {
		if t > h.start && t < h.end {
			set[t] = true
		}
	}
	add(h.t0)
	for _, x := range h.rows {
		add(h.t0 + int64(x.From))
		for _, l := range h.locks {
			add(h.t0 + int64(x.From) - l.notice)
		}
	}
	for _, l := range h.locks {
		add(l.at)
		if l.notify != 0 {
			add(l.notify)
			add(l.uo)
		}
	}
	for t := range set {
		h.breaks = append(h.breaks, t)
	}
	sort.Slice(h.breaks, func(i, j int) bool { return h.breaks[i] < h.breaks[j] })
	return h
}

func (h *history) table() eai.RateTable { return append(eai.RateTable{}, h.rows...) }

// reload puts rows where other rows were: a node reads its rate table again
// into the same memory after the rates were changed. Before that, ask is
// called with the old rates, which are nobody's business afterwards.
func reload(e *env, buf *eai.RateTable, rows []eai.RTRow, how int64, ask func(eai.RateTable)) eai.RateTable {
	if cap(*buf) < len(rows) {
		*buf = make(eai.RateTable, 0, max(len(rows), 70))
	}
	t := append((*buf)[:0], rows...)
	for i := range t {
		switch {
		case how%3 == 0:
			t[i].Rate = t[i].Rate/2 + eai.Rate(one/100)
		case how%3 == 1:
			t[i].From += types.Duration(how%7) * types.Duration(day)
		case i > 0 && i < len(t)-1:
			t[i].Rate = t[i-1].Rate
		}
	}
	e.Fault("rates changed")
	ask(t)
	*buf = append(t[:0], rows...)
	return *buf
}

// tableRate is the rate for an age.
func (h *history) tableRate(age int64) int64 {
	rate := int64(0)
	for _, x := range h.rows {
		if int64(x.From) <= age {
			rate = int64(x.Rate)
		}
	}
	return rate
}

// active is the lock in force at an instant.
func (h *history) active(t int64) *period {
	for i := range h.locks {
		l := &h.locks[i]
		if l.at <= t && t < l.uo {
			return l
		}
	}
	return nil
}

// rateAt is the rate in force from an instant on.
func (h *history) rateAt(t int64) int64 {
	l := h.active(t)
	switch {
	case l == nil:
		return h.tableRate(t - h.t0)
	case l.notify != 0 && l.notify <= t:
		return h.tableRate(l.uo-h.t0) + l.bonus
	}
	return h.tableRate(t-h.t0+l.notice) + l.bonus
}

// growth is the exponent of growth from a to b, and the number of different
// rate periods touched.
func (h *history) growth(a, b int64) (x float64, rows int) {
	a = max(a, h.t0)
	if b <= a {
		return 0, 0
	}
	sum := new(big.Int)
	t := a
	step := func(u int64) {
		if u > t {
			sum.Add(sum, new(big.Int).Mul(bi(h.rateAt(t)), bi(u-t)))
			rows++
			t = u
		}
	}
	for _, u := range h.breaks {
		if u > a && u < b {
			step(u)
		}
	}
	step(b)
	f, _ := new(big.Rat).SetFrac(sum, new(big.Int).Mul(bi(one), bi(year))).Float64()
	return f, rows
}

// record is the account's lock record for a calculation over (last, t]: the
// lock made at or before last, with what has been notified by t.
func (h *history) record(last, t int64, expired bool) eai.Lock {
	for i := len(h.locks) - 1; i >= 0; i-- {
		l := h.locks[i]
		if l.at > last {
			continue
		}
		if l.notify != 0 && l.uo <= last && !expired {
			return nil
		}
		r := &lock{notice: l.notice, bonus: l.bonus}
		if l.notify != 0 && l.notify <= t {
			uo := l.uo
			r.uo = &uo
		}
		return r
	}
	return nil
}

// tolerance is what rounding can make up in one calculation: one napu, and per
// rate period 5 steps of the fixed-point factor.
func tolerance(balance int64, x float64, rows int) float64 {
	b := float64(balance)
	return 1 + b*math.Exp(x)*(float64(5*rows+8)*1e-12) + b*x*1e-14
}

// instant is the time an operation means.
func (h *history) instant(o op) int64 {
	span := h.end - h.start
	if o.Arg(0) == 1 && len(h.breaks) > 0 {
		return min(max(pick(h.breaks, o.Arg(1))+o.Arg(2), h.start), h.end)
	}
	return h.start + new(big.Int).Div(new(big.Int).Mul(bi(span), bi(abs64(o.Arg(1))%1_000_000)), bi(1_000_000)).Int64()
}

func genInstant(r *rng) []int64 {
	a := []int64{0, int64(r.Intn(1_000_000)), 0}
	if r.Chance(2) {
		a[0], a[1], a[2] = 1, int64(r.Intn(64)), []int64{0, 0, 1, -1, sec, -sec, 12345}[r.Intn(7)]
	}
	return append(a, int64(r.Intn(8)))
}

func (h *history) String() string {
	s := fmt.Sprintf("account opened %d, last EAI %d, balance %d, table", h.t0, h.start, h.balance)
	for _, x := range h.rows {
		s += fmt.Sprintf(" %d:%d", int64(x.From), int64(x.Rate))
	}
	for _, l := range h.locks {
		s += fmt.Sprintf(", locked at %d (notice %d, bonus %d)", l.at, l.notice, l.bonus)
		if l.notify != 0 {
			s += fmt.Sprintf(" notified %d unlocking %d", l.notify, l.uo)
		}
	}
	return s
}

// replica is a node that keeps one account.
type replica struct {
	e       *env
	h       *history
	name    string
	bal     types.Ndau
	last    types.Timestamp
	waa     types.Duration
	waaAt   types.Timestamp
	disk    []byte
	buf     eai.RateTable
	reload  int64   // how the rates change before each calculation, or 0
	tol     float64 // accumulated, in napu at the end
	credits int
}

func (p *replica) store() {
	b, _ := p.bal.MarshalMsg(nil)
	b, _ = p.last.MarshalMsg(b)
	b, _ = p.waa.MarshalMsg(b)
	b, _ = p.waaAt.MarshalMsg(b)
	p.disk = b
}

func (p *replica) load() {
	rest := append([]byte{}, p.disk...)
	for _, v := range []msgp.Unmarshaler{&p.bal, &p.last, &p.waa, &p.waaAt} {
		var err error
		if rest, err = v.UnmarshalMsg(rest); err != nil {
			p.e.Fail("restart", "a stored account is not read: %v", err)
		}
	}
}

// wait brings the weighted average age up to an instant.
func (p *replica) wait(t int64) {
	if t <= int64(p.waaAt) {
		return
	}
	if err := p.waa.UpdateWeightedAverageAge(types.Timestamp(t).Since(p.waaAt), 0, p.bal); err != nil {
		p.e.Fail("age", "waiting from %d to %d: %v", p.waaAt, t, err)
	}
	p.waaAt = types.Timestamp(t)
}

// credit calculates and credits EAI at t.
func (p *replica) credit(t int64, expired bool) int64 {
	e, h := p.e, p.h
	p.wait(t)
	last := int64(p.last)
	if want := max(t-h.t0, 0); int64(p.waa) != want {
		e.Fail("age", "%s: the age at %d is %d, want %d", h, t, int64(p.waa), want)
	}
	var got types.Ndau
	var err error
	l := h.record(last, t, expired)
	table := h.table()
	if p.reload != 0 {
		table = reload(e, &p.buf, h.rows, p.reload+t, func(old eai.RateTable) {
			e.Guard("eai.Calculate", func() { eai.Calculate(p.bal, types.Timestamp(t), p.last, p.waa, l, old, true) })
		})
	}
	e.Guard("eai.Calculate", func() {
		got, err = eai.Calculate(p.bal, types.Timestamp(t), p.last, p.waa, l, table, true)
	})
	if err != nil {
		e.Fail("refused", "%s: EAI from %d to %d on %d: %v", h, last, t, int64(p.bal), err)
	}
	x, rows := h.growth(last, t)
	want := float64(p.bal) * math.Expm1(x)
	tol := tolerance(int64(p.bal), x, rows)
	if math.Abs(float64(got)-want) > tol {
		e.Fail("amount", "%s: EAI from %d to %d on %d is %d, the rate history gives %.3f (tolerance %.3f)", h, last, t, int64(p.bal), int64(got), want, tol)
	}
	// what an error is worth at the end
	y, _ := h.growth(t, h.end)
	p.tol += tol * math.Exp(y)
	nb, err := p.bal.Add(got)
	if err != nil {
		e.Fail("refused", "crediting %d to %d: %v", int64(got), int64(p.bal), err)
	}
	p.bal = nb
	p.last = types.Timestamp(t)
	return int64(got)
}

func execC20(e *env) {
	h := makeHistory(e.Plan.Cfg["seed"], false)
	if h.balance > math.MaxInt64/8 {
		h.balance = math.MaxInt64 / 8
	}
	type outcome struct {
		who string
		bal int64
	}
	same := map[string]outcome{}
	var done []*replica
	var ts []*simrt.Task
	for _, a := range e.Plan.Actors() {
		type at struct {
			t int64
			o op
		}
		var steps []at
		for _, o := range e.Plan.ActorOps(a) {
			steps = append(steps, at{h.instant(o), o})
		}
		// locking and the end always calculate
		for _, l := range h.locks {
			if l.at >= h.start && l.at <= h.end {
				steps = append(steps, at{l.at, op{K: "calc"}})
			}
		}
		steps = append(steps, at{h.end, op{K: "calc"}})
		sort.SliceStable(steps, func(i, j int) bool { return steps[i].t < steps[j].t })
		p := &replica{e: e, h: h, name: fmt.Sprintf("replica %d", a), bal: types.Ndau(h.balance), last: types.Timestamp(h.start)}
		p.reload = abs64(e.Plan.Cfg["reload"])
		p.waaAt = types.Timestamp(max(h.start, h.t0))
		p.waa = p.waaAt.Since(types.Timestamp(h.t0))
		p.store()
		done = append(done, p)
		ts = append(ts, simrt.GoNamed(p.name, func() {
			key := ""
			for _, s := range steps {
				if f, ok := s.o.Fault("late"); ok {
					e.Fault("late")
					simrt.Sleep(durNS(1 + abs64(f.Arg(0))))
				}
				if s.t != int64(p.last) || s.o.K == "dup" {
					first := p.tol
					process(e, s.o, p.load, func() {
						p.tol = first
						n := 1
						if s.o.K == "dup" {
							n = 2
						}
						for i := 0; i < n; i++ {
							again := int64(p.last) == s.t
							got := p.credit(s.t, s.o.Arg(3)&1 == 0)
							if again && got != 0 {
								e.Fail("again", "%s: a second calculation at %d credits %d", h, s.t, got)
							}
							if again {
								e.Fault("duplicate calculation")
							}
						}
						simrt.Step()
						p.store()
					})
					p.credits++
					key += fmt.Sprintf("%d;", s.t)
				}
				simrt.Event("%s at %d: %d", p.name, s.t, int64(p.bal))
			}
			o, seen := same[key]
			if seen && o.bal != int64(p.bal) {
				e.Fail("replicas", "%s: %s and %s calculated at the same instants and hold %d and %d", h, p.name, o.who, int64(p.bal), o.bal)
			}
			if seen {
				e.Probe("same instants twice")
			}
			same[key] = outcome{p.name, int64(p.bal)}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	x, _ := h.growth(h.start, h.end)
	want := float64(h.balance) * math.Exp(x)
	for _, p := range done {
		if d := math.Abs(float64(p.bal) - want); d > p.tol+float64(h.balance)*1e-14 {
			e.Fail("total", "%s: after %d calculations the balance is %d, the rate history gives %.3f (tolerance %.3f)", h, p.credits, int64(p.bal), want, p.tol)
		}
		if len(h.locks) > 0 && h.locks[0].notify != 0 && h.locks[0].uo < h.end {
			e.Probe("unlocked during the history")
		}
		e.State("eai", len(h.rows), len(h.locks), p.credits, len(h.breaks))
	}
}

func genC20(r *rng, thorough bool) *plan {
	p := &plan{Cfg: map[string]int64{"seed": int64(r.Next() >> 1)}}
	if r.Chance(4) {
		p.Cfg["reload"] = int64(1 + r.Intn(60))
	}
	np := r.Range(1, 3)
	for a := 0; a < np; a++ {
		if a > 0 && r.Chance(3) {
			// the same instants as the first replica, other faults
			for _, o := range p.ActorOps(0) {
				o.T = a
				o.F = genCrash(r, 3)
				p.Ops = append(p.Ops, o)
			}
			continue
		}
		n := r.Intn(8)
		if thorough || r.Chance(6) {
			n = r.Intn(40)
		}
		for i := 0; i < n; i++ {
			o := op{T: a, K: "calc", A: genInstant(r), F: genCrash(r, 5)}
			if r.Chance(6) {
				o.K = "dup"
			}
			if r.Chance(6) {
				o.F = append(o.F, core.Fault{K: "late", A: []int64{int64(r.Intn(1_000_000))}})
			}
			p.Ops = append(p.Ops, o)
		}
		if n == 0 {
			p.Ops = append(p.Ops, op{T: a, K: "calc", A: []int64{0, 0, 0, 0}})
		}
	}
	return p
}

// ---- C21: the advertised rate

func execC21(e *env) {
	h := makeHistory(e.Plan.Cfg["seed"], false)
	h.balance = max(h.balance, 1_000_000*unit)
	e.RunActors(func(a int, o op, ix int) {
		t := max(h.instant(o), h.t0)
		if t > h.end {
			return
		}
		// nodes learn of a lock and its notice when it happens
		l := h.record(t, t, o.Arg(3)&1 == 0)
		if o.Arg(3)&1 == 1 && h.active(t) == nil {
			l = nil
		}
		age := t - h.t0
		want := h.rateAt(t)
		table := h.table()
		changed := func(ask func(eai.RateTable)) {
			if f, ok := o.Fault("rates"); ok {
				var buf eai.RateTable
				table = reload(e, &buf, h.rows, abs64(f.Arg(0)), ask)
			}
		}
		changed(func(old eai.RateTable) {
			e.Guard("eai.CalculateEAIRate", func() { eai.CalculateEAIRate(types.Duration(age), l, old, types.Timestamp(t)) })
		})
		var got eai.Rate
		e.Guard("eai.CalculateEAIRate", func() {
			got = eai.CalculateEAIRate(types.Duration(age), l, table, types.Timestamp(t))
		})
		if int64(got) != want {
			e.Fail("rate", "%s: the rate advertised at %d is %d, the history says %d", h, t, int64(got), want)
		}
		// until the next change
		next := h.end
		for _, b := range h.breaks {
			if b > t {
				next = b
				break
			}
		}
		if _, ok := o.Fault("late"); ok {
			e.Fault("late")
			next = t + max(1, (next-t)/3)
		}
		if next <= t {
			return
		}
		x := float64(got) * float64(next-t) / float64(one) / float64(year)
		var amt types.Ndau
		var err error
		changed(func(old eai.RateTable) {
			e.Guard("eai.Calculate", func() {
				eai.Calculate(types.Ndau(h.balance), types.Timestamp(next), types.Timestamp(t), types.Duration(next-h.t0), l, old, true)
			})
		})
		e.Guard("eai.Calculate", func() {
			amt, err = eai.Calculate(types.Ndau(h.balance), types.Timestamp(next), types.Timestamp(t), types.Duration(next-h.t0), l, table, true)
		})
		if err != nil {
			e.Fail("refused", "%s: EAI from %d to %d: %v", h, t, next, err)
		}
		credit := float64(h.balance) * math.Expm1(x)
		if d := math.Abs(float64(amt) - credit); d > tolerance(h.balance, x, 1) {
			e.Fail("credit", "%s: at %d the rate %d is advertised, but from then to %d (no change in between) %d is credited instead of %.3f", h, t, int64(got), next, int64(amt), credit)
		}
		kind := "unlocked"
		if p := h.active(t); p != nil {
			kind = "locked"
			if p.notify != 0 && p.notify <= t {
				kind = "notified"
			}
		}
		e.Probe(kind)
		simrt.Event("rate at %d is %d", t, int64(got))
		e.State("rate", kind, len(h.rows), l == nil, o.Arg(0), o.Arg(2))
	})
}

func genC21(r *rng, thorough bool) *plan {
	p := &plan{Cfg: map[string]int64{"seed": int64(r.Next() >> 1)}}
	np := r.Range(1, 2)
	n := r.Range(3, 10)
	if thorough {
		n = r.Range(5, 40)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), K: "ask", A: genInstant(r)}
		if r.Chance(4) {
			o.F = []core.Fault{{K: "late"}}
		}
		if r.Chance(4) {
			o.F = append(o.F, core.Fault{K: "rates", A: []int64{int64(r.Intn(60))}})
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// ---- C22: zero, monotone, no wrapping

// outcome of one calculation; errors count as more than any amount.
type amount struct {
	v   int64
	err error
}

func (a amount) less(b amount) bool {
	switch {
	case a.err != nil:
		return false
	case b.err != nil:
		return true
	}
	return a.v < b.v
}

func (a amount) String() string {
	if a.err != nil {
		return "an error (" + a.err.Error() + ")"
	}
	return fmt.Sprint(a.v)
}

type question struct {
	bal, last, t, t0 int64
	l                *lock
	table            eai.RateTable
	fix              bool
}

func (q question) String() string {
	s := fmt.Sprintf("balance %d, last EAI %d, now %d, opened %d", q.bal, q.last, q.t, q.t0)
	if q.l != nil {
		s += fmt.Sprintf(", notice %d, bonus %d", q.l.notice, q.l.bonus)
		if q.l.uo != nil {
			s += fmt.Sprintf(", unlocking %d", *q.l.uo)
		}
	}
	for _, x := range q.table {
		s += fmt.Sprintf(" %d:%d", int64(x.From), int64(x.Rate))
	}
	return s
}

func (q question) ask(e *env) (a amount) {
	var l eai.Lock
	if q.l != nil {
		l = q.l
	}
	e.Guard("eai.Calculate", func() {
		v, err := eai.Calculate(types.Ndau(q.bal), types.Timestamp(q.t), types.Timestamp(q.last), types.Duration(q.t-q.t0), l, q.table, q.fix)
		a = amount{int64(v), err}
	})
	if a.err == nil && a.v < 0 {
		e.Fail("negative", "%s: the EAI is %d", q, a.v)
	}
	return
}

// asHistory is the same account as a history.
func (q question) asHistory() *history {
	h := &history{rows: q.table, t0: q.t0, start: q.last, end: q.t, balance: q.bal}
	if q.l != nil {
		p := period{at: min(q.last, q.t0), notice: q.l.notice, bonus: q.l.bonus, uo: math.MaxInt64}
		if q.l.uo != nil {
			p.uo = *q.l.uo
			p.notify = max(1, *q.l.uo-q.l.notice)
		}
		h.locks = []period{p}
	}
	set := map[int64]bool{q.t0: true}
	for _, x := range h.rows {
		set[h.t0+int64(x.From)] = true
		if q.l != nil {
			set[h.t0+int64(x.From)-q.l.notice] = true
		}
	}
	for _, l := range h.locks {
		set[l.notify] = true
		set[l.uo] = true
	}
	for t := range set {
		if t > h.start && t < h.end {
			h.breaks = append(h.breaks, t)
		}
	}
	sort.Slice(h.breaks, func(i, j int) bool { return h.breaks[i] < h.breaks[j] })
	return h
}

// exponents are the largest exponent of one stretch at the same rate, and the
// sum of all.
func (h *history) exponents() (most, sum float64, rows int) {
	t := max(h.start, h.t0)
	x, rate := 0.0, int64(-1)
	step := func(u int64) {
		if u > t {
			if r := h.rateAt(t); r != rate {
				x, rate = 0, r
				rows++
			}
			y := float64(rate) * float64(u-t) / float64(one) / float64(year)
			x += y
			sum += y
			most = math.Max(most, x)
			t = u
		}
	}
	for _, u := range h.breaks {
		step(u)
	}
	step(h.end)
	return
}

// genQuestion draws an account; with an increasing table.
func genQuestion(r *rng) question {
	h := makeHistory(int64(r.Next()>>1), true)
	q := question{bal: h.balance, t0: h.t0, last: h.start, table: h.table(), fix: true}
	q.t = max(q.last, q.t0) + genSpan(r)*int64(1+r.Intn(3))
	switch r.Intn(8) {
	case 0: // high rates
		f := eai.Rate(1 + r.Intn(40))
		for i := range q.table {
			q.table[i].Rate *= f
		}
	case 1: // long periods
		q.t += genSpan(r) * int64(r.Intn(40))
	case 2:
		q.bal = int64(r.Next() >> 1)
	}
	if r.Intn(3) > 0 {
		q.l = &lock{notice: genSpan(r), bonus: int64(r.Intn(6)) * one / 100}
		if r.Chance(8) {
			q.l.notice = int64(r.Range(1, 12)) * year
		}
		if r.Chance(3) {
			q.l.bonus = int64(r.Next()>>1) % (one / 10)
		}
		if r.Intn(3) > 0 {
			// notified at some time since the account was opened
			notify := max(q.t0, 1)
			if q.t > notify {
				notify += int64(r.Next()>>1) % (q.t - notify + 1)
			}
			if r.Chance(3) {
				notify = q.t
			}
			uo := notify + q.l.notice
			q.l.uo = &uo
		}
	}
	return q
}

func execC22(e *env) {
	e.RunActors(func(a int, o op, ix int) {
		r := simrt.NewRNG(uint64(o.Arg(0)))
		q := genQuestion(r)
		base := q.ask(e)
		more := func(what string, v question) {
			if base.err != nil { // refused: there is nothing to compare
				e.Probe("refused")
				return
			}
			e.Probe(what)
			if got := v.ask(e); got.less(base) {
				e.Fail(what, "%s: the EAI is %s; with %s (%s) it is only %s", q, base, what, v, got)
			}
		}
		switch o.K {
		case "zero":
			for _, z := range []question{q, q, q} {
				z.last = z.t
				if got := z.ask(e); got.err != nil || got.v != 0 {
					e.Fail("no time", "%s: the EAI is %s", z, got)
				}
				z.last = z.t + int64(r.Intn(1000))*sec // an older block replayed
				e.Fault("replayed block")
				if got := z.ask(e); got.err != nil || got.v != 0 {
					e.Fail("no time", "%s: the EAI is %s", z, got)
				}
				z = q
				z.bal = 0
				if got := z.ask(e); got.v != 0 {
					e.Fail("no balance", "%s: the EAI is %s", z, got)
				}
				z.bal = -int64(r.Next()>>1) >> uint(r.Intn(60))
				if z.bal < 0 {
					if got := z.ask(e); got.err == nil && got.v != 0 {
						e.Fail("negative balance", "%s: the EAI is %s", z, got)
					}
				}
			}
		case "time":
			v := q
			v.t += []int64{1, sec, genSpan(r), 1 + genSpan(r)}[r.Intn(4)]
			if q.l != nil && q.l.uo != nil && r.Chance(2) {
				v.t = max(q.t, *q.l.uo+int64(r.Intn(3))-1)
			}
			more("more time", v)
		case "balance":
			v := q
			v.bal += min(math.MaxInt64-v.bal, []int64{1, unit, int64(r.Next() >> 1), q.bal}[r.Intn(4)])
			more("more balance", v)
		case "bonus":
			v := q
			l := lock{}
			if q.l == nil {
				return
			}
			l = *q.l
			l.bonus += []int64{1, one / 100, int64(r.Next()>>1) % one}[r.Intn(3)]
			v.l = &l
			more("more bonus", v)
		case "fits":
			if r.Chance(2) {
				q.bal = int64(r.Next() >> 1)
			}
			if r.Chance(3) {
				rows := append([]eai.RTRow{}, q.table...)
				var buf eai.RateTable
				q.table = reload(e, &buf, rows, int64(r.Intn(60)), func(old eai.RateTable) {
					v := q
					v.table = old
					v.ask(e)
				})
			}
			base = q.ask(e)
			h := q.asHistory()
			most, sum, rows := h.exponents()
			want := float64(q.bal) * math.Expm1(sum)
			tol := tolerance(q.bal, sum, rows)
			if base.err == nil && math.Abs(float64(base.v)-want) > tol+want*1e-9 {
				e.Fail("wrapped", "%s: the EAI is %s, the rate history gives %.3f", q, base, want)
			}
			if base.err != nil && most < 0.99 && sum < 16 && want*(1+1e-9)+tol < math.MaxInt64 {
				e.Fail("refused", "%s: the EAI of %.3f fits, but the answer is %s", q, want, base)
			}
			if base.err != nil {
				e.Probe("refused")
			}
		case "frozen":
			if q.l == nil || q.l.uo == nil {
				return
			}
			// the rate while notified is not above the unfrozen one at the end
			uo := *q.l.uo
			var frozen, free eai.Rate
			at := min(q.t, uo-1)
			if at < q.t0 {
				return
			}
			e.Guard("eai.CalculateEAIRate", func() {
				frozen = eai.CalculateEAIRate(types.Duration(at-q.t0), q.l, q.table, types.Timestamp(at))
				open := *q.l
				open.uo = nil
				free = eai.CalculateEAIRate(types.Duration(uo-q.t0), &open, q.table, types.Timestamp(uo))
			})
			if frozen > free {
				e.Fail("frozen", "%s: the frozen rate %d is above %d, the unfrozen one at the end", q, int64(frozen), int64(free))
			}
			// and so the credit over the notice period
			v := q
			v.last = max(q.t0, uo-q.l.notice)
			v.t = uo
			open := *q.l
			open.uo = nil
			w := v
			w.l = &open
			_, sum, _ := w.asHistory().exponents()
			// rows that have the same rate may still be rounded one by one
			tol := tolerance(v.bal, sum, len(v.table)+1)
			if a, b := w.ask(e), v.ask(e); a.err == nil && b.err == nil && float64(b.v)-float64(a.v) > tol {
				e.Fail("frozen", "%s: frozen the EAI is %s, unfrozen %s", v, b, a)
			}
			e.Probe("frozen")
		}
		simrt.Event("%s %s", o.K, base)
		e.State("eai", o.K, len(q.table), q.l == nil, q.l != nil && q.l.uo != nil, base.err == nil)
	})
}

func genC22(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 2)
	n := r.Range(3, 10)
	if thorough {
		n = r.Range(5, 40)
	}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, op{T: r.Intn(np), K: []string{"zero", "time", "balance", "bonus", "fits", "frozen"}[r.Intn(6)], A: []int64{int64(r.Next() >> 1)}})
	}
	return p
}
