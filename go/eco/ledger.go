package eco

import (
	"math"
	"math/big"

	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"github.com/tinylib/msgp/msgp"
	"verif/core"
	"verif/simrt"
)

// ---- C23: weighted average age

// aged is one account on one replica, with the exact coin-age beside it.
type aged struct {
	bal  types.Ndau
	waa  types.Duration
	at   types.Timestamp
	born int64
	coin *big.Rat // exact balance x age
	slip *big.Rat // how much coin-age rounding may have lost
}

type ages struct {
	e    *env
	name string
	acc  []*aged
	disk [][]byte
}

func (p *ages) store(i int) {
	a := p.acc[i]
	b, _ := a.bal.MarshalMsg(nil)
	b, _ = a.waa.MarshalMsg(b)
	b, _ = a.at.MarshalMsg(b)
	p.disk[i] = b
}

func (p *ages) load(i int) {
	a := p.acc[i]
	rest := append([]byte{}, p.disk[i]...)
	for _, v := range []msgp.Unmarshaler{&a.bal, &a.waa, &a.at} {
		var err error
		if rest, err = v.UnmarshalMsg(rest); err != nil {
			p.e.Fail("restart", "a stored account is not read: %v", err)
		}
	}
}

// update applies a transfer of qty (or waiting, qty 0) at t, and reports
// whether it was possible.
func (p *ages) update(i int, t, qty int64) bool {
	e, a := p.e, p.acc[i]
	since := t - int64(a.at)
	before := *a
	var err error
	e.Guard("UpdateWeightedAverageAge", func() {
		err = a.waa.UpdateWeightedAverageAge(types.Duration(since), types.Ndau(qty), a.bal)
	})
	// what must happen
	age := new(big.Int).Add(bi(int64(before.waa)), bi(since))
	nb := new(big.Int).Add(bi(int64(before.bal)), bi(qty))
	ok := age.IsInt64()
	want := age
	if qty >= 0 {
		ok = ok && nb.IsInt64()
		if nb.Sign() > 0 {
			want = new(big.Int).Quo(new(big.Int).Mul(age, bi(int64(before.bal))), nb)
		}
	}
	if ok != (err == nil) {
		e.Fail("overflow", "%s: age %d, waiting %d, receiving %d on %d: %s", p.name, int64(before.waa), since, qty, int64(before.bal), errText(err))
	}
	if err != nil {
		e.Probe("overflow refused")
		if a.waa != before.waa {
			e.Fail("changed", "a refused update changed the age from %d to %d", int64(before.waa), int64(a.waa))
		}
		return false
	}
	if bi(int64(a.waa)).Cmp(want) != 0 {
		e.Fail("age", "%s: age %d, waiting %d, receiving %d on %d gives age %d, want %s", p.name, int64(before.waa), since, qty, int64(before.bal), int64(a.waa), want)
	}
	if a.waa < 0 || int64(a.waa) > t-a.born {
		e.Fail("range", "%s: the age is %d in an account that is %d old", p.name, int64(a.waa), t-a.born)
	}
	a.at = types.Timestamp(t)
	nbal, err := a.bal.Add(types.Ndau(qty))
	if err != nil {
		e.Fail("refused", "%d and %d cannot be added: %v", int64(a.bal), qty, err)
	}
	a.bal = nbal
	return true
}

// follow applies the same to the exact coin-age; it is not part of a crash.
func (p *ages) follow(i int, bal, since, qty int64) {
	a := p.acc[i]
	r := func(x int64) *big.Rat { return new(big.Rat).SetInt64(x) }
	a.coin.Add(a.coin, new(big.Rat).Mul(r(bal), r(since)))
	switch {
	case qty > 0:
		a.slip.Add(a.slip, r(bal+qty))
		if bal == 0 {
			a.coin, a.slip = new(big.Rat), r(bal+qty)
		}
	case qty < 0 && bal+qty > 0:
		f := new(big.Rat).SetFrac(bi(bal+qty), bi(bal))
		a.coin.Mul(a.coin, f)
		a.slip.Mul(a.slip, f)
	case qty < 0:
		a.coin, a.slip = new(big.Rat), new(big.Rat)
	}
	have := new(big.Rat).Mul(r(int64(a.bal)), r(int64(a.waa)))
	low := new(big.Rat).Sub(a.coin, a.slip)
	if a.bal > 0 && (have.Cmp(a.coin) > 0 || have.Cmp(low) < 0) {
		p.e.Fail("coin-age", "%s account %d: balance x age is %s, the coin-age is %s (rounding allows %s less)", p.name, i, have.FloatString(1), a.coin.FloatString(1), a.slip.FloatString(1))
	}
}

// impossible asks for an update of any elapsed time and quantity whatever, as
// a node with a broken clock would, on a copy of the account.
func (p *ages) impossible(i int, since, qty int64) {
	e := p.e
	for _, waa := range []int64{int64(p.acc[i].waa), math.MaxInt64, math.MaxInt64 - abs64(since)/2} {
		d := types.Duration(waa)
		bal := p.acc[i].bal
		var err error
		e.Guard("UpdateWeightedAverageAge", func() {
			err = d.UpdateWeightedAverageAge(types.Duration(since), types.Ndau(qty), bal)
		})
		want := new(big.Int).Add(bi(waa), bi(since))
		ok := want.IsInt64()
		if nb := new(big.Int).Add(bi(int64(bal)), bi(qty)); qty >= 0 {
			ok = ok && nb.IsInt64()
			if nb.Sign() > 0 {
				want.Quo(want.Mul(want, bi(int64(bal))), nb)
			}
		}
		e.Fault("broken clock")
		if ok != (err == nil) {
			e.Fail("overflow", "%s: age %d, waiting %d, receiving %d on %d: %s, age %d", p.name, waa, since, qty, int64(bal), errText(err), int64(d))
		}
		if !ok {
			want = bi(waa)
		}
		if want.Cmp(bi(int64(d))) != 0 {
			e.Fail("overflow", "%s: age %d, waiting %d, receiving %d on %d gives age %d, want %s", p.name, waa, since, qty, int64(bal), int64(d), want)
		}
	}
}

// execC23: replicas apply the same list of blocks, at their own pace.
func execC23(e *env) {
	type block struct {
		o op
		t int64
	}
	var blocks []block
	t := abs64(e.Plan.Cfg["start"]) % (20 * year)
	start := t
	for _, o := range e.Plan.Ops {
		d := abs64(o.Arg(2))
		if o.K == "bad" {
			d = 0
		}
		if math.MaxInt64-t < d {
			d = 0
		}
		t += d
		blocks = append(blocks, block{o, t})
	}
	n := 2 + int(e.Plan.Cfg["accounts"]%4)
	var reps []*ages
	var ts []*simrt.Task
	for k := 0; k < 2+int(e.Plan.Cfg["replicas"]%2); k++ {
		p := &ages{e: e, name: "replica " + string(rune('A'+k)), disk: make([][]byte, n)}
		for i := 0; i < n; i++ {
			a := &aged{at: types.Timestamp(start), born: start, coin: new(big.Rat), slip: new(big.Rat)}
			if i == 0 {
				a.bal = types.Ndau(e.Plan.Cfg["supply"])
			}
			p.acc = append(p.acc, a)
			p.store(i)
		}
		reps = append(reps, p)
		ts = append(ts, simrt.GoNamed(p.name, func() {
			for _, b := range blocks {
				if f, ok := b.o.Fault("late"); ok {
					e.Fault("late")
					simrt.Sleep(durNS(1 + abs64(f.Arg(0))*int64(k+1)%5_000_000))
				}
				from, to := int(abs64(b.o.Arg(0)))%n, int(abs64(b.o.Arg(1)))%n
				touch := func(i int, qty int64) {
					a := p.acc[i]
					bal, since := int64(a.bal), b.t-int64(a.at)
					o := b.o
					if k == 0 {
						o.F = nil // one replica never crashes
					}
					done := false
					process(e, o, func() { p.load(i) }, func() {
						done = p.update(i, b.t, qty)
						simrt.Step()
						p.store(i)
					})
					if done {
						p.follow(i, bal, since, qty)
					}
				}
				switch b.o.K {
				case "wait":
					touch(to, 0)
				case "move":
					q := abs64(b.o.Arg(3))
					if have := int64(p.acc[from].bal); q > have {
						q %= have + 1
					}
					if q == 0 || from == to {
						touch(from, 0)
						continue
					}
					touch(from, -q)
					touch(to, q)
				case "bad":
					p.impossible(to, b.o.Arg(2), b.o.Arg(3))
				case "mint":
					touch(to, abs64(b.o.Arg(3)))
				}
				simrt.Event("%s %s", p.name, b.o.K)
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	for _, p := range reps[1:] {
		for i, a := range p.acc {
			b := reps[0].acc[i]
			if a.waa != b.waa || a.bal != b.bal || a.at != b.at {
				e.Fail("replicas", "account %d: %s has balance %d age %d, %s has balance %d age %d", i, p.name, int64(a.bal), int64(a.waa), reps[0].name, int64(b.bal), int64(b.waa))
			}
		}
	}
	e.State("ages", n, len(blocks), len(reps))
}

func genC23(r *rng, thorough bool) *plan {
	p := &plan{Cfg: map[string]int64{
		"start": int64(r.Next() >> 1), "accounts": int64(r.Intn(4)), "replicas": int64(r.Intn(2)),
		"supply": int64(r.Next()>>1) >> uint(r.Intn(62)),
	}}
	wild := r.Chance(3)
	n := r.Range(3, 14)
	if thorough {
		n = r.Range(5, 60)
	}
	for i := 0; i < n; i++ {
		o := op{K: []string{"wait", "move", "move", "move", "mint", "bad"}[r.Intn(6)]}
		d := genSpan(r)
		if r.Chance(4) {
			d = int64(r.Intn(3))
		}
		q := int64(r.Next()>>1) >> uint(r.Intn(62))
		if wild && r.Chance(3) {
			d, q = abs64(extreme(r)), abs64(extreme(r))
		}
		o.A = []int64{int64(r.Intn(6)), int64(r.Intn(6)), d, q}
		if o.K == "bad" {
			o.A[2], o.A[3] = extreme(r), extreme(r)
		}
		o.F = genCrash(r, 4)
		if r.Chance(3) {
			o.F = append(o.F, core.Fault{K: "late", A: []int64{int64(r.Intn(1_000_000))}})
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// ---- C24: arithmetic and conservation

// answer is the exact result, or nil where there is none.
func check64(e *env, what string, got int64, err error, want *big.Int) {
	if want != nil && !want.IsInt64() {
		want = nil
	}
	switch {
	case want == nil && err == nil:
		e.Fail("overflow", "%s gives %d, not an error", what, got)
	case want != nil && err != nil:
		e.Fail("refused", "%s gives an error (%v), want %s", what, err, want)
	case want != nil && bi(got).Cmp(want) != 0:
		e.Fail("wrong", "%s gives %d, want %s", what, got, want)
	}
}

func checkU64(e *env, what string, got uint64, err error, want *big.Int) {
	if want != nil && !want.IsUint64() {
		want = nil
	}
	switch {
	case want == nil && err == nil:
		e.Fail("overflow", "%s gives %d, not an error", what, got)
	case want != nil && err != nil:
		e.Fail("refused", "%s gives an error (%v), want %s", what, err, want)
	case want != nil && bu(got).Cmp(want) != 0:
		e.Fail("wrong", "%s gives %d, want %s", what, got, want)
	}
}

// sums checks every operation on three operands.
func sums(e *env, a, b, c int64) {
	A, B, C := bi(a), bi(b), bi(c)
	I := func() *big.Int { return new(big.Int) }
	two := func(name string, f func(int64, int64) (int64, error), want *big.Int) {
		var got int64
		var err error
		e.Guard("signed."+name, func() { got, err = f(a, b) })
		check64(e, sprint("signed.%s(%d, %d)", name, a, b), got, err, want)
	}
	two("Add", signed.Add, I().Add(A, B))
	two("Sub", signed.Sub, I().Sub(A, B))
	two("Mul", signed.Mul, I().Mul(A, B))
	two("Ndau.Add", func(x, y int64) (int64, error) { v, err := types.Ndau(x).Add(types.Ndau(y)); return int64(v), err }, I().Add(A, B))
	two("Ndau.Sub", func(x, y int64) (int64, error) { v, err := types.Ndau(x).Sub(types.Ndau(y)); return int64(v), err }, I().Sub(A, B))
	var q, m *big.Int
	if b != 0 {
		q, m = I().QuoRem(A, B, I())
	}
	two("Div", signed.Div, q)
	two("Mod", signed.Mod, m)
	both := m
	if q != nil && !q.IsInt64() {
		both = nil // the pair is refused when its quotient does not fit
	}
	two("DivMod quotient", func(x, y int64) (int64, error) { v, _, err := signed.DivMod(x, y); return v, err }, q)
	two("DivMod remainder", func(x, y int64) (int64, error) { _, v, err := signed.DivMod(x, y); return v, err }, both)
	var md *big.Int
	if c != 0 {
		md = I().Quo(I().Mul(A, B), C)
	}
	var got int64
	var err error
	e.Guard("signed.MulDiv", func() { got, err = signed.MulDiv(a, b, c) })
	check64(e, sprint("signed.MulDiv(%d, %d, %d)", a, b, c), got, err, md)
	if w := A.Cmp(B); types.Ndau(a).Compare(types.Ndau(b)) != w {
		e.Fail("compare", "Ndau.Compare(%d, %d) is not %d", a, b, w)
	}
	if abs := I().Abs(A); abs.IsInt64() && int64(types.Ndau(a).Abs()) != abs.Int64() {
		e.Fail("abs", "Ndau(%d).Abs is %d", a, int64(types.Ndau(a).Abs()))
	}
}

func sumsU(e *env, a, b, c uint64) {
	A, B, C := bu(a), bu(b), bu(c)
	I := func() *big.Int { return new(big.Int) }
	two := func(name string, f func(uint64, uint64) (uint64, error), want *big.Int) {
		var got uint64
		var err error
		e.Guard("unsigned."+name, func() { got, err = f(a, b) })
		checkU64(e, sprint("unsigned.%s(%d, %d)", name, a, b), got, err, want)
	}
	two("Add", unsigned.Add, I().Add(A, B))
	two("Sub", unsigned.Sub, I().Sub(A, B))
	two("Mul", unsigned.Mul, I().Mul(A, B))
	var q, m *big.Int
	if b != 0 {
		q, m = I().QuoRem(A, B, I())
	}
	two("Div", unsigned.Div, q)
	two("Mod", unsigned.Mod, m)
	two("DivMod quotient", func(x, y uint64) (uint64, error) { v, _, err := unsigned.DivMod(x, y); return v, err }, q)
	two("DivMod remainder", func(x, y uint64) (uint64, error) { _, v, err := unsigned.DivMod(x, y); return v, err }, m)
	var md *big.Int
	if c != 0 {
		md = I().Quo(I().Mul(A, B), C)
	}
	var got uint64
	var err error
	e.Guard("unsigned.MulDiv", func() { got, err = unsigned.MulDiv(a, b, c) })
	checkU64(e, sprint("unsigned.MulDiv(%d, %d, %d)", a, b, c), got, err, md)
}

// execC24: tellers move amounts in one ledger; tellers may crash half way, and
// finish their transfer from its journal.
func execC24(e *env) {
	n := 2 + int(e.Plan.Cfg["accounts"]%5)
	acc := make([]types.Ndau, n)
	r := simrt.NewRNG(uint64(e.Plan.Cfg["seed"]))
	total := new(big.Int)
	for i := range acc {
		acc[i] = types.Ndau(extreme(r))
		if e.Plan.Cfg["tame"] == 1 {
			acc[i] = types.Ndau(int64(r.Next() >> 1))
		}
		total.Add(total, bi(int64(acc[i])))
	}
	var mu simrt.Mutex
	audit := func(what string) {
		sum := new(big.Int)
		for _, a := range acc {
			sum.Add(sum, bi(int64(a)))
		}
		if sum.Cmp(total) != 0 {
			e.Fail("conserved", "after %s the accounts hold %s in total, %s before", what, sum, total)
		}
	}
	e.RunActors(func(a int, o op, ix int) {
		switch o.K {
		case "sum":
			sums(e, o.Arg(0), o.Arg(1), o.Arg(2))
			sumsU(e, uint64(o.Arg(0)), uint64(o.Arg(1)), uint64(o.Arg(2)))
			e.State("sum", size(o.Arg(0)), size(o.Arg(1)), size(o.Arg(2)))
		case "move", "fee":
			from, to := int(abs64(o.Arg(0)))%n, int(abs64(o.Arg(1)))%n
			if from == to {
				return
			}
			deliver(e, o, func(copyNo int) {
				mu.Lock()
				q := types.Ndau(o.Arg(2))
				if o.K == "fee" {
					// a share of the balance
					part, err := signed.MulDiv(int64(acc[from]), o.Arg(2), o.Arg(3))
					if err != nil {
						e.Probe("fee refused")
						mu.Unlock()
						return
					}
					q = types.Ndau(part)
				}
				var f, t types.Ndau
				var ef, et error
				journal := false
				teller := func() {
					if !journal {
						f, ef = acc[from].Sub(q)
						t, et = acc[to].Add(q)
						if ef != nil || et != nil {
							return
						}
						simrt.Step()
						journal = true
					}
					simrt.Step()
					acc[from] = f
					simrt.Step()
					acc[to] = t
				}
				wantF := new(big.Int).Sub(bi(int64(acc[from])), bi(int64(q)))
				wantT := new(big.Int).Add(bi(int64(acc[to])), bi(int64(q)))
				process(e, o, func() {}, teller)
				if wantF.IsInt64() != (ef == nil) || wantT.IsInt64() != (et == nil) {
					e.Fail("refused", "moving %d: %s and %s, exact results %s and %s", int64(q), errText(ef), errText(et), wantF, wantT)
				}
				if ef != nil || et != nil {
					e.Probe("transfer refused")
				}
				audit(o.K)
				simrt.Event("%s %v", o.K, ef == nil && et == nil)
				e.State("move", n, ef == nil, et == nil, size(int64(q)))
				mu.Unlock()
			})
		}
	})
}

// size is the class of a number.
func size(x int64) int {
	n := bi(x).BitLen() / 8
	if x < 0 {
		n = -n - 1
	}
	return n
}

func genC24(r *rng, thorough bool) *plan {
	p := &plan{Cfg: map[string]int64{"seed": int64(r.Next() >> 1), "accounts": int64(r.Intn(5)), "tame": int64(r.Intn(2))}}
	np := r.Range(1, 3)
	n := r.Range(4, 16)
	if thorough {
		n = r.Range(5, 60)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), K: []string{"sum", "sum", "move", "move", "fee"}[r.Intn(5)]}
		a, b, c := extreme(r), extreme(r), extreme(r)
		switch r.Intn(6) {
		case 0:
			b = a + int64(r.Intn(3)) - 1
		case 1:
			b = math.MaxInt64 - a // the sum just fits
			b += int64(r.Intn(3)) - 1
		case 2:
			c = b + int64(r.Intn(3)) - 1 // MulDiv back to about a
		case 3:
			if a != 0 {
				b = math.MaxInt64/a + int64(r.Intn(3)) - 1
			}
		case 4:
			b = math.MinInt64 - a + int64(r.Intn(3)) - 1
		}
		if o.K == "sum" {
			o.A = []int64{a, b, c}
		} else {
			o.A = []int64{int64(r.Intn(8)), int64(r.Intn(8)), a, b}
			o.F = append(netFaults(r), genCrash(r, 3)...)
			if o.K == "fee" && r.Intn(4) > 0 {
				o.A[2], o.A[3] = int64(r.Intn(100)), 100
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}
