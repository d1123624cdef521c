package eco

import (
	"math"

	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
	"verif/core"
	"verif/simrt"
)

// ---- C30: the price over an issuance

const block = 1000 * unit

// curve is the published price in dollars of the next unit after n sale
// blocks (which may be a fraction).
func curve(n float64) float64 {
	switch {
	case n < 10000:
		return math.Exp2(n * 14 / 9999)
	case n < 30000:
		return -41633 - 8.286618*n + 0.00167424*n*n - 2.654015e-8*n*n*n
	}
	return 500450.83
}

// sale is one order of an issuance.
type sale struct {
	qty int64
	o   op
}

// seller is a replica that sells orders in their sequence.
type seller struct {
	e       *env
	name    string
	issued  int64
	next    int
	early   map[int]sale
	revenue float64
	price   int64
	disk    [2]int64
	trail   map[int64]int64
}

func dollars(n pricecurve.Nanocent) float64 { return float64(n) / 1e11 }

// quote asks for the price after n napu are sold.
func quote(e *env, n int64) int64 {
	var p, p9 pricecurve.Nanocent
	var err, err9 error
	if n%5 == 0 { // the other curve, which doubles a little later
		var p0 pricecurve.Nanocent
		var err0 error
		e.Guard("PriceAtUnit10000", func() { p0, err0 = pricecurve.PriceAtUnit10000(types.Ndau(n)) })
		if want := math.Exp2(math.Floor(float64(n/unit)/1000) * 14 / 10000); err0 == nil && n/block < 10000 && math.Abs(dollars(p0)-want) > want*1e-6 {
			e.Fail("formula", "the price of the curve of 10000 blocks after %d napu is %.11f, want %.11f", n, dollars(p0), want)
		}
	}
	e.Guard("PriceAtUnit", func() {
		p, err = pricecurve.PriceAtUnit(types.Ndau(n))
	})
	if n%7 == 0 {
		e.Guard("PriceAtUnit9999", func() { p9, err9 = pricecurve.PriceAtUnit9999(types.Ndau(n)) })
		if p9 != p || (err == nil) != (err9 == nil) {
			e.Fail("two ways", "PriceAtUnit(%d) is %d, PriceAtUnit9999 says %d", n, int64(p), int64(p9))
		}
	}
	if err != nil {
		e.Fail("refused", "the price after %d napu: %v", n, err)
	}
	want := curve(math.Floor(float64(n/unit) / 1000))
	tol := want * 1e-6
	if n/block >= 10000 {
		tol = 4 // whole dollars of three terms, and the end of phase 1
		if n/block == 10000 {
			tol = 20
		}
	}
	if math.Abs(dollars(p)-want) > tol {
		e.Fail("formula", "the price after %d napu is %.11f, published is %.11f", n, dollars(p), want)
	}
	return int64(p)
}

// total checks the price of an order.
func total(e *env, qty, sold int64) float64 {
	var t, first, last float64
	e.Guard("ApproxTotalPriceFor", func() {
		t = pricecurve.ApproxTotalPriceFor(types.Ndau(qty), types.Ndau(sold))
		first = pricecurve.ApproxPriceAtUnit(types.Ndau(sold))
		last = pricecurve.ApproxPriceAtUnit(types.Ndau(sold + qty))
	})
	for _, x := range [][2]float64{{first, curve(float64(sold/unit) / 1000)}, {last, curve(float64((sold+qty)/unit) / 1000)}} {
		if math.Abs(x[0]-x[1]) > x[1]*1e-9 {
			e.Fail("formula", "the price around %d to %d napu is %.9f, published is %.9f", sold, sold+qty, x[0], x[1])
		}
	}
	n := float64(qty) / float64(unit)
	// at the end of phase 1 the continuous curve steps down by 0.1 %
	if t < n*first*(1-1.1e-3) || t > n*last*(1+1.1e-3) {
		e.Fail("total", "%d napu after %d cost %.9f, at prices from %.9f to %.9f", qty, sold, t, first, last)
	}
	// block by block, each at the price of the first unit bought in it; and
	// unit by unit, at the price in the middle
	want, mid := 0.0, 0.0
	for a, left := sold, qty; left > 0; {
		k := min(left, block-a%block)
		n := float64(k) / float64(unit)
		want += curve(float64(a/unit)/1000) * n
		mid += curve((float64(a)+float64(k)/2)/float64(block)) * n
		a += k
		left -= k
	}
	if math.Abs(t-want) > want*1e-9 {
		e.Fail("total", "%d napu after %d cost %.9f, block by block %.9f", qty, sold, t, want)
	}
	if t > mid*(1+1e-3) || t < mid*(1-0.0016) {
		e.Fail("total", "%d napu after %d cost %.9f, unit by unit %.9f", qty, sold, t, mid)
	}
	return t
}

func (p *seller) sell(s sale) {
	e := p.e
	old := p.price
	if s.qty%3 == 0 { // offers for the same amount a little earlier and later
		for _, d := range []int64{-1, 1, unit, block - 1, -block} {
			if n := p.issued + d; n >= 0 {
				total(e, s.qty, n)
			}
		}
	}
	t := total(e, s.qty, p.issued)
	p.issued += s.qty
	p.price = quote(e, p.issued)
	if p.price < old {
		e.Fail("fell", "%s: the price fell from %d to %d when %d more napu were sold, %d in total", p.name, old, p.price, s.qty, p.issued)
	}
	simrt.Step()
	p.revenue += t
	p.next++
	p.disk = [2]int64{p.issued, int64(p.next)}
	p.trail[p.issued] = p.price
	simrt.Event("%s sold %d at %.6f", p.name, s.qty, t)
}

func (p *seller) load() {
	p.issued, p.next = p.disk[0], int(p.disk[1])
	p.price = quote(p.e, p.issued)
}

func execC30(e *env) {
	var orders []sale
	start := abs64(e.Plan.Cfg["sold"])
	at := start
	for _, o := range e.Plan.Ops {
		q := abs64(o.Arg(0))
		if o.K != "buy" || q > 40_000_000*unit || at > math.MaxInt64-q-2*block {
			continue
		}
		at += q
		orders = append(orders, sale{q, o})
	}
	var ps []*seller
	for k := 0; k < 2; k++ {
		p := &seller{e: e, name: "replica " + string(rune('A'+k)), issued: start, early: map[int]sale{}, trail: map[int64]int64{}}
		p.price = quote(e, start)
		p.disk[0] = start
		ps = append(ps, p)
	}
	var ts []*simrt.Task
	var mu simrt.Mutex
	for k, p := range ps {
		ts = append(ts, simrt.GoNamed(p.name, func() {
			for i, s := range orders {
				o := s.o
				if k == 0 {
					o.F = nil
				}
				deliver1(e, o, func() {
					mu.Lock()
					defer mu.Unlock()
					if i >= p.next {
						p.early[i] = s
					}
					for {
						s, ok := p.early[p.next]
						if !ok {
							break
						}
						n := p.next
						rev := p.revenue
						process(e, o, func() { p.load() }, func() {
							p.next = n
							p.revenue = rev
							p.sell(s)
						})
						delete(p.early, n)
					}
				})
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	simrt.Sleep(durNS(60_000_000_000)) // what is on its way arrives
	for _, p := range ps {
		if p.next != len(orders) {
			e.Fail("progress", "%s sold %d of %d orders", p.name, p.next, len(orders))
		}
		if p.issued != at {
			e.Fail("issued", "%s sold %d napu of %d", p.name, p.issued-start, at-start)
		}
		for n, x := range p.trail {
			if y, ok := ps[0].trail[n]; ok && x != y {
				e.Fail("replicas", "after %d napu %s asks %d, %s %d", n, p.name, x, ps[0].name, y)
			}
		}
	}
	// the orders together cost what one order for everything does, up to the
	// price within one sale block
	if q := at - start; q > 0 {
		one := total(e, q, start)
		if rev := ps[0].revenue; rev < one*(1-1.1e-3) || rev > one*(1+0.0016) {
			e.Fail("split", "%d orders after %d napu cost %.6f, one order for all %.6f", len(orders), start, rev, one)
		}
	}
	for _, o := range e.Plan.Ops {
		switch o.K {
		case "quote": // any two points
			a, b := min(abs64(o.Arg(0)), abs64(o.Arg(1))), max(abs64(o.Arg(0)), abs64(o.Arg(1)))
			if x, y := quote(e, a), quote(e, b); x > y {
				e.Fail("fell", "the price is %d after %d napu and %d after %d", x, a, y, b)
			}
			e.State("quote", a/block/100, b/block/100)
		case "search":
			want := math.Exp2(float64(abs64(o.Arg(0))%18_000_000) / 1_000_000)
			var n int
			e.Guard("ApproxUnitAtPrice", func() { n = pricecurve.ApproxUnitAtPrice(want) })
			if n < 0 || n%1000 != 0 || curve(float64(n/1000)-1) > want || curve(float64(n/1000)+1.000001) < want*(1-1e-9) {
				e.Fail("search", "the price %.6f is said to be reached at %d units, where it is %.6f", want, n, curve(float64(n/1000)))
			}
			e.State("search", n/100000)
		}
	}
	e.State("sale", len(orders), start/block/1000)
}

// deliver1 is deliver for orders, which are sent again until they arrive.
func deliver1(e *env, o op, f func()) {
	if _, ok := o.Fault("drop"); ok {
		e.Fault("drop")
		simrt.Sleep(durNS(2_000_000_000))
		var fs []core.Fault
		for _, x := range o.F {
			if x.K != "drop" {
				fs = append(fs, x)
			}
		}
		o.F = fs
	}
	deliver(e, o, func(int) { f() })
}

func genSold(r *rng) int64 {
	var n int64
	switch r.Intn(7) {
	case 6: // far beyond the last phase, up to all there can be
		n = math.MaxInt64 - int64(r.Next()>>1)>>uint(r.Intn(20)) - 8*300*block
		if r.Chance(2) {
			n = int64(r.Next()>>1) >> uint(r.Intn(12))
		}
		if r.Chance(4) { // where counts of ndau or blocks become wide
			n = int64(1)<<uint(r.Range(30, 33))*[]int64{1, unit}[r.Intn(2)] + int64(r.Intn(5)-2)*unit
		}
	case 0: // near a change of phase
		n = []int64{0, 1, 2, 10000, 10000, 30000, 9999, 10001, 29999}[r.Intn(9)]*block + int64(r.Intn(5)-2)*[]int64{1, unit, block}[r.Intn(3)]
	case 1: // near a doubling of the table
		n = int64(1)<<uint(r.Intn(15))*block + int64(r.Intn(5)-2)*[]int64{1, unit, block}[r.Intn(3)]
	case 2:
		n = int64(r.Next()>>1) % (10000 * block)
	case 3:
		n = int64(r.Next()>>1) % (31000 * block)
	case 4:
		n = int64(r.Intn(300)) * block
	default:
		n = int64(r.Intn(10001)) * block
	}
	return max(n, 0)
}

func genC30(r *rng, thorough bool) *plan {
	p := &plan{Cfg: map[string]int64{"sold": genSold(r)}}
	n := r.Range(2, 8)
	if thorough {
		n = r.Range(4, 24)
	}
	for i := 0; i < n; i++ {
		var o op
		switch r.Intn(8) {
		case 0:
			a := genSold(r)
			b := a + []int64{1, unit, block, block - a%block}[r.Intn(4)]
			if r.Chance(3) {
				b = genSold(r)
			}
			o = op{K: "quote", A: []int64{a, b}}
		case 1:
			o = op{K: "search", A: []int64{int64(r.Next() >> 1)}}
		default:
			q := 1 + int64(r.Next()>>1)%(3*block)
			switch r.Intn(6) {
			case 0:
				q = block
			case 1:
				q = int64(1 + r.Intn(1000))
			case 2:
				q = int64(1+r.Intn(2000)) * unit
			case 3:
				q = 1 + int64(r.Next()>>1)%(300*block)
			}
			o = op{K: "buy", A: []int64{q}, F: netFaults(r)}
			o.F = append(o.F, genCrash(r, 4)...)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}
