package eco

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"
	"unicode"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
	"verif/core"
	"verif/simrt"
)

// ---- C26: text checkpoints

// entry is one line of a checkpoint.
type entry struct {
	kind string
	a, b int64
}

var textKinds = []string{"Ndau", "Duration", "Timestamp", "Rate", "Row"}

// lastInstant is the last microsecond of the year 9999.
var lastInstant = (time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC).Unix()-epoch)*sec - 1

func genValue(r *rng) int64 {
	switch r.Intn(5) {
	case 0:
		return extreme(r)
	case 1: // about a power of ten
		x := int64(1)
		for i := r.Intn(19); i > 0; i-- {
			x *= 10
		}
		return []int64{1, -1}[r.Intn(2)] * (x*int64(r.Intn(10)) + int64(r.Intn(3)) - 1)
	case 2: // a sum of calendar units
		x := int64(0)
		for i := r.Intn(7); i >= 0; i-- {
			x += []int64{1, sec, 60 * sec, 3600 * sec, day, 30 * day, year}[i] * int64(r.Intn(3)) * int64([]int{1, 29, 59, 364}[r.Intn(4)])
		}
		return []int64{1, -1}[r.Intn(2)] * x
	case 3: // less than one
		x := int64(1) << uint(r.Intn(40))
		return []int64{1, -1}[r.Intn(2)] * (int64(r.Next()>>1) % x)
	}
	return int64(r.Next()) >> uint(r.Intn(64))
}

func genEntry(r *rng) entry {
	k := textKinds[r.Intn(len(textKinds))]
	x := entry{k, genValue(r), 0}
	switch k {
	case "Timestamp":
		if x.a < 0 {
			x.a = -(x.a + 1)
		}
		if x.a > lastInstant {
			x.a %= lastInstant + 1
		}
		if r.Chance(3) {
			x.a -= x.a % sec
		}
	case "Row":
		x.b = genValue(r)
	}
	return x
}

// text is what the library writes.
func (x entry) text(e *env) (s string) {
	e.Guard("writing "+x.kind, func() {
		var b []byte
		var err error
		switch x.kind {
		case "Ndau":
			s = types.Ndau(x.a).String()
		case "Duration":
			b, err = types.Duration(x.a).MarshalText()
			s = types.Duration(x.a).String()
		case "Timestamp":
			b, err = types.Timestamp(x.a).MarshalText()
			s = types.Timestamp(x.a).String()
		case "Rate":
			s = eai.Rate(x.a).String()
		case "Row":
			b, err = eai.RTRow{From: types.Duration(x.a), Rate: eai.Rate(x.b)}.MarshalText()
			s = string(b)
		}
		if err != nil {
			e.Fail("write", "%v is not written: %v", x, err)
		}
		if b != nil && string(b) != s {
			e.Fail("write", "%v is %q as a string and %q as text", x, s, b)
		}
	})
	return
}

// readers are used objects, which every read overwrites.
type readers struct {
	d types.Duration
	t types.Timestamp
	r eai.RTRow
}

// read reads a text; used objects serve every other time.
func (u *readers) read(e *env, kind, s string, fresh bool) (x entry, err error) {
	x.kind = kind
	if fresh {
		u = &readers{}
	}
	e.Guard("reading "+kind, func() {
		switch kind {
		case "Ndau":
			var v types.Ndau
			v, err = types.ParseNdau(s)
			x.a = int64(v)
		case "Dollars":
			var v pricecurve.Nanocent
			v, err = pricecurve.ParseDollars(s)
			x.a = int64(v)
		case "Rate":
			var v eai.Rate
			v, err = eai.ParseRate(s)
			x.a = int64(v)
		case "Duration":
			var v types.Duration
			v, err = types.ParseDuration(s)
			err2 := u.d.UnmarshalText([]byte(s))
			if (err == nil) != (err2 == nil) || err == nil && u.d != v {
				e.Fail("two ways", "%q parses as %d (%s) and reads as %d (%s)", s, int64(v), errText(err), int64(u.d), errText(err2))
			}
			x.a = int64(v)
		case "Timestamp":
			var v types.Timestamp
			v, err = types.ParseTimestamp(s)
			err2 := u.t.UnmarshalText([]byte(s))
			if (err == nil) != (err2 == nil) || err == nil && u.t != v {
				e.Fail("two ways", "%q parses as %d (%s) and reads as %d (%s)", s, int64(v), errText(err), int64(u.t), errText(err2))
			}
			x.a = int64(v)
		case "Row":
			err = u.r.UnmarshalText([]byte(s))
			x.a, x.b = int64(u.r.From), int64(u.r.Rate)
		}
	})
	return
}

// ---- what texts spell

// decimal spells a signed decimal number times 10^digits; nil if it does not
// spell a whole number of units.
func decimal(s string, digits int) *big.Int {
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	whole, frac, _ := strings.Cut(s, ".")
	for len(frac) > digits {
		if frac[len(frac)-1] != '0' {
			return nil
		}
		frac = frac[:len(frac)-1]
	}
	for len(frac) < digits {
		frac += "0"
	}
	v := new(big.Int)
	for _, c := range whole + frac {
		if c < '0' || c > '9' {
			return nil
		}
		v.Mul(v, bi(10)).Add(v, bi(int64(c-'0')))
	}
	if neg {
		v.Neg(v)
	}
	return v
}

// spells is the value of a text, read as generously as possible; nil if it
// has none.
func spells(kind, s string) (a, b *big.Int) {
	switch kind {
	case "Ndau":
		return decimal(strings.TrimSpace(s), 8), nil
	case "Rate":
		s = strings.TrimSpace(s)
		if !strings.HasSuffix(s, "%") {
			return nil, nil
		}
		return decimal(strings.TrimSpace(s[:len(s)-1]), 10), nil
	case "Dollars":
		s = strings.NewReplacer(",", "", "_", "").Replace(strings.TrimSpace(s))
		sign := ""
		if strings.HasPrefix(s, "-") {
			sign, s = "-", s[1:]
		}
		return decimal(sign+strings.TrimPrefix(s, "$"), 11), nil
	case "Duration":
		return spellDuration(s), nil
	case "Timestamp":
		return spellInstant(s), nil
	case "Row":
		f, r, ok := strings.Cut(s, ":")
		if !ok {
			return nil, nil
		}
		a, _ = spells("Duration", f)
		b, _ = spells("Rate", r)
		if b == nil {
			a = nil
		}
		return a, b
	}
	return nil, nil
}

func spellDuration(s string) *big.Int {
	s = strings.TrimSpace(s)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if s != "" && (s[0] == 'p' || s[0] == 'P') {
		s = s[1:]
	}
	sum := new(big.Int)
	clock := false
	for s != "" {
		if s[0] == 't' || s[0] == 'T' {
			if clock {
				return nil
			}
			clock = true
			s = s[1:]
			continue
		}
		i := 0
		n := new(big.Int)
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			n.Mul(n, bi(10)).Add(n, bi(int64(s[i]-'0')))
			i++
		}
		if i == 0 {
			return nil
		}
		s = s[i:]
		j := strings.IndexFunc(s, func(c rune) bool { return unicode.IsDigit(c) || c == 't' || c == 'T' })
		if j < 0 {
			j = len(s)
		}
		u := s[:j]
		s = s[j:]
		var f int64
		is := func(x string) bool { return strings.EqualFold(u, x) }
		switch {
		case is("y"):
			f = year
		case is("m") && !clock:
			f = 30 * day
		case is("d"):
			f = day
		case is("h"):
			f = 3600 * sec
		case is("m"):
			f = 60 * sec
		case is("s"):
			f = sec
		case is("u"), is("us"), is("μ"), is("μs"):
			f = 1
		default:
			return nil
		}
		sum.Add(sum, n.Mul(n, bi(f)))
	}
	if neg {
		sum.Neg(sum)
	}
	return sum
}

// spellInstant reads year-month-dayThour:minute:second[.fraction]Z.
func spellInstant(s string) *big.Int {
	num := func(sep string) int64 {
		i := 0
		n := int64(0)
		for i < len(s) && i < 9 && s[i] >= '0' && s[i] <= '9' {
			n = n*10 + int64(s[i]-'0')
			i++
		}
		if i == 0 || !strings.HasPrefix(s[i:], sep) {
			s = "!"
			return 0
		}
		s = s[i+len(sep):]
		return n
	}
	y, mo, d, h, mi := num("-"), num("-"), num("T"), num(":"), num(":")
	se := num("")
	us := int64(0)
	if s != "" && (s[0] == '.' || s[0] == ',') {
		s = s[1:]
		k := 0
		for s != "" && s[0] >= '0' && s[0] <= '9' {
			if k < 6 {
				us = us*10 + int64(s[0]-'0')
			}
			k++
			s = s[1:]
		}
		for ; k < 6; k++ {
			us *= 10
		}
	}
	if s != "Z" || mo < 1 || mo > 12 || d < 1 || h > 23 || mi > 59 || se > 59 {
		return nil
	}
	if t := time.Date(int(y), time.Month(mo), int(d), 0, 0, 0, 0, time.UTC); t.Day() != int(d) {
		return nil
	}
	// days since the epoch, counted without the library's calendar
	days := int64(0)
	leap := func(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	before := func(y int64) int64 { y--; return y*365 + y/4 - y/100 + y/400 }
	if y == 0 {
		return bi(-1) // long before the epoch
	}
	days = before(y) - before(2000)
	for m, n := range []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31} {
		if int64(m+1) < mo {
			days += n
			if m == 1 && leap(y) {
				days++
			}
		}
	}
	days += d - 1
	x := bi(((days*24+h)*60+mi)*60 + se)
	return x.Mul(x, bi(sec)).Add(x, bi(us))
}

// ---- texts from outside

const damageSet = "0123456789-.:%$ tymdhsuZT,_e\x00"

func digitsText(r *rng, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string(rune('0' + r.Intn(10)))
	}
	return s
}

// genText draws a text of a kind, often one which is no good.
func genText(r *rng, kind string) string {
	sign := []string{"", "", "-", "-", "+"}[r.Intn(5)]
	space := func() string { return []string{"", "", "", " ", "\t", "\n"}[r.Intn(6)] }
	number := func(digits int) string {
		if r.Chance(12) { // more digits than any value has
			return strings.Repeat("0", r.Intn(60)) + digitsText(r, r.Intn(12)) + []string{"", "." + digitsText(r, r.Intn(digits+1))}[r.Intn(2)]
		}
		n := []int{0, 1, 2, 3, 10, 11, 18, 19, 20, 30}[r.Intn(10)]
		s := digitsText(r, n)
		switch r.Intn(6) {
		case 0: // near the largest amount
			x := new(big.Int).Add(bi(math.MaxInt64), bi(int64(r.Intn(5))-2))
			t := x.String()
			if digits < len(t) {
				return t[:len(t)-digits] + "." + t[len(t)-digits:]
			}
			return t
		case 1:
			x := new(big.Int).Lsh(bi(1), uint(62+r.Intn(4)))
			for i := 0; i < digits; i++ {
				x.Quo(x, bi(10))
			}
			s = x.Add(x, bi(int64(r.Intn(3))-1)).String()
		case 2:
			x := new(big.Int).Lsh(bi(1), uint(62+r.Intn(4)))
			s = x.Add(x, bi(int64(r.Intn(3))-1)).String()
		}
		if r.Intn(3) > 0 {
			s += "." + digitsText(r, r.Intn(digits+3))
		}
		return s
	}
	s := ""
	switch kind {
	case "Ndau":
		s = space() + sign + number(8) + space()
	case "Rate":
		s = space() + sign + number(10) + []string{"%", "%", "%", "", "%%", " %"}[r.Intn(6)] + space()
	case "Dollars":
		n := number(11)
		if r.Chance(3) && len(n) > 4 {
			n = n[:1] + "," + n[1:4] + "_" + n[4:]
		}
		s = space() + sign + []string{"", "$", "$$"}[r.Intn(3)] + n + space()
	case "Duration":
		if sign == "+" {
			sign = ""
		}
		s = sign + []string{"", "p", "P"}[r.Intn(3)]
		long := r.Chance(3)
		if r.Chance(5) { // about as long as fits, every unit with its share
			n := new(big.Int).Lsh(bi(1), 63)
			n.Add(n, bi(int64(r.Next()>>1)>>uint(r.Intn(63))))
			if r.Chance(2) {
				n = new(big.Int).Lsh(bi(1), 63)
				n.Sub(n, bi(int64(r.Intn(3))))
			}
			for i, f := range []int64{year, 30 * day, day, 3600 * sec, 60 * sec, sec, 1} {
				q := new(big.Int)
				q.QuoRem(n, bi(f), n)
				if i == 3 {
					s += "t"
				}
				if q.Sign() > 0 {
					s += q.String() + []string{"y", "m", "d", "h", "m", "s", "us"}[i]
				}
			}
			return s
		}
		part := func(u string) {
			if r.Chance(2) {
				n := 1 + r.Intn(2)
				if u == "y" && long {
					n = []int{5, 6, 7, 18, 19, 20}[r.Intn(6)]
				}
				if u == "us" {
					n = 1 + r.Intn(7)
					u = []string{"us", "u", "μs", "μ", "µs"}[r.Intn(5)]
				}
				if r.Chance(20) {
					n += r.Intn(20)
				}
				d := digitsText(r, n)
				if u == "y" && r.Chance(3) {
					d = fmt.Sprint(math.MaxInt64/year + int64(r.Intn(3)) - 1)
				}
				if r.Chance(30) {
					d = strings.Repeat("0", r.Intn(60)) + d
				}
				s += d + u
			}
		}
		part("y")
		part("m")
		part("d")
		if r.Intn(4) > 0 {
			s += []string{"t", "T"}[r.Intn(2)]
			part("h")
			part("m")
			part("s")
			part("us")
		}
		if r.Chance(5) {
			s = strings.ToUpper(s)
		}
	case "Timestamp":
		two := func(most int) string { return fmt.Sprintf("%02d", r.Intn(most+1+r.Intn(2)*r.Intn(3))) }
		y := 2000 + r.Intn(30)
		switch r.Intn(6) {
		case 0:
			y = r.Intn(10000)
		case 1:
			y = 2290 + r.Intn(5)
		case 2:
			y = 1999 + r.Intn(3)
		case 3:
			y = 9998 + r.Intn(4)
		}
		s = fmt.Sprintf("%04d-%s-%sT%s:%s:%s", y, two(12), two(31), two(23), two(59), two(59))
		switch r.Intn(5) {
		case 0:
		case 1:
			s += "." + digitsText(r, r.Intn(11))
		case 2:
			s += "," + digitsText(r, 6)
		default:
			s += "." + digitsText(r, 6)
		}
		s += []string{"Z", "Z", "Z", "Z", "", "z", "+00:00", "-07:00"}[r.Intn(8)]
	case "Row":
		s = genText(r, "Duration") + []string{":", ":", ":", "::", "", " : "}[r.Intn(6)] + genText(r, "Rate")
	}
	if r.Chance(8) { // more than one value
		s += []string{":", ";", "%", ".", "0", s, " " + s, ":" + s, "," + s, "\n" + s, "\x00", " x", "-", "Z"}[r.Intn(14)]
	}
	if r.Chance(20) {
		s = []string{":", ".", "+", "-", "0", "00", "x", "\x00", "\n", "'", "\"", "(", "0x"}[r.Intn(13)] + s
	}
	if s != "" && r.Chance(8) { // damaged
		i := r.Intn(len(s))
		switch r.Intn(4) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + string(damageSet[r.Intn(len(damageSet))]) + s[i+1:]
		case 2:
			s = s[:i] + s[:i]
		case 3:
			s = s[:i]
		}
	}
	return s
}

// judge compares what a text was read as with what it spells.
func judge(e *env, kind, s string, got entry, err error) {
	if err != nil {
		e.Probe("refused " + kind)
		return
	}
	a, b := spells(kind, s)
	if a == nil {
		e.Fail("nonsense", "%s text %q, which spells no value, is read as %d %d", kind, s, got.a, got.b)
	}
	if a.Cmp(bi(got.a)) != 0 || b != nil && b.Cmp(bi(got.b)) != 0 {
		e.Fail("another value", "%s text %q spells %v %v and is read as %d %d", kind, s, a, b, got.a, got.b)
	}
	e.Probe("accepted " + kind)
}

// document is a JSON checkpoint.
type document struct {
	Wait  types.Duration
	At    types.Timestamp
	Row   eai.RTRow
	Table eai.RateTable
}

// keeper is a party that keeps its values as text.
type keeper struct {
	file  []string // what is durable: one line per value
	model []entry
	used  readers
}

func execC26(e *env) {
	ks := map[int]*keeper{}
	e.RunActors(func(a int, o op, ix int) {
		if ks[a] == nil {
			ks[a] = &keeper{}
		}
		k := ks[a]
		r := simrt.NewRNG(uint64(o.Arg(0)))
		switch o.K {
		case "save":
			n := 1 + int(abs64(o.Arg(1))%6)
			var vs []entry
			for i := 0; i < n; i++ {
				vs = append(vs, genEntry(r))
			}
			done := false
			write := func() {
				// a new file is written line by line and then takes the place of the old one
				var tmp []string
				for _, v := range vs {
					tmp = append(tmp, v.text(e))
					simrt.Step()
				}
				k.file, k.model = tmp, vs
				done = true
			}
			if c, ok := o.Fault("crash"); ok {
				if !simrt.RunKillable("keeper", 1+abs64(c.Arg(0))%600, write) {
					e.Fault("crash")
				}
			} else {
				write()
			}
			simrt.Event("saved %d values: %v", n, done)
			e.State("save", n, done)
			k.check(e, r)
		case "load":
			e.Fault("restart")
			k.used = readers{}
			k.check(e, r)
		case "send":
			// another party reads it from a message
			x := genEntry(r)
			s := x.text(e)
			deliver(e, o, func(int) {
				y, err := (&readers{}).read(e, x.kind, s, true)
				if err != nil || y != x {
					e.Fail("round trip", "%v is written as %q and read as %v (%s)", x, s, y, errText(err))
				}
				simrt.Event("%s received", x.kind)
			})
			e.State("send", x.kind, size(x.a), size(x.b))
		case "text":
			kind := o.S
			s := genText(r, kind)
			got, err := k.used.read(e, kind, s, r.Chance(2))
			judge(e, kind, s, got, err)
			e.Fault("text from outside")
			simrt.Event("%s %q %v", kind, s, err == nil)
			e.State("text", kind, len(s), err == nil)
		case "dollars":
			v := genValue(r)
			x := new(big.Int).Abs(bi(v))
			q, m := new(big.Int).QuoRem(x, bi(100_000_000_000), new(big.Int))
			s := fmt.Sprintf("$%s.%011s", q, m)
			if v < 0 {
				s = "-" + s
			}
			got, err := k.used.read(e, "Dollars", s, true)
			if err != nil || got.a != v {
				e.Fail("dollars", "%q is read as %d (%s), want %d", s, got.a, errText(err), v)
			}
			e.State("dollars", size(v))
		case "json":
			var d, back document
			fill := func() (x entry) {
				for x.kind != "Row" {
					x = genEntry(r)
				}
				return
			}
			row := func() eai.RTRow {
				x := fill()
				return eai.RTRow{From: types.Duration(x.a), Rate: eai.Rate(x.b)}
			}
			d.Wait, d.Row = types.Duration(genValue(r)), row()
			d.At = types.Timestamp(abs64(genValue(r)) % (lastInstant + 1))
			for i := r.Intn(4); i > 0; i-- {
				d.Table = append(d.Table, row())
			}
			var b []byte
			var err error
			e.Guard("JSON", func() {
				if b, err = json.Marshal(d); err == nil {
					err = json.Unmarshal(b, &back)
				}
			})
			if err != nil || fmt.Sprint(d) != fmt.Sprint(back) || back.Wait != d.Wait || back.At != d.At || back.Row != d.Row {
				e.Fail("JSON", "%v is written as %s and read as %v (%s)", d, b, back, errText(err))
			}
			for i, x := range d.Table {
				if back.Table[i] != x {
					e.Fail("JSON", "row %d of %s is read as %d:%d", i, b, int64(back.Table[i].From), int64(back.Table[i].Rate))
				}
			}
			simrt.Event("json %d", len(b))
			e.State("json", len(d.Table))
		}
	})
}

// check reads the checkpoint back.
func (k *keeper) check(e *env, r *rng) {
	if len(k.file) != len(k.model) {
		e.Fail("lost", "%d lines for %d values", len(k.file), len(k.model))
	}
	for i, s := range k.file {
		x := k.model[i]
		y, err := k.used.read(e, x.kind, s, r.Chance(2))
		if err != nil || y != x {
			e.Fail("round trip", "%v is written as %q and read as %v (%s)", x, s, y, errText(err))
		}
		judge(e, x.kind, s, y, nil)
		e.Probe("checkpoint " + x.kind)
	}
}

func genC26(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(4, 16)
	if thorough {
		n = r.Range(8, 60)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), K: []string{"save", "save", "load", "send", "send", "text", "text", "text", "dollars", "json"}[r.Intn(10)], A: []int64{int64(r.Next() >> 1), int64(r.Intn(100))}}
		switch o.K {
		case "save":
			if r.Chance(2) {
				o.F = []core.Fault{{K: "crash", A: []int64{int64(r.Intn(600))}}}
			}
		case "send":
			o.F = netFaults(r)
		case "text":
			o.S = append([]string{"Dollars"}, textKinds...)[r.Intn(6)]
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}
