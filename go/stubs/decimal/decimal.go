// Package decimal stands in for github.com/ericlagergren/decimal, which is not
// available offline.  It implements the calls that ndaumath's signed and
// unsigned packages make, and the neighbouring ones a change to them could
// make, with the documented Context128 arithmetic: 34 significant digits,
// half-even rounding by default, and an integer quotient (no rounding, NaN
// when it needs more than 34 digits) for QuoInt, Rem and QuoRem.
package decimal

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// RoundingMode says how a result that does not fit is rounded.
type RoundingMode uint8

// The rounding modes.
const (
	ToNearestEven RoundingMode = iota
	ToNearestAway
	ToZero
	AwayFromZero
	ToNegativeInf
	ToPositiveInf
	ToNearestTowardZero
)

// OperatingMode is kept for the names only.
type OperatingMode uint8

// The operating modes.
const (
	GDA OperatingMode = iota
	Go
)

// Condition is what an operation ran into.
type Condition uint32

// The conditions that arise here.
const (
	Clamped Condition = 1 << iota
	ConversionSyntax
	DivisionByZero
	DivisionImpossible
	DivisionUndefined
	Inexact
	InsufficientStorage
	InvalidContext
	InvalidOperation
	Overflow
	Rounded
	Subnormal
	Underflow
)

// Context is the arithmetic context.
type Context struct {
	MaxScale, MinScale int
	OperatingMode      OperatingMode
	Precision          int
	Traps, Conditions  Condition
	RoundingMode       RoundingMode
}

// Contexts.
var (
	Context32  = Context{Precision: 7, MaxScale: 96, MinScale: -95}
	Context64  = Context{Precision: 16, MaxScale: 384, MinScale: -383}
	Context128 = Context{Precision: 34, MaxScale: 6144, MinScale: -6143}
)

// Big is a decimal number m * 10**exp.
type Big struct {
	Context Context
	m       big.Int
	exp     int
	nan     bool
	inf     int // -1, 0, 1
}

// WithContext returns a zero with a context.
func WithContext(c Context) *Big { return &Big{Context: c} }

// WithPrecision returns a zero with that many digits.
func WithPrecision(p int) *Big { return &Big{Context: Context{Precision: p}} }

// New is value * 10**-scale.
func New(value int64, scale int) *Big { return WithContext(Context64).SetMantScale(value, scale) }

func (z *Big) precision() int {
	if z.Context.Precision <= 0 {
		return 16
	}
	return z.Context.Precision
}

func (z *Big) bad(c Condition) *Big {
	z.Context.Conditions |= c
	z.nan, z.inf, z.exp = true, 0, 0
	z.m.SetInt64(0)
	return z
}

func (z *Big) infinite(sign int) *Big {
	z.nan, z.inf, z.exp = false, sign, 0
	z.m.SetInt64(0)
	return z
}

// SetUint64 sets z to x.
func (z *Big) SetUint64(x uint64) *Big {
	z.m.SetUint64(x)
	z.exp, z.nan, z.inf = 0, false, 0
	return z
}

// SetMantScale sets z to value * 10**-scale.
func (z *Big) SetMantScale(value int64, scale int) *Big {
	z.m.SetInt64(value)
	z.exp, z.nan, z.inf = -scale, false, 0
	return z
}

// SetBigMantScale sets z to value * 10**-scale.
func (z *Big) SetBigMantScale(value *big.Int, scale int) *Big {
	z.m.Set(value)
	z.exp, z.nan, z.inf = -scale, false, 0
	return z
}

// SetScale changes the scale and keeps the unscaled value.
func (z *Big) SetScale(scale int) *Big {
	z.exp = -scale
	return z
}

// SetInf makes z an infinity.
func (z *Big) SetInf(signbit bool) *Big {
	if signbit {
		return z.infinite(-1)
	}
	return z.infinite(1)
}

// SetNaN makes z not a number.
func (z *Big) SetNaN(bool) *Big {
	c := z.Context.Conditions
	z.bad(0)
	z.Context.Conditions = c
	return z
}

// SetFloat64 sets z to x, exactly.
func (z *Big) SetFloat64(x float64) *Big {
	if z, ok := z.SetString(strconv.FormatFloat(x, 'f', -1, 64)); ok {
		return z
	}
	return z.bad(InvalidOperation)
}

// SetString sets z from its decimal spelling.
func (z *Big) SetString(s string) (*Big, bool) {
	mant, exp := s, 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e, err := strconv.Atoi(s[i+1:])
		if err != nil {
			return z.bad(ConversionSyntax), false
		}
		mant, exp = s[:i], e
	}
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		exp -= len(mant) - i - 1
		mant = mant[:i] + mant[i+1:]
	}
	v, ok := new(big.Int).SetString(mant, 10)
	if !ok {
		return z.bad(ConversionSyntax), false
	}
	return z.store(v, exp), true
}

// Set copies x's value and rounds it to z's precision.
func (z *Big) Set(x *Big) *Big {
	if x.nan || x.inf != 0 {
		z.nan, z.inf, z.exp = x.nan, x.inf, 0
		z.m.SetInt64(0)
		return z
	}
	return z.store(new(big.Int).Set(&x.m), x.exp)
}

// Copy copies x's value and context.
func (z *Big) Copy(x *Big) *Big {
	if z != x {
		z.Context = x.Context
		z.m.Set(&x.m)
		z.exp, z.nan, z.inf = x.exp, x.nan, x.inf
	}
	return z
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func digits(v *big.Int) int {
	if v.Sign() == 0 {
		return 1
	}
	return len(new(big.Int).Abs(v).String())
}

// align gives the unscaled values of x and y at one exponent.
func align(x, y *Big) (*big.Int, *big.Int, int) {
	a, b := new(big.Int).Set(&x.m), new(big.Int).Set(&y.m)
	switch {
	case x.exp > y.exp:
		return a.Mul(a, pow10(x.exp-y.exp)), b, y.exp
	case y.exp > x.exp:
		return a, b.Mul(b, pow10(y.exp-x.exp)), x.exp
	}
	return a, b, x.exp
}

// rounded divides v (|v| is a magnitude with sign neg) by 10**drop.
func (z *Big) rounded(v *big.Int, drop int, sticky bool) *big.Int {
	if drop <= 0 && !sticky {
		return new(big.Int).Set(v)
	}
	if drop < 0 {
		drop = 0
	}
	neg := v.Sign() < 0
	div := pow10(drop)
	q, r := new(big.Int).QuoRem(new(big.Int).Abs(v), div, new(big.Int))
	inexact := r.Sign() != 0 || sticky
	half := new(big.Int).Lsh(r, 1).Cmp(div)
	if drop == 0 {
		half = -1
	} else if half == 0 && sticky {
		half = 1
	}
	if inexact {
		z.Context.Conditions |= Inexact | Rounded
		up := false
		switch z.Context.RoundingMode {
		case ToNearestAway:
			up = half >= 0
		case ToNearestTowardZero:
			up = half > 0
		case ToZero:
		case AwayFromZero:
			up = true
		case ToNegativeInf:
			up = neg
		case ToPositiveInf:
			up = !neg
		default:
			up = half > 0 || half == 0 && q.Bit(0) == 1
		}
		if up {
			q.Add(q, big.NewInt(1))
		}
	}
	if neg {
		q.Neg(q)
	}
	return q
}

// store keeps v * 10**exp rounded to the context's precision.
func (z *Big) store(v *big.Int, exp int) *Big {
	z.nan, z.inf = false, 0
	v = new(big.Int).Set(v)
	for p := z.precision(); digits(v) > p; {
		drop := digits(v) - p
		v = z.rounded(v, drop, false)
		exp += drop
	}
	z.m.Set(v)
	z.exp = exp
	return z
}

func special(x, y *Big) bool { return x.nan || y.nan || x.inf != 0 || y.inf != 0 }

// Add sets z to x+y.
func (z *Big) Add(x, y *Big) *Big {
	switch {
	case x.nan || y.nan || x.inf*y.inf < 0:
		return z.bad(InvalidOperation)
	case x.inf != 0:
		return z.infinite(x.inf)
	case y.inf != 0:
		return z.infinite(y.inf)
	}
	a, b, e := align(x, y)
	return z.store(a.Add(a, b), e)
}

// Sub sets z to x-y.
func (z *Big) Sub(x, y *Big) *Big {
	n := new(Big).Copy(y)
	n.m.Neg(&n.m)
	n.inf = -n.inf
	return z.Add(x, n)
}

// Mul sets z to x*y.
func (z *Big) Mul(x, y *Big) *Big {
	if x.nan || y.nan {
		return z.bad(InvalidOperation)
	}
	if x.inf != 0 || y.inf != 0 {
		s := x.Sign() * y.Sign()
		if s == 0 {
			return z.bad(InvalidOperation)
		}
		return z.infinite(s)
	}
	return z.store(new(big.Int).Mul(&x.m, &y.m), x.exp+y.exp)
}

// FMA sets z to x*y+u with one rounding.
func (z *Big) FMA(x, y, u *Big) *Big {
	if special(x, y) || special(u, u) {
		return z.Add(new(Big).Mul(x, y), u)
	}
	p := &Big{exp: x.exp + y.exp}
	p.m.Mul(&x.m, &y.m)
	a, b, e := align(p, u)
	return z.store(a.Add(a, b), e)
}

// Quo sets z to x/y rounded to the context's precision.
func (z *Big) Quo(x, y *Big) *Big {
	if x.nan || y.nan || x.inf != 0 && y.inf != 0 {
		return z.bad(InvalidOperation)
	}
	switch {
	case x.inf != 0:
		if y.Signbit() {
			return z.infinite(-x.inf)
		}
		return z.infinite(x.inf)
	case y.inf != 0:
		return z.SetMantScale(0, 0)
	case y.m.Sign() == 0 && x.m.Sign() == 0:
		return z.bad(DivisionUndefined | InvalidOperation)
	case y.m.Sign() == 0:
		z.Context.Conditions |= DivisionByZero
		return z.infinite(x.Sign())
	}
	shift := z.precision() + 2 + digits(&y.m) - digits(&x.m)
	if shift < 0 {
		shift = 0
	}
	num := new(big.Int).Mul(&x.m, pow10(shift))
	q, r := new(big.Int).QuoRem(num, &y.m, new(big.Int))
	exp := x.exp - y.exp - shift
	if r.Sign() != 0 {
		// one more digit that keeps the rounding on the right side
		s := int64(1)
		if (x.m.Sign() < 0) != (y.m.Sign() < 0) {
			s = -1
		}
		q.Mul(q, big.NewInt(10))
		q.Add(q, big.NewInt(s))
		exp--
		return z.store(q, exp)
	}
	// an exact quotient comes out in its shortest spelling that the ideal
	// exponent allows
	ten := big.NewInt(10)
	for exp < x.exp-y.exp {
		d, m := new(big.Int).QuoRem(q, ten, new(big.Int))
		if m.Sign() != 0 {
			break
		}
		q, exp = d, exp+1
	}
	return z.store(q, exp)
}

func (z *Big) quoRem(x, y *Big) (q, r *big.Int, e int, ok bool) {
	if special(x, y) || y.m.Sign() == 0 {
		return nil, nil, 0, false
	}
	a, b, e := align(x, y)
	q, r = new(big.Int).QuoRem(a, b, new(big.Int))
	return q, r, e, digits(q) <= z.precision()
}

// QuoInt sets z to the integer part of x/y.
func (z *Big) QuoInt(x, y *Big) *Big {
	q, _, _, ok := z.quoRem(x, y)
	if !ok {
		return z.bad(InvalidOperation)
	}
	return z.store(q, 0)
}

// Rem sets z to the remainder of x/y (sign of x).
func (z *Big) Rem(x, y *Big) *Big {
	_, r, e, ok := z.quoRem(x, y)
	if !ok {
		return z.bad(InvalidOperation)
	}
	return z.store(r, e)
}

// QuoRem sets z to the integer part of x/y and r to the remainder.
func (z *Big) QuoRem(x, y, r *Big) (*Big, *Big) {
	q, m, e, ok := z.quoRem(x, y)
	if !ok {
		return z.bad(InvalidOperation), r.bad(InvalidOperation)
	}
	z.store(q, 0)
	r.store(m, e)
	return z, r
}

// Abs sets z to |x|.
func (z *Big) Abs(x *Big) *Big {
	z.Set(x)
	z.m.Abs(&z.m)
	if z.inf != 0 {
		z.inf = 1
	}
	return z
}

// Neg sets z to -x.
func (z *Big) Neg(x *Big) *Big {
	z.Set(x)
	z.m.Neg(&z.m)
	z.inf = -z.inf
	return z
}

// CopySign sets z to x with y's sign.
func (z *Big) CopySign(x, y *Big) *Big {
	z.Set(x)
	if z.Signbit() != y.Signbit() {
		z.m.Neg(&z.m)
		z.inf = -z.inf
	}
	return z
}

// Quantize rounds z to n digits after the point.
func (z *Big) Quantize(n int) *Big {
	if z.nan || z.inf != 0 {
		return z
	}
	if drop := -n - z.exp; drop > 0 {
		v := z.rounded(&z.m, drop, false)
		z.m.Set(v)
	} else {
		z.m.Mul(&z.m, pow10(-drop))
	}
	z.exp = -n
	if digits(&z.m) > z.precision() {
		return z.bad(InvalidOperation)
	}
	return z
}

// RoundToInt rounds z to an integer.
func (z *Big) RoundToInt() *Big {
	if z.nan || z.inf != 0 || z.exp >= 0 {
		return z
	}
	return z.Quantize(0)
}

// Round rounds z to n significant digits.
func (z *Big) Round(n int) *Big {
	if z.nan || z.inf != 0 || n <= 0 {
		return z
	}
	p := z.Context.Precision
	z.Context.Precision = n
	z.store(&z.m, z.exp)
	z.Context.Precision = p
	return z
}

// Reduce drops trailing zeros.
func (z *Big) Reduce() *Big {
	if z.nan || z.inf != 0 {
		return z
	}
	if z.m.Sign() == 0 {
		z.exp = 0
		return z
	}
	ten := big.NewInt(10)
	for {
		d, m := new(big.Int).QuoRem(&z.m, ten, new(big.Int))
		if m.Sign() != 0 {
			return z
		}
		z.m.Set(d)
		z.exp++
	}
}

// Int gives the integer part (into x if it is not nil).
func (z *Big) Int(x *big.Int) *big.Int {
	if x == nil {
		x = new(big.Int)
	}
	if z.nan || z.inf != 0 {
		return x.SetInt64(0)
	}
	if z.exp >= 0 {
		return x.Mul(&z.m, pow10(z.exp))
	}
	return x.Quo(&z.m, pow10(-z.exp))
}

// Rat gives the value as a fraction.
func (z *Big) Rat(x *big.Rat) *big.Rat {
	if x == nil {
		x = new(big.Rat)
	}
	if z.exp >= 0 {
		return x.SetInt(z.Int(nil))
	}
	return x.SetFrac(&z.m, pow10(-z.exp))
}

// Float64 gives the nearest float and whether it is exact.
func (z *Big) Float64() (float64, bool) {
	if z.nan || z.inf != 0 {
		return 0, false
	}
	return z.Rat(nil).Float64()
}

// Uint64 returns the value and whether it is exact.
func (z *Big) Uint64() (uint64, bool) {
	if !z.IsInt() {
		return 0, false
	}
	v := z.Int(nil)
	if !v.IsUint64() {
		return 0, false
	}
	return v.Uint64(), true
}

// Int64 returns the value and whether it is exact.
func (z *Big) Int64() (int64, bool) {
	if !z.IsInt() {
		return 0, false
	}
	v := z.Int(nil)
	if !v.IsInt64() {
		return 0, false
	}
	return v.Int64(), true
}

// Sign is -1, 0 or 1.
func (z *Big) Sign() int {
	if z.inf != 0 {
		return z.inf
	}
	return z.m.Sign()
}

// Signbit is whether z is negative.
func (z *Big) Signbit() bool { return z.Sign() < 0 }

// Cmp compares (0 when either is not a number).
func (z *Big) Cmp(x *Big) int {
	if z.nan || x.nan {
		return 0
	}
	if z.inf != 0 || x.inf != 0 {
		switch {
		case z.inf < x.inf:
			return -1
		case z.inf > x.inf:
			return 1
		}
		return 0
	}
	a, b, _ := align(z, x)
	return a.Cmp(b)
}

// CmpAbs compares magnitudes.
func (z *Big) CmpAbs(x *Big) int {
	a, b := new(Big).Copy(z), new(Big).Copy(x)
	a.m.Abs(&a.m)
	b.m.Abs(&b.m)
	a.inf *= a.inf
	b.inf *= b.inf
	return a.Cmp(b)
}

// IsInt is whether z is an integer.
func (z *Big) IsInt() bool {
	if z.nan || z.inf != 0 {
		return false
	}
	if z.exp >= 0 {
		return true
	}
	return new(big.Int).Rem(&z.m, pow10(-z.exp)).Sign() == 0
}

// IsNaN is whether z is not a number.
func (z *Big) IsNaN(int) bool { return z.nan }

// IsInf is whether z is an infinity of that sign (0: either).
func (z *Big) IsInf(sign int) bool { return z.inf != 0 && (sign == 0 || z.inf == sign) }

// IsFinite is whether z is a number.
func (z *Big) IsFinite() bool { return !z.nan && z.inf == 0 }

// Precision is the number of digits of the unscaled value.
func (z *Big) Precision() int { return digits(&z.m) }

// Scale is the number of digits after the point.
func (z *Big) Scale() int { return -z.exp }

// Mantissa is the unscaled value, if it fits.
func (z *Big) Mantissa() (uint64, bool) { return new(big.Int).Abs(&z.m).Uint64(), z.m.IsUint64() }

// String formats z.
func (z *Big) String() string {
	switch {
	case z.nan:
		return "NaN"
	case z.inf > 0:
		return "Infinity"
	case z.inf < 0:
		return "-Infinity"
	case z.exp >= 0:
		return z.Int(nil).String()
	}
	s := new(big.Int).Abs(&z.m).String()
	if n := 1 - z.exp - len(s); n > 0 {
		s = strings.Repeat("0", n) + s
	}
	s = s[:len(s)+z.exp] + "." + s[len(s)+z.exp:]
	if z.m.Sign() < 0 {
		s = "-" + s
	}
	return s
}

// Format prints z as String does.
func (z *Big) Format(s fmt.State, _ rune) { fmt.Fprint(s, z.String()) }

// Max and Min of the arguments.
func Max(x ...*Big) *Big { return pick(x, 1) }

// Min of the arguments.
func Min(x ...*Big) *Big { return pick(x, -1) }

func pick(x []*Big, sign int) *Big {
	m := x[0]
	for _, v := range x[1:] {
		if v.Cmp(m) == sign {
			m = v
		}
	}
	return m
}

// Err is the trapped conditions as an error.
func (c Context) Err() error {
	if m := c.Conditions & c.Traps; m != 0 {
		return m
	}
	return nil
}

// Error names the condition.
func (c Condition) Error() string { return fmt.Sprintf("decimal: condition %#x", uint32(c)) }
