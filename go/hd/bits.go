package hd

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/bitset256"
	"verif/core"
	"verif/simrt"
)

// ---- C18: bit sets

type model [256]bool

type bits struct {
	b *bitset256.Bitset256
	m model
}

type opcodes struct {
	e     *env
	order []int
	sets  map[int][]*bits
}

func execC18(e *env) {
	s := &opcodes{e: e, order: e.Plan.Actors(), sets: map[int][]*bits{}}
	e.RunActors(func(a int, o op, ix int) { s.step(a, o) })
	for _, a := range s.order {
		s.verify(a, "the end")
	}
}

// layout is the fixed serial form: bit n is bit n%8 of this byte.
func layout(n int) int { return (7-(n%64)/8)*4 + 3 - n/64 }

func (m *model) bytes() []byte {
	b := make([]byte, 32)
	for n, v := range m {
		if v {
			b[layout(n)] |= 1 << uint(n%8)
		}
	}
	return b
}

func (m *model) cmp(o *model) int {
	for i := 255; i >= 0; i-- {
		if m[i] != o[i] {
			if m[i] {
				return 1
			}
			return -1
		}
	}
	return 0
}

func (m *model) indices() []byte {
	out := []byte{}
	for n, v := range m {
		if v {
			out = append(out, byte(n))
		}
	}
	return out
}

// is compares a set with its model.
func (s *opcodes) is(x *bits, what string) {
	e := s.e
	e.Guard("observing a bit set", func() {
		for n, v := range x.m {
			if x.b.Get(byte(n)) != v {
				e.Fail("membership", "after %s, Get(%d) is %v", what, n, !v)
			}
		}
		want := x.m.indices()
		if c := x.b.Count(); c != len(want) {
			e.Fail("count", "after %s, Count is %d, want %d", what, c, len(want))
		}
		got := x.b.Indices()
		if !bytes.Equal(got, want) {
			e.Fail("indices", "after %s, Indices is %v, want %v", what, got, want)
		}
		wb := x.m.bytes()
		gb := x.b.AsBytes()
		if !bytes.Equal(gb, wb) {
			e.Fail("bytes", "after %s, AsBytes is %x, want %x", what, gb, wb)
		}
		if h := x.b.AsHex(); h != hex.EncodeToString(wb) || x.b.String() != h {
			e.Fail("hex", "after %s, AsHex is %s, String %s, want %x", what, h, x.b.String(), wb)
		}
		scribble(got)
		scribble(gb)
	})
}

func (s *opcodes) verify(a int, what string) {
	for i, x := range s.sets[a] {
		s.is(x, fmt.Sprintf("%s (set %d)", what, i))
	}
}

func (s *opcodes) add(a int, x *bits) {
	s.sets[a] = append(s.sets[a], x)
	if len(s.sets[a]) > 8 {
		s.sets[a] = s.sets[a][1:]
	}
}

// laws checks comparisons between all pairs of sets.
func (s *opcodes) laws(a int) {
	e := s.e
	for _, x := range s.sets[a] {
		for _, y := range s.sets[a] {
			c := x.m.cmp(&y.m)
			if got := x.b.Equals(y.b); got != (c == 0) {
				e.Fail("equals", "Equals of %s and %s is %v", x.b, y.b, got)
			}
			if got := x.b.Less(y.b); got != (c < 0) {
				e.Fail("order", "Less of %s and %s is %v", x.b, y.b, got)
			}
			sub := true
			for n := range x.m {
				sub = sub && (!x.m[n] || y.m[n])
			}
			if got := x.b.IsSubsetOf(y.b); got != sub {
				e.Fail("subset", "IsSubsetOf of %s and %s is %v", x.b, y.b, got)
			}
		}
	}
}

func (s *opcodes) step(a int, o op) {
	e := s.e
	x := pick(s.sets[a], o.Arg(0))
	y := pick(s.sets[a], o.Arg(1))
	ix := byte(o.Arg(2))
	what := o.K
	if x == nil && o.K != "new" {
		return
	}
	same := func(p *bitset256.Bitset256) {
		e.Check(p == x.b, "receiver", "%s does not return its receiver", o.K)
	}
	switch o.K {
	case "new":
		n := &bits{}
		ixs := o.Bytes()
		n.b = bitset256.New(ixs...)
		for _, i := range ixs {
			n.m[i] = true
		}
		scribble(ixs)
		s.add(a, n)
	case "set":
		same(x.b.Set(ix))
		x.m[ix] = true
	case "clear":
		same(x.b.Clear(ix))
		x.m[ix] = false
	case "toggle":
		same(x.b.Toggle(ix))
		x.m[ix] = !x.m[ix]
	case "flood": // many at once
		for i := int(ix); i < 256; i += 1 + int(abs64(o.Arg(3)))%7 {
			x.b.Toggle(byte(i))
			x.m[i] = !x.m[i]
		}
	case "clone":
		s.add(a, &bits{x.b.Clone(), x.m})
	case "union", "intersect":
		n := &bits{}
		if o.K == "union" {
			n.b = x.b.Union(y.b)
			for i := range n.m {
				n.m[i] = x.m[i] || y.m[i]
			}
		} else {
			n.b = x.b.Intersect(y.b)
			for i := range n.m {
				n.m[i] = x.m[i] && y.m[i]
			}
		}
		s.add(a, n)
	case "laws":
		s.laws(a)
	case "send": // as bytes or hex, possibly damaged
		form := abs64(o.Arg(2)) % 3
		var wire []byte
		switch form {
		case 0:
			wire = x.b.AsBytes()
		case 1:
			wire = []byte(x.b.AsHex())
		case 2:
			wire = []byte(strings.ToUpper(x.b.AsHex()))
		}
		m := x.m
		bad := false
		for _, f := range o.F {
			switch f.K {
			case "cut":
				wire, bad = wire[:int(abs64(f.Arg(0)))%len(wire)], true
				e.Fault("cut")
			case "grow":
				fill := "\x00"
				if form > 0 {
					fill = "0"
				}
				n := 1 + int(abs64(f.Arg(0)))%40
				if f.Arg(0)%3 == 0 {
					n = 1
				}
				wire, bad = append(wire, strings.Repeat(fill, n)...), true
				e.Fault("grow")
			case "dress":
				if form > 0 {
					wire, bad = []byte(dress(string(wire), f.Arg(0), int(abs64(f.Arg(1)))%len(wire))), true
					e.Fault("dressed")
				}
			case "foreign":
				if form > 0 {
					wire[int(abs64(f.Arg(0)))%len(wire)] = "gGxz -\x00\xff~/:@`"[int(abs64(f.Arg(1)))%13]
					bad = true
					e.Fault("foreign")
				}
			}
		}
		to := pick(s.order, o.Arg(3))
		deliver(e, o, func(int) {
			in := cp(wire)
			var b *bitset256.Bitset256
			var err error
			read := func() (b *bitset256.Bitset256, err error) {
				e.Guard("reading a bit set", func() {
					if form == 0 {
						b, err = bitset256.FromBytes(in)
					} else {
						b, err = bitset256.FromHex(string(in))
					}
				})
				return
			}
			b, err = read()
			if bad {
				e.Check(err != nil, "accepted", "malformed %q is read as %v", wire, b)
				return
			}
			if err != nil {
				e.Fail("refused", "%q is refused: %v", wire, err)
			}
			// what is read is independent of what is read from the same bytes
			if again, err := read(); err == nil {
				again.Toggle(ix)
				n := &bits{again, m}
				n.m[ix] = !n.m[ix]
				s.is(n, "receiving it again and changing it")
			}
			if third, err := read(); err == nil {
				s.is(&bits{third, m}, "receiving it again")
			}
			scribble(in)
			n := &bits{b, m}
			s.is(n, "receiving "+string(rune('0'+form)))
			s.add(to, n)
			e.Probe("received")
		})
	case "mutate-result": // results are independent of their sources
		for _, n := range []*bits{{x.b.Clone(), x.m}, {x.b.Union(x.b), x.m}, {x.b.Intersect(x.b), x.m}} {
			n.b.Toggle(ix)
			n.m[ix] = !n.m[ix]
			s.is(n, o.K)
		}
	}
	simrt.Event("%s", what)
	s.verify(a, what)
	e.State("bits", o.K, count(x))
}

func genC18(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(10, 25)
	if thorough {
		n = r.Range(15, 80)
	}
	mk := func(a int) op {
		k := []int{0, 1, 3, 20, 200, 600}[r.Intn(6)]
		b := r.Bytes(k)
		if r.Chance(3) {
			for i := range b {
				b[i] = byte(64*r.Intn(4) + []int{0, 1, 31, 32, 62, 63}[r.Intn(6)])
			}
		}
		return op{T: a, K: "new", B: core.Hex(b)}
	}
	for a := 0; a < np; a++ {
		p.Ops = append(p.Ops, mk(a), mk(a))
	}
	ix := func() int64 {
		if r.Chance(2) {
			return int64(64*r.Intn(4) + []int{0, 1, 31, 32, 33, 62, 63}[r.Intn(7)])
		}
		return int64(r.Intn(256))
	}
	for i := 0; i < n; i++ {
		a := r.Intn(np)
		o := op{T: a, A: []int64{int64(r.Intn(8)), int64(r.Intn(8)), ix(), int64(r.Intn(8))}}
		switch r.Intn(14) {
		case 0:
			o = mk(a)
		case 1, 2:
			o.K = "set"
		case 3, 4:
			o.K = "clear"
		case 5:
			o.K = "toggle"
		case 6:
			o.K = "flood"
		case 7:
			o.K = "clone"
		case 8:
			o.K = "union"
		case 9:
			o.K = "intersect"
		case 10:
			o.K = "laws"
		case 11, 12:
			o.K = "send"
			o.A[3] = int64(r.Intn(np))
			o.F = netFaults(r)
			switch r.Intn(6) {
			case 0:
				o.F = append(o.F, core.Fault{K: "cut", A: []int64{int64(r.Intn(64))}})
			case 1:
				o.F = append(o.F, core.Fault{K: "grow", A: []int64{int64(r.Intn(64))}})
			case 2:
				o.F = append(o.F, core.Fault{K: "foreign", A: []int64{int64(r.Intn(64)), int64(r.Intn(13))}})
			case 3:
				o.F = append(o.F, core.Fault{K: "dress", A: []int64{int64(r.Intn(len(dressings))), int64(r.Intn(64) * r.Intn(2))}})
			}
		case 13:
			o.K = "mutate-result"
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func count(x *bits) int {
	if x == nil {
		return -1
	}
	return x.b.Count()
}
