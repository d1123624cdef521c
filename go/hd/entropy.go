package hd

import (
	"bytes"
	"crypto/ed25519"
	"io"
	"strings"

	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif/ref"
	"verif/simrt"
)

// ---- C10: entropy

// lenSrc is a source that can say how much it still has.
type lenSrc struct{ *src }

func (s *lenSrc) Len() int {
	left := s.want
	if s.ent.N > len(s.ent.Served) && (s.ent.Mode == simrt.EntropyFailAfter || s.ent.Mode == simrt.EntropyEOF) {
		left = s.ent.N
	} else if s.ent.N <= len(s.ent.Served) {
		return 0
	}
	return max(0, left-len(s.ent.Served))
}

// byteSrc can be asked for single bytes, and can write itself elsewhere.
type byteSrc struct{ *src }

func (s *byteSrc) ReadByte() (byte, error) {
	var b [1]byte
	n, err := s.Read(b[:])
	for i := 0; n == 0 && err == nil && i < 100; i++ {
		n, err = s.Read(b[:])
	}
	if n == 1 {
		err = nil
	}
	return b[0], err
}

func (s *byteSrc) WriteTo(w io.Writer) (int64, error) {
	var sum int64
	for i := 0; i < 1000; i++ {
		b := make([]byte, 16)
		n, err := s.Read(b)
		m, werr := w.Write(b[:n])
		sum += int64(m)
		if werr != nil || err != nil {
			if err == io.EOF {
				err = nil
			}
			if werr != nil {
				err = werr
			}
			return sum, err
		}
	}
	return sum, nil
}

// patterns are what a source of little entropy delivers over and over; the
// caller is right about what is random.
var patterns = [][]byte{nil, {0}, {0xff}, {1}, {0, 0, 0, 0, 0, 0, 0, 1}, {0x80, 0}, []byte("0123456789abcdef"), {0, 1, 2, 3, 4, 5, 6, 7}}

func pattern(o op) []byte { return patterns[abs64(o.Arg(6))%int64(len(patterns))] }

// shaped gives a source one of the shapes that callers' sources have.
func shaped(e *env, s *src, how int64) io.Reader {
	switch abs64(how) % 4 {
	case 1:
		e.Probe("a source with a length")
		return &lenSrc{s}
	case 2:
		e.Probe("a source of single bytes")
		return &byteSrc{s}
	}
	return s
}

// stock is a source of the standard library that holds exactly b; left tells
// how much it still has.
func stock(b []byte, how int64) (r io.Reader, left func() int, name string) {
	switch abs64(how) % 6 {
	case 0:
		x := bytes.NewReader(b)
		return x, x.Len, "bytes.Reader"
	case 1:
		x := bytes.NewBuffer(b)
		return x, x.Len, "bytes.Buffer"
	case 2:
		x := strings.NewReader(string(b))
		return x, x.Len, "strings.Reader"
	case 3:
		x := bytes.NewReader(append(cp(b), 1, 2, 3, 4, 5, 6, 7, 8, 9))
		return io.LimitReader(x, int64(len(b))), func() int { return x.Len() - 9 }, "io.LimitedReader"
	case 4:
		x, y := bytes.NewReader(b[:len(b)/2]), bytes.NewReader(b[len(b)/2:])
		return io.MultiReader(x, y), func() int { return x.Len() + y.Len() }, "io.MultiReader"
	}
	x := bytes.NewReader(append(cp(b), 1, 2, 3, 4, 5, 6, 7, 8, 9))
	return io.NewSectionReader(x, 0, int64(len(b))), nil, "io.SectionReader"
}

// src is a caller's entropy source with a plan for misbehaving.
type src struct {
	e     *env
	ent   *simrt.Entropy
	slow  bool
	last  bool // the final bytes come together with io.EOF
	want  int
	after int // reads after the source had failed
	dead  bool
}

func (s *src) Read(p []byte) (int, error) {
	simrt.Step()
	if s.slow {
		simrt.Sleep(durNS(int64(1+s.ent.Calls) * 1_000_000_000))
		s.e.Fault("slow")
	}
	if s.dead {
		s.after++
	}
	n, err := s.ent.Read(p)
	if err != nil {
		s.dead = true
	}
	if s.last && len(s.ent.Served) >= s.want && err == nil {
		s.e.Fault("data with EOF")
		err = io.EOF
	}
	return n, err
}

var entModes = []simrt.EntropyMode{simrt.EntropyOK, simrt.EntropyShort, simrt.EntropyFailAfter, simrt.EntropyOneByte, simrt.EntropyEOF, simrt.EntropyZeroRead}
var entNames = []string{"ok", "short read", "fails", "one byte at a time", "ends early", "empty reads"}

func setMode(e *env, t *simrt.Entropy, mode, n int64) (name string) {
	t.Mode = entModes[abs64(mode)%6]
	t.N = len(t.Served) + int(abs64(n))
	t.Fired = 0
	return entNames[abs64(mode)%6]
}

func execC10(e *env) {
	sys := e.Sim.SystemEntropy()
	wantSys := false
	for _, o := range e.Plan.Ops {
		wantSys = wantSys || o.K == "sysseed" || o.K == "syspair"
	}
	seen := map[string]string{}
	e.RunActors(func(a int, o op, ix int) { c10(e, o, seen) })
	if !wantSys {
		e.Check(sys.Calls == 0, "system source", "the system's entropy source was read although callers gave their own")
	}
}

// gaveUp tells whether the source failed or ended; every other kind of source
// goes on delivering to a caller who asks.
func gaveUp(t *simrt.Entropy) bool {
	return t.Fired > 0 && (t.Mode == simrt.EntropyFailAfter || t.Mode == simrt.EntropyEOF)
}

// fresh checks that the same material is never made twice.
func fresh(e *env, seen map[string]string, b []byte, what string) {
	if w, ok := seen[string(b)]; ok {
		e.Fail("repeated", "%s and an earlier %s are the same", what, w)
	}
	seen[string(b)] = what
}

func c10(e *env, o op, seen map[string]string) {
	mode, n := o.Arg(1), o.Arg(2)
	count := func(t *simrt.Entropy, name string) {
		if t.Fired > 0 {
			e.Fault(name)
		}
	}
	switch o.K {
	case "seed", "sysseed":
		length := uint8(o.Arg(0))
		ok := length >= 16 && length <= 64
		var ent *simrt.Entropy
		var got []byte
		var err error
		var s *src
		var start int
		name := ""
		if o.K == "seed" {
			ent = simrt.NewEntropy(newRNG(uint64(o.Arg(3))))
			ent.Pattern = pattern(o)
			name = setMode(e, ent, mode, n)
			s = &src{e: e, ent: ent, slow: o.Arg(4)%3 == 0, last: o.Arg(4)%5 == 0, want: int(length)}
			e.Guard("GenerateSeed", func() { got, err = bip32.GenerateSeed(length, shaped(e, s, o.Arg(5))) })
		} else {
			ent = e.Sim.SystemEntropy()
			start = len(ent.Served)
			name = setMode(e, ent, mode, n)
			e.Guard("GenerateSeed", func() {
				if o.Arg(4)%2 == 0 {
					got, err = bip32.GenerateSeed(length, nil)
				} else {
					got, err = key.GenerateSeed(length)
				}
			})
		}
		count(ent, name)
		served := ent.Served[start:]
		defer func() { ent.Mode = simrt.EntropyOK }()
		switch {
		case !ok:
			e.Check(err != nil, "length", "a seed of %d bytes is made", length)
			e.Check(len(got) == 0, "length", "the refused seed of %d bytes has %d bytes", length, len(got))
			return
		case len(served) < int(length):
			e.Check(err != nil, "unfinished", "a seed of %d bytes is made although the source (%s) delivered only %d", length, name, len(served))
			e.Check(gaveUp(ent), "refused", "no seed of %d bytes although the source (%s) did not fail: %v", length, name, err)
			e.Probe("refused")
			return
		}
		if err != nil {
			e.Fail("refused", "no seed of %d bytes although the source (%s) delivered %d: %v", length, name, len(served), err)
		}
		e.Check(len(got) == int(length), "length", "a seed of %d bytes has %d", length, len(got))
		e.Check(bytes.Equal(got, served[:length]), "bytes", "a seed of %d bytes is not what the source (%s) delivered", length, name)
		e.Check(len(served) == int(length), "bytes", "a seed of %d bytes took %d bytes of entropy", length, len(served))
		e.Probe("made")
		if length >= 16 {
			if ent.Pattern == nil {
				fresh(e, seen, got, "seed")
			} else {
				e.Probe("a source that repeats itself")
			}
			k, err := key.NewMaster(cp(got))
			h, why := ref.Master(got)
			if why == ref.OK {
				e.Check(err == nil, "refused", "no master key from a generated seed")
				mustBe(e, "bytes", k, h, "the master key of a generated seed")
			}
		}
		e.State("seed", name, length, err == nil)
	case "stock": // the sources that the standard library has
		length, has := uint8(o.Arg(0)), int(abs64(o.Arg(2))%300)
		b := newRNG(uint64(o.Arg(3))).Bytes(has)
		r, left, name := stock(cp(b), mode)
		var got []byte
		var err error
		e.Guard("GenerateSeed", func() { got, err = bip32.GenerateSeed(length, r) })
		switch {
		case length < 16 || length > 64:
			e.Check(err != nil && len(got) == 0, "length", "a seed of %d bytes is made", length)
			return
		case has < int(length):
			e.Fault("ends early")
			e.Check(err != nil, "unfinished", "a seed of %d bytes is made although the %s held only %d", length, name, has)
			return
		}
		if err != nil {
			e.Fail("refused", "no seed of %d bytes although the %s held %d: %v", length, name, has, err)
		}
		e.Check(bytes.Equal(got, b[:length]), "bytes", "a seed of %d bytes is not what the %s held", length, name)
		if left != nil {
			e.Check(left() == has-int(length), "bytes", "a seed of %d bytes took %d bytes of the %s", length, has-left(), name)
		}
		fresh(e, seen, got, "seed")
		e.Probe("made from a " + name)
		e.State("stock", name, length, has > int(length))
	case "stockpair":
		id := byte(1 + abs64(o.Arg(0))%2)
		has := int(abs64(o.Arg(2)) % 80)
		b := newRNG(uint64(o.Arg(3))).Bytes(has)
		r, _, name := stock(cp(b), mode)
		var rp, rv []byte
		var err error
		e.Guard("Generate", func() {
			var pub signature.PublicKey
			var pvt signature.PrivateKey
			if pub, pvt, err = signature.Generate(algOf(id), r); err == nil {
				rp, rv = pub.KeyBytes(), pvt.KeyBytes()
			}
		})
		if has < 32 {
			e.Fault("ends early")
			e.Check(err != nil, "unfinished", "a pair of algorithm %d is made although the %s held only %d bytes", id, name, has)
			return
		}
		if err != nil {
			e.Fail("refused", "no pair of algorithm %d although the %s held %d bytes: %v", id, name, has, err)
		}
		var wp, wv []byte
		if id == ref.AlgEd25519 {
			k := ed25519.NewKeyFromSeed(b[:32])
			wp, wv = k.Public().(ed25519.PublicKey), k
		} else {
			h, why := ref.Master(b[:32])
			if why != ref.OK {
				return
			}
			wp, wv = h.Pub, h.Priv
		}
		e.Check(bytes.Equal(rv, wv) && bytes.Equal(rp, wp), "bytes", "a pair of algorithm %d is not the one made from what the %s held", id, name)
		fresh(e, seen, rv, "private key")
		e.State("stockpair", name, id)
	case "pair", "syspair":
		id := byte(1 + abs64(o.Arg(0))%2)
		var ent *simrt.Entropy
		var start int
		var pub signature.PublicKey
		var pvt signature.PrivateKey
		var rp, rv []byte
		var err error
		name := ""
		gen := func(r io.Reader) {
			e.Guard("Generate", func() {
				if o.Arg(4)%4 == 3 { // the algorithm itself
					rp, rv, err = algOf(id).Generate(r)
					return
				}
				if pub, pvt, err = signature.Generate(algOf(id), r); err == nil {
					rp, rv = pub.KeyBytes(), pvt.KeyBytes()
				}
			})
		}
		if o.K == "pair" {
			ent = simrt.NewEntropy(newRNG(uint64(o.Arg(3))))
			ent.Pattern = pattern(o)
			name = setMode(e, ent, mode, n)
			gen(shaped(e, &src{e: e, ent: ent, slow: o.Arg(4)%3 == 0, last: o.Arg(4)%5 == 0, want: 32}, o.Arg(5)))
		} else {
			id = ref.AlgSecp
			ent = e.Sim.SystemEntropy()
			start = len(ent.Served)
			name = setMode(e, ent, mode, n)
			gen(nil)
		}
		count(ent, name)
		served := ent.Served[start:]
		defer func() { ent.Mode = simrt.EntropyOK }()
		if len(served) < 32 {
			e.Check(err != nil, "unfinished", "a pair of algorithm %d is made although the source (%s) delivered only %d bytes", id, name, len(served))
			e.Check(len(pub.KeyBytes()) == 0 && len(pvt.KeyBytes()) == 0, "unfinished", "the refused pair of algorithm %d still has keys", id)
			e.Check(gaveUp(ent), "refused", "no pair of algorithm %d although the source (%s) did not fail: %v", id, name, err)
			e.Probe("refused")
			return
		}
		if err != nil {
			e.Fail("refused", "no pair of algorithm %d although the source (%s) delivered %d bytes: %v", id, name, len(served), err)
		}
		var wp, wv []byte
		if id == ref.AlgEd25519 {
			k := ed25519.NewKeyFromSeed(served[:32])
			wp, wv = k.Public().(ed25519.PublicKey), k
		} else {
			h, why := ref.Master(served[:32])
			if why != ref.OK {
				return
			}
			wp, wv = h.Pub, h.Priv
		}
		e.Check(bytes.Equal(rv, wv), "bytes", "a private key of algorithm %d is not the one made from what the source (%s) delivered", id, name)
		e.Check(bytes.Equal(rp, wp), "bytes", "a public key of algorithm %d is not the one made from what the source (%s) delivered", id, name)
		if ent.Pattern == nil {
			fresh(e, seen, rv, "private key")
		} else {
			e.Probe("a source that repeats itself")
		}
		e.Probe("made")
		e.State("pair", name, id)
	}
}

func genC10(r *rng, thorough bool) *plan {
	p := &plan{}
	sys := r.Chance(3)
	np := r.Range(1, 4)
	if sys {
		np = 1 // the system's source is shared; one caller, so that what it delivered is known
	}
	n := r.Range(4, 10)
	if thorough {
		n = r.Range(6, 30)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), A: []int64{0, int64(r.Intn(6)), int64(r.Intn(70)), int64(r.Next() >> 1), int64(r.Intn(60)), int64(r.Intn(4)), 0}}
		if r.Chance(6) {
			o.A[6] = int64(r.Intn(len(patterns)))
		}
		if r.Chance(3) {
			o.A[2] = []int64{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65}[r.Intn(11)]
		}
		if r.Chance(3) {
			o.K, o.A[0] = "pair", int64(r.Intn(2))
		} else {
			o.K, o.A[0] = "seed", int64(r.Range(16, 64))
			if r.Chance(4) {
				o.A[0] = []int64{0, 1, 15, 16, 64, 65, 128, 255}[r.Intn(8)]
			}
			if r.Chance(6) { // exactly one short, or exactly enough
				o.A[2] = o.A[0] - int64(r.Intn(2))
			}
		}
		if sys && r.Chance(2) {
			o.K = "sys" + o.K
		} else if r.Chance(4) {
			o.K = "stock"
			if r.Chance(3) {
				o.K, o.A[0] = "stockpair", int64(r.Intn(2))
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// fixedC10: every length with every kind of source and every failing point
// near it.
func fixedC10() []*plan {
	var out []*plan
	for m := int64(0); m < 6; m++ {
		p := &plan{}
		for l := int64(0); l < 256; l++ {
			if l > 70 && l%16 > 1 && l != 255 {
				continue
			}
			for _, d := range []int64{-1, 0, 1} {
				if l+d >= 0 && (m == 2 || m == 4 || d == 0) {
					p.Ops = append(p.Ops, op{K: "seed", A: []int64{l, m, l + d, l*7 + d + 9, 1}})
				}
			}
		}
		for n := int64(0); n < 34; n++ {
			p.Ops = append(p.Ops, op{K: "pair", A: []int64{n, m, n, n + 1000*m + 5, 1}}, op{K: "pair", A: []int64{n + 1, m, n, n + 1000*m + 77, 1}})
		}
		out = append(out, p)
	}
	p := &plan{}
	for m := int64(0); m < 6; m++ {
		for l := int64(15); l < 66; l += 7 {
			for _, d := range []int64{-l, -15, -1, 0, 1, 40} {
				p.Ops = append(p.Ops, op{K: "stock", A: []int64{l, m, max(0, l+d), 10000000 + m*100000 + l*500 + d}})
			}
		}
		for n := int64(0); n < 34; n++ {
			p.Ops = append(p.Ops, op{K: "stockpair", A: []int64{n, m, n, 20000000 + n + 1000*m + 15}}, op{K: "stockpair", A: []int64{n + 1, m, n, 20000000 + n + 1000*m + 99}})
		}
	}
	out = append(out, p)
	p = &plan{}
	for m := int64(0); m < 6; m++ {
		for k := range patterns {
			for l := int64(16); l < 65; l += 16 {
				p.Ops = append(p.Ops, op{K: "seed", A: []int64{l, m, l, 30000000 + m*100000 + int64(k)*1000 + l, 1, 0, int64(k)}})
			}
			p.Ops = append(p.Ops, op{K: "pair", A: []int64{0, m, 32, 30000500 + m*100000 + int64(k)*1000, 1, 0, int64(k)}}, op{K: "pair", A: []int64{1, m, 32, 30000501 + m*100000 + int64(k)*1000, 1, 0, int64(k)}})
		}
	}
	return append(out, p)
}
