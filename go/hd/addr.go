package hd

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/tinylib/msgp/msgp"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

const addrKinds = "anexbm"

// ---- C13: everybody computes the same address

type payee struct {
	h    *ref.HD
	text string // what the party stored
}

type book struct {
	e     *env
	order []int
	ps    map[int][]*payee
	known map[string]string // address -> what it is the address of
	obj   map[int]*address.Address
}

func execC13(e *env) {
	b := &book{e: e, order: e.Plan.Actors(), ps: map[int][]*payee{}, known: map[string]string{}, obj: map[int]*address.Address{}}
	e.RunActors(func(a int, o op, ix int) {
		if c, ok := o.Fault("crash"); ok {
			if !simrt.RunKillable("payer", 1+abs64(c.Arg(0))%800, func() { b.step(a, o) }) {
				e.Fault("crash")
			}
			return
		}
		b.step(a, o)
	})
}

// brief is a short text for data, another one for other data.
func brief(data []byte) string {
	if len(data) <= 400 {
		return fmt.Sprintf("%x", data)
	}
	return fmt.Sprintf("%x... (%d bytes, SHA-256 %x)", data[:16], len(data), sha256.Sum256(data))
}

// is checks an address that a party came to hold.
func (b *book) is(got address.Address, kind byte, data []byte, how string) {
	e := b.e
	want, _ := ref.Address(kind, data)
	s := got.String()
	if s != want {
		e.Fail("address", "%s: the address of kind %c of %s is %q, want %q", how, kind, brief(data), s, want)
	}
	if len(s) != address.AddrLength || !strings.HasPrefix(s, "nd"+string(rune(kind))) {
		e.Fail("form", "%s: %q is not a %d-character address of kind %c", how, s, address.AddrLength, kind)
	}
	if got.Kind() != kind {
		e.Fail("kind", "%s: the kind of %s is %c, want %c", how, s, got.Kind(), kind)
	}
	id := fmt.Sprintf("%c%s", kind, brief(data))
	if was, ok := b.known[s]; ok && was != id {
		e.Fail("distinct", "%s is the address of %s and of %s", s, was, id)
	}
	b.known[s] = id
	if err := got.Revalidate(); err != nil {
		e.Fail("revalidate", "%s: %s does not validate: %v", how, s, err)
	}
	v, err := address.Validate(s)
	if err != nil {
		e.Fail("revalidate", "%s: %s does not validate: %v", how, s, err)
	}
	e.Check(v == got, "revalidate", "%s validates as %s", s, v)
}

func (b *book) step(a int, o op) {
	e := b.e
	fail := func(what string, err error) { e.Fail("refused", "%s: %v", what, err) }
	switch o.K {
	case "key":
		h, why := ref.Master(o.Bytes())
		if why != ref.OK {
			return
		}
		k, err := key.NewMaster(o.Bytes())
		if err != nil {
			fail("master key", err)
		}
		for i := range o.A {
			c, why := h.Child(uint32(o.Arg(i)))
			if why != ref.OK {
				break
			}
			if k, err = k.Child(uint32(o.Arg(i))); err != nil {
				fail("child", err)
			}
			h = c
		}
		t, err := k.MarshalText()
		if err != nil {
			fail("text", err)
		}
		b.ps[a] = append(b.ps[a], &payee{h, string(t)})
	case "addr":
		p := pick(b.ps[a], o.Arg(0))
		if p == nil {
			return
		}
		kind := addrKinds[abs64(o.Arg(1))%6]
		got, how := b.compute(p, &kind, o.Arg(2))
		b.is(got, kind, p.h.Pub, how)
		e.State("route", how, string(rune(kind)), p.h.Depth, p.h.Priv != nil)
	case "tell": // address and public key travel separately
		p := pick(b.ps[a], o.Arg(0))
		if p == nil {
			return
		}
		kind := addrKinds[abs64(o.Arg(1))%6]
		got, how := b.compute(p, &kind, o.Arg(2))
		b.is(got, kind, p.h.Pub, how)
		form := abs64(o.Arg(3)) % 5
		wire := wireAddr(e, got, form)
		to := pick(b.order, o.Arg(4))
		pub := p.h.Public().Text()
		deliver(e, o, func(int) {
			dst := b.obj[to]
			if dst == nil || form%2 == 0 {
				dst = new(address.Address)
				b.obj[to] = dst
			}
			mine := new(address.Address)
			if err := readAddr(mine, cp(wire), form); err != nil {
				fail(fmt.Sprintf("address %s received as %q", got, wire), err)
			}
			*dst = *mine
			b.is(*mine, kind, p.h.Pub, "received")
			k, err := keyaddr.FromString(pub)
			if err != nil {
				fail("received public key", err)
			}
			ek, err := k.ToExtended()
			if err != nil {
				fail("received public key", err)
			}
			own, err := address.Generate(kind, ek.PubKeyBytes())
			if err != nil {
				fail("generate at the receiver", err)
			}
			e.Check(own == *mine, "disagree", "the receiver computes %s, the sender sent %s", own, *mine)
			e.Probe("receiver agrees")
		})
	case "data", "long":
		data, kind := o.Bytes(), byte(o.Arg(0))
		if o.K == "long" {
			data = newRNG(uint64(o.Arg(3))).Bytes(1 + int(abs64(o.Arg(2))%(1<<21)))
			e.Probe("much data")
		}
		keep := cp(data)
		want, ok := ref.Address(kind, data)
		var got address.Address
		var err error
		e.Guard("Generate", func() { got, err = address.Generate(kind, data) })
		e.Check(bytes.Equal(keep, data), "argument", "Generate changed its data")
		if !ok {
			e.Check(err != nil, "accepted", "Generate(%d, %d bytes) gives %s instead of an error", kind, len(data), got)
			e.Check(got == address.Address{}, "accepted", "the refused Generate(%d, %d bytes) still gives %s", kind, len(data), got)
			e.Fault("bad request")
			return
		}
		if err != nil {
			fail(fmt.Sprintf("Generate(%c, %s), want %s", kind, brief(data), want), err)
		}
		b.is(got, kind, data, "raw data")
		if len(o.A) > 1 { // data that differs from it a little
			for _, near := range nearData(data, o.Arg(1)) {
				want, ok := ref.Address(kind, near)
				got, err := address.Generate(kind, near)
				if !ok {
					e.Check(err != nil, "accepted", "Generate(%c, %d bytes) gives %s instead of an error", kind, len(near), got)
					continue
				}
				if err != nil {
					fail(fmt.Sprintf("Generate(%c, %s), want %s", kind, brief(near), want), err)
				}
				b.is(got, kind, near, "data close to other data")
			}
			again, err := address.Generate(kind, data)
			e.Check(err == nil && again == got, "disagree", "Generate(%c, %s) first gives %s and then %s (%v)", kind, brief(data), got, again, err)
		}
	case "restart": // everything from the stored text, in a fresh process state
		e.Fault("restart")
		for _, p := range b.ps[a] {
			for i := int64(0); i < 4; i++ {
				kind := addrKinds[(abs64(o.Arg(0))+i)%6]
				got, how := b.compute(p, &kind, o.Arg(0)+i)
				b.is(got, kind, p.h.Pub, "after a restart, "+how)
			}
		}
	case "kind":
		b.parseKind(o)
	}
}

// nearData is data with one byte changed, its head or tail gone, or more
// behind it.
func nearData(data []byte, where int64) (all [][]byte) {
	at := func(i int, x byte) {
		c := cp(data)
		c[i] ^= x
		all = append(all, c)
	}
	n := len(data)
	x := byte(1 << (abs64(where) % 8))
	at(0, x)
	at(n-1, x)
	at(int(abs64(where)>>3)%n, x)
	return append(all, cp(data[1:]), cp(data[:n-1]), append(cp(data), 0), append([]byte{0}, data...), append(cp(data), data...))
}

// compute takes one of the routes from the stored key text to an address.
func (b *book) compute(p *payee, kind *byte, route int64) (got address.Address, how string) {
	e := b.e
	var err error
	var viaFacade *keyaddr.Address
	if pn := core.Catch(func() {
		ek := new(key.ExtendedKey)
		if err = ek.UnmarshalText([]byte(p.text)); err != nil {
			return
		}
		gen := func(data []byte) { got, err = address.Generate(*kind, data) }
		switch abs64(route) % 10 {
		case 0:
			how = "private key"
			gen(ek.PubKeyBytes())
		case 1:
			how = "public half"
			var pk *key.ExtendedKey
			if pk, err = ek.Public(); err == nil {
				gen(pk.PubKeyBytes())
			}
		case 2:
			how = "signature key"
			var sk *signature.PublicKey
			if sk, err = ek.SPubKey(); err == nil {
				gen(sk.KeyBytes())
			}
		case 3:
			how = "facade, private text"
			*kind = address.KindUser
			viaFacade, err = (&keyaddr.Key{Key: p.text}).NdauAddress()
		case 4:
			how = "facade, public text"
			*kind = address.KindUser
			viaFacade, err = (&keyaddr.Key{Key: p.h.Public().Text()}).NdauAddress()
		case 5:
			how = "facade, converted"
			*kind = address.KindUser
			var k, pk *keyaddr.Key
			if k, err = keyaddr.FromString(strings.ToUpper(p.text[:0]) + p.text); err == nil {
				if pk, err = k.ToPublic(); err == nil {
					viaFacade, err = pk.NdauAddress()
				}
			}
		case 6:
			how = "private signature key"
			var sk *signature.PrivateKey
			if sk, err = ek.SPrivKey(); err == nil {
				gen(sk.Algorithm().Public(sk.KeyBytes()))
			}
		case 7:
			how = "old text"
			*kind = address.KindUser
			var k *keyaddr.Key
			if k, err = keyaddr.FromOldString(p.h.OldText(key.NdauPrivateKeyID)); err == nil {
				viaFacade, err = k.NdauAddress()
			}
		case 8, 9: // the same key, with another place in a tree
			how = "key with other surroundings"
			*kind = address.KindUser
			h, x := *p.h, simrt.NewRNG(uint64(route)*31+uint64(*kind))
			if abs64(route)%10 == 9 {
				h = *h.Public()
			}
			h.Depth, h.Num, h.Chain = []int{0, 1, 2, 7, 254, 255}[x.Intn(6)], uint32(x.Next())>>uint(x.Intn(32)), x.Bytes(32)
			h.FP = [][]byte{{0, 0, 0}, {0, 0, 1}, x.Bytes(3), {0xff, 0xff, 0xff}}[x.Intn(4)]
			viaFacade, err = (&keyaddr.Key{Key: h.Text()}).NdauAddress()
		}
	}); pn != "" {
		e.Fail("panic", "computing an address (%s) panicked: %s", how, pn)
	}
	if err != nil {
		e.Fail("refused", "computing an address (%s): %v", how, err)
	}
	if viaFacade != nil {
		if got, err = address.Validate(viaFacade.Address); err != nil {
			e.Fail("refused", "%s: the facade's address %q does not validate: %v", how, viaFacade.Address, err)
		}
		e.Check(got.String() == viaFacade.Address, "canonical", "the facade's address %q is not canonical", viaFacade.Address)
	}
	return got, how
}

type addrBox struct{ A address.Address }

func wireAddr(e *env, a address.Address, form int64) []byte {
	var b []byte
	var err error
	switch form {
	case 0:
		b = []byte(a.String())
	case 1:
		b, err = a.MarshalText()
	case 2:
		b, err = json.Marshal(addrBox{a})
	case 3:
		b, err = a.MarshalMsg(nil)
	case 4:
		b = []byte(strings.ToUpper(a.String()))
	}
	if err != nil {
		e.Fail("refused", "writing an address: %v", err)
	}
	return b
}

func readAddr(a *address.Address, b []byte, form int64) (err error) {
	switch form {
	case 0, 4:
		*a, err = address.Validate(string(b))
	case 1:
		err = a.UnmarshalText(b)
	case 2:
		var x addrBox
		if err = json.Unmarshal(b, &x); err == nil {
			*a = x.A
		}
	case 3:
		var rest []byte
		if rest, err = a.UnmarshalMsg(b); err == nil && len(rest) > 0 {
			err = fmt.Errorf("%d bytes left over", len(rest))
		}
		if err == nil {
			err = a.Revalidate()
		}
	}
	return err
}

var kindNames = map[string]byte{
	"user": 'a', "u": 'a', "ndau": 'n', "endowment": 'e', "exchange": 'x', "bpc": 'b', "marketmaker": 'm',
	"a": 'a', "n": 'n', "e": 'e', "x": 'x', "b": 'b', "m": 'm',
}

var kindList = []string{"user", "u", "ndau", "endowment", "exchange", "bpc", "marketmaker", "a", "n", "e", "x", "b", "m"}

func (b *book) parseKind(o op) {
	e := b.e
	var in any
	var want byte
	ok := true
	switch abs64(o.Arg(0)) % 5 {
	case 4:
		c := int8(o.Arg(1))
		want, ok = byte(c), c > 0 && strings.IndexByte(addrKinds, byte(c)) >= 0
		in = c
	case 0:
		s := pick(kindList, o.Arg(1))
		want = kindNames[s]
		if o.Arg(1)%2 == 0 {
			s = strings.ToUpper(s)
		}
		in = s
	case 1:
		c := byte(o.Arg(1))
		want, ok = c, strings.ContainsRune(addrKinds, rune(c)) && c < 128
		in = c
	case 2:
		c := rune(abs64(o.Arg(1)) % 128)
		want = c2lower(byte(c))
		ok = strings.IndexByte(addrKinds, want) >= 0
		in = c
	case 3:
		in, ok = []any{"", 3.5, nil, []byte("a"), int64(97), true}[abs64(o.Arg(1))%6], false
	}
	var got byte
	var err error
	e.Guard("ParseKind", func() { got, err = address.ParseKind(in) })
	if !ok {
		e.Check(err != nil, "kind", "ParseKind(%#v) gives %q", in, got)
		return
	}
	e.Check(err == nil && got == want, "kind", "ParseKind(%#v) gives %q, %v, want %q", in, got, err, want)
	for c := 0; c < 256; c++ {
		e.Check(address.IsValidKind(byte(c)) == (strings.IndexByte(addrKinds, byte(c)) >= 0), "kind", "IsValidKind(%d)", c)
	}
}

func c2lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		c += 32
	}
	return c
}

func genC13(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(6, 14)
	if thorough {
		n = r.Range(8, 40)
	}
	for a := 0; a < np; a++ {
		for i := 0; i < 2; i++ {
			o := op{T: a, K: "key", B: core.Hex(genSeed(r))}
			for j := r.Intn(3); j > 0; j-- {
				o.A = append(o.A, int64(genIndex(r)))
			}
			if r.Chance(3) { // leading zeros in the private key
				c := lzChildren[r.Intn(len(lzChildren))]
				o.B, o.A = core.Hex(lzSeed(int(c[0]))), []int64{int64(c[1])}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	for i := 0; i < n; i++ {
		a := r.Intn(np)
		slot, kind, route := int64(r.Intn(4)), int64(r.Intn(6)), int64(r.Intn(10))
		if route >= 8 {
			route += 10 * int64(r.Intn(1000))
		}
		switch r.Intn(8) {
		case 0, 1:
			p.Ops = append(p.Ops, op{T: a, K: "addr", A: []int64{slot, kind, route}, F: genFault(r, 6, "crash", int64(r.Intn(800)))})
		case 2, 3:
			p.Ops = append(p.Ops, op{T: a, K: "tell", A: []int64{slot, kind, route, int64(r.Intn(5)), int64(r.Intn(np))}, F: netFaults(r)})
		case 4, 5:
			k := int64(addrKinds[r.Intn(6)])
			n := []int{0, 1, 10, 11, 12, 13, 32, 33, 64, 100, 300}[r.Intn(11)]
			if r.Chance(4) {
				k = int64(r.Intn(256))
			}
			b := r.Bytes(n)
			if r.Chance(4) {
				b = make([]byte, n)
			}
			p.Ops = append(p.Ops, op{T: a, K: "data", A: []int64{k, int64(r.Intn(1 << 12))}, B: core.Hex(b)})
			if r.Chance(6) {
				p.Ops = append(p.Ops, op{T: a, K: "long", A: []int64{int64(addrKinds[r.Intn(6)]), int64(r.Intn(1 << 20)), int64(r.Intn(1 << uint(r.Range(8, 17)))), int64(r.Next() >> 1)}})
			}
		case 6:
			p.Ops = append(p.Ops, op{T: a, K: "restart", A: []int64{int64(r.Intn(48))}})
		case 7:
			c := int64(r.Intn(256))
			if r.Chance(2) {
				c = int64(addrKinds[r.Intn(6)])
			}
			p.Ops = append(p.Ops, op{T: a, K: "kind", A: []int64{int64(r.Intn(5)), c}})
		}
	}
	return p
}

// fixedC13: every kind, with data of sizes around powers of two.
func fixedC13() []*plan {
	var out []*plan
	for i, n := range []int64{255, 256, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 1 << 17, 1 << 20} {
		p := &plan{}
		for k := range addrKinds {
			if n <= 4097 || k == i%6 {
				p.Ops = append(p.Ops, op{K: "long", A: []int64{int64(addrKinds[k]), n*8 - 16, n - 1, int64(i*100 + k)}})
			}
		}
		out = append(out, p)
	}
	return out
}

// ---- C14: damaged addresses

func execC14(e *env) {
	held := map[int]*address.Address{}
	e.RunActors(func(a int, o op, ix int) {
		if held[a] == nil {
			held[a] = new(address.Address)
		}
		c14(e, o, held[a])
	})
}

// entries are the ways an address enters a program.
const nEntries = 5

func enterAddr(e *env, s string, how int64, into *address.Address) (got address.Address, err error) {
	e.Guard("reading an address", func() {
		switch abs64(how) % nEntries {
		case 0:
			got, err = address.Validate(s)
		case 1:
			got = address.Address{}
			err = got.UnmarshalText([]byte(s))
		case 2: // into an object that held another one
			before := into.String()
			err = into.UnmarshalText([]byte(s))
			got = *into
			if err != nil {
				if x := into.String(); x != before && x != "" {
					e.Fail("left behind", "the refused address %q left %q in an object that held %q", s, x, before)
				}
			}
		case 3:
			b, jerr := json.Marshal(s)
			if jerr != nil {
				err = jerr
				return
			}
			var x addrBox
			if err = json.Unmarshal([]byte(`{"A":`+string(b)+`}`), &x); err == nil {
				got = x.A
			} else if y := x.A.String(); y != "" {
				e.Fail("left behind", "the refused address %q left %q", s, y)
			}
		case 4: // a message, checked on arrival
			b := msgp.AppendString(msgp.AppendArrayHeader(nil, 1), s)
			var rest []byte
			if rest, err = got.UnmarshalMsg(b); err == nil && len(rest) > 0 {
				err = fmt.Errorf("left over")
			}
			if err == nil {
				if err = got.Revalidate(); err == nil {
					got, err = address.Validate(got.String())
				}
			}
		}
	})
	return
}

// verdict checks what became of text s that came from the address orig by
// damage; must says that it has to be refused unless it spells orig.
func verdict(e *env, s, orig string, how int64, must bool, what string, into *address.Address) {
	got, err := enterAddr(e, s, how, into)
	ascii := true
	for i := 0; i < len(s); i++ {
		ascii = ascii && s[i] < 128
	}
	if err != nil {
		if ascii && strings.EqualFold(s, orig) {
			e.Fail("refused", "the address %q is refused (%s): %v", s, what, err)
		}
		if ascii && ref.AddressOK(s) {
			e.Fail("refused", "the well-formed address %q is refused: %v", s, err)
		}
		return
	}
	e.Probe("accepted")
	x := got.String()
	switch {
	case x == orig && (ascii && strings.EqualFold(s, orig) || !ascii):
		// still the original
	case must:
		e.Fail("accepted", "%s of the address %s gives %q, which is accepted as %q", what, orig, s, x)
	case !ascii || !ref.AddressOK(s):
		e.Fail("accepted", "%q (%s of %s) is accepted as %q but is no well-formed address", s, what, orig, x)
	default:
		if x != strings.ToLower(s) {
			e.Fail("canonical", "%q is accepted as %q", s, x)
		}
	}
	if x != strings.ToLower(x) || len(x) != 48 || !ref.AddressOK(x) {
		e.Fail("canonical", "%q is stored as %q", s, x)
	}
	t, err := got.MarshalText()
	if err != nil || string(t) != x {
		e.Fail("canonical", "the address %s is written as %q, %v", x, t, err)
	}
	again, err := address.Validate(x)
	if err != nil || again != got || got.Kind() != x[2] {
		e.Fail("canonical", "the accepted address %q is read again as %q of kind %c, %v", x, again, got.Kind(), err)
	}
}

func c14(e *env, o op, held *address.Address) {
	x := newRNG(uint64(o.Arg(0)))
	kind := addrKinds[x.Intn(6)]
	data := x.Bytes(33)
	orig, _ := ref.Address(kind, data)
	how := o.Arg(1)
	if a, err := address.Generate(kind, data); err != nil || a.String() != orig {
		e.Fail("address", "Generate(%c, %x) gives %v, %v, want %s", kind, data, a, err, orig)
	}
	pos := int(abs64(o.Arg(2)))
	ch := byte(o.Arg(3))
	up := func(s string) string {
		if o.Arg(4)%3 == 1 {
			return strings.ToUpper(s)
		}
		return s
	}
	switch o.K {
	case "intact":
		verdict(e, up(orig), orig, how, false, "nothing", held)
		b := []byte(orig)
		for i := range b {
			if x.Chance(2) && b[i] >= 'a' {
				b[i] -= 32
			}
		}
		verdict(e, string(b), orig, how, false, "letter case", held)
	case "sub": // one character at one position, every other value
		e.Fault("substitution")
		b := []byte(up(orig))
		i := pos % 48
		for c := 0; c < 256; c++ {
			y := cp(b)
			y[i] = byte(c)
			if c2lower(byte(c)) == orig[i] {
				continue
			}
			verdict(e, string(y), orig, how, true, fmt.Sprintf("replacing character %d", i), held)
		}
	case "subpos": // one character value at every position
		e.Fault("substitution")
		for i := 0; i < 48; i++ {
			y := []byte(up(orig))
			if c2lower(ch) == orig[i] {
				continue
			}
			y[i] = ch
			verdict(e, string(y), orig, how, true, fmt.Sprintf("replacing character %d", i), held)
		}
	case "rune": // a letter replaced by a look-alike that lower-cases into it
		e.Fault("substitution")
		for i := 0; i < 48; i++ {
			for _, r := range []string{"\u212a", "\u0130", "\u017f", "\uff41", "\u00e5"} {
				verdict(e, orig[:i]+r+orig[i+1:], orig, how, true, "a foreign letter in place", held)
				if i+len(r) <= 48 { // keeping the byte length
					verdict(e, orig[:i]+r+orig[i+len(r):], orig, how, true, "a foreign letter in place", held)
				}
			}
		}
	case "dress": // as people and programs pass it on
		e.Fault("addition")
		y := up(orig)
		for i := range dressings {
			verdict(e, dress(y, int64(i), 0), orig, how, true, "dressing it up", held)
			if x.Chance(4) {
				verdict(e, dress(y, int64(i), x.Range(1, 47)), orig, how, true, "something put in the middle", held)
			}
		}
	case "swap":
		e.Fault("transposition")
		for i := 0; i+1 < 48; i++ {
			y := []byte(up(orig))
			if y[i] == y[i+1] {
				continue
			}
			y[i], y[i+1] = y[i+1], y[i]
			verdict(e, string(y), orig, how, true, "swapping adjacent characters", held)
		}
	case "drop":
		e.Fault("loss")
		k := 1 + x.Intn(4)
		for i := 0; i+k <= 48; i++ {
			y := up(orig)
			verdict(e, y[:i]+y[i+k:], orig, how, true, fmt.Sprintf("dropping %d characters", k), held)
		}
	case "add":
		e.Fault("addition")
		y := up(orig)
		for i := 0; i <= 48; i++ {
			verdict(e, y[:i]+string([]byte{ch})+y[i:], orig, how, true, "adding a character", held)
			// an addition that makes up for a loss elsewhere
			j := x.Intn(48)
			z := y[:i] + string([]byte{ch}) + y[i:]
			z = z[:j] + z[j+1:]
			if !strings.EqualFold(z, orig) {
				verdict(e, z, orig, how, strings.IndexByte(ref.Alphabet, c2lower(ch)) < 0, "adding and dropping a character", held)
			}
		}
	case "cut":
		e.Fault("cut")
		y := up(orig)
		for i := 0; i < 48; i++ {
			verdict(e, y[:i], orig, how, true, "cutting it off", held)
			verdict(e, y[i:]+"", orig, how, i > 0, "cutting it off in front", held)
			pad := strings.Repeat(string([]byte{ch}), 48-i)
			if z := y[:i] + pad; !strings.EqualFold(z, orig) {
				verdict(e, z, orig, how, false, "filling it up", held)
			}
		}
	case "blocks": // several kinds of damage at once
		e.Fault("scramble")
		for k := 0; k < 40; k++ {
			y := []byte(up(orig))
			for j := x.Range(1, 5); j > 0; j-- {
				i := x.Intn(48)
				switch x.Intn(4) {
				case 0:
					y[i] = ref.Alphabet[x.Intn(32)]
				case 1:
					l := x.Intn(48)
					y[i], y[l] = y[l], y[i]
				case 2:
					y[i] = []byte{'\n', '\r', '=', ' ', 0, '-'}[x.Intn(6)]
				case 3:
					for l := 47; l >= 0 && l > 47-x.Intn(9); l-- {
						y[l] = []byte{'=', '\n', 'a'}[x.Intn(3)]
					}
				}
			}
			verdict(e, string(y), orig, how, false, "scrambling", held)
		}
	case "forge": // payloads of other lengths, made up with what decoding skips
		e.Fault("forged")
		for n := 0; n < 30; n++ {
			b := x.Bytes(n)
			b = append(b, byte(ref.CRC16(b)>>8), byte(ref.CRC16(b)))
			s := ref.B32(b)
			if len(s) < 3 {
				continue
			}
			for _, fill := range []string{"\n", "\r", "="} {
				z := s
				if len(z) < 48 {
					z = s[:2] + string(rune(kind)) + s[3:] + strings.Repeat(fill, 48-len(s))
				}
				verdict(e, z, orig, how, false, "forging", held)
				if len(s) < 48 {
					verdict(e, s+strings.Repeat(fill, 48-len(s)), orig, how, false, "forging", held)
					verdict(e, strings.Repeat(fill, 48-len(s))+s, orig, how, false, "forging", held)
				}
			}
		}
	case "other": // a correct address with another prefix or kind
		b, _ := ref.B32Decode(orig)
		for k := 0; k < 32; k++ {
			c := cp(b)
			v := uint16(c[0])<<8 | uint16(c[1])
			v = v&^(31<<1) | uint16(k)<<1
			if x.Chance(2) {
				v ^= uint16(x.Intn(1024)) << 6
			}
			c[0], c[1] = byte(v>>8), byte(v)
			if x.Chance(3) {
				c[1] ^= 1
			}
			m := ref.CRC16(c[:28])
			c[28], c[29] = byte(m>>8), byte(m)
			verdict(e, ref.B32(c), orig, how, false, "another header", held)
		}
	}
	e.State("entry", o.K, abs64(how)%nEntries)
}

func genC14(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 2)
	n := r.Range(3, 6)
	if thorough {
		n = r.Range(4, 12)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), A: []int64{int64(r.Next() >> 1), int64(r.Intn(nEntries)), int64(r.Intn(48)), int64(r.Intn(256)), int64(r.Intn(3))}}
		o.K = []string{"intact", "sub", "sub", "subpos", "rune", "swap", "drop", "add", "add", "cut", "blocks", "forge", "other", "dress"}[r.Intn(14)]
		if r.Chance(2) {
			o.A[3] = []int64{'\n', '\r', '=', ' ', 0, 'l', '1', 'o', '0', 'a', '9', 'A', 0x80, 0xff, '\t', '-'}[r.Intn(16)]
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}
