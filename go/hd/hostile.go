package hd

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/words"
	"github.com/tinylib/msgp/msgp"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// ---- C08: untrusted input

// entry is one way into the library. It gets the bytes and, if they are
// accepted, uses the result in every way that is open to a program.
type entry struct {
	name string
	f    func(x *use, b []byte) error
}

// use carries good values to combine accepted ones with.
type use struct {
	r    *rng
	pub  *signature.PublicKey
	pvt  *signature.PrivateKey
	sig  *signature.Signature
	ext  *key.ExtendedKey
	addr address.Address
	// objects that held something before
	used bool
	// text is for entries that want it
	what string
}

var goodUse struct {
	pub *signature.PublicKey
	pvt *signature.PrivateKey
	ext *key.ExtendedKey
}

func newUse(seed uint64) *use {
	x := &use{r: newRNG(seed)}
	id := byte(1 + x.r.Intn(2))
	pub, pvt, err := signature.Generate(algOf(id), newReader(7))
	if err != nil {
		panic(err)
	}
	sig := pvt.Sign([]byte("message"))
	x.pub, x.pvt, x.sig = &pub, &pvt, &sig
	h, _ := ref.Master(lzSeed(0))
	x.ext = realOf(h)
	x.addr, _ = address.Generate('a', []byte("twelve bytes or more"))
	x.used = x.r.Chance(2)
	return x
}

func (x *use) step(name string) { x.what = name }

func (x *use) pubKey(k *signature.PublicKey) {
	x.step("Verify")
	k.Verify([]byte("message"), *x.sig)
	k.Verify(nil, signature.Signature{})
	x.sig.Verify([]byte("message"), *k)
	x.step("Match")
	signature.Match(*k, *x.pvt)
	x.step("Size")
	_ = k.Size()
	x.step("String")
	_, _ = k.String(), k.FullString()
	x.step("Marshal")
	_, _ = k.Marshal()
	_, _ = k.MarshalMsg(nil)
	_, _ = k.MarshalText()
	_, _ = k.MarshalString()
	_, _ = json.Marshal(k)
	_ = k.Msgsize()
	x.step("Algorithm")
	signature.SameAlgorithm(k.Algorithm(), x.pub.Algorithm())
	_ = signature.NameOf(k.Algorithm())
	x.step("IsPublic")
	signature.IsPublic(k)
	signature.IsPrivate(k)
	_ = k.IsZero()
	x.step("FromSignatureKey")
	if e, err := key.FromSignatureKey(k); err == nil {
		x.extKey(e)
	}
	x.step("KeyFromPublic")
	if f, err := keyaddr.KeyFromPublic(*k); err == nil {
		x.facade(f)
	}
	x.step("address")
	_, _ = address.Generate('a', k.KeyBytes())
	_ = k.ExtraBytes()
}

func (x *use) pvtKey(k *signature.PrivateKey) {
	x.step("Sign")
	g := k.Sign([]byte("message"))
	x.step("Verify")
	x.pub.Verify([]byte("message"), g)
	x.step("Match")
	signature.Match(*x.pub, *k)
	x.step("String")
	_, _ = k.String(), k.FullString()
	x.step("Marshal")
	_, _ = k.Marshal()
	_, _ = k.MarshalMsg(nil)
	_, _ = k.MarshalText()
	_, _ = k.MarshalString()
	_, _ = json.Marshal(k)
	_ = k.Msgsize()
	_ = k.Size()
	x.step("FromSignatureKey")
	if e, err := key.FromSignatureKey(k); err == nil {
		x.extKey(e)
	}
	x.step("KeyFromPrivate")
	if f, err := keyaddr.KeyFromPrivate(*k); err == nil {
		x.facade(f)
	}
	x.step("IsPrivate")
	signature.IsPublic(k)
	signature.IsPrivate(k)
	_, _ = k.KeyBytes(), k.ExtraBytes()
}

func (x *use) signature(g *signature.Signature) {
	x.step("Verify")
	x.pub.Verify([]byte("message"), *g)
	g.Verify([]byte("message"), *x.pub)
	signature.PublicKey{}.Verify(nil, *g)
	x.step("Marshal")
	_, _ = g.Marshal()
	_, _ = g.MarshalMsg(nil)
	_, _ = g.MarshalText()
	_, _ = g.MarshalString()
	_, _ = json.Marshal(g)
	_ = g.Msgsize()
	_ = g.Size()
	_ = g.Bytes()
	x.step("Algorithm")
	signature.SameAlgorithm(g.Algorithm(), x.pub.Algorithm())
	x.step("SignatureFrom")
	_, _ = keyaddr.SignatureFrom(*g)
}

func (x *use) extKey(k *key.ExtendedKey) {
	x.step("observers")
	_, _, _, _ = k.IsPrivate(), k.Depth(), k.ParentFingerprint(), k.Bytes()
	x.step("PubKeyBytes")
	_ = k.PubKeyBytes()
	x.step("Child")
	_, _ = k.Child(uint32(x.r.Next()))
	_, _ = k.Child(0)
	_, _ = k.HardenedChild(uint32(x.r.Next()))
	x.step("Public")
	_, _ = k.Public()
	x.step("conversion")
	_, _ = k.ECPubKey()
	_, _ = k.ECPrivKey()
	if p, err := k.SPubKey(); err == nil {
		_ = p.FullString()
		p.Verify([]byte("m"), *x.sig)
	}
	if p, err := k.SPrivKey(); err == nil {
		x.step("Sign with SPrivKey")
		p.Sign([]byte("m"))
	}
	if s, err := k.AsSignatureKey(); err == nil {
		_, _ = s.MarshalText()
	}
	x.step("MarshalText")
	_, _ = k.MarshalText()
	x.step("DeriveFrom")
	_, _ = k.DeriveFrom("/", "/1/2'")
	x.step("KeyFromExtended")
	_, _ = keyaddr.KeyFromExtended(k)
}

func (x *use) facade(k *keyaddr.Key) {
	x.step("keyaddr methods")
	_, _ = k.ToPublic()
	_, _ = k.Child(int32(x.r.Next()))
	_, _ = k.HardenedChild(int32(x.r.Next()))
	x.step("keyaddr Sign")
	_, _ = k.Sign("bWVzc2FnZQ==")
	_, _ = k.Sign("%")
	x.step("keyaddr NdauAddress")
	_, _ = k.NdauAddress()
	x.step("keyaddr conversions")
	_, _ = k.IsPrivate()
	_, _ = k.ToExtended()
	if p, err := k.ToPublicKey(); err == nil {
		p.Verify(nil, *x.sig)
		_ = p.FullString()
	}
	if p, err := k.ToPrivateKey(); err == nil {
		p.Sign(nil)
	}
}

func (x *use) address(a address.Address) {
	x.step("address methods")
	_, _ = a.String(), a.Kind()
	_, _ = a.MarshalText()
	_, _ = a.MarshalMsg(nil)
	_ = a.Msgsize()
	_ = a.Revalidate()
	_ = a == x.addr
	_, _ = json.Marshal(a)
	_, _ = address.ParseKind(a.Kind())
}

func (x *use) bitset(b *bitset256.Bitset256) {
	x.step("bit set methods")
	_, _, _ = b.AsHex(), b.Indices(), b.Count()
	b.Less(bitset256.New())
}

// usedObj gives a blank object, or one that held a value before.
func (x *use) obj(kind string) *object {
	o := blank(kind)
	if x.used {
		r := genRec(newRNG(uint64(x.r.Intn(20))), kind)
		_ = o.read("text", []byte(r.text()))
	}
	return o
}

func (x *use) object(o *object) {
	switch o.kind {
	case "pub":
		x.pubKey(o.pub)
	case "pvt":
		x.pvtKey(o.pvt)
	case "sig":
		x.signature(o.sig)
	case "ext":
		x.extKey(o.ext)
	}
}

func objEntry(kind, form string) entry {
	return entry{kind + "." + form, func(x *use, b []byte) error {
		o := x.obj(kind)
		x.step("reading")
		err := o.read(form, b)
		if err == nil {
			x.object(o)
		} else { // what is left can still be looked at
			x.step("after a refused read: observing")
			switch kind {
			case "pub":
				_, _, _ = o.pub.KeyBytes(), o.pub.FullString(), o.pub.Algorithm()
			case "pvt":
				_, _, _ = o.pvt.KeyBytes(), o.pvt.String(), o.pvt.Algorithm()
			case "sig":
				_, _ = o.sig.Bytes(), o.sig.Algorithm()
			}
			x.step("after a refused read: reading again")
			g := genRec(newRNG(3), kind)
			if e2 := o.read("text", []byte(g.text())); e2 != nil {
				panic("a good value is no longer read: " + e2.Error())
			}
			x.object(o)
		}
		return err
	}}
}

var entries = []entry{
	objEntry("pub", "text"), objEntry("pvt", "text"), objEntry("sig", "text"), objEntry("ext", "text"),
	objEntry("pub", "string"), objEntry("pvt", "string"), objEntry("sig", "string"), objEntry("ext", "string"),
	objEntry("ext", "old"), objEntry("ext", "oldfacade"),
	objEntry("pub", "binary"), objEntry("pvt", "binary"), objEntry("sig", "binary"),
	objEntry("pub", "message"), objEntry("pvt", "message"), objEntry("sig", "message"),
	{"ParseKey", func(x *use, b []byte) error {
		k, err := signature.ParseKey(string(b))
		if err == nil {
			switch k := k.(type) {
			case *signature.PublicKey:
				x.pubKey(k)
			case *signature.PrivateKey:
				x.pvtKey(k)
			}
			x.step("String of a Key")
			_ = k.String()
		}
		return err
	}},
	{"ParsePublicKey", func(x *use, b []byte) error {
		k, err := signature.ParsePublicKey(string(b))
		if err == nil {
			x.pubKey(k)
		}
		signature.MaybePublic(string(b))
		signature.MaybePrivate(string(b))
		return err
	}},
	{"UnmarshalMsg leftovers", func(x *use, b []byte) error {
		var p signature.PublicKey
		var v signature.PrivateKey
		var s signature.Signature
		rest, err := p.UnmarshalMsg(b)
		if err == nil {
			x.pubKey(&p)
			x.step("the rest")
			b = rest
		}
		if rest, err = v.UnmarshalMsg(b); err == nil {
			x.pvtKey(&v)
			b = rest
		}
		if _, err = s.UnmarshalMsg(b); err == nil {
			x.signature(&s)
		}
		return err
	}},
	{"json", func(x *use, b []byte) error {
		t, _ := json.Marshal(string(b))
		var box struct {
			P *signature.PublicKey
			V *signature.PrivateKey
			S *signature.Signature
			K *key.ExtendedKey
			A *address.Address
		}
		f := "PVSKA"[x.r.Intn(5)]
		if x.r.Chance(4) {
			t = []byte([]string{"{}", "[]", "null", "1", "true", `""`}[x.r.Intn(6)])
		}
		err := json.Unmarshal([]byte(`{"`+string(rune(f))+`":`+string(t)+`}`), &box)
		if err == nil {
			switch {
			case box.P != nil:
				x.pubKey(box.P)
			case box.V != nil:
				x.pvtKey(box.V)
			case box.S != nil:
				x.signature(box.S)
			case box.K != nil:
				x.extKey(box.K)
			case box.A != nil:
				x.address(*box.A)
			}
		}
		return err
	}},
	{"CheckChecksum", func(x *use, b []byte) error {
		m, ok := signature.CheckChecksum(b)
		if !ok {
			return fmt.Errorf("bad")
		}
		signature.AddChecksum(m)
		return nil
	}},
	{"IdentifiedData", func(x *use, b []byte) error {
		var d signature.IdentifiedData
		if x.used {
			d.Data = []byte("something")
		}
		_, err := d.UnmarshalMsg(b)
		if err == nil {
			_, _ = d.MarshalMsg(nil)
			_ = d.Msgsize()
		}
		var a signature.AlgorithmID
		if _, err := a.UnmarshalMsg(b); err == nil {
			_, _ = a.MarshalMsg(nil)
		}
		return err
	}},
	{"streams", func(x *use, b []byte) error {
		// The dependency msgp makes room for a declared length before it reads
		// the bytes; the memory that takes is not what is decided here.
		for i := 0; i+4 < len(b) && i < 12; i++ {
			if (b[i] == 0xc6 || b[i] == 0xdb) && (b[i+1] != 0 || b[i+2] > 8) {
				return io.ErrUnexpectedEOF
			}
		}
		rd := func() *msgp.Reader { return msgp.NewReaderSize(bytes.NewReader(b), 64) }
		var d signature.IdentifiedData
		err := d.DecodeMsg(rd())
		if err == nil {
			w := msgp.NewWriter(io.Discard)
			_ = d.EncodeMsg(w)
			_ = w.Flush()
		}
		var a signature.AlgorithmID
		_ = a.DecodeMsg(rd())
		var ad address.Address
		if e2 := ad.DecodeMsg(rd()); e2 == nil {
			x.address(ad)
			err = nil
		}
		return err
	}},
	{"address", func(x *use, b []byte) error {
		a, err := address.Validate(string(b))
		x.address(a)
		var c address.Address
		if e2 := c.UnmarshalText(b); e2 == nil {
			x.address(c)
		}
		return err
	}},
	{"address message", func(x *use, b []byte) error {
		var a address.Address
		_, err := a.UnmarshalMsg(b)
		x.address(a)
		_, _ = a.UnmarshalMsg(msgp.AppendString([]byte{0x91}, string(b)))
		x.address(a)
		return err
	}},
	{"ParseKind", func(x *use, b []byte) error {
		_, err := address.ParseKind(string(b))
		for _, c := range string(b) {
			_, _ = address.ParseKind(c)
			address.IsValidKind(byte(c))
		}
		return err
	}},
	{"words", func(x *use, b []byte) error {
		ws := strings.Split(string(b), " ")
		r, err := words.ToBytes("en", ws)
		if err == nil {
			_, _ = words.FromBytes("en", r)
		}
		_, _ = words.ToBytes(string(b), ws)
		if s, e2 := keyaddr.WordsToBytes("en", string(b)); e2 == nil {
			_, _ = keyaddr.WordsFromBytes("en", s)
		}
		return err
	}},
	{"word numbers", func(x *use, b []byte) error { // listed words by number
		var ws []string
		for i := 0; i+1 < len(b) && len(ws) < 60; i += 2 {
			ws = append(ws, ref.English[(int(b[i])<<8|int(b[i+1]))%2048])
		}
		r, err := words.ToBytes("en", ws)
		if err == nil {
			_, err = words.FromBytes("en", r)
		}
		return err
	}},
	{"words from bytes", func(x *use, b []byte) error {
		ws, err := words.FromBytes("en", b)
		if err == nil {
			_, err = words.ToBytes("en", ws)
		}
		_, _ = words.FromBytes(string(b), b)
		_, _ = keyaddr.WordsFromBytes("en", string(b))
		return err
	}},
	{"word prefix", func(x *use, b []byte) error {
		_ = words.FromPrefix("en", string(b), x.r.Range(-2, 5))
		_ = keyaddr.WordsFromPrefix(string(b), string(b), 0)
		return nil
	}},
	{"facade", func(x *use, b []byte) error {
		k, err := keyaddr.FromString(string(b))
		if err == nil {
			x.facade(k)
		}
		x.step("unchecked facade key")
		x.facade(&keyaddr.Key{Key: string(b)}) // as a host hands it over
		return err
	}},
	{"facade old", func(x *use, b []byte) error {
		k, err := keyaddr.FromOldString(string(b))
		if err == nil {
			x.facade(k)
		}
		return err
	}},
	{"facade signature", func(x *use, b []byte) error {
		s, err := keyaddr.Signature{Signature: string(b)}.ToSignature()
		if err == nil {
			x.signature(&s)
		}
		return err
	}},
	{"facade seed", func(x *use, b []byte) error {
		k, err := keyaddr.NewKey(string(b))
		if err == nil {
			x.facade(k)
		}
		if k, err = keyaddr.NewKey(b64.EncodeToString(b)); err == nil {
			x.facade(k)
		}
		return err
	}},
	{"master", func(x *use, b []byte) error {
		_, _, err := bip32.NewMaster(b)
		if k, e2 := key.NewMaster(b); e2 == nil {
			x.extKey(k)
		}
		return err
	}},
	{"path", func(x *use, b []byte) error {
		_, err := x.ext.DeriveFrom("/", string(b))
		_, _ = x.ext.DeriveFrom(string(b), string(b)+"/1")
		_, _ = x.ext.DeriveFrom(string(b), "/1")
		t, _ := x.ext.MarshalText()
		_, _ = keyaddr.DeriveFrom(string(t), "/", string(b))
		_, _ = keyaddr.DeriveFrom(string(b), "/", "/1")
		return err
	}},
	{"b32", func(x *use, b []byte) error {
		d, err := b32.Decode(string(b))
		if err == nil {
			_ = b32.Encode(d)
			b32.Checksum16(d)
			b32.Checksum24(d)
		}
		_ = b32.Index(string(b))
		return err
	}},
	{"bit set", func(x *use, b []byte) error {
		s, err := bitset256.FromBytes(b)
		if err == nil {
			x.bitset(s)
		}
		if s, e2 := bitset256.FromHex(string(b)); e2 == nil {
			x.bitset(s)
			err = nil
		}
		return err
	}},
	{"raw constructors", func(x *use, b []byte) error {
		al := algOf(byte(x.r.Intn(3)))
		cut := 0
		if len(b) > 0 {
			cut = x.r.Intn(len(b) + 1)
		}
		if x.r.Chance(2) && len(b) > 32 {
			cut = []int{32, min(33, len(b)), min(64, len(b))}[x.r.Intn(3)]
		}
		p, err := signature.RawPublicKey(al, cp(b[:cut]), cp(b[cut:]))
		if err == nil {
			x.pubKey(p)
		}
		v, err := signature.RawPrivateKey(al, cp(b[:cut]), cp(b[cut:]))
		if err == nil {
			x.pvtKey(v)
		}
		g, err := signature.RawSignature(al, cp(b))
		if err == nil {
			x.signature(g)
		}
		return err
	}},
}

func execC08(e *env) { e.RunActors(func(a int, o op, ix int) { c08(e, o) }) }

func c08(e *env, o op) {
	b := o.Bytes()
	if o.S != "" {
		b = []byte(o.S)
	}
	if o.K == "all" {
		for i := range entries {
			tryEntry(e, i, b, o)
		}
		return
	}
	tryEntry(e, int(abs64(o.Arg(0)))%len(entries), b, o)
}

func tryEntry(e *env, i int, b []byte, o op) {
	en := entries[i]
	x := newUse(uint64(o.Arg(1)))
	var err error
	if p := core.Catch(func() { err = en.f(x, cp(b)) }); p != "" {
		e.Fail("panic", "%s (%s) with %d bytes %q (%x) panicked: %s", en.name, x.what, len(b), b, b, p)
	}
	simrt.Event("%s %v", en.name, err == nil)
	e.Fault("untrusted input")
	if err == nil {
		e.Probe("accepted by " + en.name)
	} else {
		e.Probe("refused")
	}
	e.State("entry", en.name, err == nil, x.what)
}

// hostile makes input for an entry: from nothing, from valid values, or
// well-formed on the outside and wrong inside.
func hostile(r *rng) []byte {
	kinds := []string{"pub", "pvt", "sig", "ext"}
	frame := func(kind string, packed []byte) []byte {
		pre := map[string]string{"pub": "npub", "pvt": "npvt", "sig": ""}[kind]
		return []byte(pre + ref.B32(ref.Sum(packed)))
	}
	mangle := func(b []byte) []byte {
		b = cp(b)
		for n := 1 + r.Intn(3); n > 0; n-- {
			if len(b) == 0 {
				b = r.Bytes(1)
			}
			i := r.Intn(len(b))
			switch r.Intn(9) {
			case 8: // characters that decoders skip or count specially
				for n := 1 + r.Intn(len(b)); n > 0 && i < len(b); n-- {
					b[i] = "\n\n\n\r= \t"[r.Intn(7)]
					i++
				}
			case 0:
				b[i] ^= 1 << uint(r.Intn(8))
			case 1:
				b[i] = byte(r.Next())
			case 2:
				b = b[:i]
			case 3:
				b = append(b, r.Bytes(r.Range(1, 8))...)
			case 4:
				b = append(cp(b[:i]), b[min(len(b), i+1+r.Intn(4)):]...)
			case 5:
				b[i] = []byte{0, 1, 2, 0x7f, 0x80, 0xff, 0xc4, 0xc5, 0xc6, 0xd9, 0xdf, 0x90, 0x93, 0xcc, 0xcf, 0xd3}[r.Intn(16)]
			case 6:
				j := r.Intn(len(b))
				b[i], b[j] = b[j], b[i]
			case 7:
				b = append(append(cp(b[:i]), r.Bytes(1)...), b[i:]...)
			}
		}
		return b
	}
	switch r.Intn(12) {
	case 0: // nothing sensible
		return r.Bytes([]int{0, 1, 2, 3, 4, 5, 8, 31, 32, 33, 48, 64, 65, 80, 100, 300}[r.Intn(16)])
	case 1: // characters of the alphabet
		n := r.Intn(130)
		b := make([]byte, n)
		for i := range b {
			b[i] = ref.Alphabet[r.Intn(32)]
		}
		return append([]byte([]string{"", "npub", "npvt", "nd", "nda", "npu", "np"}[r.Intn(7)]), b...)
	case 2: // a mangled text form
		v := genRec(r, kinds...)
		form := []string{"text", "old", "text"}[r.Intn(3)]
		if !has(v.kind, form) {
			form = "text"
		}
		return mangle(v.stored(form))
	case 3: // a mangled message
		return mangle(genRec(r, "pub", "pvt", "sig").bin())
	case 4, 5: // a mangled message in a correct frame
		v := genRec(r, kinds...)
		k := v.kind
		if k == "ext" {
			k = "pub"
			if v.h.Priv != nil {
				k = "pvt"
			}
		}
		if r.Chance(8) {
			k = []string{"pub", "pvt", "sig"}[r.Intn(3)]
		}
		return frame(k, mangle(v.bin()))
	case 6, 7: // right on the outside: any algorithm, any lengths
		alg := byte(r.Intn(4))
		if r.Chance(5) {
			alg = byte(r.Intn(256))
		}
		kl := []int{0, 1, 31, 32, 33, 63, 64, 65, 255}[r.Intn(9)]
		key := r.Bytes(kl)
		if r.Chance(2) && kl > 0 {
			switch r.Intn(4) {
			case 0:
				key[0] = byte(2 + r.Intn(6))
			case 1:
				key = make([]byte, kl)
			case 2:
				key = bytes.Repeat([]byte{0xff}, kl)
			case 3:
				if kl == 32 {
					copy(key, ref.Order().Bytes()) // exactly the order
				}
				if kl == 33 { // x not on the curve, or 0
					key = append([]byte{2}, make([]byte, 32)...)
					key[32] = byte(r.Intn(12))
				}
			}
		}
		ext := r.Bytes([]int{0, 1, 7, 8, 39, 40, 41, 44, 100}[r.Intn(9)])
		d := append([]byte{byte(kl)}, append(cp(key), ext...)...)
		if r.Chance(4) {
			d[0] = byte(r.Next())
		}
		if r.Chance(10) {
			d = nil
		}
		if r.Chance(6) {
			d = key
		}
		p := ref.Packed(alg, d)
		if r.Chance(3) {
			return p
		}
		return frame([]string{"pub", "pvt", "sig"}[r.Intn(3)], p)
	case 8: // hostile lengths
		b := append([]byte{0x92, byte(r.Intn(3))}, [][]byte{{0xc6, 0xff, 0xff, 0xff, 0xff}, {0xc5, 0xff, 0xff}, {0xc4, 0xff}, {0xc6, 0x7f, 0xff, 0xff, 0xff}, {0xc6, 0, 0, 0, 1}, {0xdb, 0xff, 0xff, 0xff, 0xff}}[r.Intn(6)]...)
		if r.Chance(2) {
			b = append(b, r.Bytes(r.Intn(50))...)
		}
		if r.Chance(3) {
			b[0] = []byte{0x90, 0x91, 0x93, 0xdc, 0xdd, 0x82, 0xc0, 0xdf}[r.Intn(8)]
		}
		if r.Chance(2) {
			return frame([]string{"pub", "pvt", "sig"}[r.Intn(3)], b)
		}
		return b
	case 9: // frames of any width
		m := genRec(r, "pub", "pvt", "sig").bin()
		f := ref.Sum(m)
		f[0] = byte(r.Next())
		if r.Chance(2) {
			f = append([]byte{byte(r.Intn(40))}, r.Bytes(r.Intn(40))...)
		}
		if r.Chance(3) {
			return f
		}
		return []byte([]string{"npub", "npvt", ""}[r.Intn(3)] + ref.B32(f))
	case 10: // addresses and phrases
		a, _ := ref.Address(addrKinds[r.Intn(6)], r.Bytes(33))
		if r.Chance(2) {
			return mangle([]byte(a))
		}
		if r.Chance(2) {
			return append(append([]byte{0x91, 0xd9}, byte(len(a)-r.Intn(3))), a...)
		}
		ws := ref.Phrase(r.Bytes(r.Intn(40)))
		for i := r.Intn(3); i > 0 && len(ws) > 0; i-- {
			ws[r.Intn(len(ws))] = []string{"", "zoo", "abandon", "x", "ZOO", "\xff", "zzzz"}[r.Intn(7)]
		}
		return []byte(strings.Join(ws, " "))
	}
	// paths and the like
	el := []string{"/", "//", "/0", "/1'", "/2147483647'", "/2147483648", "/4294967295", "/4294967296", "/-1", "/+1", "/0x1", "/ ", "'", "/'", "/1''", "/99999999999999999999", "1", "/\xff", "/1/", "/٣", "/1e3", "/1_0"}
	s := ""
	for n := 1 + r.Intn(4); n > 0; n-- {
		s += el[r.Intn(len(el))]
	}
	if r.Chance(20) {
		s = strings.Repeat("/1", r.Range(200, 400))
	}
	return []byte(s)
}

func genC08(r *rng, thorough bool) *plan {
	p := &plan{}
	n := r.Range(12, 30)
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(2), K: "in", A: []int64{int64(r.Intn(len(entries))), int64(r.Next() >> 1)}, B: core.Hex(hostile(r))}
		if r.Chance(8) {
			o.K = "all"
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// fixedC08: short inputs through every entry.
func fixedC08() []*plan {
	p := &plan{}
	for n := 0; n < 90; n++ {
		for k := byte(0); k < 3; k++ {
			p.Ops = append(p.Ops, op{K: "all", A: []int64{0, int64(n)}, B: core.Hex(bytes.Repeat([]byte{[]byte{0, 'a', 0xff}[k]}, n))})
		}
	}
	for _, pre := range []string{"npub", "npvt", "nda", "n", "np"} {
		for n := 0; n < 50; n++ {
			p.Ops = append(p.Ops, op{K: "all", A: []int64{0, int64(n)}, S: pre + strings.Repeat("a", n)})
		}
	}
	q := &plan{}
	for a := 0; a < 256; a++ { // every algorithm number, and every first byte
		q.Ops = append(q.Ops, op{K: "all", A: []int64{0, 1}, B: core.Hex(ref.Packed(byte(a), []byte{1, 2, 3}))},
			op{K: "all", A: []int64{0, 1}, B: core.Hex([]byte{byte(a)})},
			op{K: "all", A: []int64{0, 1}, S: "npub" + ref.B32(ref.Sum(ref.Packed(byte(a), []byte{1, 2, 3})))})
	}
	w := &plan{}
	text := func(s string) { w.Ops = append(w.Ops, op{K: "all", A: []int64{0, 1}, S: s}) }
	for n := 0; n <= 90; n++ { // well-formed texts of every length, and correct frames of every length
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 37)
		}
		for _, pre := range []string{"", "npub", "npvt"} {
			if n > 0 {
				text(pre + ref.B32(b))
				text(pre + ref.B32(ref.Sum(b)))
			}
		}
		if n < 80 {
			text(ref.OldFrame([3]byte{}, b, nil))
			text(ref.OldFrame(key.NdauPrivateKeyID, b, nil))
		}
		// as long as an address, although most of it is skipped
		for _, fill := range []string{"\n", "\r", "\r\n"} {
			for at := 0; at < 4 && n > 0 && n < 30; at++ {
				t := ref.B32(b)
				k := address.AddrLength - len(t)
				if k < 0 {
					continue
				}
				f := strings.Repeat(fill, k)[:k]
				at := min(at, k)
				for _, c := range "anexbm" {
					s := []byte(f[:at] + t + f[at:])
					s[2] = byte(c)
					text(string(s))
					if n > 3 {
						break
					}
				}
			}
		}
	}
	for _, n := range []int{100, 1000, 30000} {
		text("/" + strings.Repeat("9", n))
	}
	var out []*plan
	for _, l := range []*plan{p, q, w} {
		for i := 0; i < len(l.Ops); i += 16 {
			out = append(out, &plan{Ops: l.Ops[i:min(i+16, len(l.Ops))]})
		}
	}
	return out
}
