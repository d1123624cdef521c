package hd

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// ---- C07: signatures

type signer struct {
	alg  byte
	pub  *signature.PublicKey
	pvt  *signature.PrivateKey
	fk   *keyaddr.Key // the facade's key, for some
	id   int
	text string
}

type signed struct {
	by  *signer
	msg []byte
	sig *signature.Signature
}

type market struct {
	e     *env
	keys  []*signer
	sigs  []*signed
	notes int
}

// garble damages base64 text; the result is none ("" if that failed).
func garble(t string, x *rng) string {
	j := x.Intn(len(t) + 1)
	t = t[:j] + string("-_*. ~%,"[x.Intn(8)]) + t[j:]
	if x.Chance(3) {
		t = t[:x.Intn(len(t)+1)]
	}
	if _, err := b64.DecodeString(t); err == nil {
		return ""
	}
	return t
}

func execC07(e *env) {
	m := &market{e: e}
	e.RunActors(func(a int, o op, ix int) { m.step(o) })
	// everything still verifies at the end
	for _, s := range m.sigs {
		m.verify(s, "at the end")
	}
}

func (m *market) verify(s *signed, when string) {
	e := m.e
	ok := false
	msg := cp(s.msg)
	if p := core.Catch(func() { ok = s.by.pub.Verify(msg, *s.sig) }); p != "" {
		e.Fail("panic", "verifying panicked: %s", p)
	}
	e.Check(ok, "rejected", "a genuine signature of algorithm %d on %d bytes does not verify %s", s.by.alg, len(s.msg), when)
	e.Check(bytes.Equal(msg, s.msg), "message changed", "verifying changed the message")
}

// no must be false; genuineness is decided by who signed what.
func (m *market) no(what string, f func() bool) {
	e := m.e
	ok := false
	if p := core.Catch(func() { ok = f() }); p != "" {
		e.Fail("panic", "verifying %s panicked: %s", what, p)
	}
	if ok {
		e.Fail("forged", "%s verifies", what)
	}
}

func (m *market) step(o op) {
	e := m.e
	x := newRNG(uint64(o.Arg(0)))
	switch o.K {
	case "pair":
		s := &signer{alg: byte(1 + abs64(o.Arg(1))%2), id: len(m.keys)}
		switch abs64(o.Arg(2)) % 4 {
		case 0, 1: // generated
			pub, pvt, err := signature.Generate(algOf(s.alg), newReader(x.Next()))
			if err != nil {
				e.Fail("refused", "generating a pair of algorithm %d: %v", s.alg, err)
			}
			s.pub, s.pvt = &pub, &pvt
		case 2: // a node of a key tree
			s.alg = ref.AlgSecp
			k, err := key.NewMaster(x.Bytes(32))
			if err != nil {
				return
			}
			if x.Chance(2) {
				k, err = k.Child(uint32(x.Intn(1000)))
				if err != nil {
					return
				}
			}
			if s.pvt, err = k.SPrivKey(); err == nil {
				s.pub, err = k.SPubKey()
			}
			if err == nil {
				s.fk, err = keyaddr.KeyFromExtended(k)
			}
			if err != nil {
				e.Fail("refused", "signature keys of a tree node: %v", err)
			}
		case 3: // extreme private keys
			s.alg = ref.AlgSecp
			pv := randPriv(x)
			var err error
			if s.pub, s.pvt, err = secpPair(pv, genExtra(x, 33)); err != nil {
				e.Fail("refused", "making a pair: %v", err)
			}
			if want := ref.PubOf(pv); !bytes.Equal(signature.Secp256k1.Public(pv), want) {
				e.Fail("mismatch", "the public key of %x is %x, want %x", pv, signature.Secp256k1.Public(pv), want)
			}
		}
		e.Check(signature.Match(*s.pub, *s.pvt), "mismatch", "the two halves of a pair of algorithm %d do not match", s.alg)
		for _, k := range m.keys {
			if !bytes.Equal(k.pvt.KeyBytes(), s.pvt.KeyBytes()) {
				e.Check(!signature.Match(*k.pub, *s.pvt), "mismatch", "halves of different pairs match")
				e.Check(!signature.Match(*s.pub, *k.pvt), "mismatch", "halves of different pairs match")
			}
		}
		s.text = s.pub.FullString() + s.pvt.FullString()
		m.keys = append(m.keys, s)
	case "sign":
		k := pick(m.keys, o.Arg(1))
		if k == nil {
			return
		}
		msg := genMsg(x, o.Arg(2))
		keep := cp(msg)
		var sg signature.Signature
		if p := core.Catch(func() {
			if k.fk != nil && o.Arg(3)%2 == 1 {
				if t := garble(b64.EncodeToString(msg), x); t != "" {
					if _, err := k.fk.Sign(t); err == nil {
						e.Fail("garbled", "the garbled message text %q is signed", t)
					}
					e.Fault("garbled text")
				}
				f, err := k.fk.Sign(b64.EncodeToString(msg))
				if err != nil {
					e.Fail("refused", "keyaddr Sign: %v", err)
				}
				if sg, err = f.ToSignature(); err != nil {
					e.Fail("refused", "reading the facade's signature: %v", err)
				}
			} else {
				sg = k.pvt.Sign(msg)
			}
		}); p != "" {
			e.Fail("panic", "signing panicked: %s", p)
		}
		e.Check(bytes.Equal(keep, msg), "message changed", "signing changed the message")
		e.Check(k.pub.FullString()+k.pvt.FullString() == k.text, "key changed", "signing changed the key")
		s := &signed{k, keep, &sg}
		m.verify(s, "where it was made")
		m.independent(s)
		m.sigs = append(m.sigs, s)
		e.State("sig", k.alg, len(sg.Bytes()), len(msg), o.Arg(1)%4, len(m.keys))
	case "big": // a message of a given length, and the same with one byte changed
		k := pick(m.keys, o.Arg(1))
		if k == nil {
			return
		}
		msg := x.Bytes(int(o.Arg(2)))
		sg := k.pvt.Sign(msg)
		s := &signed{k, cp(msg), &sg}
		m.verify(s, "a long message")
		for _, at := range []int{0, len(msg) / 2, len(msg) - 2, len(msg) - 1, x.Intn(len(msg))} {
			bad := cp(msg)
			bad[at] ^= 1 << uint(x.Intn(8))
			m.no(fmt.Sprintf("a signature of a %d-byte message with byte %d changed", len(msg), at), func() bool { return s.by.pub.Verify(bad, sg) })
		}
		for _, bad := range [][]byte{msg[:len(msg)-1], msg[1:], append(cp(msg), 0), append(cp(msg), msg...), msg[:len(msg)/2]} {
			m.no(fmt.Sprintf("a signature of a %d-byte message against one of %d", len(msg), len(bad)), func() bool { return s.by.pub.Verify(bad, sg) })
		}
		e.Fault("wrong message")
		e.State("big", k.alg, len(msg))
	case "travel": // key and signature re-encoded, delivered in any order
		s := pick(m.sigs, o.Arg(1))
		if s == nil {
			return
		}
		pf, sf := formFor("pub", o.Arg(2)), formFor("sig", o.Arg(3))
		pb, err1 := (&object{kind: "pub", pub: s.by.pub}).write(pf)
		sb, err2 := (&object{kind: "sig", sig: s.sig}).write(sf)
		if err1 != nil || err2 != nil {
			e.Fail("refused", "writing key or signature: %v %v", err1, err2)
		}
		at := map[string]*object{}
		msgs := 0
		try := func() {
			if len(at) < 2 || msgs == 0 {
				return
			}
			ok := false
			if p := core.Catch(func() { ok = at["pub"].pub.Verify(cp(s.msg), *at["sig"].sig) }); p != "" {
				e.Fail("panic", "verifying panicked: %s", p)
			}
			simrt.Event("verified %v", ok)
			e.Check(ok, "rejected", "a genuine signature of algorithm %d does not verify at a receiver (key as %s, signature as %s)", s.by.alg, pf, sf)
			e.Check(at["sig"].sig.Verify(cp(s.msg), *at["pub"].pub), "rejected", "Signature.Verify rejects it")
		}
		recv := func(kind, form string, b []byte) {
			deliver(e, o, func(int) {
				ob := blank(kind)
				if err := ob.read(form, cp(b)); err != nil {
					e.Fail("refused", "received %s as %s: %v", kind, form, err)
				}
				at[kind] = ob
				try()
			})
		}
		recv("pub", pf, pb)
		recv("sig", sf, sb)
		deliver(e, o, func(int) { msgs++; try() })
	case "wrongmsg":
		s := pick(m.sigs, o.Arg(1))
		if s == nil {
			return
		}
		msg := cp(s.msg)
		h := sha256.Sum256(s.msg)
		hh := sha256.Sum256(h[:])
		h5 := sha512.Sum512(s.msg)
		switch x.Intn(16) {
		case 6: // what is derived from the message is not the message
			msg = h[:]
		case 7:
			msg = hh[:]
		case 8:
			msg = h5[:]
		case 9:
			msg = []byte(fmt.Sprintf("%x", s.msg))
		case 10:
			msg = []byte(b64.EncodeToString(s.msg))
		case 11:
			msg = bytes.TrimSpace(msg)
		case 12:
			msg = bytes.Trim(msg, "\x00")
		case 13:
			msg = append(msg, "\r\n \t\x80\xff"[x.Intn(6)])
		case 14:
			msg = bytes.ToLower(msg)
		case 15:
			for i, j := 0, len(msg)-1; i < j; i, j = i+1, j-1 {
				msg[i], msg[j] = msg[j], msg[i]
			}
		case 0:
			msg = append(msg, 0)
		case 1:
			if len(msg) == 0 {
				msg = []byte{0}
			} else {
				msg = msg[:len(msg)-1]
			}
		case 2:
			if len(msg) == 0 {
				return
			}
			msg[x.Intn(len(msg))] ^= 1 << uint(x.Intn(8))
		case 3:
			msg = x.Bytes(32)
		case 4:
			msg = append([]byte{0}, msg...)
		case 5:
			if len(msg) < 2 {
				return
			}
			i := x.Intn(len(msg) - 1)
			msg[i], msg[i+1] = msg[i+1], msg[i]
		}
		if bytes.Equal(msg, s.msg) {
			return
		}
		e.Fault("wrong message")
		m.no(fmt.Sprintf("a signature of algorithm %d against another message", s.by.alg), func() bool { return s.by.pub.Verify(msg, *s.sig) })
	case "wrongkey":
		s, k := pick(m.sigs, o.Arg(1)), pick(m.keys, o.Arg(2))
		if s == nil || k == nil || bytes.Equal(k.pub.KeyBytes(), s.by.pub.KeyBytes()) {
			return
		}
		e.Fault("wrong key")
		m.no("a signature against another key", func() bool { return k.pub.Verify(cp(s.msg), *s.sig) })
	case "nearkey": // a public key that differs in one bit
		s := pick(m.sigs, o.Arg(1))
		if s == nil {
			return
		}
		b := cp(s.by.pub.KeyBytes())
		b[x.Intn(len(b))] ^= 1 << uint(x.Intn(8))
		k, err := signature.RawPublicKey(algOf(s.by.alg), b, nil)
		if err != nil {
			return
		}
		e.Fault("wrong key")
		m.no(fmt.Sprintf("a signature of algorithm %d against key %x instead of %x", s.by.alg, b, s.by.pub.KeyBytes()), func() bool { return k.Verify(cp(s.msg), *s.sig) })
	case "wrongalg":
		s := pick(m.sigs, o.Arg(1))
		if s == nil {
			return
		}
		for id := byte(0); id < 3; id++ {
			if id == s.by.alg {
				continue
			}
			e.Fault("wrong algorithm")
			if g, err := signature.RawSignature(algOf(id), cp(s.sig.Bytes())); err == nil {
				m.no(fmt.Sprintf("a signature of algorithm %d relabelled %d", s.by.alg, id), func() bool { return s.by.pub.Verify(cp(s.msg), *g) })
			}
			// both relabelled
			if k, err := signature.RawPublicKey(algOf(id), cp(s.by.pub.KeyBytes()), nil); err == nil {
				m.no("a key relabelled", func() bool { return k.Verify(cp(s.msg), *s.sig) })
				if g, err := signature.RawSignature(algOf(id), cp(s.sig.Bytes())); err == nil {
					m.no("a key and a signature relabelled", func() bool { return k.Verify(cp(s.msg), *g) })
				}
			}
		}
		m.no("the zero signature", func() bool { return s.by.pub.Verify(cp(s.msg), signature.Signature{}) })
		m.no("the zero key", func() bool { return signature.PublicKey{}.Verify(cp(s.msg), *s.sig) })
		m.no("the zero key and signature", func() bool { return signature.PublicKey{}.Verify(cp(s.msg), signature.Signature{}) })
	case "damaged": // through the raw form or damaged messages
		s := pick(m.sigs, o.Arg(1))
		if s == nil {
			return
		}
		b := cp(s.sig.Bytes())
		what := ""
		switch x.Intn(6) {
		case 0, 1:
			i := x.Intn(len(b))
			b[i] ^= 1 << uint(x.Intn(8))
			what = fmt.Sprintf("byte %d changed", i)
		case 2:
			i := x.Intn(len(b))
			b[i] = byte(x.Next())
			what = fmt.Sprintf("byte %d replaced", i)
		case 3:
			b = b[:x.Intn(len(b))]
			what = "cut"
		case 4:
			more := x.Bytes(x.Range(1, 3))
			if x.Chance(2) {
				more = make([]byte, len(more))
			}
			b = append(b, more...)
			what = "lengthened"
		case 5:
			b = make([]byte, len(b))
			what = "zeroed"
		}
		if m.equivalent(s, b) {
			return
		}
		e.Fault("damaged signature")
		g, err := signature.RawSignature(algOf(s.by.alg), b)
		if err == nil {
			m.no(fmt.Sprintf("a signature of algorithm %d with %s (%x from %x)", s.by.alg, what, b, s.sig.Bytes()), func() bool { return s.by.pub.Verify(cp(s.msg), *g) })
		}
		// the algorithm itself, without the signature type around it
		m.no(fmt.Sprintf("at the algorithm, a signature of algorithm %d with %s", s.by.alg, what), func() bool {
			return s.by.pub.Algorithm().Verify(cp(s.by.pub.KeyBytes()), cp(s.msg), b)
		})
		// the same as a message
		r := &rec{kind: "sig", alg: s.by.alg, key: b, ext: []byte{}}
		ob := blank("sig")
		if p := core.Catch(func() { err = ob.read("message", r.bin()) }); p != "" {
			e.Fail("panic", "reading a damaged signature message panicked: %s", p)
		}
		if err == nil {
			m.no(fmt.Sprintf("a signature message of algorithm %d with %s", s.by.alg, what), func() bool { return s.by.pub.Verify(cp(s.msg), *ob.sig) })
		}
	case "shifted": // the same bytes, divided differently between message and signature
		s := pick(m.sigs, o.Arg(1))
		if s == nil {
			return
		}
		e.Fault("shifted boundary")
		sb := s.sig.Bytes()
		try := func(msg, sig []byte, how string) {
			if bytes.Equal(msg, s.msg) {
				return
			}
			g, err := signature.RawSignature(algOf(s.by.alg), cp(sig))
			if err == nil {
				m.no(fmt.Sprintf("a signature of algorithm %d with %s", s.by.alg, how), func() bool { return s.by.pub.Verify(cp(msg), *g) })
			}
			m.no(fmt.Sprintf("at the algorithm, a signature of algorithm %d with %s", s.by.alg, how), func() bool {
				return s.by.pub.Algorithm().Verify(cp(s.by.pub.KeyBytes()), cp(msg), sig)
			})
		}
		for _, k := range []int{1, 2, 3, 4, 8, x.Range(1, len(sb)), len(sb)} {
			try(append(cp(s.msg), sb[:k]...), sb[k:], fmt.Sprintf("its first %d bytes at the end of the message", k))
			if k <= len(s.msg) {
				j := len(s.msg) - k
				try(s.msg[:j], append(cp(s.msg[j:]), sb...), fmt.Sprintf("the last %d bytes of the message before it", k))
			}
		}
		m.verify(s, "afterwards")
	case "swapped": // the signature of another message
		a, b := pick(m.sigs, o.Arg(1)), pick(m.sigs, o.Arg(2))
		if a == nil || b == nil || bytes.Equal(a.msg, b.msg) && bytes.Equal(a.by.pub.KeyBytes(), b.by.pub.KeyBytes()) {
			return
		}
		e.Fault("swapped signature")
		m.no("a signature for something else", func() bool { return a.by.pub.Verify(cp(a.msg), *b.sig) })
	}
}

// independent checks a signature with other implementations.
func (m *market) independent(s *signed) {
	e := m.e
	switch s.by.alg {
	case ref.AlgEd25519:
		e.Check(ed25519.Verify(ed25519.PublicKey(s.by.pub.KeyBytes()), s.msg, s.sig.Bytes()), "rejected", "an Ed25519 signature is not one")
	case ref.AlgSecp:
		e.Check(ref.ECDSAVerify(s.by.pub.KeyBytes(), s.msg, s.sig.Bytes()), "rejected", "a secp256k1 signature is not one: %x", s.sig.Bytes())
	}
}

// equivalent: damaged bytes that still spell the same signature (or its
// mathematical twin (r, -s), which ECDSA cannot tell apart) are not damaged.
func (m *market) equivalent(s *signed, b []byte) bool {
	if bytes.Equal(b, s.sig.Bytes()) {
		return true
	}
	if s.by.alg != ref.AlgSecp {
		return false
	}
	r1, s1, ok1 := derLoose(s.sig.Bytes())
	r2, s2, ok2 := derLoose(b)
	if !ok1 || !ok2 {
		return false
	}
	n := ref.Order()
	neg := new(big.Int).Sub(n, s1)
	return r1.Cmp(r2) == 0 && (s1.Cmp(s2) == 0 || neg.Cmp(s2) == 0)
}

// derLoose reads DER the way lenient parsers do.
func derLoose(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 8 || b[0] != 0x30 {
		return
	}
	b = b[2:]
	num := func() *big.Int {
		if len(b) < 2 || b[0] != 2 || int(b[1])+2 > len(b) {
			return nil
		}
		v := new(big.Int).SetBytes(b[2 : 2+int(b[1])])
		b = b[2+int(b[1]):]
		return v
	}
	if r = num(); r == nil {
		return
	}
	if s = num(); s == nil {
		return
	}
	return r, s, true
}

func genMsg(x *rng, k int64) []byte {
	switch abs64(k) % 6 {
	case 0:
		return []byte{}
	case 1:
		return x.Bytes(1)
	case 2:
		return x.Bytes(32)
	case 3:
		if n := 1<<uint(9+x.Intn(9)) + x.Intn(3) - 1; x.Chance(6) {
			return x.Bytes(n)
		}
		return x.Bytes([]int{31, 33, 63, 64, 65, 127, 128, 129, 255, 256}[x.Intn(10)])
	case 4:
		return bytes.Repeat([]byte{0}, x.Range(1, 100))
	}
	return []byte(strings.Repeat("long message ", x.Range(1, 400)))
}

// fixedC07 signs messages around every power of two up to 1 MiB, and one
// longer than any buffer.
func fixedC07() []*plan {
	var out []*plan
	for alg := int64(0); alg < 2; alg++ {
		for sh := 4; sh <= 20; sh++ {
			p := &plan{Ops: []op{{K: "pair", A: []int64{int64(sh), alg, 0}}}}
			p.Ops = append(p.Ops, op{K: "big", A: []int64{int64(sh) + alg*99, 0, 1<<uint(sh) + 1}}, op{K: "big", A: []int64{int64(sh), 0, 1 << uint(sh)}})
			out = append(out, p)
		}
		out = append(out, &plan{Ops: []op{{K: "pair", A: []int64{7, alg, 0}}, {K: "big", A: []int64{8, 0, 1<<23 + 3}}}})
	}
	return out
}

func genC07(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(6, 14)
	if thorough {
		n = r.Range(10, 40)
	}
	rs := func() int64 { return int64(r.Next() >> 1) }
	for i := 0; i < 2; i++ {
		p.Ops = append(p.Ops, op{T: 0, K: "pair", A: []int64{rs(), int64(r.Intn(2)), int64(r.Intn(4))}})
		p.Ops = append(p.Ops, op{T: 0, K: "sign", A: []int64{rs(), int64(i), int64(r.Intn(6)), int64(r.Intn(2))}})
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), A: []int64{rs(), int64(r.Intn(12)), int64(r.Intn(12)), int64(r.Intn(12))}}
		switch r.Intn(12) {
		case 0:
			o.K = "pair"
		case 1, 2, 3:
			o.K = "sign"
		case 4, 5:
			o.K, o.F = "travel", netFaults(r)
		case 6:
			o.K = "wrongmsg"
		case 7:
			o.K = "wrongkey"
		case 8:
			o.K = []string{"nearkey", "wrongalg"}[r.Intn(2)]
		case 9, 10:
			o.K = "damaged"
		case 11:
			o.K = []string{"swapped", "shifted"}[r.Intn(2)]
			if r.Chance(8) {
				o.K, o.A[2] = "big", int64(1<<uint(r.Range(2, 14))+r.Intn(3)-1)
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}
