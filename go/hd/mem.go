package hd

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/words"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// ---- C06: objects are independent

// slot is an object and what it must mean; r is nil once it was erased.
type slot struct {
	o      *object
	r      *rec
	old    [][]byte // contents it had before being erased or reloaded
	name   string
	erased bool // r is nil because it was erased
}

type memory struct {
	e  *env
	ps map[int][]*slot
	n  int

	copied map[int]*slot
	rooms  []func(after string) // buffers that objects were made over
}

func execC06(e *env) {
	useWide(e)
	m := &memory{e: e, ps: map[int][]*slot{}, copied: map[int]*slot{}}
	e.RunActors(func(a int, o op, ix int) { m.step(a, o) })
}

func (m *memory) add(a int, o *object, r *rec, how string) *slot {
	for _, s := range m.ps[a] {
		if s.o.kind == o.kind && (o.kind == "ext" && s.o.ext == o.ext || o.kind == "pub" && s.o.pub == o.pub || o.kind == "pvt" && s.o.pvt == o.pvt) {
			return s // the same object, not another one
		}
	}
	m.n++
	s := &slot{o: o, r: r, name: fmt.Sprintf("%s (object %d, %s)", r, m.n, how)}
	m.ps[a] = append(m.ps[a], s)
	if len(m.ps[a]) > 14 {
		m.ps[a] = m.ps[a][1:]
	}
	return s
}

// verify looks at every object.
func (m *memory) verify(a int, after string) {
	for _, room := range m.rooms {
		room(after)
	}
	for _, s := range m.ps[a] {
		if s.r == nil {
			m.blankSlot(s, after)
			continue
		}
		if d := s.o.differs(s.r); d != "" {
			m.e.Fail("changed", "%s changed %s: %s", after, s.name, d)
		}
	}
}

// buildRoomy makes an object whose parts lie in one buffer of the caller's,
// with other things between and behind them.
func (m *memory) buildRoomy(r *rec) (o *object, err error) {
	var buf []byte
	var parts [][2]int
	gap := func() { buf = append(buf, bytes.Repeat([]byte{0xC3}, 40)...) }
	part := func(b []byte) {
		parts = append(parts, [2]int{len(buf), len(buf) + len(b)})
		buf = append(buf, b...)
		gap()
	}
	gap()
	if r.kind == "ext" {
		part(r.h.Key())
		part(r.h.Chain)
		part(r.h.FP)
	} else {
		part(r.key)
		part(r.ext)
	}
	at := func(i int) []byte { return buf[parts[i][0]:parts[i][1]] }
	o = blank(r.kind)
	switch r.kind {
	case "pub":
		o.pub, err = signature.RawPublicKey(algOf(r.alg), at(0), at(1))
	case "pvt":
		o.pvt, err = signature.RawPrivateKey(algOf(r.alg), at(0), at(1))
	case "sig":
		o.sig, err = signature.RawSignature(algOf(r.alg), at(0))
	case "ext":
		o.ext = key.NewExtendedKey(at(0), at(1), at(2), uint8(r.h.Depth), r.h.Num, r.h.Priv != nil)
	}
	name := r.String()
	m.rooms = append(m.rooms, func(after string) {
		from := 0
		for i := 0; i <= len(parts); i++ {
			to := len(buf)
			if i < len(parts) {
				to = parts[i][0]
			}
			for _, c := range buf[from:to] {
				if c != 0xC3 {
					m.e.Fail("argument", "%s wrote into the caller's buffer, beside the bytes that %s was made of", after, name)
				}
			}
			if i < len(parts) {
				from = parts[i][1]
			}
		}
	})
	return o, err
}

// blankSlot checks that an erased object shows nothing of what it held.
func (m *memory) blankSlot(s *slot, after string) {
	var seen [][]byte
	zero := true
	if p := core.Catch(func() {
		switch s.o.kind {
		case "ext":
			seen = append(seen, s.o.ext.Bytes(), s.o.ext.PubKeyBytes())
		case "pub":
			seen = append(seen, s.o.pub.KeyBytes(), s.o.pub.ExtraBytes())
		case "pvt":
			seen = append(seen, s.o.pvt.KeyBytes(), s.o.pvt.ExtraBytes())
		}
		if s.erased && (s.o.kind == "pub" && !s.o.pub.IsZero() || s.o.kind == "pvt" && !s.o.pvt.IsZero()) {
			zero = false
		}
		if s.erased && s.o.kind == "ext" && (s.o.ext.IsPrivate() || s.o.ext.Depth() != 0) {
			zero = false
		}
	}); p != "" {
		return // what an erased object does is C08's business
	}
	if !zero {
		m.e.Fail("remains", "after %s, the erased %s is not empty", after, s.name)
	}
	for _, b := range seen {
		for _, o := range s.old {
			if len(o) >= 8 && bytes.Contains(b, o) {
				m.e.Fail("remains", "after %s, the erased %s still shows its old content %x", after, s.name, b)
			}
		}
	}
}

func (s *slot) remember() {
	if s.r == nil {
		return
	}
	if s.r.kind == "ext" {
		s.old = append(s.old, s.r.h.Key(), s.r.h.Pub)
	} else {
		s.old = append(s.old, s.r.key, s.r.ext)
	}
}

func sigRec(h *ref.HD) *rec {
	r := &rec{kind: "pub", alg: ref.AlgSecp, key: h.Key(), ext: h.Extra()}
	if h.Priv != nil {
		r.kind = "pvt"
	}
	return r
}

func sigObj(k signature.Key) *object {
	switch k := k.(type) {
	case *signature.PublicKey:
		return &object{kind: "pub", pub: k}
	case *signature.PrivateKey:
		return &object{kind: "pvt", pvt: k}
	}
	return nil
}

func (o *object) sigKey() signature.Key {
	if o.kind == "pub" {
		return o.pub
	}
	return o.pvt
}

func (m *memory) step(a int, o op) {
	e := m.e
	s := pick(m.ps[a], o.Arg(0))
	if o.Arg(0) == -1 {
		s = m.copied[a] // what the last copy was made from
	}
	fail := func(what string, err error) {
		e.Fail("refused", "%s: %v", what, err)
	}
	after := o.K
	switch o.K {
	case "make":
		r := genRec(newRNG(uint64(o.Arg(1))), "ext", "ext", "pub", "pvt", "sig")
		if o.Arg(2)%2 == 0 { // through text, from a buffer that is then reused
			ob := blank(r.kind)
			form := formFor(r.kind, o.Arg(2)/2)
			if form == "json" {
				form = "text"
			}
			buf := unharmed(e, "reading "+r.String()+" as "+form, r.stored(form), func(b []byte) {
				if err := ob.read(form, b); err != nil {
					fail("reading "+r.String()+" as "+form, err)
				}
			})
			scribble(buf)
			after = "reading it as " + form + " and reusing the buffer"
			m.add(a, ob, r, "read as "+form)
		} else {
			ob, err := build(r)
			if o.Arg(2)%4 == 3 { // over parts of one of the caller's buffers
				ob, err = m.buildRoomy(r)
			}
			if err != nil {
				fail("making "+r.String(), err)
			}
			m.add(a, ob, r, "made")
		}
	case "master":
		var k *key.ExtendedKey
		var err error
		h, why := ref.Master(o.Bytes())
		seed := unharmed(e, "NewMaster", o.Bytes(), func(b []byte) { k, err = key.NewMaster(b) })
		if why != ref.OK || err != nil {
			return
		}
		scribble(seed)
		m.add(a, &object{kind: "ext", ext: k}, &rec{kind: "ext", h: h}, "master key")
		after = "reusing the seed buffer"
	case "child":
		if s == nil || s.r == nil || s.r.kind != "ext" {
			return
		}
		h, why := s.r.h.Child(uint32(o.Arg(1)))
		if why != ref.OK {
			_, _ = s.o.ext.Child(uint32(o.Arg(1)))
			break
		}
		var k *key.ExtendedKey
		var err error
		if o.Arg(2)%2 == 0 {
			k, err = s.o.ext.Child(uint32(o.Arg(1)))
		} else {
			k, err = s.o.ext.DeriveFrom("/", pathString([]ref.PathElem{elem(uint32(o.Arg(1)))}))
		}
		if err != nil {
			fail("deriving", err)
		}
		after = "deriving a child of " + s.name
		m.add(a, &object{kind: "ext", ext: k}, &rec{kind: "ext", h: h}, "child of "+s.name)
	case "public":
		if s == nil || s.r == nil || s.r.kind != "ext" {
			return
		}
		k, err := s.o.ext.Public()
		if err != nil {
			fail("public half", err)
		}
		after = "taking the public half of " + s.name
		m.add(a, &object{kind: "ext", ext: k}, &rec{kind: "ext", h: s.r.h.Public()}, "public half of "+s.name)
	case "convert":
		if s == nil || s.r == nil {
			return
		}
		after = "converting " + s.name
		switch s.r.kind {
		case "ext":
			switch abs64(o.Arg(1)) % 6 {
			case 3: // through the text facade
				f, err := keyaddr.KeyFromExtended(s.o.ext)
				if err != nil {
					fail(after, err)
				}
				k, err := f.ToExtended()
				if err != nil {
					fail(after, err)
				}
				m.add(a, &object{kind: "ext", ext: k}, s.r, "keyaddr round trip of "+s.name)
			case 4:
				f, err := keyaddr.KeyFromExtended(s.o.ext)
				if err != nil {
					fail(after, err)
				}
				k, err := f.ToPublicKey()
				if err != nil {
					fail(after, err)
				}
				m.add(a, &object{kind: "pub", pub: &k}, sigRec(s.r.h.Public()), "keyaddr public key of "+s.name)
			case 5:
				f, err := keyaddr.KeyFromExtended(s.o.ext)
				if err != nil {
					fail(after, err)
				}
				k, err := f.ToPrivateKey()
				if s.r.h.Priv == nil {
					e.Check(err != nil, "refused", "a public key gave a private signature key")
					return
				}
				if err != nil {
					fail(after, err)
				}
				m.add(a, &object{kind: "pvt", pvt: &k}, sigRec(s.r.h), "keyaddr private key of "+s.name)
			case 0:
				k, err := s.o.ext.AsSignatureKey()
				if err != nil {
					fail(after, err)
				}
				m.add(a, sigObj(k), sigRec(s.r.h), "signature key of "+s.name)
			case 1:
				k, err := s.o.ext.SPubKey()
				if err != nil {
					fail(after, err)
				}
				m.add(a, &object{kind: "pub", pub: k}, sigRec(s.r.h.Public()), "public signature key of "+s.name)
			case 2:
				if s.r.h.Priv == nil {
					return
				}
				k, err := s.o.ext.SPrivKey()
				if err != nil {
					fail(after, err)
				}
				m.add(a, &object{kind: "pvt", pvt: k}, sigRec(s.r.h), "private signature key of "+s.name)
			}
		case "pub", "pvt":
			h := hdOf(s.r)
			if h == nil {
				_, _ = key.FromSignatureKey(s.o.sigKey())
				break
			}
			if o.Arg(1)%2 == 0 {
				k, err := key.FromSignatureKey(s.o.sigKey())
				if err != nil {
					fail(after, err)
				}
				m.add(a, &object{kind: "ext", ext: k}, &rec{kind: "ext", h: h}, "extended key of "+s.name)
			} else { // into an extended key used before
				t := m.find(a, "ext", o.Arg(2))
				if t == nil {
					return
				}
				t.remember()
				if err := t.o.ext.FromSignatureKey(s.o.sigKey()); err != nil {
					fail(after, err)
				}
				t.r = &rec{kind: "ext", h: h}
				after = "loading " + s.name + " into " + t.name
				e.Probe("reload from a signature key")
			}
		}
	case "twin": // another object read from the same text
		if s == nil || s.r == nil {
			return
		}
		t := s.r.text()
		ob := blank(s.r.kind)
		form := []string{"text", "string", "json"}[abs64(o.Arg(1))%3]
		if err := ob.read(form, s.r.stored(form)); err != nil {
			fail("reading "+t, err)
		}
		after = "reading the text of " + s.name
		m.add(a, ob, s.r, "read from the text of "+s.name)
	case "copy": // the copy that the documentation of Truncate and Zeroize tells callers to make first
		if s == nil || s.r == nil {
			return
		}
		var ob *object
		switch s.o.kind {
		case "pub":
			c := *s.o.pub
			ob = &object{kind: "pub", pub: &c}
		case "pvt":
			c := *s.o.pvt
			ob = &object{kind: "pvt", pvt: &c}
		case "sig":
			c := *s.o.sig
			ob = &object{kind: "sig", sig: &c}
		default:
			return
		}
		after = "copying " + s.name
		m.copied[a] = s
		m.add(a, ob, s.r, "copy of "+s.name)
		e.Probe("value copy")
	case "erase":
		if s == nil {
			return
		}
		s.remember()
		switch s.o.kind {
		case "ext":
			// bytes handed out before, where they are the key's own
			var held []byte
			if b := s.o.ext.Bytes(); len(b) > 0 && &b[0] == &s.o.ext.Bytes()[0] {
				held = b
			}
			was := cp(held)
			s.o.ext.Zero()
			after = "Zero of " + s.name
			if s.r != nil && s.r.h.Priv != nil && len(held) >= 8 && bytes.Equal(held, was) {
				e.Fail("remains", "after %s its private bytes are still in memory: %x", after, held)
			}
		case "pub":
			s.o.pub.Zeroize()
			after = "Zeroize of " + s.name
		case "pvt":
			s.o.pvt.Zeroize()
			after = "Zeroize of " + s.name
		case "sig":
			return
		}
		s.r, s.erased = nil, true
		e.Fault("erase")
	case "truncate":
		if s == nil || s.r == nil {
			return
		}
		after = "Truncate of " + s.name
		switch s.r.kind {
		case "pub":
			s.o.pub.Truncate()
		case "pvt":
			s.o.pvt.Truncate()
		default:
			return
		}
		r := *s.r
		r.ext = []byte{}
		s.r = &r
		e.Fault("truncate")
	case "reload": // other content into the same object
		if s == nil {
			return
		}
		r := genRec(newRNG(uint64(o.Arg(1))), s.o.kind)
		form := formFor(r.kind, o.Arg(2))
		switch form {
		case "text", "binary", "message":
		default:
			form = "text"
		}
		b := cp(r.stored(form))
		if o.Arg(3)%4 == 0 && r.alg == ref.AlgNull && (r.kind == "pub" || r.kind == "pvt") {
			// an empty key without even a length byte
			r.ext = []byte{}
			form, b = "message", ref.Packed(0, nil)
			e.Probe("message without key data")
		}
		s.remember()
		b = unharmed(e, "reloading", b, func(b []byte) {
			if err := s.o.read(form, b); err != nil {
				fail("reloading "+r.String()+" as "+form, err)
			}
		})
		scribble(b)
		after = "reloading " + s.name
		s.r, s.erased = r, false
		e.Fault("reload")
	case "spoiled": // a load that fails must leave the others alone
		if s == nil {
			return
		}
		b := []byte(o.S)
		if s.r != nil && o.Arg(1)%2 == 0 {
			b = cp(s.r.stored("text"))
			b[int(abs64(o.Arg(2)))%len(b)] ^= 1
		}
		s.remember()
		err := s.o.read("text", b)
		after = "a failed load into " + s.name
		if err != nil || s.r == nil || s.o.differs(s.r) != "" {
			// what it holds now is not specified; it is written over later
			s.r, s.erased = nil, false
			s.old = nil
		}
		e.Fault("failed load")
	case "write":
		if s == nil || s.r == nil {
			return
		}
		form := formFor(s.r.kind, o.Arg(1))
		if form == "old" || form == "oldfacade" {
			form = "text"
		}
		b, err := s.o.write(form)
		if err != nil {
			fail("writing", err)
		}
		scribble(b)
		after = "writing " + s.name + " and reusing the output buffer"
	case "append": // appended to a caller's buffer
		if s == nil || s.r == nil {
			return
		}
		pre := append(make([]byte, 0, 300), "prefix"...)
		var out []byte
		var err error
		switch s.r.kind {
		case "pub":
			out, err = s.o.pub.MarshalMsg(pre)
		case "pvt":
			out, err = s.o.pvt.MarshalMsg(pre)
		case "sig":
			out, err = s.o.sig.MarshalMsg(pre)
		default:
			return
		}
		if err != nil {
			fail("writing", err)
		}
		e.Check(bytes.HasPrefix(out, []byte("prefix")) && bytes.Equal(out[6:], s.r.bin()), "changed", "MarshalMsg onto a buffer of %s gives %x", s.name, out)
		scribble(out)
		after = "writing " + s.name + " and reusing the output buffer"
	case "sign":
		if s == nil || s.r == nil {
			return
		}
		after = "signing with " + s.name
		var sg signature.Signature
		sign := func(k *signature.PrivateKey) []byte {
			return unharmed(e, after, []byte("a message to sign"), func(b []byte) { sg = k.Sign(b) })
		}
		var msg []byte
		switch s.r.kind {
		case "pvt":
			if s.r.alg == ref.AlgNull {
				return
			}
			msg = sign(s.o.pvt)
		case "ext":
			if s.r.h.Priv == nil {
				return
			}
			k, err := s.o.ext.SPrivKey()
			if err != nil {
				fail(after, err)
			}
			msg = sign(k)
		default:
			return
		}
		scribble(msg)
		id := byte(ref.AlgSecp)
		if s.r.kind == "pvt" {
			id = s.r.alg
		}
		m.add(a, &object{kind: "sig", sig: &sg}, &rec{kind: "sig", alg: id, key: cp(sg.Bytes()), ext: []byte{}}, "made by "+s.name)
	case "extend": // the caller appends to what an object handed out
		if s == nil || s.r == nil {
			return
		}
		after = "appending to what " + s.name + " handed out"
		more := newRNG(uint64(o.Arg(1))).Bytes(80)
		add := func(bs ...[]byte) {
			for _, b := range bs {
				if n := len(b); n < cap(b) && b[:n+1][n] == 0xC3 {
					continue // in a buffer of buildRoomy, where this would be the caller's own doing
				}
				_ = append(b, more...)
			}
		}
		switch s.r.kind {
		case "pub":
			add(s.o.pub.KeyBytes(), s.o.pub.ExtraBytes())
		case "pvt":
			add(s.o.pvt.KeyBytes(), s.o.pvt.ExtraBytes())
		case "sig":
			add(s.o.sig.Bytes())
		case "ext":
			add(s.o.ext.Bytes(), s.o.ext.PubKeyBytes())
		}
	case "buffers": // the other operations that take a buffer
		x := newRNG(uint64(o.Arg(1)))
		data := x.Bytes([]int{16, 20, 32, 33, 64, 65}[x.Intn(6)])
		unharmed(e, "address.Generate", data, func(b []byte) { address.Generate('a', b) })
		unharmed(e, "AddChecksum", data, func(b []byte) {
			f := signature.AddChecksum(b)
			unharmed(e, "CheckChecksum", f, func(b []byte) { signature.CheckChecksum(b) })
		})
		unharmed(e, "bitset256.FromBytes", data, func(b []byte) { bitset256.FromBytes(b) })
		unharmed(e, "words.FromBytes", data, func(b []byte) { words.FromBytes("en", b) })
		unharmed(e, "NewMaster", data, func(b []byte) { key.NewMaster(b) })
		if s != nil && s.r != nil && (s.r.kind == "sig" || s.r.kind == "pub") {
			if pub, sig := m.find(a, "pub", o.Arg(2)), m.find(a, "sig", o.Arg(3)); pub != nil && sig != nil && pub.r != nil && sig.r != nil && pub.r.alg != ref.AlgNull && pub.r.alg == sig.r.alg {
				unharmed(e, "Verify", data, func(b []byte) { pub.o.pub.Verify(b, *sig.o.sig) })
			}
		}
		for _, kind := range []string{"pub", "pvt", "sig", "ext"} {
			t := x.Bytes(x.Intn(60))
			unharmed(e, "a failed read", t, func(b []byte) { blank(kind).read("text", b) })
			if kind != "ext" {
				unharmed(e, "a failed read", t, func(b []byte) { blank(kind).read("binary", b) })
				unharmed(e, "a failed read", t, func(b []byte) { blank(kind).read("message", b) })
			}
		}
		after = "passing buffers around"
	case "ec":
		if s == nil || s.r == nil || s.r.kind != "ext" {
			return
		}
		after = "taking EC keys of " + s.name
		if p, err := s.o.ext.ECPrivKey(); err == nil {
			p.D.SetInt64(7) // the caller's own number
		}
		if p, err := s.o.ext.ECPubKey(); err == nil {
			p.X.SetInt64(7)
		}
	}
	simrt.Event("%s", after)
	m.verify(a, after)
	if s != nil {
		k := "erased"
		if s.r != nil {
			k = s.r.kind
		}
		e.State("mem", o.K, s.o.kind, k, len(s.old) > 0)
	}
}

func (m *memory) find(a int, kind string, i int64) *slot {
	var c []*slot
	for _, s := range m.ps[a] {
		if s.o.kind == kind {
			c = append(c, s)
		}
	}
	return pick(c, i)
}

// hdOf is the node a signature key record denotes, nil if none.
func hdOf(r *rec) *ref.HD {
	if r.alg != ref.AlgSecp || len(r.ext) != 40 {
		return nil
	}
	x := r.ext
	num := uint32(x[4])<<24 | uint32(x[5])<<16 | uint32(x[6])<<8 | uint32(x[7])
	if r.kind == "pvt" {
		return ref.NewHD(r.key, nil, x[8:40], x[1:4], int(x[0]), num)
	}
	return ref.NewHD(nil, r.key, x[8:40], x[1:4], int(x[0]), num)
}

// guarded copies b into a buffer with room behind it, and gives a function
// that says whether both are as they were.
func guarded(b []byte) ([]byte, func() string) {
	buf := make([]byte, len(b)+96)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xC3
	}
	keep := cp(buf)
	return buf[:len(b)], func() string {
		switch {
		case !bytes.Equal(buf[:len(b)], keep[:len(b)]):
			return "changed"
		case !bytes.Equal(buf, keep):
			return "written behind"
		}
		return ""
	}
}

// unharmed runs f with a guarded copy of b.
func unharmed(e *env, what string, b []byte, f func(b []byte)) []byte {
	g, ok := guarded(b)
	e.Guard(what, func() { f(g) })
	if how := ok(); how != "" {
		e.Fail("argument", "%s: the caller's buffer is %s", what, how)
	}
	return g
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 0xA5 ^ byte(i)
	}
}

func genC06(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 2)
	n := r.Range(8, 22)
	if thorough {
		n = r.Range(10, 50)
	}
	for a := 0; a < np; a++ {
		p.Ops = append(p.Ops, op{T: a, K: "master", B: core.Hex(genSeed(r))})
		for i := 0; i < 2; i++ {
			p.Ops = append(p.Ops, op{T: a, K: "make", A: []int64{0, int64(r.Next() >> 1), int64(r.Intn(12))}})
		}
	}
	for i := 0; i < n; i++ {
		a, sl := r.Intn(np), int64(r.Intn(14))
		o := op{T: a, A: []int64{sl, int64(r.Intn(64)), int64(r.Intn(64))}}
		switch r.Intn(20) {
		case 18, 19:
			o.K = "twin"
		case 16, 17:
			o.K = "copy"
			if r.Chance(2) { // and then something happens to one of the two
				p.Ops = append(p.Ops, o)
				o = op{T: a, K: "erase", A: []int64{-1}}
				switch r.Intn(3) {
				case 0:
					o.K = "truncate"
				case 1:
					o.K, o.A = "reload", append(o.A, int64(r.Next()>>1), int64(r.Intn(64)), int64(r.Intn(4)))
				}
			}
		case 0:
			o.K, o.A[1] = "make", int64(r.Next()>>1)
		case 1, 2, 3:
			o.K, o.A[1] = "child", int64(genIndex(r))
		case 4, 5:
			o.K = "public"
		case 6, 7, 8:
			o.K = "convert"
		case 9, 10:
			o.K = "erase"
		case 11:
			o.K = "truncate"
		case 12:
			o.K, o.A[1] = "reload", int64(r.Next()>>1)
			o.A = append(o.A, int64(r.Intn(4)))
		case 13:
			o.K, o.A[1] = []string{"write", "append", "extend", "buffers"}[r.Intn(4)], int64(r.Next()>>1)
			o.A = append(o.A, int64(r.Intn(4)))
		case 14:
			o.K = []string{"sign", "ec"}[r.Intn(2)]
		case 15:
			o.K, o.S = "spoiled", []string{"", "npvt", "npubaaaaaaaa", "x"}[r.Intn(4)]
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// ---- C11: concurrent callers

// work is one caller's list of calls; every result is a string.
type work struct {
	shared *sharedKeys
	own    []*key.ExtendedKey
	pub    *signature.PublicKey
	pvt    *signature.PrivateKey
	sig    signature.Signature
	msg    []byte
}

type sharedKeys struct {
	priv, pub  *key.ExtendedKey
	ptext      string
	spub       *signature.PublicKey
	spvt       *signature.PrivateKey
	sig        *signature.Signature
	msg        []byte
	addr       address.Address
	phrase     []string
	parentPath string
	cold       bool // only the text is there
}

func makeShared(seed []byte) (*sharedKeys, error) {
	k, err := key.NewMaster(cp(seed))
	if err != nil {
		return nil, err
	}
	t, err := k.MarshalText()
	if err != nil {
		return nil, err
	}
	// parsed anew, so that nothing is memoised yet
	k = new(key.ExtendedKey)
	if err := k.UnmarshalText(t); err != nil {
		return nil, err
	}
	q := new(key.ExtendedKey)
	if err := q.UnmarshalText(t); err != nil {
		return nil, err
	}
	p, err := q.Public()
	if err != nil {
		return nil, err
	}
	sk, err := q.SPrivKey()
	if err != nil {
		return nil, err
	}
	pk, err := q.SPubKey()
	if err != nil {
		return nil, err
	}
	msg := []byte("shared message")
	sg := sk.Sign(msg)
	ad, err := address.Generate(address.KindUser, p.PubKeyBytes())
	if err != nil {
		return nil, err
	}
	ws, err := words.FromBytes("en", seed)
	if err != nil {
		return nil, err
	}
	return &sharedKeys{priv: k, pub: p, ptext: string(t), spub: pk, spvt: sk, sig: &sg, msg: msg, addr: ad, phrase: ws}, nil
}

func outcome(f func() (string, error)) (s string) {
	if p := core.Catch(func() {
		r, err := f()
		if err != nil {
			s = "error: " + err.Error()
		} else {
			s = r
		}
	}); p != "" {
		return "panic: " + p
	}
	return s
}

func extText(k *key.ExtendedKey, err error) (string, error) {
	if err != nil {
		return "", err
	}
	t, err := k.MarshalText()
	if err != nil {
		return "", err
	}
	return fmt.Sprintf("%s pub=%x depth=%d fp=%x", t, k.PubKeyBytes(), k.Depth(), k.ParentFingerprint()), nil
}

func (w *work) do(o op) string {
	s := w.shared
	x := newRNG(uint64(o.Arg(1)))
	if s.cold && strings.HasPrefix(o.K, "s-") && o.K != "s-parse" && o.K != "s-derive" {
		return "none"
	}
	return outcome(func() (string, error) {
		switch o.K {
		// own objects
		case "master":
			k, err := key.NewMaster(o.Bytes())
			if err == nil {
				w.own = append(w.own, k)
			}
			return extText(k, err)
		case "child":
			k := pick(w.own, o.Arg(0))
			if k == nil {
				return "none", nil
			}
			c, err := k.Child(uint32(o.Arg(1)))
			if err == nil {
				w.own = append(w.own, c)
			}
			return extText(c, err)
		case "public":
			k := pick(w.own, o.Arg(0))
			if k == nil {
				return "none", nil
			}
			return extText(k.Public())
		case "path":
			k := pick(w.own, o.Arg(0))
			if k == nil {
				return "none", nil
			}
			return extText(k.DeriveFrom("/44'/1", "/44'/1"+pathString([]ref.PathElem{elem(uint32(o.Arg(1))), elem(uint32(x.Intn(50)))})))
		case "pair":
			al := algOf(byte(1 + abs64(o.Arg(0))%2))
			pub, pvt, err := signature.Generate(al, newReader(uint64(o.Arg(1))))
			if err != nil {
				return "", err
			}
			w.pub, w.pvt, w.msg = &pub, &pvt, []byte(o.S)
			w.sig = pvt.Sign(w.msg)
			t, err := w.sig.MarshalText()
			return pub.FullString() + " " + pvt.FullString() + " " + string(t), err
		case "verify":
			if w.pub == nil {
				return "none", nil
			}
			return fmt.Sprint(w.pub.Verify(w.msg, w.sig), w.pub.Verify(append(cp(w.msg), 1), w.sig), w.sig.Verify(w.msg, *w.pub)), nil
		case "codec":
			r := genRec(x, "pub", "pvt", "sig", "ext")
			form := formFor(r.kind, o.Arg(0))
			ob := blank(r.kind)
			if err := ob.read(form, cp(r.stored(form))); err != nil {
				return "", err
			}
			b, err := ob.write("text")
			return string(b), err
		case "damaged":
			r := genRec(x, "pub", "pvt", "sig", "ext")
			b := cp(r.stored("text"))
			b[x.Intn(len(b))] ^= byte(1 + x.Intn(255))
			ob := blank(r.kind)
			err := ob.read("text", b)
			return fmt.Sprint(err == nil), nil
		case "address":
			kinds := "anexbm"
			a, err := address.Generate(kinds[x.Intn(6)], x.Bytes(x.Range(10, 70)))
			if err != nil {
				return "", err
			}
			b, err := address.Validate(strings.ToUpper(a.String()))
			return fmt.Sprintf("%s %s %c", a, b, b.Kind()), err
		case "words":
			b := x.Bytes(x.Range(0, 40))
			ws, err := words.FromBytes("en", b)
			if err != nil {
				return "", err
			}
			c, err := words.ToBytes("en", ws)
			return fmt.Sprintf("%v %x", ws, c), err
		case "prefix":
			return words.FromPrefix("en", string(rune('a'+x.Intn(26))), x.Intn(6)), nil
		case "facade":
			k, err := keyaddr.NewKey(b64.EncodeToString(o.Bytes()))
			if err != nil {
				return "", err
			}
			c, err := k.Child(int32(x.Intn(100)))
			if err != nil {
				return "", err
			}
			a, err := c.NdauAddress()
			if err != nil {
				return "", err
			}
			sg, err := c.Sign(b64.EncodeToString([]byte(o.S)))
			if err != nil {
				return "", err
			}
			return k.Key + " " + c.Key + " " + a.Address + " " + sg.Signature, nil
		// objects of one's own made from the same immutable things as the
		// others make theirs, and spoiled afterwards
		case "o-ext":
			var k *key.ExtendedKey
			var err error
			switch abs64(o.Arg(0)) % 5 {
			case 0:
				k, err = keyaddr.Key{Key: s.ptext}.ToExtended()
			case 1:
				k = new(key.ExtendedKey)
				err = k.UnmarshalText([]byte(s.ptext))
			case 2:
				k, err = key.NewMaster([]byte("the same seed of all the callers"))
			case 3:
				var f *keyaddr.Key
				if f, err = keyaddr.FromString(s.ptext); err == nil {
					k, err = f.ToExtended()
				}
			case 4:
				if k, err = key.NewMaster([]byte("the same seed of all the callers")); err == nil {
					k, err = k.DeriveFrom("/", "/44'/3")
				}
			}
			if err != nil {
				return "", err
			}
			t, err := extText(k, nil)
			if err != nil {
				return "", err
			}
			c, err := k.Child(uint32(o.Arg(1)) % 4)
			if err != nil {
				return "", err
			}
			u, err := extText(c, nil)
			if err != nil {
				return "", err
			}
			q, err := k.Public()
			if err != nil {
				return "", err
			}
			v, err := extText(q, nil)
			k.Zero()
			w, err2 := extText(c, err)
			c.Zero()
			z, err3 := extText(q, err2)
			q.Zero()
			return t + u + v + w + z, err3
		case "o-sig":
			var ks []signature.Key
			k := new(key.ExtendedKey)
			if err := k.UnmarshalText([]byte(s.ptext)); err != nil {
				return "", err
			}
			for i := 0; i < 2; i++ {
				a, err := k.SPrivKey()
				if err != nil {
					return "", err
				}
				b, err := k.SPubKey()
				if err != nil {
					return "", err
				}
				c, err := signature.ParseKey(s.ptext)
				if err != nil {
					return "", err
				}
				ks = append(ks, a, b, c)
			}
			out := ""
			for i, k := range ks {
				for _, l := range ks[i:] {
					b, err := l.MarshalText()
					if err != nil {
						return "", err
					}
					out += string(b) + core.Hex(l.KeyBytes()) + core.Hex(l.ExtraBytes())
				}
				if i%2 == 0 {
					k.Zeroize()
				} else {
					scribble(k.KeyBytes())
					k.Truncate()
				}
			}
			return out, nil
		case "o-words":
			in := []byte("the same bytes")
			ws, err := words.FromBytes("en", in)
			if err != nil {
				return "", err
			}
			out := strings.Join(ws, " ")
			b, err := words.ToBytes("en", ws)
			if err != nil {
				return "", err
			}
			out += core.Hex(b) + keyaddr.WordsFromPrefix("en", "a", 3)
			for i := range ws {
				ws[i] = "zoo"
			}
			scribble(b)
			scribble(in)
			return out, nil
		case "o-bits":
			b := bitset256.New(1, 2, 200)
			c, err := bitset256.FromHex(b.AsHex())
			if err != nil {
				return "", err
			}
			d := b.Union(c)
			out := b.AsHex() + c.AsHex() + d.AsHex() + fmt.Sprint(d.Indices(), b.Equals(c), c.Count())
			scribble(b.AsBytes())
			scribble(d.Indices())
			b.Toggle(7)
			d.Clear(2)
			return out + c.AsHex(), nil
		case "o-text":
			a, err := address.Generate(address.KindUser, []byte("the same data"))
			if err != nil {
				return "", err
			}
			t, err := a.MarshalText()
			if err != nil {
				return "", err
			}
			out := string(t)
			scribble(t)
			m, err := a.MarshalMsg(nil)
			if err != nil {
				return "", err
			}
			out += core.Hex(m)
			scribble(m)
			f := signature.AddChecksum([]byte("the same message"))
			out += core.Hex(f)
			g, ok := signature.CheckChecksum(f)
			out += core.Hex(g) + fmt.Sprint(ok)
			scribble(f)
			return out, nil
		// reading shared things
		case "s-child":
			return extText(s.priv.Child(uint32(o.Arg(1))))
		case "s-pubchild":
			return extText(s.pub.Child(uint32(o.Arg(1))))
		case "s-public":
			return extText(s.priv.Public())
		case "s-pubbytes":
			return core.Hex(s.priv.PubKeyBytes()) + core.Hex(s.priv.Bytes()), nil
		case "s-text":
			t, err := s.priv.MarshalText()
			return string(t), err
		case "s-sigkey":
			k, err := s.priv.AsSignatureKey()
			if err != nil {
				return "", err
			}
			t, err := k.MarshalText()
			return string(t), err
		case "s-spub":
			k, err := s.priv.SPubKey()
			if err != nil {
				return "", err
			}
			return k.FullString(), nil
		case "s-parse":
			k := new(key.ExtendedKey)
			err := k.UnmarshalText([]byte(s.ptext))
			return extText(k, err)
		case "s-derive":
			k, err := keyaddr.DeriveFrom(s.ptext, "/", pathString([]ref.PathElem{elem(uint32(o.Arg(1)))}))
			if err != nil {
				return "", err
			}
			return k.Key, nil
		case "s-verify":
			return fmt.Sprint(s.spub.Verify(s.msg, *s.sig), s.sig.Verify([]byte("other"), *s.spub)), nil
		case "s-sign":
			g := s.spvt.Sign([]byte(o.S))
			t, err := g.MarshalText()
			return string(t), err
		case "s-write":
			b, err := s.spub.MarshalMsg(nil)
			if err != nil {
				return "", err
			}
			c, err := s.sig.MarshalText()
			return core.Hex(b) + string(c) + s.spub.String(), err
		case "s-match":
			return fmt.Sprint(signature.Match(*s.spub, *s.spvt)), nil
		case "s-address":
			a, err := address.Validate(s.addr.String())
			return a.String() + fmt.Sprint(s.addr.Revalidate()), err
		case "s-words":
			b, err := words.ToBytes("en", s.phrase)
			return core.Hex(b), err
		}
		return "?", nil
	})
}

var ownOps = []string{"master", "child", "child", "public", "path", "pair", "verify", "codec", "codec", "damaged", "address", "words", "prefix", "facade"}
var twinOps = []string{"o-ext", "o-ext", "o-sig", "o-words", "o-bits", "o-text"}
var sharedOps = []string{"s-child", "s-pubchild", "s-public", "s-pubbytes", "s-text", "s-sigkey", "s-spub", "s-parse", "s-derive", "s-verify", "s-sign", "s-write", "s-match", "s-address", "s-words"}

func execC11(e *env) {
	seed := lzSeed(int(e.Plan.Cfg["seed"]))
	// alone, each caller in a process of its own
	alone := map[int][]string{}
	var sh *sharedKeys
	for _, a := range e.Plan.Actors() {
		reinit()
		var err error
		if sh, err = makeShared(seed); err != nil {
			e.Fail("alone", "preparing: %v", err)
		}
		if e.Plan.Cfg["cold"] != 0 {
			sh = &sharedKeys{ptext: sh.ptext, cold: true}
		}
		w := &work{shared: sh}
		for _, o := range e.Plan.ActorOps(a) {
			alone[a] = append(alone[a], w.do(o))
		}
	}
	// together, with everything new
	reinit()
	cold := e.Plan.Cfg["cold"] != 0
	sh2 := &sharedKeys{ptext: sh.ptext, cold: true}
	if !cold { // else the callers are the first to use the library
		var err error
		if sh2, err = makeShared(seed); err != nil {
			e.Fail("alone", "preparing again: %v", err)
		}
	} else {
		e.Probe("concurrent first use")
	}
	ws := map[int]*work{}
	for _, a := range e.Plan.Actors() {
		ws[a] = &work{shared: sh2}
	}
	last, lastBy := "", -1
	e.RunActors(func(a int, o op, ix int) {
		got := ws[a].do(o)
		simrt.Event("%s", got)
		if got != alone[a][ix] {
			e.Fail("differs", "%s gave %q with other callers around, %q alone", o, got, alone[a][ix])
		}
		e.State("call", last, o.K, a == lastBy, strings.HasPrefix(got, "error"))
		last, lastBy = o.K, a
	})
	// the shared things are what they were
	if cold {
		var err error
		if sh, err = makeShared(seed); err != nil {
			e.Fail("alone", "preparing afterwards: %v", err)
		}
		if sh2, err = makeShared(seed); err != nil {
			e.Fail("alone", "preparing afterwards: %v", err)
		}
	}
	for _, k := range sharedOps {
		o := op{K: k, A: []int64{0, 3}, S: "m"}
		a, b := (&work{shared: sh}).do(o), (&work{shared: sh2}).do(o)
		e.Check(a == b, "differs", "afterwards %s gives %q, without concurrency %q", k, b, a)
	}
}

func genC11(r *rng, thorough bool) *plan {
	p := &plan{Cfg: map[string]int64{"seed": int64(r.Intn(6))}}
	np := r.Range(2, 5)
	n := r.Range(2, 4)
	if thorough {
		n = r.Range(2, 8)
	}
	mode := r.Intn(5)
	twin := twinOps[r.Intn(len(twinOps))]
	if mode == 3 {
		p.Cfg["cold"] = 1
	}
	same := sharedOps[r.Intn(len(sharedOps))]
	for a := 0; a < np; a++ {
		if mode != 1 {
			p.Ops = append(p.Ops, op{T: a, K: "master", B: core.Hex(genSeed(r))})
		}
		for i := 0; i < n; i++ {
			k := ownOps[r.Intn(len(ownOps))]
			if mode == 4 || mode == 3 && r.Chance(3) {
				k = twin
				if r.Chance(3) {
					k = twinOps[r.Intn(len(twinOps))]
				}
			}
			if mode == 1 || mode == 2 && r.Chance(2) {
				k = sharedOps[r.Intn(len(sharedOps))]
				if r.Chance(3) {
					k = same
				}
			}
			if mode == 3 && r.Chance(4) {
				k = []string{"s-parse", "s-derive"}[r.Intn(2)]
			}
			o := op{T: a, K: k, A: []int64{int64(r.Intn(8)), int64(genIndex(r))}, S: "message " + core.Hex(r.Bytes(r.Intn(5)))}
			if k == "codec" || k == "pair" || k == "damaged" || k == "address" || k == "words" {
				o.A[1] = int64(r.Next() >> 1)
			}
			if k == "master" || k == "facade" {
				o.B = core.Hex(genSeed(r))
			}
			p.Ops = append(p.Ops, o)
		}
	}
	// concurrency is the point: preempt in every run
	switch r.Intn(4) {
	case 0:
		p.Gap = 1 + r.Intn(6)
	case 1:
		p.Gap = 10 + r.Intn(90)
	case 2:
		p.Gap = 100 + r.Intn(2000)
	case 3:
		p.HotMod, p.HotSalt = uint32(5+r.Intn(80)), uint32(r.Next())
	}
	return p
}
