package hd

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// ---- C04: keys survive storage

type held struct {
	o *object
	r *rec
}

type file struct {
	name, form string
	r          *rec // what the file holds
	prev       *rec // what it held before the write under way, nil if nothing
	prevForm   string
}

type store struct {
	e     *env
	ps    map[int]*keeper
	order []int
}

type keeper struct {
	id    int
	held  []*held
	disk  *disk
	files []*file
	// objects that have been used before, by kind
	used map[string]*object
	mail map[string]*object // object that incoming messages are read into
}

func execC04(e *env) {
	useWide(e)
	s := &store{e: e, ps: map[int]*keeper{}, order: e.Plan.Actors()}
	for _, a := range s.order {
		s.ps[a] = &keeper{id: a, disk: newDisk(), used: map[string]*object{}, mail: map[string]*object{}}
	}
	e.RunActors(func(a int, o op, ix int) {
		p := s.ps[a]
		c, ok := o.Fault("crash")
		if !ok {
			s.c04(p, o)
			return
		}
		if simrt.RunKillable("keeper", 1+abs64(c.Arg(0))%600, func() { s.c04(p, o) }) {
			return
		}
		e.Fault("crash")
		s.restart(p)
	})
}

func (s *store) check(o *object, r *rec, what string) {
	if d := o.differs(r); d != "" {
		s.e.Fail("changed", "%s %s: %s", r, what, d)
	}
}

// load reads bytes into an object and compares.
func (s *store) load(o *object, r *rec, form string, b []byte, what string) {
	e := s.e
	keep := cp(b)
	var err error
	if p := core.Catch(func() { err = o.read(form, b) }); p != "" {
		e.Fail("panic", "reading %s %s as %s panicked: %s", r, what, form, p)
	}
	if err != nil {
		e.Fail("refused", "%s %s as %s is refused: %v", r, what, form, err)
	}
	s.check(o, r, what+" as "+form)
	// writing it again gives the same bytes
	wf := form
	if form == "old" || form == "oldfacade" {
		wf = "text"
	}
	w, err := o.write(wf)
	if err != nil {
		e.Fail("rewrite", "%s read %s as %s cannot be written again: %v", r, what, form, err)
	}
	if !bytes.Equal(w, r.want(wf)) {
		e.Fail("rewrite", "%s read %s as %s is written again as %q, want %q", r, what, form, w, r.want(wf))
	}
	if form != "old" && form != "oldfacade" && !bytes.Equal(keep, w) {
		e.Fail("rewrite", "%s read %s as %s: bytes differ", r, what, form)
	}
	if t := r.text(); r.kind != "pub" && strings.HasPrefix(t, "npvt") && !signature.MaybePrivate(t) {
		e.Fail("private", "%s: its text %s is said not to be a private key's", r, short(t))
	}
	e.State("load", r.kind, r.alg, form, len(r.bin())%5, len(r.bin()) > 255)
}

func (s *store) restart(p *keeper) {
	e := s.e
	p.held, p.used, p.mail = nil, map[string]*object{}, map[string]*object{}
	for _, f := range p.files {
		b, ok := p.disk.read(f.name)
		if !ok {
			if f.prev == nil { // the write never took effect
				f.r = nil
				continue
			}
			e.Fail("lost", "file %s vanished", f.name)
		}
		if !bytes.Equal(b, f.r.stored(f.form)) {
			if f.prev == nil || !bytes.Equal(b, f.prev.stored(f.prevForm)) {
				e.Fail("harness", "file %s is torn", f.name)
			}
			f.r, f.form = f.prev, f.prevForm
		}
		f.prev = nil
		o := blank(f.r.kind)
		s.load(o, f.r, f.form, b, "after a restart")
		p.held = append(p.held, &held{o, f.r})
		p.used[f.r.kind] = o
	}
	live := p.files[:0]
	for _, f := range p.files {
		if f.r != nil {
			live = append(live, f)
		}
	}
	p.files = live
}

func formFor(kind string, i int64) string {
	for k := int64(0); ; k++ {
		f := forms[(abs64(i)+k)%int64(len(forms))]
		if has(kind, f) {
			return f
		}
	}
}

func (s *store) c04(p *keeper, o op) {
	e := s.e
	switch o.K {
	case "make":
		r := opRec(o, "pub", "pvt", "sig", "ext", "ext")
		b, err := build(r)
		if err != nil {
			e.Fail("refused", "making a %s: %v", r, err)
		}
		s.check(b, r, "just made")
		p.held = append(p.held, &held{b, r})
	case "save": // A: slot, form, file to overwrite (or new)
		h := pick(p.held, o.Arg(0))
		if h == nil {
			return
		}
		form := formFor(h.r.kind, o.Arg(1))
		b := h.r.stored(form)
		if form != "old" && form != "oldfacade" {
			var err error
			if pn := core.Catch(func() { b, err = h.o.write(form) }); pn != "" {
				e.Fail("panic", "writing %s as %s panicked: %s", h.r, form, pn)
			}
			if err != nil {
				e.Fail("refused", "writing %s as %s: %v", h.r, form, err)
			}
			if !bytes.Equal(b, h.r.stored(form)) {
				e.Fail("form", "%s is written as %q, want %q", h.r, b, h.r.stored(form))
			}
		}
		if h.r.kind == "pub" || h.r.kind == "pvt" {
			// what is shown to people
			full := string(h.r.stored("text"))
			want := full
			if len(full) > 15 {
				want = full[:8] + "..." + full[len(full)-4:]
			}
			if got := h.o.sigKey().String(); got != want {
				e.Fail("shorthand", "%s is shown as %q, want %q", h.r, got, want)
			}
		}
		s.check(h.o, h.r, "after being written")
		var f *file
		if o.Arg(2)%2 == 1 && len(p.files) > 0 {
			f = pick(p.files, o.Arg(2)/2)
			f.prev, f.prevForm = f.r, f.form
			f.r, f.form = h.r, form
		} else {
			f = &file{name: fmt.Sprintf("f%d", len(p.files)), form: form, r: h.r}
			for _, x := range p.files {
				if x.name == f.name {
					f.name += "x"
				}
			}
			p.files = append(p.files, f)
		}
		p.disk.replace(f.name, b)
		f.prev = nil
	case "load": // into a fresh object or one used before
		f := pick(p.files, o.Arg(0))
		if f == nil || f.r == nil {
			return
		}
		b, ok := p.disk.read(f.name)
		if !ok || f.prev != nil {
			return
		}
		ob := p.used[f.r.kind]
		if ob == nil || o.Arg(1)%3 == 0 {
			ob = blank(f.r.kind)
		} else {
			e.Probe("read into an object used before")
			// that object is no longer the value it was
			keep := p.held[:0]
			for _, h := range p.held {
				if h.o != ob {
					keep = append(keep, h)
				}
			}
			p.held = keep
		}
		s.load(ob, f.r, f.form, b, "from storage")
		p.used[f.r.kind] = ob
		p.held = append(p.held, &held{ob, f.r})
		if len(p.held) > 16 {
			p.held = p.held[1:]
		}
	case "restart":
		e.Fault("restart")
		s.restart(p)
	case "send":
		h := pick(p.held, o.Arg(0))
		if h == nil {
			return
		}
		form := formFor(h.r.kind, o.Arg(1))
		b, err := h.o.write(form)
		if err != nil {
			e.Fail("refused", "writing %s as %s: %v", h.r, form, err)
		}
		if form == "old" || form == "oldfacade" {
			b = h.r.stored(form)
		}
		to := s.ps[pick(s.order, o.Arg(2))]
		r := h.r
		deliver(e, o, func(int) {
			ob := to.mail[r.kind]
			if ob == nil || o.Arg(3)%2 == 0 {
				ob = blank(r.kind)
			}
			to.mail[r.kind] = nil // in use
			s.load(ob, r, form, cp(b), "from a peer")
			to.mail[r.kind] = ob
		})
	case "generate": // a fresh pair, and a signature made with it
		al := algOf(byte(1 + abs64(o.Arg(0))%2))
		pub, pvt, err := signature.Generate(al, newReader(uint64(o.Arg(1))))
		if err != nil {
			return
		}
		id := byte(1 + abs64(o.Arg(0))%2)
		sig := pvt.Sign([]byte(o.S))
		for _, h := range []*held{
			{&object{kind: "pub", pub: &pub}, &rec{kind: "pub", alg: id, key: cp(pub.KeyBytes()), ext: []byte{}}},
			{&object{kind: "pvt", pvt: &pvt}, &rec{kind: "pvt", alg: id, key: cp(pvt.KeyBytes()), ext: []byte{}}},
			{&object{kind: "sig", sig: &sig}, &rec{kind: "sig", alg: id, key: cp(sig.Bytes()), ext: []byte{}}},
		} {
			s.check(h.o, h.r, "just generated")
			p.held = append(p.held, h)
		}
	case "convert": // extended key to signature key and back, and through the facade
		h := pick(p.held, o.Arg(0))
		if h == nil || h.r.kind != "ext" {
			return
		}
		s.convert(h, o.Arg(1))
	case "toolong": // a key that no form can hold is refused, or else survives
		x := newRNG(uint64(o.Arg(0)))
		for _, kind := range []string{"pub", "pvt"} {
			n := AlgLong{}.PublicKeySize()
			if kind == "pvt" {
				n = AlgLong{}.PrivateKeySize()
			}
			r := &rec{kind: kind, alg: longID, key: x.Bytes(n), ext: x.Bytes(x.Intn(40))}
			ob, err := build(r)
			if err != nil {
				e.Probe("long key refused")
				continue
			}
			form := formFor(kind, o.Arg(1))
			var b []byte
			if pn := core.Catch(func() { b, err = ob.write(form) }); pn != "" {
				e.Fail("panic", "writing %s as %s panicked: %s", r, form, pn)
			}
			if err != nil {
				continue
			}
			back := blank(kind)
			if pn := core.Catch(func() { err = back.read(form, b) }); pn != "" {
				e.Fail("panic", "reading %q panicked: %s", b, pn)
			}
			if err != nil && form == "string" {
				continue // FullString has no error result
			}
			if err != nil {
				e.Fail("lost", "%s is written as %s without an error and cannot be read: %v", r, form, err)
			}
			s.check(back, r, "written and read as "+form)
		}
		e.Fault("key too long for the format")
	case "recheck":
		for _, h := range p.held {
			s.check(h.o, h.r, "held")
		}
	}
}

type seedReader struct{ r *rng }

func (s seedReader) Read(p []byte) (int, error) { copy(p, s.r.Bytes(len(p))); return len(p), nil }

func newReader(seed uint64) seedReader { return seedReader{newRNG(seed)} }

func (s *store) convert(h *held, how int64) {
	e := s.e
	sr := &rec{kind: "pub", alg: ref.AlgSecp, key: h.r.h.Key(), ext: h.r.h.Extra()}
	if h.r.h.Priv != nil {
		sr.kind = "pvt"
	}
	ob := blank(sr.kind)
	var err error
	if pn := core.Catch(func() {
		switch abs64(how) % 3 {
		case 0:
			var k signature.Key
			if k, err = h.o.ext.AsSignatureKey(); err == nil {
				switch k := k.(type) {
				case *signature.PublicKey:
					ob.pub = k
				case *signature.PrivateKey:
					ob.pvt = k
				}
			}
		case 1:
			if sr.kind == "pvt" {
				ob.pvt, err = h.o.ext.SPrivKey()
			} else {
				ob.pub, err = h.o.ext.SPubKey()
			}
		case 2:
			var k *keyaddr.Key
			if k, err = keyaddr.KeyFromExtended(h.o.ext); err == nil {
				if sr.kind == "pvt" {
					*ob.pvt, err = k.ToPrivateKey()
				} else {
					*ob.pub, err = k.ToPublicKey()
				}
			}
		}
	}); pn != "" {
		e.Fail("panic", "converting %s panicked: %s", h.r, pn)
	}
	if err != nil {
		e.Fail("refused", "converting %s to a signature key: %v", h.r, err)
	}
	s.check(ob, sr, "converted")
	back := blank("ext")
	if pn := core.Catch(func() {
		if how%2 == 0 {
			var k signature.Key = ob.pub
			if sr.kind == "pvt" {
				k = ob.pvt
			}
			back.ext, err = key.FromSignatureKey(k)
		} else {
			var k *keyaddr.Key
			if sr.kind == "pvt" {
				k, err = keyaddr.KeyFromPrivate(*ob.pvt)
			} else {
				k, err = keyaddr.KeyFromPublic(*ob.pub)
			}
			if err == nil {
				back.ext, err = k.ToExtended()
			}
		}
	}); pn != "" {
		e.Fail("panic", "converting %s back panicked: %s", h.r, pn)
	}
	if err != nil {
		e.Fail("refused", "converting %s back to an extended key: %v", h.r, err)
	}
	s.check(back, h.r, "converted and back")
}

func genC04(r *rng, thorough bool) *plan {
	np := r.Range(1, 3)
	p := &plan{}
	n := r.Range(8, 20)
	if thorough {
		n = r.Range(10, 40)
	}
	for a := 0; a < np; a++ {
		for i := 0; i < 3; i++ {
			p.Ops = append(p.Ops, op{T: a, K: "make", A: []int64{int64(r.Next() >> 1)}})
		}
	}
	for i := 0; i < n; i++ {
		a, slot := r.Intn(np), int64(r.Intn(16))
		switch r.Intn(13) {
		case 12:
			p.Ops = append(p.Ops, op{T: a, K: "toolong", A: []int64{int64(r.Next() >> 1), int64(r.Intn(8))}})
		case 0, 1:
			p.Ops = append(p.Ops, op{T: a, K: "make", A: []int64{int64(r.Next() >> 1)}})
		case 2, 3, 4:
			p.Ops = append(p.Ops, op{T: a, K: "save", A: []int64{slot, int64(r.Intn(8)), int64(r.Intn(8))}, F: genFault(r, 4, "crash", int64(r.Intn(600)))})
		case 5, 6:
			p.Ops = append(p.Ops, op{T: a, K: "load", A: []int64{slot, int64(r.Intn(3))}, F: genFault(r, 10, "crash", int64(r.Intn(600)))})
		case 7:
			p.Ops = append(p.Ops, op{T: a, K: "restart"})
		case 8, 9:
			p.Ops = append(p.Ops, op{T: a, K: "send", A: []int64{slot, int64(r.Intn(8)), int64(r.Intn(np)), int64(r.Intn(2))}, F: netFaults(r)})
		case 10:
			p.Ops = append(p.Ops, op{T: a, K: "generate", A: []int64{int64(r.Intn(2)), int64(r.Next() >> 1)}, S: "msg"})
		case 11:
			p.Ops = append(p.Ops, op{T: a, K: "convert", A: []int64{slot, int64(r.Intn(6))}})
		}
	}
	for a := 0; a < np; a++ {
		p.Ops = append(p.Ops, op{T: a, K: "recheck"})
	}
	return p
}

// ---- C05: damage is refused

func execC05(e *env) {
	useWide(e)
	e.RunActors(func(a int, o op, ix int) { c05(e, o) })
}

// spells removes what base32 decoding ignores.
func spells(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\r", ""), "\n", "")
	return strings.ToLower(s)
}

// oldOK is whether old-format text has a good checksum.
func oldOK(s string) bool {
	b, err := ref.B32Decode(spells(s))
	if err != nil || len(b) != 80 {
		return false
	}
	h := sha256.Sum256(b[:76])
	h = sha256.Sum256(h[:])
	return bytes.Equal(h[:4], b[76:])
}

// frameOK is whether new-format text (without prefix) has a good frame.
func frameOK(s string) bool {
	b, err := ref.B32Decode(spells(s))
	if err != nil {
		return false
	}
	_, ok := ref.Unsum(b)
	return ok
}

// damage applies the operation's faults to text.
func damage(e *env, o op, t, other []byte) []byte {
	b := cp(t)
	at := func(x int64) int {
		if len(b) == 0 {
			return 0
		}
		return int(abs64(x)) % len(b)
	}
	for _, f := range o.F {
		if len(b) == 0 {
			break
		}
		i := at(f.Arg(0))
		switch f.K {
		case "flip": // replace a character
			c := ref.Alphabet[int(abs64(f.Arg(1)))%32]
			if f.Arg(1) >= 32 {
				c = byte(f.Arg(1))
			}
			b[i] = c
		case "swap":
			if i+1 < len(b) {
				b[i], b[i+1] = b[i+1], b[i]
			}
		case "cut":
			b = b[:i]
		case "lose":
			j := min(len(b), i+1+int(abs64(f.Arg(1)))%16)
			b = append(cp(b[:i]), b[j:]...)
		case "insert":
			b = append(append(cp(b[:i]), byte(f.Arg(1))), b[i:]...)
		case "repeat":
			j := min(len(b), i+1+int(abs64(f.Arg(1)))%16)
			b = append(append(cp(b[:j]), b[i:j]...), b[j:]...)
		case "torn": // the other text's beginning over this one
			k := (i + 15) / 16 * 16
			if k > len(other) {
				k = len(other)
			}
			x := cp(other[:k])
			if len(b) > k {
				x = append(x, b[k:]...)
			}
			b = x
		case "splice": // this one's beginning, the other's end
			if i < len(other) {
				b = append(cp(b[:i]), other[i:]...)
			}
		case "rot": // part of the body moved
			j := at(f.Arg(1))
			if i > j {
				i, j = j, i
			}
			b = append(append(cp(b[j:]), b[i:j]...), b[:i]...)
		case "dress":
			b = []byte(dress(string(b), f.Arg(1), int(abs64(f.Arg(0)))%len(b)))
		case "bits": // flip one bit of one character
			b[i] ^= 1 << uint(abs64(f.Arg(1))%8)
		case "prefix": // what should tell its kind is another's or in part
			k := min(4, len(b))
			b = append([]byte(prefixes[abs64(f.Arg(1))%int64(len(prefixes))]), b[k:]...)
		case "zero": // a hole, as from a lost write
			for j := i / 16 * 16; j < len(b) && j < i/16*16+16; j++ {
				b[j] = 0
			}
		case "case":
			k := min(4, len(b))
			b = append(cp(b[:k]), bytes.ToUpper(b[k:])...)
		}
		e.Fault(f.K)
	}
	return b
}

func c05(e *env, o op) {
	switch o.K {
	case "damage":
		r := opRec(o, "pub", "pvt", "sig", "ext", "ext")
		other := genRec(newRNG(uint64(o.Arg(1))), r.kind)
		if r.alg == ref.AlgNull && r.kind != "ext" || other.alg == ref.AlgNull && other.kind != "ext" {
			return
		}
		form := []string{"text", "string", "text", "old", "oldfacade"}[abs64(o.Arg(2))%5]
		if !has(r.kind, form) {
			form = "text"
		}
		t := r.stored(form)
		b := damage(e, o, t, other.stored(form))
		readDamaged(e, r, other, form, t, b, o.Arg(3)%2 == 1)
		e.State("damage", r.kind, form, faultKinds(o))
	case "sweep": // every position of a text, and of a frame, damaged in turn
		r := opRec(o, "pub", "pvt", "sig", "ext")
		x := newRNG(uint64(o.Arg(1)))
		other := genRec(x, r.kind)
		if r.alg == ref.AlgNull && r.kind != "ext" || other.alg == ref.AlgNull && other.kind != "ext" {
			return
		}
		form := "text"
		if f := []string{"old", "oldfacade"}[x.Intn(2)]; has(r.kind, f) && x.Chance(2) {
			form = f
		}
		t := r.stored(form)
		step := 1 + len(t)/250 // long texts: some positions
		for i := x.Intn(step); i < len(t); i += step {
			f := core.Fault{K: "flip", A: []int64{int64(i), int64(x.Intn(32))}}
			if x.Chance(4) {
				f = core.Fault{K: []string{"swap", "cut", "repeat", "lose", "bits"}[x.Intn(5)], A: []int64{int64(i), int64(x.Intn(16))}}
			}
			readDamaged(e, r, other, form, t, damage(e, op{F: []core.Fault{f}}, t, nil), false)
		}
		msg := x.Bytes(x.Intn(40))
		good := ref.Sum(msg)
		for i := range good {
			for k := 0; k < 2; k++ {
				b := cp(good)
				b[i] ^= byte(1 + x.Intn(255))
				if k == 1 {
					j := x.Intn(len(b))
					b[j] ^= byte(x.Intn(256))
				}
				frameDamaged(e, msg, good, b)
			}
		}
		e.Fault("sweep")
	case "frame": // frames with any width, the checksum right for that width
		x := newRNG(uint64(o.Arg(0)))
		r := genRec(x, "pub", "pvt", "sig")
		w := int(abs64(o.Arg(1)) % 256)
		msg := r.bin()
		if o.Arg(2) > 0 {
			msg = x.Bytes(int(o.Arg(2)))
		}
		h := sha256.Sum224(msg)
		f := append([]byte{byte(w)}, msg...)
		if w <= 28 {
			f = append(f, h[28-w:]...)
		}
		var out []byte
		var ok bool
		if pn := core.Catch(func() { out, ok = signature.CheckChecksum(cp(f)) }); pn != "" {
			e.Fail("panic", "CheckChecksum of a frame with width %d panicked: %s", w, pn)
		}
		e.Fault("frame")
		if w < 3 {
			e.Check(!ok, "short checksum", "a frame of %d bytes with a %d-byte checksum is accepted", len(f), w)
		}
		if ok && w <= 28 {
			e.Check(bytes.Equal(out, msg), "accepted", "a frame with width %d is read as another message", w)
		}
		// as text
		txt := ref.B32(f)
		ob := blank(r.kind)
		pre := map[string]string{"pub": "npub", "pvt": "npvt", "sig": ""}[r.kind]
		var err error
		if pn := core.Catch(func() { err = ob.read("text", []byte(pre+txt)) }); pn != "" {
			e.Fail("panic", "reading a frame with width %d panicked: %s", w, pn)
		}
		if w < 3 {
			e.Check(err != nil, "short checksum", "text whose frame has a %d-byte checksum is accepted: %s", w, pre+txt)
		}
		// a message of any length, also of none
		if o.Arg(2) == 0 && w%3 == 0 {
			msg = nil
		}
		// the frame the library itself writes
		good := signature.AddChecksum(msg)
		e.Check(bytes.Equal(good, ref.Sum(msg)), "form", "the frame of a %d-byte message is %x, want %x", len(msg), good, ref.Sum(msg))
		out, ok = signature.CheckChecksum(good)
		e.Check(ok && bytes.Equal(out, msg), "unusable", "the frame of a %d-byte message is refused", len(msg))
	case "oldkey": // well-framed old-format text of what may be no key
		x := newRNG(uint64(o.Arg(0)))
		n, p := ref.Order(), ref.FieldPrime()
		d := make([]byte, 33)
		what := "a private key"
		if how := abs64(o.Arg(1)) % 12; how < 8 {
			v := new(big.Int)
			switch how {
			case 0: // zero
			case 1:
				v.SetInt64(1)
			case 2, 3, 4:
				v.Add(n, big.NewInt(how-3))
			case 5:
				v.SetBytes(bytes.Repeat([]byte{255}, 32))
			case 6:
				v.SetBytes(x.Bytes(32))
			case 7: // beyond the order
				v.Rand(rand.New(rand.NewSource(int64(x.Next()>>1))), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), n))
				v.Add(v, n)
			}
			v.FillBytes(d[1:])
			if how == 7 || v.Sign() == 0 || v.Cmp(n) >= 0 {
				what = "no private key"
			}
		} else {
			d[0] = byte(2 + x.Intn(2))
			copy(d[1:], x.Bytes(32))
			switch how {
			case 9: // any first byte
				d[0] = byte(1 + x.Intn(255))
			case 10: // beyond the field
				new(big.Int).Add(p, big.NewInt(int64(x.Intn(900)))).FillBytes(d[1:])
			case 11:
				copy(d[1:], ref.PubOf(append(make([]byte, 31), byte(1+x.Intn(255))))[1:])
			}
			if what = "a public key"; how == 10 {
				what = "either" // the curve library takes the remainder
			} else if !ref.OnCurve(d) {
				what = "no public key"
			}
		}
		id := [][3]byte{key.NdauPrivateKeyID, key.NdauPublicKeyID, key.TestPrivateKeyID, key.TestPublicKeyID}[x.Intn(4)]
		ext := append([]byte{byte(x.Intn(256))}, x.Bytes(39)...)
		txt := ref.OldFrame(id, ext, d)
		for _, form := range []string{"old", "oldfacade"} {
			ob := blank("ext")
			var err error
			if pn := core.Catch(func() { err = ob.read(form, []byte(txt)) }); pn != "" {
				e.Fail("panic", "reading old-format text of %s (%x) panicked: %s", what, d, pn)
			}
			if strings.HasPrefix(what, "no ") {
				e.Check(err != nil, "accepted", "old-format text of %s (%x) is accepted", what, d)
			} else if what != "either" {
				e.Check(err == nil, "unusable", "old-format text of %s (%x) is refused: %v", what, d, err)
			}
		}
		e.Fault("not a key")
	case "frames": // a frame, damaged byte-wise
		x := newRNG(uint64(o.Arg(0)))
		msg := x.Bytes(int(abs64(o.Arg(1)) % 120))
		f := signature.AddChecksum(msg)
		b := damage(e, o, f, ref.Sum(x.Bytes(len(msg))))
		frameDamaged(e, msg, f, b)
		e.State("frame", len(msg), faultKinds(o))
	}
}

// readDamaged reads damaged text b (once t, which stood for r) and judges
// the answer; used is whether the reading object held another value.
func readDamaged(e *env, r, other *rec, form string, t, b []byte, used bool) {
	ob := blank(r.kind)
	if used { // an object that held the other value
		if err := ob.read("text", []byte(other.text())); err != nil {
			return
		}
	}
	var err error
	if pn := core.Catch(func() { err = ob.read(form, cp(b)) }); pn != "" {
		e.Fail("panic", "reading damaged text %q panicked: %s", b, pn)
	}
	simrt.Event("damaged %x -> %v", sum8(b), err != nil)
	e.State("damaged", r.kind, r.alg, form, used, err != nil)
	bodyOf := func(b []byte) string {
		s := spells(string(b))
		if r.kind != "sig" && form != "old" && form != "oldfacade" && len(s) > 4 {
			s = s[4:]
		}
		return s
	}
	if err != nil {
		e.Probe("refused")
	} else {
		d1 := ob.differs(r)
		switch {
		case d1 == "":
			// text that still reads as the original still spells it
			if a, z := spells(string(b)), spells(string(t)); a != z && (bodyOf(b) == bodyOf(t) || !frameOK(bodyOf(b)) && !oldOK(string(b))) {
				e.Fail("accepted", "%s: damaged text %q (from %q) is accepted", r, b, t)
			}
			e.Probe("accepted as the original")
		case ob.differs(other) == "":
			// a complete new text in place of the old one
			if spells(string(b)) != spells(string(other.stored(form))) {
				e.Fail("accepted", "damaged text %q was read as the other key", b)
			}
		default:
			body := bodyOf(b)
			same := body == bodyOf(t) || body == bodyOf(other.stored(form))
			if !same && (frameOK(body) || oldOK(string(b))) {
				e.Probe("checksum collision")
				return
			}
			e.Fail("accepted", "%s: damaged text %q (from %q) was read as a different value: %s", r, b, t, d1)
		}
	}
	// the object and the program still work
	if pn := core.Catch(func() { err = ob.read(form, cp(t)) }); pn != "" || err != nil {
		e.Fail("unusable", "after damaged text, the undamaged text of %s is not read: %v %s", r, err, pn)
	}
	if d := ob.differs(r); d != "" {
		e.Fail("unusable", "after damaged text, the undamaged text of %s is read wrong: %s", r, d)
	}
}

// frameDamaged checks a frame b, damaged from f, which stood for msg.
func frameDamaged(e *env, msg, f, b []byte) {
	var out []byte
	var ok bool
	if pn := core.Catch(func() { out, ok = signature.CheckChecksum(cp(b)) }); pn != "" {
		e.Fail("panic", "CheckChecksum(%x) panicked: %s", b, pn)
	}
	if ok && !bytes.Equal(out, msg) {
		if _, rok := ref.Unsum(b); rok {
			e.Probe("checksum collision")
			return
		}
		e.Fail("accepted", "CheckChecksum(%x), damaged from %x, is accepted as %x", b, f, out)
	}
	if ok && !bytes.Equal(f, b) {
		if _, rok := ref.Unsum(b); !rok {
			e.Fail("accepted", "CheckChecksum(%x), damaged from %x, is accepted", b, f)
		}
	}
}

func sum8(b []byte) []byte { h := sha256.Sum256(b); return h[:8] }

var damageKinds = []string{"flip", "swap", "cut", "lose", "insert", "repeat", "torn", "splice", "rot", "bits", "zero", "case", "dress", "prefix"}

// prefixes to put in place of a text's own
var prefixes = []string{"npub", "npvt", "tpub", "tpvt", "pvtn", "pubn", "pvt", "pub", "vt", "ub", "nnpvt", "nnpub", "npv", "npu", "xpub", "", "npvtnpvt", "npubnpub", "nvpt", "nupb", "npvb", "aaaa"}

func genDamage(r *rng) core.Fault {
	k := damageKinds[r.Intn(len(damageKinds))]
	f := core.Fault{K: k, A: []int64{int64(r.Intn(400)), int64(r.Intn(32))}}
	switch r.Intn(6) {
	case 0: // around the checksum-width byte
		f.A[0] = int64(4 + r.Intn(4))
	case 1:
		f.A[0] = int64(r.Intn(6))
	}
	if k == "insert" {
		f.A[1] = int64(ref.Alphabet[r.Intn(32)])
		if r.Chance(3) {
			f.A[1] = []int64{'=', '\n', ' ', 0, 'l', '1', '0', 'o', 0xc3, '\r'}[r.Intn(10)]
		}
	}
	if k == "flip" && r.Chance(4) {
		f.A[1] = []int64{'=', '\n', ' ', 'l', '1', '0', 'o', 0xc3, 'A', 'Z'}[r.Intn(10)]
	}
	if k == "dress" {
		f.A[1] = int64(r.Intn(len(dressings)))
		if !r.Chance(4) {
			f.A[0] = 0
		}
	}
	if k == "rot" {
		f.A[1] = int64(r.Intn(400))
	}
	return f
}

func genC05(r *rng, thorough bool) *plan {
	p := &plan{}
	n := r.Range(6, 16)
	for i := 0; i < n; i++ {
		t := r.Intn(2)
		switch r.Intn(8) {
		default:
			if r.Chance(25) {
				p.Ops = append(p.Ops, op{T: t, K: "oldkey", A: []int64{int64(r.Next() >> 1), int64(r.Intn(12))}})
				continue
			}
			if r.Chance(200) {
				p.Ops = append(p.Ops, op{T: t, K: "sweep", A: []int64{int64(r.Next() >> 1), int64(r.Next() >> 1)}})
				continue
			}
			o := op{T: t, K: "damage", A: []int64{int64(r.Next() >> 1), int64(r.Next() >> 1), int64(r.Intn(5)), int64(r.Intn(2))}}
			for k := 1 + r.Intn(3)/2 + r.Intn(5)/4; k > 0; k-- {
				o.F = append(o.F, genDamage(r))
			}
			p.Ops = append(p.Ops, o)
		case 0:
			w := r.Intn(8)
			if r.Chance(3) {
				w = r.Intn(256)
			}
			p.Ops = append(p.Ops, op{T: t, K: "frame", A: []int64{int64(r.Next() >> 1), int64(w), int64(r.Intn(3) * r.Intn(30))}})
		case 1:
			o := op{T: t, K: "frames", A: []int64{int64(r.Next() >> 1), int64(r.Intn(120))}}
			for k := 1 + r.Intn(2); k > 0; k-- {
				f := genDamage(r)
				if f.K == "case" {
					f.K = "bits"
				}
				if r.Chance(3) {
					f.A[0] = int64(r.Intn(2))
				}
				f.A = append(f.A[:1], int64(r.Intn(256)))
				o.F = append(o.F, f)
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

// fixedC05 tries every width with every message-length class.
func fixedC05() []*plan {
	p := &plan{}
	for w := 0; w < 40; w++ {
		for n := int64(0); n < 6; n++ {
			p.Ops = append(p.Ops, op{K: "frame", A: []int64{n + 1, int64(w), n}})
		}
	}
	for w := 40; w < 256; w += 5 {
		p.Ops = append(p.Ops, op{K: "frame", A: []int64{int64(w), int64(w), 0}})
	}
	return []*plan{p}
}
