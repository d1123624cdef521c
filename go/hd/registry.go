package hd

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"

	"github.com/ndau/ndaumath/pkg/signature"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// ---- C12: the algorithm registry

// toy is what every custom algorithm of the tests does.
type toy struct{}

func (toy) PublicKeySize() int         { return 4 }
func (toy) PrivateKeySize() int        { return 4 }
func (toy) SignatureSize() int         { return -1 }
func (toy) Public(p []byte) []byte     { return cp(p) }
func (toy) Sign(p, m []byte) []byte    { return append(cp(p), m...) }
func (toy) Verify(p, m, s []byte) bool { return bytes.Equal(s, append(cp(p), m...)) }
func (toy) Generate(r io.Reader) (a, b []byte, err error) {
	b = make([]byte, 4)
	_, err = io.ReadFull(r, b)
	return cp(b), b, err
}

type AlgOne struct{ toy }
type AlgTwo struct{ toy }
type AlgThree struct {
	toy
	Setting int
}
type AlgPtr struct{ toy }          // used through pointers
func (*AlgPtr) PublicKeySize() int { return 4 }
func (*AlgPtr) SignatureSize() int { return -1 }

// AlgBare's signatures are empty.
type AlgBare struct{ toy }

func (AlgBare) SignatureSize() int         { return 0 }
func (AlgBare) Sign(p, m []byte) []byte    { return []byte{} }
func (AlgBare) Verify(p, m, s []byte) bool { return len(s) == 0 }

type AlgNum int

func (AlgNum) PublicKeySize() int         { return 4 }
func (AlgNum) PrivateKeySize() int        { return 4 }
func (AlgNum) SignatureSize() int         { return -1 }
func (AlgNum) Public(p []byte) []byte     { return cp(p) }
func (AlgNum) Sign(p, m []byte) []byte    { return toy{}.Sign(p, m) }
func (AlgNum) Verify(p, m, s []byte) bool { return toy{}.Verify(p, m, s) }
func (AlgNum) Generate(r io.Reader) (a, b []byte, err error) {
	return toy{}.Generate(r)
}

// two different types with one name
func namesakeA() signature.Algorithm {
	type Namesake struct{ toy }
	return Namesake{}
}

func namesakeB() signature.Algorithm {
	type Namesake struct {
		toy
		other bool
	}
	return Namesake{}
}

// a type named like a built-in one
func builtinName() signature.Algorithm {
	type ed25519 struct{ toy }
	return ed25519{}
}

func nullName() signature.Algorithm {
	type Null struct{ toy }
	return &Null{}
}

// candidates for registration
var candidates = []struct {
	name string
	make func() signature.Algorithm
	bad  bool // can never be registered
}{
	{"AlgOne", func() signature.Algorithm { return AlgOne{} }, false},
	{"&AlgOne", func() signature.Algorithm { return &AlgOne{} }, false},
	{"AlgTwo", func() signature.Algorithm { return AlgTwo{} }, false},
	{"AlgThree", func() signature.Algorithm { return AlgThree{Setting: 3} }, false},
	{"&AlgPtr", func() signature.Algorithm { return &AlgPtr{} }, false},
	{"nil *AlgPtr", func() signature.Algorithm { return (*AlgPtr)(nil) }, false},
	{"AlgNum", func() signature.Algorithm { return AlgNum(7) }, false},
	{"Namesake A", namesakeA, false},
	{"Namesake B", namesakeB, false},
	{"named ed25519", builtinName, false},
	{"named Null", nullName, false},
	{"nil", func() signature.Algorithm { return nil }, true},
	{"anonymous", func() signature.Algorithm { return struct{ toy }{} }, true},
	{"anonymous pointer", func() signature.Algorithm { return &struct{ toy }{} }, true},
	{"Ed25519", func() signature.Algorithm { return signature.Ed25519 }, false},
	{"Secp256k1", func() signature.Algorithm { return signature.Secp256k1 }, false},
	{"AlgBare", func() signature.Algorithm { return AlgBare{} }, false},
}

func base(al signature.Algorithm) reflect.Type {
	if al == nil {
		return nil
	}
	t := reflect.TypeOf(al)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// proc is one incarnation of the process.
type proc struct {
	e       *env
	ids     map[byte]reflect.Type // what every identifier stands for
	written map[reflect.Type]byte // the identifier a type was seen written with
	order   []string
	refused int
}

var builtins = []struct {
	id byte
	al signature.Algorithm
}{{0, signature.Null}, {1, signature.Ed25519}, {2, signature.Secp256k1}}

func newProc(e *env) *proc {
	reinit()
	p := &proc{e: e, ids: map[byte]reflect.Type{}, written: map[reflect.Type]byte{}}
	for _, b := range builtins {
		p.ids[b.id] = base(b.al)
		p.written[base(b.al)] = b.id
	}
	return p
}

// register tries one registration; what has to happen is decided here.
func (p *proc) register(id byte, cand int) {
	e := p.e
	c := candidates[cand]
	al := c.make()
	before := p.snapshot()
	var err error
	e.Guard("RegisterAlgorithm of "+c.name, func() { err = signature.RegisterAlgorithm(signature.AlgorithmID(id), al) })
	ty := base(al)
	what := fmt.Sprintf("registering %s as %d (after %v)", c.name, id, p.order)
	was, used := p.ids[id]
	clash := false
	for _, t := range p.ids {
		clash = clash || ty != nil && t != ty && t.Name() == ty.Name()
	}
	switch {
	case id < 128:
		e.Check(err != nil, "reserved", "%s is accepted", what)
	case c.bad:
		e.Check(err != nil, "unusable", "%s is accepted", what)
	case used && was != ty:
		e.Check(err != nil, "occupied", "%s is accepted, but %d is %v", what, id, was)
	case used || clash:
		// may be refused
	default:
		if err != nil {
			e.Fail("refused", "%s: %v", what, err)
		}
	}
	simrt.Event("%s: %v", what, err != nil)
	if err != nil {
		p.refused++
		e.Probe("refused registration")
		if after := p.snapshot(); after != before {
			e.Fail("side effect", "the refused %s changed the registry from %s to %s", what, before, after)
		}
		return
	}
	e.Probe("registration")
	p.ids[id] = ty
	if p.written[ty] != 0 || ty == base(signature.Null) {
		// already has an identifier; may change with this registration
		if ty != base(signature.Null) && ty != base(signature.Ed25519) && ty != base(signature.Secp256k1) {
			delete(p.written, ty)
		}
	}
	p.order = append(p.order, fmt.Sprintf("%s=%d", c.name, id))
	e.State("registry", p.order)
}

// snapshot is all observable mappings.
func (p *proc) snapshot() string {
	s := ""
	for id := 0; id < 256; id++ {
		al, err := readAs(byte(id))
		if err == nil {
			s += fmt.Sprintf("%d:%v ", id, base(al))
		}
	}
	for i, c := range candidates {
		if c.make() == nil {
			continue
		}
		id, err := writtenAs(c.make())
		if err == nil {
			s += fmt.Sprintf("%s(%d)->%d ", c.name, i, id)
		}
	}
	return s
}

// readAs is the algorithm an identifier is read as.
func readAs(id byte) (al signature.Algorithm, err error) {
	for _, n := range []int{4, 64, 0} {
		var k signature.Signature
		b := ref.Packed(id, make([]byte, n))
		if pn := core.Catch(func() {
			if _, e := k.UnmarshalMsg(b); e != nil {
				err = e
				return
			}
			al, err = k.Algorithm(), nil
		}); pn != "" {
			err = fmt.Errorf("panic: %s", pn)
		}
		if err == nil {
			return al, nil
		}
	}
	return nil, err
}

// writtenAs is the identifier an algorithm's values are written with.
func writtenAs(al signature.Algorithm) (byte, error) {
	n := al.SignatureSize()
	if n < 0 {
		n = 4
	}
	g, err := signature.RawSignature(al, make([]byte, n))
	if err != nil {
		return 0, err
	}
	b, err := g.Marshal()
	if err != nil {
		return 0, err
	}
	id, _, _, err := ref.Unpacked(b)
	return id, err
}

// audit checks all mappings against the successful registrations.
func (p *proc) audit(when string) {
	e := p.e
	// identifiers
	for id := 0; id < 256; id++ {
		want, ok := p.ids[byte(id)]
		al, err := readAs(byte(id))
		if !ok {
			e.Check(err != nil, "identifier", "%s, unregistered identifier %d is read as %v (%v)", when, id, base(al), p.order)
			continue
		}
		if err != nil {
			e.Fail("identifier", "%s, registered identifier %d is not read: %v (%v)", when, id, err, p.order)
		}
		e.Check(base(al) == want, "identifier", "%s, identifier %d is read as %v, want %v (%v)", when, id, base(al), want, p.order)
	}
	// algorithms
	for _, c := range candidates {
		al := c.make()
		if al == nil {
			continue
		}
		var mine []byte
		for id, t := range p.ids {
			if t == base(al) {
				mine = append(mine, id)
			}
		}
		sort.Slice(mine, func(i, j int) bool { return mine[i] < mine[j] })
		id, err := writtenAs(al)
		if len(mine) == 0 {
			e.Check(err != nil, "unregistered", "%s, unregistered %s is written with identifier %d (%v)", when, c.name, id, p.order)
			others := []signature.Algorithm{nil, signature.Null, signature.Ed25519, signature.Secp256k1}
			for _, d := range candidates {
				others = append(others, d.make())
			}
			for _, o := range others {
				e.Check(!signature.SameAlgorithm(al, o) && !signature.SameAlgorithm(o, al), "same", "%s, unregistered %s is the same algorithm as %v (%v)", when, c.name, base(o), p.order)
			}
			continue
		}
		if err != nil {
			e.Fail("unwritable", "%s, a value of registered %s is not written: %v (%v)", when, c.name, err, p.order)
		}
		if bytes.IndexByte(mine, id) < 0 {
			e.Fail("identifier", "%s, a value of %s is written with %d, registered as %v (%v)", when, c.name, id, mine, p.order)
		}
		if w, ok := p.written[base(al)]; ok && w != id {
			e.Fail("unstable", "%s, a value of %s is written with %d, before with %d (%v)", when, c.name, id, w, p.order)
		}
		p.written[base(al)] = id
		for _, d := range candidates {
			o := d.make()
			if o == nil {
				continue
			}
			_, reg := p.has(base(o))
			want := reg && base(o) == base(al)
			if got := signature.SameAlgorithm(al, o); got != want {
				e.Fail("same", "%s, SameAlgorithm(%s, %s) is %v (%v)", when, c.name, d.name, got, p.order)
			}
		}
	}
	// built-in identifiers
	for _, b := range builtins {
		if id, err := writtenAsBuiltin(b.al); err != nil || id != b.id {
			e.Fail("built-in", "%s, %v is written with %d, %v (%v)", when, base(b.al), id, err, p.order)
		}
	}
	e.Probe("audit")
}

func (p *proc) has(t reflect.Type) (byte, bool) {
	for id := 0; id < 256; id++ {
		if p.ids[byte(id)] == t {
			return byte(id), true
		}
	}
	return 0, false
}

func writtenAsBuiltin(al signature.Algorithm) (byte, error) {
	n := al.PublicKeySize()
	k, err := signature.RawPublicKey(al, make([]byte, n), nil)
	if err != nil {
		return 255, err
	}
	b, err := k.Marshal()
	if err != nil {
		return 255, err
	}
	id, _, _, err := ref.Unpacked(b)
	if err == nil {
		var back signature.PublicKey
		if err = back.Unmarshal(b); err == nil && base(back.Algorithm()) != base(al) {
			return 255, fmt.Errorf("read as %v", base(back.Algorithm()))
		}
	}
	return id, err
}

type regValue struct {
	b    []byte
	ty   reflect.Type
	data []byte
}

func execC12(e *env) {
	p := newProc(e)
	p.audit("at the start")
	var stored []regValue // on disk
	var done []op         // registrations made by the program, in order
	var lastWritten map[reflect.Type]byte
	e.RunActors(func(a int, o op, ix int) {
		switch o.K {
		case "register":
			p.register(byte(o.Arg(0)), int(abs64(o.Arg(1)))%len(candidates))
			done = append(done, o)
			p.audit("after registering")
		case "flood": // registrations until there is no room, in any order
			x := newRNG(uint64(o.Arg(0)))
			ids := make([]int, 128)
			for i := range ids {
				j := x.Intn(i + 1)
				ids[i], ids[j] = ids[j], i
			}
			few := x.Chance(2)
			for _, id := range ids[:min(128, int(abs64(o.Arg(1))))] {
				c := x.Intn(len(candidates))
				if few {
					c = []int{0, 2, 3}[x.Intn(3)]
				}
				d := op{K: "register", A: []int64{int64(128 + id), int64(c)}}
				p.register(byte(d.Arg(0)), c)
				done = append(done, d)
			}
			e.Probe("many registrations")
			p.audit("after many registrations")
		case "audit":
			p.audit("later")
		case "write":
			c := candidates[int(abs64(o.Arg(0)))%len(candidates)]
			al := c.make()
			if al == nil {
				return
			}
			if _, ok := p.has(base(al)); !ok || base(al) == base(signature.Ed25519) {
				return
			}
			data := newRNG(uint64(o.Arg(1))).Bytes(8)
			if n := al.SignatureSize(); n >= 0 {
				data = data[:min(n, 8)]
			}
			g, err := signature.RawSignature(al, cp(data))
			if err != nil {
				e.Fail("refused", "a signature of %s: %v", c.name, err)
			}
			var b []byte
			if o.Arg(2)%2 == 0 {
				b, err = g.Marshal()
			} else {
				var t []byte
				if t, err = g.MarshalText(); err == nil {
					var s signature.Signature
					if err = s.UnmarshalText(t); err == nil {
						e.Check(base(s.Algorithm()) == base(al), "changed", "a value of %s is read from text as %v", c.name, base(s.Algorithm()))
						b, err = s.Marshal()
					}
				}
			}
			if err != nil {
				e.Fail("unwritable", "a value of %s: %v", c.name, err)
			}
			stored = append(stored, regValue{b, base(al), data})
		case "read":
			for _, v := range stored {
				p.read(v, "in the same process")
			}
		case "use": // a pair of a custom algorithm works through its stored form
			c := candidates[int(abs64(o.Arg(0)))%len(candidates)]
			al := c.make()
			if al == nil {
				return
			}
			if _, ok := p.has(base(al)); !ok {
				return
			}
			p.use(al, c.name, uint64(o.Arg(1)))
		case "restart": // another process: the same registrations, algorithms in another order
			e.Fault("restart")
			lastWritten = p.written
			old := p
			p = newProc(e)
			for _, d := range reorder(done, o.Arg(0)) {
				p.register(byte(d.Arg(0)), int(abs64(d.Arg(1)))%len(candidates))
			}
			p.audit("after a restart")
			if same(old.ids, p.ids) {
				for _, c := range candidates {
					t := base(c.make())
					a, ok1 := lastWritten[t]
					b, ok2 := p.written[t]
					if ok1 && ok2 && a != b {
						e.Fail("unstable", "%s is written with %d in one process, %d in another (%v, %v)", c.name, a, b, old.order, p.order)
					}
				}
				for _, v := range stored {
					p.read(v, "after a restart")
				}
				e.Probe("same registry after a restart")
			} else {
				stored = nil // the other order led to another set of successful registrations
				e.Probe("another registry after a restart")
			}
		}
	})
	p.audit("at the end")
}

func same(a, b map[byte]reflect.Type) bool {
	for id := 0; id < 256; id++ {
		if a[byte(id)] != b[byte(id)] {
			return false
		}
	}
	return true
}

func (p *proc) read(v regValue, when string) {
	e := p.e
	var g signature.Signature
	var err error
	e.Guard("reading a stored value", func() { err = g.Unmarshal(cp(v.b)) })
	if err != nil {
		e.Fail("unreadable", "%s, a value of %v is not read: %v (%v)", when, v.ty, err, p.order)
	}
	e.Check(base(g.Algorithm()) == v.ty, "changed", "%s, a value of %v is read as %v (%v)", when, v.ty, base(g.Algorithm()), p.order)
	e.Check(bytes.Equal(g.Bytes(), v.data), "changed", "%s, a value of %v is read as %x, want %x", when, v.ty, g.Bytes(), v.data)
}

func (p *proc) use(al signature.Algorithm, name string, seed uint64) {
	e := p.e
	if v := reflect.ValueOf(al); v.Kind() == reflect.Ptr && v.IsNil() {
		al = reflect.New(v.Type().Elem()).Interface().(signature.Algorithm)
	}
	e.Guard("using "+name, func() {
		pub, pvt, err := signature.Generate(al, newReader(seed))
		if err != nil {
			e.Fail("refused", "a pair of %s: %v", name, err)
		}
		msg := []byte("m")
		g := pvt.Sign(msg)
		pt, err1 := pub.MarshalText()
		vt, err2 := pvt.MarshalText()
		gt, err3 := g.MarshalText()
		if err1 != nil || err2 != nil || err3 != nil {
			e.Fail("unwritable", "values of %s: %v %v %v (%v)", name, err1, err2, err3, p.order)
		}
		var pub2 signature.PublicKey
		var pvt2 signature.PrivateKey
		var g2 signature.Signature
		for _, err := range []error{pub2.UnmarshalText(pt), pvt2.UnmarshalText(vt), g2.UnmarshalText(gt)} {
			if err != nil {
				e.Fail("unreadable", "values of %s: %v (%v)", name, err, p.order)
			}
		}
		e.Check(pub2.Verify(msg, g2), "changed", "a signature of %s does not verify after storage (%v)", name, p.order)
		e.Check(signature.Match(pub2, pvt2), "changed", "a pair of %s does not match after storage", name)
		g3 := pvt2.Sign([]byte("other"))
		e.Check(pub.Verify([]byte("other"), g3), "changed", "a stored key of %s signs differently", name)
	})
}

// reorder permutes registrations, keeping the order among those of one
// algorithm.
func reorder(done []op, seed int64) []op {
	r := newRNG(uint64(seed))
	groups := map[string][]op{}
	var names []string
	for _, o := range done {
		t := base(candidates[int(abs64(o.Arg(1)))%len(candidates)].make())
		n := fmt.Sprint(t)
		if t != nil {
			n = t.Name()
		}
		if groups[n] == nil {
			names = append(names, n)
		}
		groups[n] = append(groups[n], o)
	}
	var out []op
	for len(out) < len(done) {
		n := names[r.Intn(len(names))]
		if len(groups[n]) > 0 {
			out = append(out, groups[n][0])
			groups[n] = groups[n][1:]
		}
	}
	return out
}

func genC12(r *rng, thorough bool) *plan {
	p := &plan{}
	n := r.Range(4, 9)
	if thorough {
		n = r.Range(6, 24)
	}
	ids := []int64{}
	for i := 0; i < 3; i++ {
		ids = append(ids, int64(r.Range(128, 255)))
	}
	nc := len(candidates)
	fav := []int64{int64(r.Intn(nc)), int64(r.Intn(nc)), int64(r.Intn(nc))}
	for i := 0; i < n; i++ {
		o := op{}
		switch r.Intn(9) {
		case 0, 1, 2, 3:
			id := ids[r.Intn(3)]
			if r.Chance(3) {
				id = []int64{0, 1, 2, 3, 127, 128, 129, 255, int64(r.Intn(256))}[r.Intn(9)]
			}
			c := fav[r.Intn(3)]
			if r.Chance(4) {
				c = int64(r.Intn(nc))
			}
			o = op{K: "register", A: []int64{id, c}}
		case 4:
			o = op{K: "audit"}
		case 5:
			o = op{K: "write", A: []int64{fav[r.Intn(3)], int64(r.Next() >> 1), int64(r.Intn(2))}}
		case 6:
			o = op{K: "read"}
		case 7:
			o = op{K: "use", A: []int64{fav[r.Intn(3)], int64(r.Next() >> 1)}}
		case 8:
			o = op{K: "restart", A: []int64{int64(r.Next() >> 1)}}
		}
		if r.Chance(500) {
			o = op{K: "flood", A: []int64{int64(r.Next() >> 1), int64([]int{8, 16, 32, 64, 128, 20}[r.Intn(6)])}}
		}
		p.Ops = append(p.Ops, o)
	}
	p.Ops = append(p.Ops, op{K: "restart", A: []int64{int64(r.Next() >> 1)}}, op{K: "read"})
	return p
}
