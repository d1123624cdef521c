package hd

import (
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// node is a key object a party holds, and what it should be.
type node struct {
	ek   *key.ExtendedKey
	h    *ref.HD
	path []ref.PathElem // from wherever this party thinks the root is
}

type party struct {
	id    int
	nodes []*node
	disk  *disk
	saved []*savedNode
	inbox []*node
}

type savedNode struct {
	file string
	h    *ref.HD
	path []ref.PathElem
}

type tree struct {
	e   *env
	cls string
	ps  map[int]*party
	n   int
}

func newTree(e *env, cls string) *tree {
	t := &tree{e: e, cls: cls, ps: map[int]*party{}}
	for _, a := range e.Plan.Actors() {
		t.ps[a] = &party{id: a, disk: newDisk()}
	}
	return t
}

func (t *tree) party(i int64) *party {
	as := t.e.Plan.Actors()
	return t.ps[pick(as, i)]
}

func (p *party) pick(i int64) *node { return pick(p.nodes, i) }

func (p *party) add(n *node) {
	p.nodes = append(p.nodes, n)
	if len(p.nodes) > 24 {
		p.nodes = p.nodes[1:]
	}
}

// routes by which a child can be asked for
const (
	rChild = iota
	rHardened
	rPath
	rFacade
	rFacadePath
	rSigKey
	nRoutes
)

var routeNames = []string{"Child", "HardenedChild", "DeriveFrom", "keyaddr child", "keyaddr.DeriveFrom", "Child of a signature-key round trip"}

// child asks the library for child idx of n.
func child(n *node, idx uint32, route int64) (k *key.ExtendedKey, err error, via string) {
	r := int(abs64(route) % nRoutes)
	via = routeNames[r]
	hard := idx>>31 == 1
	switch r {
	case rHardened:
		if hard {
			k, err = n.ek.HardenedChild(idx &^ (1 << 31))
			return
		}
		via = "Child"
	case rPath:
		p := pathString(n.path)
		c := strings.TrimSuffix(p, "/") + pathString([]ref.PathElem{elem(idx)})
		k, err = n.ek.DeriveFrom(p, c)
		return
	case rFacade, rFacadePath:
		var fk, ck *keyaddr.Key
		if fk, err = keyaddr.KeyFromExtended(n.ek); err != nil {
			return
		}
		if r == rFacadePath {
			p := pathString(n.path)
			c := strings.TrimSuffix(p, "/") + pathString([]ref.PathElem{elem(idx)})
			ck, err = keyaddr.DeriveFrom(fk.Key, p, c)
		} else if hard {
			ck, err = fk.HardenedChild(int32(idx &^ (1 << 31)))
		} else {
			ck, err = fk.Child(int32(idx))
		}
		if err != nil {
			return
		}
		k, err = ck.ToExtended()
		return
	case rSigKey:
		sk, e1 := n.ek.AsSignatureKey()
		if e1 != nil {
			return nil, e1, via
		}
		c, e1 := key.FromSignatureKey(sk)
		if e1 != nil {
			return nil, e1, via
		}
		k, err = c.Child(idx)
		return
	}
	k, err = n.ek.Child(idx)
	return
}

// public asks for the public half by one of several routes.
func public(n *node, route int64) (k *key.ExtendedKey, err error, via string) {
	switch abs64(route) % 3 {
	case 1:
		via = "keyaddr ToPublic"
		fk, err := keyaddr.KeyFromExtended(n.ek)
		if err != nil {
			return nil, err, via
		}
		pk, err := fk.ToPublic()
		if err != nil {
			return nil, err, via
		}
		k, err = pk.ToExtended()
		return k, err, via
	case 2:
		via = "SPubKey"
		sk, err := n.ek.SPubKey()
		if err != nil {
			return nil, err, via
		}
		k, err = key.FromSignatureKey(sk)
		return k, err, via
	}
	k, err = n.ek.Public()
	return k, err, "Public"
}

// where describes a node.
func where(h *ref.HD) string {
	s := "public"
	if h.Priv != nil {
		s = "private"
	}
	return fmt.Sprintf("%s key of depth %d, child %d", s, h.Depth, h.Num)
}

// derive runs one derivation and checks it; it returns the new node.
func (t *tree) derive(n *node, idx uint32, route int64) *node {
	e := t.e
	want, why := n.h.Child(idx)
	var k *key.ExtendedKey
	var err error
	var via string
	if p := core.Catch(func() { k, err, via = child(n, idx, route) }); p != "" {
		e.Fail(t.cls, "deriving child %d of %s panicked: %s", idx, where(n.h), p)
	}
	simrt.Event("derive %d of %s via %s: %v", idx, where(n.h), via, err != nil)
	if why != ref.OK {
		e.Probe("refused: " + string(why))
		return nil // refusals are C02's business
	}
	if err != nil {
		e.Fail(t.cls, "%s: child %d of %s refused: %v", via, idx, where(n.h), err)
	}
	mustBe(e, t.cls, k, want, fmt.Sprintf("%s: child %d of %s", via, idx, where(n.h)))
	if want.Priv != nil && want.Priv[0] == 0 {
		e.Probe("private key with a leading zero byte")
	}
	e.State("node", want.Depth > 3, want.Priv != nil, idx>>31, via, want.Priv != nil && want.Priv[0] == 0, n.h.Priv != nil && n.h.Priv[0] == 0)
	return &node{k, want, append(append([]ref.PathElem{}, n.path...), elem(idx))}
}

func (t *tree) save(p *party, n *node) {
	b, err := n.ek.MarshalText()
	if err != nil {
		t.e.Fail(t.cls, "storing %s: %v", where(n.h), err)
	}
	t.n++
	name := fmt.Sprintf("key%d", t.n)
	p.disk.replace(name, b)
	p.saved = append(p.saved, &savedNode{name, n.h, n.path})
}

// restart forgets what is in memory and reads the disk.
func (t *tree) restart(p *party) {
	p.nodes = nil
	for _, s := range p.saved {
		b, ok := p.disk.read(s.file)
		if !ok {
			continue
		}
		k := new(key.ExtendedKey)
		if err := k.UnmarshalText(b); err != nil {
			t.e.Fail(t.cls, "reading stored %s: %v", where(s.h), err)
		}
		mustBe(t.e, t.cls, k, s.h, "stored "+where(s.h))
		p.add(&node{k, s.h, s.path})
	}
}

// step runs f as the party's work, with the operation's crash fault.
func (t *tree) step(p *party, o op, f func()) {
	for _, n := range p.inbox {
		p.add(n)
	}
	p.inbox = nil
	c, ok := o.Fault("crash")
	if !ok {
		f()
		return
	}
	if simrt.RunKillable("party", 1+abs64(c.Arg(0))%4000, f) {
		return
	}
	t.e.Fault("crash")
	t.restart(p)
}

func execC01(e *env) {
	t := newTree(e, "disagree")
	e.RunActors(func(a int, o op, ix int) {
		p := t.ps[a]
		t.step(p, o, func() { t.c01(p, o) })
	})
}

func (t *tree) c01(p *party, o op) {
	e := t.e
	switch o.K {
	case "master":
		seed := o.Bytes()
		h, why := ref.Master(seed)
		var k *key.ExtendedKey
		var err error
		if p := core.Catch(func() {
			switch abs64(o.Arg(0)) % 3 {
			case 0:
				k, err = key.NewMaster(cp(seed))
			case 1:
				var fk *keyaddr.Key
				fk, err = keyaddr.NewKey(b64.EncodeToString(seed))
				if err == nil {
					k, err = fk.ToExtended()
				}
			case 2:
				var il, ir [32]byte
				il, ir, err = bip32.NewMaster(cp(seed))
				if err == nil {
					k = key.NewExtendedKey(il[:], ir[:], []byte{0, 0, 0}, 0, 0, true)
				}
			}
		}); p != "" {
			e.Fail(t.cls, "master key of a %d-byte seed panicked: %s", len(seed), p)
		}
		simrt.Event("master %x %v", seed, err != nil)
		if why != ref.OK {
			e.Check(err != nil, t.cls, "a seed of %d bytes was accepted", len(seed))
			return
		}
		if err != nil {
			e.Fail(t.cls, "a seed of %d bytes was refused: %v", len(seed), err)
		}
		mustBe(e, t.cls, k, h, fmt.Sprintf("master key of a %d-byte seed", len(seed)))
		n := &node{k, h, nil}
		p.add(n)
		t.save(p, n)
	case "deep": // a key deep in the tree, handed over by somebody
		h := detHD(o)
		n := &node{realOf(h), h, nil}
		p.add(n)
	case "twins": // two nodes that agree in all fields but some, and the same work on both
		h := detHD(op{A: []int64{o.Arg(0), o.Arg(1)}})
		g := twinOf(h, o.Arg(2), newRNG(uint64(o.Arg(1))^0x7714))
		a, b := &node{realOf(h), h, nil}, &node{realOf(g), g, nil}
		for i, x := range o.A[3:] {
			x := uint32(x)
			if a.h.Priv == nil {
				x &^= 1 << 31
			}
			if a.h.Depth >= 255 || b.h.Depth >= 255 {
				break
			}
			first, second := a, b
			if i%2 == 1 {
				first, second = b, a
			}
			c := t.derive(first, x, int64(x>>5))
			d := t.derive(second, x, int64(x>>5))
			if i%2 == 1 {
				c, d = d, c
			}
			for _, n := range []*node{a, b, c, d} {
				if n == nil {
					return
				}
				k, err, via := public(n, int64(x>>9))
				if err != nil {
					e.Fail(t.cls, "%s of %s refused: %v", via, where(n.h), err)
				}
				mustBe(e, t.cls, k, n.h.Public(), via+" of "+where(n.h))
			}
			if o.Arg(2)>>7%2 == 1 {
				a, b = c, d
			}
		}
		e.Probe("near twins")
		p.add(a)
		p.add(b)
	case "child":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		idx := uint32(o.Arg(1))
		if o.Arg(3) > 0 && n.h.Priv != nil {
			if i, ok := n.h.LeadingZeros(idx, 1, 700); ok {
				idx = i
			}
		}
		if c := t.derive(n, idx, o.Arg(2)); c != nil {
			p.add(c)
			if o.Arg(4)%2 == 1 {
				t.save(p, c)
			}
		}
	case "public":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		k, err, via := public(n, o.Arg(1))
		if err != nil {
			e.Fail(t.cls, "%s of %s refused: %v", via, where(n.h), err)
		}
		mustBe(e, t.cls, k, n.h.Public(), via+" of "+where(n.h))
		p.add(&node{k, n.h.Public(), n.path})
	case "commute":
		n := p.pick(o.Arg(0))
		if n == nil || n.h.Depth >= 255 {
			return
		}
		idx := uint32(o.Arg(1)) &^ (1 << 31)
		a := t.derive(n, idx, o.Arg(2))
		pub, err, via := public(n, o.Arg(3))
		if err != nil || a == nil {
			e.Fail(t.cls, "%s of %s refused: %v", via, where(n.h), err)
		}
		b := t.derive(&node{pub, n.h.Public(), n.path}, idx, o.Arg(4))
		ap, err, _ := public(a, o.Arg(5))
		if err != nil || b == nil {
			e.Fail(t.cls, "public half of %s refused: %v", where(a.h), err)
		}
		if d := diff(mustLook(e, t.cls, ap, "commute"), mustLook(e, t.cls, b.ek, "commute")); d != "" {
			e.Fail(t.cls, "public half and child %d of %s do not commute: %s", idx, where(n.h), d)
		}
	case "send":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		to := t.party(o.Arg(1))
		m := n
		if o.Arg(2)%2 == 1 {
			k, err, via := public(n, o.Arg(2)/2)
			if err != nil {
				e.Fail(t.cls, "%s of %s refused: %v", via, where(n.h), err)
			}
			m = &node{k, n.h.Public(), n.path}
		}
		msg, err := m.ek.MarshalText()
		if err != nil {
			e.Fail(t.cls, "sending %s: %v", where(m.h), err)
		}
		idx, route := uint32(o.Arg(3)), o.Arg(4)
		deliver(e, o, func(int) {
			k := new(key.ExtendedKey)
			var err error
			if route%2 == 0 {
				err = k.UnmarshalText(msg)
			} else {
				var fk *keyaddr.Key
				if fk, err = keyaddr.FromString(string(msg)); err == nil {
					k, err = fk.ToExtended()
				}
			}
			if err != nil {
				e.Fail(t.cls, "received %s refused: %v", where(m.h), err)
			}
			mustBe(e, t.cls, k, m.h, "received "+where(m.h))
			r := &node{k, m.h, m.path}
			c := t.derive(r, idx, route)
			to.inbox = append(to.inbox, r)
			if c != nil {
				to.inbox = append(to.inbox, c)
			}
		})
	case "walk": // several steps at once, by path and step by step
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		h, cur := n.h, n
		var path []ref.PathElem
		for _, i := range o.A[1:] {
			c, why := h.Child(uint32(i))
			if why != ref.OK {
				break
			}
			h = c
			path = append(path, elem(uint32(i)))
			cur = t.derive(cur, uint32(i), i>>3)
		}
		if len(path) == 0 {
			return
		}
		base := pathString(n.path)
		k, err := n.ek.DeriveFrom(base, strings.TrimSuffix(base, "/")+pathString(path))
		if err != nil {
			e.Fail(t.cls, "path %s from %s refused: %v", pathString(path), where(n.h), err)
		}
		mustBe(e, t.cls, k, h, fmt.Sprintf("path %s from %s", pathString(path), where(n.h)))
		p.add(cur)
	case "restart":
		e.Fault("restart")
		t.restart(p)
	case "recheck": // what was derived earlier is still the same
		for _, n := range p.nodes {
			mustBe(e, t.cls, n.ek, n.h, "held "+where(n.h))
		}
	}
}

// detHD rebuilds the node that a "deep" operation describes.
func detHD(o op) *ref.HD {
	r := simrt.NewRNG(uint64(o.Arg(1)))
	h := randHD(r, o.Arg(0)%2 == 0)
	if len(o.A) > 2 {
		h.Depth = int(abs64(o.Arg(2)) % 256)
	}
	return h
}

// twinOf is another node that shares the fields of h named by the mask.
func twinOf(h *ref.HD, mask int64, r *rng) *ref.HD {
	g := randHD(r, true)
	priv, chain, fp, depth, num := g.Priv, g.Chain, g.FP, g.Depth, g.Num
	near := func(b []byte) []byte { // equal but for one byte
		c := cp(b)
		c[r.Intn(len(c))] ^= byte(1 << uint(r.Intn(8)))
		return c
	}
	sameKey := mask&1 != 0
	if mask&2 != 0 {
		chain = h.Chain
	} else if mask&64 != 0 {
		chain = near(h.Chain)
	}
	if mask&4 != 0 {
		fp = h.FP
	} else if mask&64 != 0 {
		fp = near(h.FP)
	}
	if mask&8 != 0 {
		depth = h.Depth
	}
	if mask&16 != 0 {
		num = h.Num
	}
	if h.Priv == nil {
		if sameKey {
			return ref.NewHD(nil, h.Pub, chain, fp, depth, num)
		}
		if mask&32 != 0 { // the negated point: the same x
			pub := cp(h.Pub)
			pub[0] ^= 1
			return ref.NewHD(nil, pub, chain, fp, depth, num)
		}
		return ref.NewHD(priv, nil, chain, fp, depth, num).Public()
	}
	if sameKey {
		priv = h.Priv
	} else if mask&32 != 0 {
		priv = ref.Negate(h.Priv)
	}
	return ref.NewHD(priv, nil, chain, fp, depth, num)
}

func genTwins(r *rng, t int) op {
	o := op{T: t, K: "twins", A: []int64{int64(r.Intn(2)), int64(r.Next() >> 1), int64(r.Intn(256))}}
	if r.Chance(2) { // all but one field the same
		o.A[2] = 31&^(1<<uint(r.Intn(5))) | int64(r.Intn(8))<<5
	}
	for k := r.Range(1, 3); k > 0; k-- {
		o.A = append(o.A, int64(genIndex(r)))
	}
	return o
}

func genDeep(r *rng, t int) op {
	o := op{T: t, K: "deep", A: []int64{int64(r.Intn(2)), int64(r.Next() >> 1)}}
	if r.Chance(3) {
		o.A = append(o.A, int64(250+r.Intn(6)))
	}
	return o
}

func genC01(r *rng, thorough bool) *plan {
	np := r.Range(1, 4)
	p := &plan{}
	seed := genSeed(r)
	for a := 0; a < np; a++ {
		s := seed
		if r.Chance(4) {
			s = genSeed(r)
		}
		p.Ops = append(p.Ops, op{T: a, K: "master", A: []int64{int64(r.Intn(3))}, B: core.Hex(s)})
		if r.Chance(4) {
			p.Ops = append(p.Ops, op{T: r.Intn(np), K: "master", A: []int64{int64(r.Intn(3))}, B: core.Hex(nearSeed(r, s))})
		}
		if r.Chance(2) {
			p.Ops = append(p.Ops, genDeep(r, a))
		}
	}
	nops := r.Range(4, 14)
	if thorough {
		nops = r.Range(6, 30)
	}
	for i := 0; i < nops; i++ {
		a := r.Intn(np)
		slot := int64(r.Intn(24))
		var o op
		switch r.Intn(13) {
		case 12:
			o = genTwins(r, a)
		case 0, 1, 2, 3:
			o = op{T: a, K: "child", A: []int64{slot, int64(genIndex(r)), int64(r.Intn(nRoutes)), int64(r.Intn(4) / 3), int64(r.Intn(2))}, F: genFault(r, 6, "crash", int64(r.Intn(4000)))}
		case 4:
			o = op{T: a, K: "public", A: []int64{slot, int64(r.Intn(3))}}
		case 5:
			o = op{T: a, K: "commute", A: []int64{slot, int64(genIndex(r)), int64(r.Intn(nRoutes)), int64(r.Intn(3)), int64(r.Intn(nRoutes)), int64(r.Intn(3))}}
		case 6, 7:
			o = op{T: a, K: "send", A: []int64{slot, int64(r.Intn(np)), int64(r.Intn(6)), int64(genIndex(r)), int64(r.Intn(nRoutes))}, F: netFaults(r)}
		case 8:
			o = op{T: a, K: "walk", A: []int64{slot}}
			for k := r.Range(2, 5); k > 0; k-- {
				o.A = append(o.A, int64(genIndex(r)))
			}
			o.F = genFault(r, 6, "crash", int64(r.Intn(4000)))
		case 9:
			o = op{T: a, K: "restart"}
		case 10:
			o = op{T: a, K: "recheck"}
		case 11:
			o = genDeep(r, a)
		}
		p.Ops = append(p.Ops, o)
	}
	for a := 0; a < np; a++ {
		p.Ops = append(p.Ops, op{T: a, K: "recheck"})
	}
	return p
}

// fixedC01 covers every known node with leading zeros by every route, and a
// whole chain down to depth 255.
func fixedC01() []*plan {
	var out []*plan
	for s := 0; s < 6; s++ {
		p := &plan{}
		p.Ops = append(p.Ops, op{K: "master", B: core.Hex(lzSeed(s))})
		for _, c := range lzChildren {
			if int(c[0]) != s {
				continue
			}
			for rt := 0; rt < nRoutes; rt++ {
				p.Ops = append(p.Ops, op{K: "child", A: []int64{0, int64(c[1]), int64(rt)}})
			}
			// and children of it
			p.Ops = append(p.Ops, op{K: "walk", A: []int64{0, int64(c[1]), 7, 1 << 31, 1<<31 + 5}})
			p.Ops = append(p.Ops, op{K: "walk", A: []int64{0, int64(c[1]), 1<<31 | 9, 3}})
		}
		out = append(out, p)
	}
	for i := range oddSeeds {
		p := &plan{Ops: []op{{K: "master", B: core.Hex(oddSeed(i))}}}
		for rt := 0; rt < nRoutes; rt++ {
			p.Ops = append(p.Ops, op{K: "child", A: []int64{0, 1, int64(rt)}}, op{K: "child", A: []int64{0, 1 << 31, int64(rt)}})
		}
		p.Ops = append(p.Ops, op{K: "walk", A: []int64{0, 1, 7, 1 << 31, 1<<31 + 5}}, op{K: "walk", A: []int64{0, 1<<31 | 9, 3}}, op{K: "walk", A: []int64{0, 0}})
		out = append(out, p)
	}
	for _, c := range oddChildren {
		p := &plan{Ops: []op{{K: "master", B: core.Hex(lzSeed(1))}}}
		for rt := 0; rt < nRoutes; rt++ {
			p.Ops = append(p.Ops, op{K: "child", A: []int64{0, int64(c), int64(rt)}})
		}
		p.Ops = append(p.Ops, op{K: "walk", A: []int64{0, int64(c), 7, 1 << 31, 1<<31 + 5}}, op{K: "walk", A: []int64{0, int64(c), 1<<31 | 9, 3}},
			op{K: "public", A: []int64{0}}, op{K: "commute", A: []int64{0, int64(c), 0, 0, 1, 1}})
		out = append(out, p)
	}
	p := &plan{Ops: []op{{K: "master", B: core.Hex(lzSeed(1))}}}
	w := op{K: "walk", A: []int64{0}}
	for i := 0; i < 256; i++ {
		x := int64(i * 7919)
		if i%5 == 0 {
			x |= 1 << 31
		}
		w.A = append(w.A, x)
	}
	p.Ops = append(p.Ops, w)
	return append(out, p)
}

// ---- C02: the hardened boundary and the depth limit

func execC02(e *env) {
	t := newTree(e, "boundary")
	e.RunActors(func(a int, o op, ix int) {
		p := t.ps[a]
		for _, n := range p.inbox {
			p.add(n)
		}
		p.inbox = nil
		t.c02(p, o)
	})
}

// checkPublic: a public object must not hold or leak private material.
func (t *tree) checkPublic(k *key.ExtendedKey, secrets [][]byte, what string) {
	e := t.e
	v := mustLook(e, t.cls, k, what)
	e.Check(!v.Private, "leak", "%s is private", what)
	if !v.TextErr {
		e.Check(strings.HasPrefix(v.Text, "npub"), "leak", "%s is written as %.4s", what, v.Text)
	}
	if _, err := k.SPrivKey(); err == nil {
		e.Fail("leak", "%s yields a private signature key", what)
	}
	if _, err := k.ECPrivKey(); err == nil {
		e.Fail("leak", "%s yields a private EC key", what)
	}
	sk, err := k.AsSignatureKey()
	if err != nil {
		e.Fail(t.cls, "%s as a signature key: %v", what, err)
	}
	bin, err := sk.MarshalMsg(nil)
	if err != nil {
		e.Fail(t.cls, "%s as a signature key: %v", what, err)
	}
	for _, s := range secrets {
		if strings.Contains(string(bin), string(s)) {
			e.Fail("leak", "%s contains the private key", what)
		}
	}
}

func (t *tree) c02(p *party, o op) {
	e := t.e
	switch o.K {
	case "master":
		k, err := key.NewMaster(o.Bytes())
		h, why := ref.Master(o.Bytes())
		e.Check((err == nil) == (why == ref.OK), t.cls, "master key of a %d-byte seed: error %v", len(o.Bytes()), err)
		if err == nil {
			e.Check(k.Depth() == 0, t.cls, "the master key has depth %d", k.Depth())
			p.add(&node{k, h, nil})
		}
	case "deep":
		h := detHD(o)
		p.add(&node{realOf(h), h, nil})
	case "child":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		t.boundary(p, n, uint32(o.Arg(1)), o.Arg(2))
	case "raw": // HardenedChild and path elements of any number; the facade with negative numbers
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		t.raw(n, uint32(o.Arg(1)), o.Arg(2))
	case "public":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		k, err, via := public(n, o.Arg(1))
		if err != nil {
			e.Fail(t.cls, "%s of %s refused: %v", via, where(n.h), err)
		}
		t.checkPublic(k, secretsOf(n), via+" of "+where(n.h))
		e.Check(int(k.Depth()) == n.h.Depth, t.cls, "%s changed the depth from %d to %d", via, n.h.Depth, k.Depth())
		p.add(&node{k, n.h.Public(), n.path})
	case "descend": // to the limit and beyond
		n := p.pick(o.Arg(0))
		if n == nil || n.h.Depth < 240 {
			return
		}
		cur := n
		for steps := 0; steps < 17; steps++ {
			idx := uint32(o.Arg(1+steps%max(1, len(o.A)-2))) >> uint(steps%3)
			if cur.h.Priv == nil {
				idx &^= 1 << 31
			}
			nx := t.boundary(p, cur, idx, o.Arg(len(o.A)-1)+int64(steps))
			if nx == nil {
				break
			}
			cur = nx
		}
		e.Check(cur.h.Depth == 255, t.cls, "a chain of derivations ended at depth %d", cur.h.Depth)
		e.Probe("depth limit")
	case "send":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		to := t.party(o.Arg(1))
		k, err, via := public(n, o.Arg(2))
		if err != nil {
			e.Fail(t.cls, "%s of %s refused: %v", via, where(n.h), err)
		}
		msg, err := k.MarshalText()
		if err != nil {
			e.Fail(t.cls, "writing %s: %v", where(n.h), err)
		}
		sec := secretsOf(n)
		idx, route := uint32(o.Arg(3)), o.Arg(4)
		deliver(e, o, func(int) {
			k := new(key.ExtendedKey)
			if err := k.UnmarshalText(msg); err != nil {
				e.Fail(t.cls, "received public key refused: %v", err)
			}
			t.checkPublic(k, sec, "received "+where(n.h.Public()))
			r := &node{k, n.h.Public(), n.path}
			t.boundary(nil, r, idx, route)
			to.inbox = append(to.inbox, r)
		})
	}
}

func secretsOf(n *node) [][]byte {
	if n.h.Priv == nil {
		return nil
	}
	return [][]byte{n.h.Priv}
}

// boundary asks for child idx and checks only what C02 is about.
func (t *tree) boundary(p *party, n *node, idx uint32, route int64) *node {
	e := t.e
	want, why := n.h.Child(idx)
	var k *key.ExtendedKey
	var err error
	var via string
	if pn := core.Catch(func() { k, err, via = child(n, idx, route) }); pn != "" {
		e.Fail(t.cls, "child %d of %s panicked: %s", idx, where(n.h), pn)
	}
	what := fmt.Sprintf("%s: child %d of %s", via, idx, where(n.h))
	simrt.Event("%s err=%v", what, err != nil)
	e.State(via, n.h.Priv != nil, idx>>31, n.h.Depth > 253, n.h.Depth == 255, err != nil)
	if why != ref.OK {
		e.Probe("refused: " + string(why))
		e.Check(err != nil, t.cls, "%s must be refused (%s) but was not", what, why)
		return nil
	}
	if err != nil {
		e.Fail(t.cls, "%s was refused: %v", what, err)
	}
	e.Check(int(k.Depth()) == want.Depth, t.cls, "%s has depth %d, want %d", what, k.Depth(), want.Depth)
	e.Check(k.IsPrivate() == (n.h.Priv != nil), "leak", "%s: private %v", what, k.IsPrivate())
	if n.h.Priv == nil {
		t.checkPublic(k, nil, what)
	} else {
		pk, err := k.Public()
		if err != nil {
			e.Fail(t.cls, "public half of %s: %v", what, err)
		}
		t.checkPublic(pk, [][]byte{want.Priv, k.Bytes()}, "public half of "+what)
	}
	// the same number on the other side of the boundary is another child
	if n.h.Priv != nil {
		other, err := n.ek.Child(idx ^ 1<<31)
		if err != nil {
			e.Fail(t.cls, "child %d of %s was refused: %v", idx^1<<31, where(n.h), err)
		}
		if eq(other.PubKeyBytes(), k.PubKeyBytes()) {
			e.Fail(t.cls, "children %d and %d of %s are the same", idx, idx^1<<31, where(n.h))
		}
	}
	// and it is the child that was asked for
	if d := diff(mustLook(e, t.cls, k, what), expect(want)); d != "" {
		e.Fail("wrong child", "%s is not that child: %s", what, d)
	}
	nn := &node{k, want, append(append([]ref.PathElem{}, n.path...), elem(idx))}
	if p != nil {
		p.add(nn)
	}
	return nn
}

const nRaw = 8

// raw asks for hardened child num, where num may be out of range.
func (t *tree) raw(n *node, num uint32, route int64) {
	e := t.e
	want, why := n.h.Step(ref.PathElem{N: num, Hard: true})
	var k *key.ExtendedKey
	var err error
	via := ""
	if pn := core.Catch(func() {
		viaPath := func(facade bool, p string) {
			if !facade {
				k, err = n.ek.DeriveFrom("/", p)
				return
			}
			var fk *keyaddr.Key
			if fk, err = keyaddr.KeyFromExtended(n.ek); err == nil {
				fk, err = keyaddr.DeriveFrom(fk.Key, "/", p)
			}
			if err == nil {
				k, err = fk.ToExtended()
			}
		}
		switch abs64(route) % nRaw {
		case 4, 5:
			via = "path without a mark"
			want, why = n.h.Child(num)
			viaPath(abs64(route)%nRaw == 5, fmt.Sprintf("/%d", num))
		case 6, 7:
			via = "path beyond 32 bits"
			want, why = nil, ref.BadIndex
			mark := []string{"", "'"}[num>>3&1]
			viaPath(abs64(route)%nRaw == 7, fmt.Sprintf("/%d%s", uint64(num)+uint64(1)<<(32+num>>7%31), mark))
		case 0:
			via = "HardenedChild"
			k, err = n.ek.HardenedChild(num)
		case 1:
			via = "path"
			k, err = n.ek.DeriveFrom("/", fmt.Sprintf("/%d'", num))
		case 2:
			via = "keyaddr.HardenedChild"
			var fk *keyaddr.Key
			fk, err = keyaddr.KeyFromExtended(n.ek)
			if err == nil {
				fk, err = fk.HardenedChild(int32(num))
			}
			if err == nil {
				k, err = fk.ToExtended()
			}
		case 3:
			via = "keyaddr.Child"
			// a negative number is no index at all
			want, why = nil, ref.BadIndex
			if int32(num) >= 0 {
				want, why = n.h.Child(num)
			}
			var fk *keyaddr.Key
			fk, err = keyaddr.KeyFromExtended(n.ek)
			if err == nil {
				fk, err = fk.Child(int32(num))
			}
			if err == nil {
				k, err = fk.ToExtended()
			}
		}
	}); pn != "" {
		e.Fail(t.cls, "%s %d of %s panicked: %s", via, num, where(n.h), pn)
	}
	what := fmt.Sprintf("%s %d of %s", via, num, where(n.h))
	simrt.Event("%s err=%v", what, err != nil)
	e.State("raw", via, n.h.Priv != nil, num>>31, err != nil)
	if why != ref.OK {
		e.Probe("refused: " + string(why))
		e.Check(err != nil, t.cls, "%s must be refused (%s) but was not", what, why)
		return
	}
	if err != nil {
		e.Fail(t.cls, "%s was refused: %v", what, err)
	}
	if d := diff(mustLook(e, t.cls, k, what), expect(want)); d != "" {
		e.Fail("wrong child", "%s is not that child: %s", what, d)
	}
}

func genC02(r *rng, thorough bool) *plan {
	np := r.Range(1, 3)
	p := &plan{}
	for a := 0; a < np; a++ {
		p.Ops = append(p.Ops, op{T: a, K: "master", B: core.Hex(genSeed(r))}, genDeep(r, a))
		if r.Chance(3) {
			p.Ops = append(p.Ops, op{T: a, K: "deep", A: []int64{int64(r.Intn(2)), int64(r.Next() >> 1), int64(240 + r.Intn(16))}})
		}
	}
	nops := r.Range(4, 12)
	if thorough {
		nops = r.Range(6, 30)
	}
	for i := 0; i < nops; i++ {
		a, slot := r.Intn(np), int64(r.Intn(24))
		var o op
		switch r.Intn(9) {
		case 0, 1:
			o = op{T: a, K: "child", A: []int64{slot, int64(genIndex(r)), int64(r.Intn(nRoutes))}}
		case 2, 3:
			o = op{T: a, K: "raw", A: []int64{slot, int64(genIndex(r)), int64(r.Intn(nRaw))}}
		case 4:
			o = op{T: a, K: "public", A: []int64{slot, int64(r.Intn(3))}}
		case 5:
			o = op{T: a, K: "descend", A: []int64{slot, int64(genIndex(r)), int64(genIndex(r)), int64(genIndex(r)), int64(r.Intn(nRoutes))}}
		case 6, 7:
			o = op{T: a, K: "send", A: []int64{slot, int64(r.Intn(np)), int64(r.Intn(3)), int64(genIndex(r)), int64(r.Intn(nRoutes))}, F: netFaults(r)}
		case 8:
			o = genDeep(r, a)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func fixedC02() []*plan {
	p := &plan{Ops: []op{
		{K: "master", B: core.Hex(lzSeed(2))},
		{K: "deep", A: []int64{0, 5, 252}},
		{K: "deep", A: []int64{1, 6, 252}},
	}}
	for _, i := range []int64{0, 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1} {
		for rt := int64(0); rt < nRoutes; rt++ {
			for s := int64(0); s < 3; s++ {
				p.Ops = append(p.Ops, op{K: "child", A: []int64{s, i, rt}}, op{K: "raw", A: []int64{s, i, rt % nRaw}})
			}
		}
	}
	for _, i := range []int64{0, 1, 15, 130, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for rt := int64(0); rt < nRaw; rt++ {
			for s := int64(0); s < 3; s++ {
				p.Ops = append(p.Ops, op{K: "raw", A: []int64{s, i, rt}})
			}
		}
	}
	p.Ops = append(p.Ops[:3:3], append([]op{{K: "descend", A: []int64{1, 5, 1<<31 + 2, 0}}, {K: "descend", A: []int64{2, 5, 9, 0}}}, p.Ops[3:]...)...)
	return []*plan{p}
}

// ---- C03: deriving in stages

func execC03(e *env) {
	t := newTree(e, "stages")
	e.RunActors(func(a int, o op, ix int) {
		p := t.ps[a]
		for _, n := range p.inbox {
			p.add(n)
		}
		p.inbox = nil
		t.c03(p, o)
	})
}

// stepwise walks a path with the library, one element at a time, starting
// from a separate copy of the key.
func (t *tree) stepwise(n *node, path []ref.PathElem) (*key.ExtendedKey, error) {
	txt, err := n.ek.MarshalText()
	if err != nil {
		return nil, err
	}
	k := new(key.ExtendedKey)
	if err = k.UnmarshalText(txt); err != nil {
		return nil, err
	}
	for _, s := range path {
		if s.Hard {
			k, err = k.HardenedChild(s.N)
		} else {
			k, err = k.Child(s.N)
		}
		if err != nil {
			return nil, err
		}
	}
	return k, nil
}

// ask makes the library derive by path and compares with stepwise.
func (t *tree) ask(n *node, parent, childPath string, facade bool) *node {
	e := t.e
	before := mustLook(e, t.cls, n.ek, "source")
	// spaces may be ignored (they are, today) or refused
	spaced := strings.Contains(parent+childPath, " ")
	pp, ok1 := ref.ParsePath(strings.ReplaceAll(parent, " ", ""))
	cc, ok2 := ref.ParsePath(strings.ReplaceAll(childPath, " ", ""))
	var k *key.ExtendedKey
	var err error
	what := fmt.Sprintf("DeriveFrom(%q, %q) from a %s", parent, childPath, where(n.h))
	if pn := core.Catch(func() {
		if facade {
			var fk *keyaddr.Key
			if fk, err = keyaddr.KeyFromExtended(n.ek); err != nil {
				return
			}
			if fk, err = keyaddr.DeriveFrom(fk.Key, parent, childPath); err == nil {
				k, err = fk.ToExtended()
			}
		} else {
			k, err = n.ek.DeriveFrom(parent, childPath)
		}
	}); pn != "" {
		e.Fail(t.cls, "%s panicked: %s", what, pn)
	}
	simrt.Event("%s err=%v", what, err != nil)
	if d := diff(mustLook(e, t.cls, n.ek, "source"), before); d != "" {
		e.Fail("source changed", "%s changed the key it started from: %s", what, d)
	}
	if !ok1 || !ok2 || !ref.Extends(pp, cc) {
		e.Probe("bad request")
		e.Check(err != nil, t.cls, "%s was not refused", what)
		return nil
	}
	if spaced && err != nil {
		return nil
	}
	rest := cc[len(pp):]
	want, werr := t.stepwise(n, rest)
	if werr != nil {
		e.Check(err != nil, t.cls, "%s succeeded, step by step it is refused: %v", what, werr)
		return nil
	}
	if err != nil {
		e.Fail(t.cls, "%s refused, step by step it is not: %v", what, err)
	}
	if d := diff(mustLook(e, t.cls, k, what), mustLook(e, t.cls, want, what)); d != "" {
		e.Fail(t.cls, "%s differs from step by step: %s", what, d)
	}
	h := n.h
	for _, s := range rest {
		var why ref.Refusal
		if h, why = h.Step(s); why != ref.OK {
			return nil
		}
	}
	e.State("ask", len(pp), len(rest), facade, n.h.Priv != nil)
	return &node{k, h, cc}
}

func (t *tree) c03(p *party, o op) {
	e := t.e
	switch o.K {
	case "master":
		k, err := key.NewMaster(o.Bytes())
		if err != nil {
			return
		}
		h, _ := ref.Master(o.Bytes())
		p.add(&node{k, h, nil})
		if o.Arg(0)%2 == 1 {
			if pk, err := k.Public(); err == nil {
				p.add(&node{pk, h.Public(), nil})
			}
		}
	case "stage":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		path := n.path
		for _, i := range o.A[2:] {
			x := elem(uint32(i))
			if n.h.Priv == nil && i%16 != 3 {
				x.Hard = false
			}
			path = append(append([]ref.PathElem{}, path...), x)
		}
		parent, c := pathString(n.path), pathString(path)
		if m := t.ask(n, parent, c, o.Arg(1)%2 == 1); m != nil {
			p.add(m)
		}
		// the same in two stages with the text form in between
		if len(path) > len(n.path)+1 {
			cut := len(n.path) + 1 + int(abs64(o.Arg(1)))%(len(path)-len(n.path)-1)
			mid := t.ask(n, parent, pathString(path[:cut]), false)
			if mid != nil {
				txt, err := mid.ek.MarshalText()
				if err != nil {
					e.Fail(t.cls, "writing an intermediate key: %v", err)
				}
				k := new(key.ExtendedKey)
				if err := k.UnmarshalText(txt); err != nil {
					e.Fail(t.cls, "reading an intermediate key: %v", err)
				}
				b := t.ask(&node{k, mid.h, mid.path}, pathString(mid.path), c, o.Arg(1)%3 == 1)
				a := t.ask(n, parent, c, false)
				if (a == nil) != (b == nil) {
					e.Fail(t.cls, "path %s from %s: one stage and two stages (cut at %d) disagree about refusing it", c, parent, cut)
				}
				if a != nil {
					if d := diff(mustLook(e, t.cls, b.ek, "staged"), mustLook(e, t.cls, a.ek, "direct")); d != "" {
						e.Fail(t.cls, "path %s from %s in two stages (cut at %d) differs from one stage: %s", c, parent, cut, d)
					}
				}
			}
		}
	case "bad":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		ps := strings.SplitN(o.S, "|", 2)
		if len(ps) < 2 {
			return
		}
		t.ask(n, ps[0], ps[1], o.Arg(1)%2 == 1)
	case "regroup": // requests made of the same pieces, one after another
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		rr := newRNG(uint64(o.Arg(2)))
		path := func(k int) string {
			s := ""
			for ; k > 0; k-- {
				s += pathString([]ref.PathElem{{N: uint32(rr.Intn(2)) + uint32(rr.Intn(2))*10, Hard: n.h.Priv != nil && rr.Chance(4)}})
			}
			return s
		}
		el := path(1 + rr.Intn(2))
		parent := el
		c := parent + []string{el, path(1), path(2), ""}[rr.Intn(4)]
		if rr.Chance(4) {
			parent = "/"
		}
		type req struct{ p, c string }
		reqs := []req{{parent, c}}
		all := parent + c
		for i := range all {
			if all[i] == '/' || rr.Chance(6) {
				reqs = append(reqs, req{all[:i], all[i:]})
			}
		}
		for i := range c { // the same child below other parents, the same parent with less of a child
			if c[i] == '/' {
				reqs = append(reqs, req{c[:i], c}, req{parent, c[:i]}, req{parent, c[i:]}, req{"/", c[i:]})
			}
		}
		reqs = append(reqs, req{"/", c}, req{c, parent}, req{parent, parent}, req{c, c}, req{parent, parent + c})
		for i := range reqs {
			j := i + rr.Intn(len(reqs)-i)
			reqs[i], reqs[j] = reqs[j], reqs[i]
		}
		if len(reqs) > 8 {
			reqs = reqs[:8]
		}
		for _, q := range reqs {
			t.ask(n, q.p, q.c, rr.Chance(4))
		}
	case "long": // a long parent path, and a child path in some relation to it
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		rr := newRNG(uint64(o.Arg(2)))
		long := make([]ref.PathElem, 1+abs64(o.Arg(3))%300)
		for i := range long {
			long[i] = elem(genIndex(rr))
			if rr.Chance(2) {
				long[i] = ref.PathElem{N: uint32(rr.Intn(3)), Hard: rr.Chance(2)}
			}
		}
		c := append([]ref.PathElem{}, long...)
		at := rr.Intn(len(c))
		if rr.Chance(3) {
			at = len(c) - 1
		}
		tail := func(n int) {
			for ; n > 0; n-- {
				x := elem(genIndex(rr))
				x.Hard = x.Hard && rr.Chance(2)
				c = append(c, x)
			}
		}
		switch abs64(o.Arg(4)) % 8 {
		case 0: // equal
		case 1: // shorter
			c = c[:at]
		case 2:
			c[at].Hard = !c[at].Hard
			tail(1)
		case 3:
			c[at].N ^= 1 << uint(rr.Intn(32))
			tail(rr.Range(1, 3))
		case 4: // one element left out or doubled
			if rr.Chance(2) {
				c = append(c[:at:at], c[at+1:]...)
				tail(2)
			} else {
				c = append(c[:at+1:at+1], c[at:]...)
			}
		case 5: // two elements exchanged
			if at > 0 {
				c[at], c[at-1] = c[at-1], c[at]
			}
			tail(1)
		default:
			tail(rr.Range(1, 4))
		}
		t.ask(n, pathString(long), pathString(c), o.Arg(1)%2 == 1)
		e.Probe("long path")
	case "garble": // a proper request with one character changed
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		rr := newRNG(uint64(o.Arg(2)))
		ps := []string{pathString(n.path), strings.TrimSuffix(pathString(n.path), "/")}
		for k := rr.Range(1, 3); k > 0; k-- {
			ps[1] += pathString([]ref.PathElem{elem(genIndex(rr))})
		}
		for k := rr.Range(1, 2); k > 0; k-- {
			w := 1 - rr.Intn(4)/3
			s := ps[w]
			at := rr.Intn(len(s) + 1)
			ch := string("/'0123456789 -+x\n\t.,\x00h"[rr.Intn(22)])
			switch rr.Intn(3) {
			case 0:
				s = s[:at] + ch + s[at:]
			case 1:
				if at < len(s) {
					s = s[:at] + s[at+1:]
				}
			case 2:
				if at < len(s) {
					s = s[:at] + ch + s[at+1:]
				}
			}
			ps[w] = s
		}
		t.ask(n, ps[0], ps[1], o.Arg(1)%2 == 1)
	case "relate": // the node's own path against variations of it
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		own := pathString(n.path)
		alt := append([]ref.PathElem{}, n.path...)
		var c string
		switch abs64(o.Arg(2)) % 6 {
		case 0:
			c = own
		case 1:
			if len(alt) > 0 {
				alt = alt[:len(alt)-1]
			}
			c = pathString(alt)
		case 2:
			if len(alt) > 0 {
				i := int(abs64(o.Arg(3))) % len(alt)
				alt[i].Hard = !alt[i].Hard
			}
			c = pathString(append(alt, ref.PathElem{N: 1}))
		case 3:
			if len(alt) > 0 {
				i := int(abs64(o.Arg(3))) % len(alt)
				alt[i].N ^= 1 << uint(abs64(o.Arg(3))%31)
			}
			c = pathString(append(alt, ref.PathElem{N: 1}))
		case 4:
			c = own + "/"
		case 5:
			c = strings.TrimSuffix(own, "/") + "/5x"
		}
		t.ask(n, own, c, o.Arg(1)%2 == 1)
	case "send":
		n := p.pick(o.Arg(0))
		if n == nil {
			return
		}
		to := t.party(o.Arg(1))
		msg, err := n.ek.MarshalText()
		if err != nil {
			e.Fail(t.cls, "writing %s: %v", where(n.h), err)
		}
		idx := o.A[2:]
		deliver(e, o, func(c int) {
			k := new(key.ExtendedKey)
			if err := k.UnmarshalText(msg); err != nil {
				e.Fail(t.cls, "received key refused: %v", err)
			}
			r := &node{k, n.h, n.path}
			path := append([]ref.PathElem{}, n.path...)
			for _, i := range idx {
				x := elem(uint32(i))
				if n.h.Priv == nil {
					x.Hard = false
				}
				path = append(path, x)
			}
			if m := t.ask(r, pathString(n.path), pathString(path), c%2 == 1); m != nil {
				to.inbox = append(to.inbox, m)
			}
			to.inbox = append(to.inbox, r)
		})
	}
}

var badPaths = []string{"", "1", "1/2", "//", "/1/", "/1//2", "/x", "/1x", "/-1", "/1''", "/'", "/1'2", "/4294967296", "/4294967295", "/99999999999999999999",
	"/18446744073709551617", "/2147483648'", "/2147483647'", "/2147483648", "m/1", "/1\n", "\n/1", "/1/2x", "/1/", "/0x10", "/1.5", "/+1", "/", "/0", "/1", "/1/2", "/1'/2'", "/1/2/3/4'", "/४", "/1\x00", "/6", "/10", "/1/20"}

func genC03(r *rng, thorough bool) *plan {
	np := r.Range(1, 3)
	p := &plan{}
	for a := 0; a < np; a++ {
		p.Ops = append(p.Ops, op{T: a, K: "master", A: []int64{int64(r.Intn(2))}, B: core.Hex(genSeed(r))})
	}
	nops := r.Range(4, 10)
	if thorough {
		nops = r.Range(6, 24)
	}
	idx := func(o *op, n int) {
		for ; n > 0; n-- {
			i := genIndex(r)
			if r.Chance(2) {
				i = uint32(r.Intn(12)) | uint32(r.Intn(2))<<31
			}
			o.A = append(o.A, int64(i))
		}
	}
	for i := 0; i < nops; i++ {
		a, slot := r.Intn(np), int64(r.Intn(24))
		var o op
		switch r.Intn(10) {
		case 9:
			o = op{T: a, K: "regroup", A: []int64{slot, 0, int64(r.Next() >> 1)}}
		case 6, 7:
			o = op{T: a, K: "long", A: []int64{slot, int64(r.Intn(2)), int64(r.Next() >> 1), int64(r.Intn(300)), int64(r.Intn(8))}}
			if r.Chance(2) {
				o.A[3] = int64(r.Intn(30))
			}
		case 8:
			o = op{T: a, K: "garble", A: []int64{slot, int64(r.Intn(2)), int64(r.Next() >> 1)}}
		case 0, 1, 2:
			o = op{T: a, K: "stage", A: []int64{slot, int64(r.Intn(64))}}
			if r.Chance(6) { // longer, and going round
				idx(&o, r.Range(1, 3))
				for n := r.Range(3, 12); n > 0; n-- {
					o.A = append(o.A, o.A[2+r.Intn(len(o.A)-2)])
				}
			} else {
				idx(&o, r.Range(1, 6))
			}
		case 3:
			o = op{T: a, K: "bad", A: []int64{slot, int64(r.Intn(2))}, S: badPaths[r.Intn(len(badPaths))] + "|" + badPaths[r.Intn(len(badPaths))]}
			if r.Chance(2) {
				o.S = "/|" + badPaths[r.Intn(len(badPaths))]
			}
		case 4:
			o = op{T: a, K: "relate", A: []int64{slot, int64(r.Intn(2)), int64(r.Intn(6)), int64(r.Intn(100))}}
		case 5:
			o = op{T: a, K: "send", A: []int64{slot, int64(r.Intn(np))}, F: netFaults(r)}
			idx(&o, r.Range(1, 4))
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func fixedC03() []*plan {
	p := &plan{Ops: []op{{K: "master", A: []int64{1}, B: core.Hex(lzSeed(0))}}}
	for _, a := range badPaths {
		p.Ops = append(p.Ops, op{K: "bad", A: []int64{0, 0}, S: "/|" + a}, op{K: "bad", A: []int64{0, 1}, S: a + "|/1/2/3"}, op{K: "bad", A: []int64{1, 0}, S: "/1|" + a})
	}
	return []*plan{p}
}
