package hd

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/tinylib/msgp/msgp"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// ---- C09: streams of binary messages

var errStream = errors.New("simulated stream failure")

// pipe reads data in chunks of varied size; at cut it ends, with err.
type pipe struct {
	e    *env
	data []byte
	pos  int
	r    *rng
	max  int // chunk size
	cut  int
	err  error
	lag  bool
}

func (p *pipe) Read(b []byte) (int, error) {
	simrt.Step()
	if p.lag {
		simrt.Sleep(durNS(int64(p.r.Intn(1_000_000_000))))
	}
	n := len(b)
	if p.max > 0 {
		n = min(n, 1+p.r.Intn(p.max))
		if n < len(b) {
			p.e.Fault("short read")
		}
	}
	end := min(p.cut, len(p.data))
	if n > end-p.pos {
		n = end - p.pos
	}
	copy(b[:n], p.data[p.pos:])
	p.pos += n
	// the buffered reader of the dependency fwd forgets bytes that come
	// together with an error other than EOF, so those never do here
	if p.pos >= end && (n == 0 || p.err == io.EOF && p.r.Chance(2)) {
		return n, p.err
	}
	return n, nil
}

// sink takes bytes until it is full or fails.
type sink struct {
	e    *env
	data []byte
	room int // -1: no limit
	err  error
}

func (s *sink) Write(b []byte) (int, error) {
	simrt.Step()
	if s.room >= 0 && len(b) > s.room {
		n := s.room
		s.data = append(s.data, b[:n]...)
		s.room = 0
		s.e.Fault("torn write")
		return n, s.err
	}
	if s.room >= 0 {
		s.room -= len(b)
	}
	s.data = append(s.data, b...)
	return len(b), nil
}

// item is one message of a stream.
type item struct {
	kind string // id, alg, addr, pub, pvt, sig
	r    *rec
	text string // addr
	b    []byte // the reference's encoding
}

func (i *item) String() string {
	switch i.kind {
	case "id":
		return fmt.Sprintf("tagged data of %d bytes for %d", len(i.r.key), i.r.alg)
	case "alg":
		return fmt.Sprintf("algorithm number %d", i.r.alg)
	case "addr":
		return "address " + i.text
	case "other":
		return fmt.Sprintf("other value %x", i.b)
	}
	return i.r.String()
}

func genItem(x *rng) *item {
	kinds := []string{"id", "alg", "addr", "pub", "pvt", "sig", "pub", "pvt", "sig", "other"}
	it := &item{kind: kinds[x.Intn(len(kinds))]}
	switch it.kind {
	case "other": // somebody else's value between ours
		switch x.Intn(7) {
		case 0:
			it.b = msgp.AppendNil(nil)
		case 1:
			it.b = msgp.AppendBool(nil, x.Chance(2))
		case 2:
			it.b = msgp.AppendInt64(nil, int64(x.Next())>>uint(x.Intn(64)))
		case 3:
			it.b = msgp.AppendString(nil, string(rune('a'+x.Intn(26))))
		case 4:
			it.b = msgp.AppendBytes(nil, x.Bytes(x.Intn(40)))
		case 5:
			it.b = msgp.AppendArrayHeader(nil, 0)
		case 6:
			it.b = msgp.AppendMapHeader(nil, 0)
		}
		it.r = &rec{kind: "other"}
	case "id":
		n := []int{0, 1, 31, 32, 255, 256, 65535, 65536, 100}[x.Intn(9)]
		if x.Chance(2) || n > 60000 && !x.Chance(6) {
			n = x.Intn(300)
		}
		it.r = &rec{kind: "id", alg: byte(x.Intn(256)), key: x.Bytes(n)}
		it.b = ref.Packed(it.r.alg, it.r.key)
	case "alg":
		it.r = &rec{kind: "alg", alg: []byte{0, 1, 2, 127, 128, 255, byte(x.Intn(256))}[x.Intn(7)]}
		it.b = ref.Packed(it.r.alg, nil)[1:]
		it.b = it.b[:len(it.b)-2] // without the empty data
	case "addr":
		it.text, _ = ref.Address(addrKinds[x.Intn(6)], x.Bytes(33))
		it.b = append([]byte{0x91, 0xd9, 48}, it.text...)
		it.r = &rec{kind: "addr"}
	default:
		it.r = genRec(x, it.kind)
		it.b = it.r.bin()
	}
	return it
}

// value is the library's object for an item.
func (i *item) value(e *env) any {
	switch i.kind {
	case "id":
		return &signature.IdentifiedData{Algorithm: signature.AlgorithmID(i.r.alg), Data: cp(i.r.key)}
	case "alg":
		a := signature.AlgorithmID(i.r.alg)
		return &a
	case "addr":
		a, err := address.Validate(i.text)
		if err != nil {
			e.Fail("refused", "%s: %v", i, err)
		}
		return &a
	case "other":
		r := msgp.Raw(cp(i.b))
		return &r
	}
	o, err := build(i.r)
	if err != nil {
		e.Fail("refused", "%s: %v", i, err)
	}
	switch i.kind {
	case "pub":
		return o.pub
	case "pvt":
		return o.pvt
	}
	return o.sig
}

func blankValue(kind string) any {
	switch kind {
	case "id":
		return &signature.IdentifiedData{}
	case "alg":
		return new(signature.AlgorithmID)
	case "addr":
		return &address.Address{}
	case "pub":
		return &signature.PublicKey{}
	case "pvt":
		return &signature.PrivateKey{}
	case "other":
		return new(msgp.Raw)
	}
	return &signature.Signature{}
}

// is compares a decoded value with the item.
func (i *item) is(v any) string {
	switch v := v.(type) {
	case *signature.IdentifiedData:
		if byte(v.Algorithm) != i.r.alg || !bytes.Equal(v.Data, i.r.key) {
			return fmt.Sprintf("tag %d, %d bytes", v.Algorithm, len(v.Data))
		}
	case *signature.AlgorithmID:
		if byte(*v) != i.r.alg {
			return fmt.Sprint(*v)
		}
	case *address.Address:
		if v.String() != i.text {
			return v.String()
		}
		if err := v.Revalidate(); err != nil {
			return err.Error()
		}
	case *msgp.Raw:
		if !bytes.Equal(*v, i.b) {
			return fmt.Sprintf("%x", []byte(*v))
		}
	case *signature.PublicKey:
		return (&object{kind: "pub", pub: v}).differs(i.r)
	case *signature.PrivateKey:
		return (&object{kind: "pvt", pvt: v}).differs(i.r)
	case *signature.Signature:
		return (&object{kind: "sig", sig: v}).differs(i.r)
	}
	return ""
}

type sizer interface{ Msgsize() int }

// writeItem writes to a stream.
func writeItem(v any, w *msgp.Writer) error {
	if x, ok := v.(msgp.Encodable); ok {
		return x.EncodeMsg(w)
	}
	b, err := v.(msgp.Marshaler).MarshalMsg(nil)
	if err != nil {
		return err
	}
	return msgp.Raw(b).EncodeMsg(w)
}

// readItem reads from a stream.
func readItem(v any, r *msgp.Reader) error {
	if x, ok := v.(msgp.Decodable); ok {
		return x.DecodeMsg(r)
	}
	var raw msgp.Raw
	if err := raw.DecodeMsg(r); err != nil {
		return err
	}
	rest, err := v.(msgp.Unmarshaler).UnmarshalMsg(raw)
	if err == nil && len(rest) > 0 {
		err = fmt.Errorf("%d bytes left over", len(rest))
	}
	return err
}

func execC09(e *env) {
	useWide(e)
	used := map[int]map[string]any{}
	e.RunActors(func(a int, o op, ix int) {
		if used[a] == nil {
			used[a] = map[string]any{}
		}
		c09(e, o, used[a])
	})
}

func c09(e *env, o op, used map[string]any) {
	x := newRNG(uint64(o.Arg(0)))
	n := 1 + int(abs64(o.Arg(1))%10)
	var items []*item
	var all []byte
	var ends []int
	for i := 0; i < n; i++ {
		it := genItem(x)
		items = append(items, it)
		all = append(all, it.b...)
		ends = append(ends, len(all))
	}
	target := func(kind string) any {
		v := used[kind]
		if v == nil || x.Chance(3) {
			v = blankValue(kind)
		}
		used[kind] = v
		return v
	}
	switch o.K {
	case "memory": // in one buffer, read back by leftovers
		buf := []byte{}
		if o.Arg(2)%2 == 1 {
			buf = make([]byte, 0, 4096)
		}
		for _, it := range items {
			v := it.value(e)
			was := len(buf)
			var err error
			e.Guard("MarshalMsg of "+it.kind, func() { buf, err = v.(msgp.Marshaler).MarshalMsg(buf) })
			if err != nil {
				e.Fail("refused", "%s: %v", it, err)
			}
			if !bytes.Equal(buf[was:], it.b) {
				e.Fail("bytes", "%s is encoded as %x, want %x", it, buf[was:], it.b)
			}
			if s := v.(sizer).Msgsize(); s < len(it.b) {
				e.Fail("size", "Msgsize of %s is %d, its encoding has %d bytes", it, s, len(it.b))
			}
			if d := it.is(v); d != "" {
				e.Fail("changed", "encoding %s changed it: %s", it, d)
			}
		}
		e.Check(bytes.Equal(buf, all), "bytes", "a buffer of %d messages differs", n)
		rest := buf
		for i, it := range items {
			v := target(it.kind)
			var err error
			e.Guard("UnmarshalMsg of "+it.kind, func() { rest, err = v.(msgp.Unmarshaler).UnmarshalMsg(rest) })
			if err != nil {
				e.Fail("refused", "message %d of %d, %s: %v", i, n, it, err)
			}
			if d := it.is(v); d != "" {
				e.Fail("changed", "message %d of %d, %s: %s", i, n, it, d)
			}
			if !bytes.Equal(rest, all[ends[i]:]) {
				e.Fail("leftover", "message %d of %d, %s, leaves %d bytes, want %d", i, n, it, len(rest), len(all)-ends[i])
			}
		}
	case "whole": // the form that holds exactly one message
		it, next := items[0], items[n-1]
		if it.kind != "pub" && it.kind != "pvt" && it.kind != "sig" {
			it.kind = []string{"pub", "pvt", "sig"}[x.Intn(3)]
			it.r = genRec(x, it.kind)
			it.b = it.r.bin()
		}
		for _, more := range []int{0, 1, 1 + x.Intn(len(next.b)), len(next.b)} {
			b := append(cp(it.b), next.b[:more]...)
			ob := blank(it.kind)
			var err error
			e.Guard("Unmarshal of "+it.kind, func() { err = ob.read("binary", b) })
			if more == 0 {
				if err != nil {
					e.Fail("refused", "%s: %v", it, err)
				}
				if d := ob.differs(it.r); d != "" {
					e.Fail("changed", "%s: %s", it, d)
				}
			} else if err == nil {
				e.Fail("leftover", "Unmarshal of %s followed by %d bytes of %s swallows them", it, more, next)
			}
		}
		e.Fault("next message attached")
	case "shape": // messages of another shape are refused
		for i := 0; i < min(n, 3); i++ {
			c09shape(e, items[i], x)
		}
	case "cut": // every cut of one message is an error
		it := items[0]
		for c := 0; c < len(it.b); c++ {
			if len(it.b) > 200 && c > 20 && c < len(it.b)-20 && c%37 != 0 {
				continue
			}
			v := blankValue(it.kind)
			var err, err2 error
			e.Guard("UnmarshalMsg of "+it.kind, func() {
				_, err = v.(msgp.Unmarshaler).UnmarshalMsg(it.b[:c:c])
				err2 = readItem(blankValue(it.kind), msgp.NewReaderSize(&pipe{e: e, data: it.b, r: x, cut: c, err: io.EOF}, 64))
			})
			if err == nil || err2 == nil {
				e.Fail("cut", "%s cut to %d of %d bytes is read without error", it, c, len(it.b))
			}
		}
		e.Fault("cut")
	case "stream":
		// write
		out := &sink{e: e, room: -1, err: errStream}
		if f, ok := o.Fault("full"); ok {
			out.room = int(abs64(f.Arg(0))) % (len(all) + 1)
			if f.Arg(1)%2 == 0 {
				out.err = io.ErrShortWrite
			}
		}
		w := msgp.NewWriterSize(out, []int{18, 64, 200, 2048}[abs64(o.Arg(2))%4])
		failed := false
		for _, it := range items {
			var err error
			v := it.value(e)
			e.Guard("EncodeMsg of "+it.kind, func() { err = writeItem(v, w) })
			if err != nil {
				failed = true
				break
			}
			if d := it.is(v); d != "" {
				e.Fail("changed", "writing %s changed it: %s", it, d)
			}
			if x.Chance(4) {
				if err = w.Flush(); err != nil {
					failed = true
					break
				}
			}
		}
		if err := w.Flush(); err != nil {
			failed = true
		}
		if !failed && !bytes.Equal(out.data, all) {
			e.Fail("bytes", "%d messages are streamed as %d bytes, in memory %d, without an error", n, len(out.data), len(all))
		}
		if failed && out.room < 0 {
			e.Fail("refused", "writing a stream failed")
		}
		if !bytes.HasPrefix(all, out.data) {
			e.Fail("bytes", "a failed stream of %d messages is no beginning of it", n)
		}
		// read
		p := &pipe{e: e, data: out.data, r: x, max: []int{0, 1, 3, 17, 100}[abs64(o.Arg(3))%5], cut: len(out.data), err: io.EOF, lag: o.Arg(3)%3 == 0}
		if f, ok := o.Fault("cut"); ok {
			p.cut = int(abs64(f.Arg(0))) % (len(out.data) + 1)
			if f.Arg(1)%3 == 0 && len(items) > 0 { // exactly between two messages, or one off
				p.cut = min(len(out.data), max(0, pick(ends, f.Arg(0))+int(f.Arg(1)/3%3)-1))
			}
			e.Fault("cut")
		}
		if f, ok := o.Fault("readerr"); ok {
			p.err = errStream
			p.cut = int(abs64(f.Arg(0))) % (len(out.data) + 1)
			e.Fault("readerr")
		}
		end := min(p.cut, len(out.data))
		rd := msgp.NewReaderSize(p, []int{18, 64, 200, 4096}[abs64(o.Arg(4))%4])
		for i, it := range items {
			v := target(it.kind)
			var err error
			e.Guard("DecodeMsg of "+it.kind, func() { err = readItem(v, rd) })
			if ends[i] <= end {
				if err != nil {
					e.Fail("refused", "message %d of %d, %s, complete in the stream, is not read: %v", i, n, it, err)
				}
				if d := it.is(v); d != "" {
					e.Fail("changed", "message %d of %d, %s, is read from the stream as %s", i, n, it, d)
				}
				e.Probe("read")
				continue
			}
			if err == nil {
				e.Fail("cut", "message %d of %d, %s, is read although the stream ends %d bytes before its end", i, n, it, ends[i]-end)
			}
			e.Probe("error at the cut")
			break
		}
	}
	simrt.Event("%s %d messages", o.K, n)
	e.State("stream", o.K, n, faultKinds(o))
}

func genC09(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(2, 6)
	if thorough {
		n = r.Range(3, 16)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), A: []int64{int64(r.Next() >> 1), int64(r.Intn(10)), int64(r.Intn(4)), int64(r.Intn(15)), int64(r.Intn(4))}}
		o.K = []string{"memory", "cut", "stream", "stream", "stream", "memory", "whole", "shape"}[r.Intn(8)]
		if o.K == "stream" {
			switch r.Intn(5) {
			case 0:
				o.F = append(o.F, core.Fault{K: "full", A: []int64{int64(r.Intn(100000)), int64(r.Intn(2))}})
			case 1, 2:
				o.F = append(o.F, core.Fault{K: "cut", A: []int64{int64(r.Intn(100000)), int64(r.Intn(9))}})
			case 3:
				o.F = append(o.F, core.Fault{K: "readerr", A: []int64{int64(r.Intn(100000))}})
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// misshapen is a message that is not one of its kind.
type misshapen struct {
	how string
	b   []byte
}

const rawSize = "raw bytes of a size the algorithm does not have"

// shapes lists messages that look like the item's and are none.
func (i *item) shapes(x *rng) (out []misshapen) {
	add := func(how string, parts ...[]byte) {
		out = append(out, misshapen{how, bytes.Join(parts, nil)})
	}
	b := i.b
	switch i.kind {
	case "other":
		return nil
	case "alg":
		add("a number above 255", []byte{0xcd, 1 + byte(x.Intn(255)), i.r.alg})
		add("a negative number", []byte{0xe0 | byte(x.Intn(32))})
		add("a string", []byte{0xa1, i.r.alg})
		add("nothing", []byte{0xc0})
		return out
	case "addr":
		add("a list of none", []byte{0x90}, b[1:])
		add("a list of two", []byte{0x92}, b[1:], b[1:])
		add("a map", []byte{0x81}, b[1:], b[1:])
		add("a list of a number", []byte{0x91, byte(x.Intn(128))})
		add("a list of nothing", []byte{0x91, 0xc0})
		add("no list", b[1:])
		return out
	}
	alg, data, _, err := ref.Unpacked(b)
	if err != nil {
		return nil
	}
	tag := ref.Packed(alg, nil)
	tag = tag[1 : len(tag)-2]
	body := b[1+len(tag):]
	add("a list of one", []byte{0x91}, b[1:])
	add("a list of three", []byte{0x93}, b[1:], []byte{0xc0})
	add("a map", []byte{0x82}, b[1:], b[1:])
	add("a list without data", []byte{0x92}, tag, []byte{0xc0})
	add("a list with a number for data", []byte{0x92}, tag, tag)
	add("a tag above 255", []byte{0x92, 0xcd, 1 + byte(x.Intn(255)), alg}, body)
	add("a negative tag", []byte{0x92, 0xe0 | byte(x.Intn(32))}, body)
	add("a list in the wrong order", []byte{0x92}, body, tag)
	if i.kind == "id" {
		return out
	}
	for _, t := range []byte{3, 15, 127, 128, 199, 201, 255} {
		if x.Chance(3) {
			add("an unknown algorithm", ref.Packed(t, data))
		}
	}
	// sizes which the algorithm does not have
	size := len(i.r.key)
	for _, n := range []int{0, size - 1, size + 1, size / 2, 2 * size, x.Intn(256)} {
		if n < 0 || n == size || i.kind == "sig" && alg != ref.AlgEd25519 && alg != ref.AlgNull {
			continue
		}
		d := x.Bytes(n)
		copy(d, i.r.key)
		out = append(out, misshapen{rawSize, cp(d)})
		if i.kind != "sig" {
			if n > 255 || n == 0 && alg == ref.AlgNull {
				continue
			}
			d = append([]byte{byte(n)}, d...)
			d = append(d, i.r.ext...)
		}
		add("a size the algorithm does not have", ref.Packed(alg, d))
	}
	if i.kind != "sig" && len(data) > 0 && len(data) < 255 {
		d := cp(data)
		d[0] = byte(len(data) + x.Intn(256-len(data)))
		add("a size beyond the end of the data", ref.Packed(alg, d))
	}
	return out
}

func c09shape(e *env, it *item, x *rng) {
	for _, m := range it.shapes(x) {
		if m.how == rawSize {
			var err error
			e.Guard("making a "+it.kind+" of raw bytes", func() {
				switch al := algOf(it.r.alg); it.kind {
				case "pub":
					_, err = signature.RawPublicKey(al, cp(m.b), cp(it.r.ext))
				case "pvt":
					_, err = signature.RawPrivateKey(al, cp(m.b), cp(it.r.ext))
				default:
					_, err = signature.RawSignature(al, cp(m.b))
				}
			})
			e.Check(err != nil, "shape", "%d raw bytes are accepted as a %s of algorithm %d", len(m.b), it.kind, it.r.alg)
			continue
		}
		routes := []string{"UnmarshalMsg", "DecodeMsg"}
		if it.kind == "pub" || it.kind == "pvt" || it.kind == "sig" {
			routes = append(routes, "Unmarshal")
		}
		for _, route := range routes {
			v := blankValue(it.kind)
			var err error
			e.Guard(route+" of "+it.kind, func() {
				switch route {
				case "UnmarshalMsg":
					_, err = v.(msgp.Unmarshaler).UnmarshalMsg(cp(m.b))
				case "DecodeMsg":
					err = readItem(v, msgp.NewReaderSize(&pipe{e: e, data: m.b, r: x, cut: len(m.b), err: io.EOF}, 64))
				default:
					ob := blank(it.kind)
					err = ob.read("binary", m.b)
				}
			})
			if err == nil {
				e.Fail("shape", "%s of %x, %s where %s was, is accepted", route, m.b, m.how, it)
			}
		}
		e.State("shape", it.kind, m.how)
	}
	e.Fault("message of another shape")
}

// faultKinds are the kinds of an operation's faults.
func faultKinds(o op) string {
	s := ""
	for _, f := range o.F {
		s += f.K + " "
	}
	return s
}
