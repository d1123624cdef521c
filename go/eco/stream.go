package eco

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"slices"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/tinylib/msgp/msgp"
	"verif/core"
	"verif/simrt"
)

// ---- C27: binary logs

var errStream = errors.New("simulated stream failure")

// pipe reads data in chunks of varied size; at cut it ends, with err.
type pipe struct {
	e    *env
	data []byte
	pos  int
	r    *rng
	max  int
	cut  int
	err  error
	lag  bool
}

func (p *pipe) Read(b []byte) (int, error) {
	simrt.Step()
	if p.lag {
		simrt.Sleep(durNS(int64(p.r.Intn(1_000_000_000))))
	}
	n := len(b)
	if p.max > 0 {
		n = min(n, 1+p.r.Intn(p.max))
		if n < len(b) {
			p.e.Fault("short read")
		}
	}
	end := min(p.cut, len(p.data))
	n = min(n, end-p.pos)
	copy(b[:n], p.data[p.pos:])
	p.pos += n
	if p.pos >= end && (n == 0 || p.err == io.EOF && p.r.Chance(2)) {
		return n, p.err
	}
	return n, nil
}

type sink struct {
	e    *env
	data []byte
	room int
	err  error
}

func (s *sink) Write(b []byte) (int, error) {
	simrt.Step()
	if s.room >= 0 && len(b) > s.room {
		n := s.room
		s.data = append(s.data, b[:n]...)
		s.room = 0
		s.e.Fault("torn write")
		return n, s.err
	}
	if s.room >= 0 {
		s.room -= len(b)
	}
	s.data = append(s.data, b...)
	return len(b), nil
}

// encInt writes an integer in the shortest form (width 0) or a wider one.
func encInt(b []byte, v int64, width int) []byte {
	put := func(tag byte, n int) []byte {
		var x [8]byte
		binary.BigEndian.PutUint64(x[:], uint64(v))
		return append(append(b, tag), x[8-n:]...)
	}
	// what fits: signed forms d0..d3, unsigned forms cc..cf
	s := []int{1, 2, 4, 8}
	fitsS := func(n int) bool { return n == 8 || v >= -(1<<(8*n-1)) && v < 1<<(8*n-1) }
	fitsUn := func(n int) bool { return v >= 0 && (n == 8 || v < 1<<(8*n)) }
	if width == 0 {
		return nil
	}
	var forms [][2]int
	if v >= 0 && v < 128 {
		forms = append(forms, [2]int{int(byte(v)), 0})
	}
	if v < 0 && v >= -32 {
		forms = append(forms, [2]int{int(byte(v)), 0})
	}
	for i, n := range s {
		if fitsS(n) {
			forms = append(forms, [2]int{0xd0 + i, n})
		}
		if fitsUn(n) {
			forms = append(forms, [2]int{0xcc + i, n})
		}
	}
	f := forms[width%len(forms)]
	return put(byte(f[0]), f[1])
}

// canonical is the form the library has always written: the shortest, with
// unsigned forms for positive numbers.
func canonical(b []byte, v int64) []byte { return msgp.AppendInt64(b, v) }

// message is one value of a log.
type message struct {
	kind string
	ints []int64 // one or pairs
	b    []byte  // canonical
	wide []byte  // some other legal width for every integer
}

var kinds = []string{"Ndau", "Duration", "Timestamp", "Rate", "Nanocent", "RTRow", "RSRow", "RateTable", "RateSlice"}

// genMessage makes a value; with rows > 0, a rate table with that many rows.
func genMessage(r *rng, rows int) *message {
	m := &message{kind: kinds[r.Intn(len(kinds))]}
	if rows > 0 {
		m.kind = kinds[len(kinds)-1-r.Intn(2)]
	}
	n := 1
	switch m.kind {
	case "RTRow", "RSRow":
		n = 2
	case "RateTable", "RateSlice":
		n = 2 * r.Intn(6)
		if r.Chance(6) {
			n = 2 * []int{15, 16, 17, 40}[r.Intn(4)]
		}
		if rows > 0 {
			n = 2 * rows
		}
	}
	for i := 0; i < n; i++ {
		v := extreme(r)
		if r.Chance(3) {
			v = []int64{0, -1, -32, -33, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MinInt32, math.MinInt32 - 1}[r.Intn(20)]
		}
		m.ints = append(m.ints, v)
	}
	list := func(b []byte, k int) []byte {
		if k < 16 {
			return append(b, 0x90|byte(k))
		}
		if k > 65535 {
			return append(b, 0xdd, byte(k>>24), byte(k>>16), byte(k>>8), byte(k))
		}
		return append(b, 0xdc, byte(k>>8), byte(k))
	}
	emit := func(f func([]byte, int64) []byte) (b []byte) {
		switch m.kind {
		case "RateTable", "RateSlice":
			b = list(b, n/2)
			for i := 0; i < n; i += 2 {
				b = f(f(append(b, 0x92), m.ints[i]), m.ints[i+1])
			}
		case "RTRow", "RSRow":
			b = f(f(append(b, 0x92), m.ints[0]), m.ints[1])
		default:
			b = f(b, m.ints[0])
		}
		return
	}
	m.b = emit(canonical)
	m.wide = emit(func(b []byte, v int64) []byte { return encInt(b, v, 1+r.Intn(1000)) })
	return m
}

func (m *message) String() string {
	if len(m.ints) > 100 {
		return fmt.Sprintf("%s of %d rows", m.kind, len(m.ints)/2)
	}
	return fmt.Sprintf("%s %v", m.kind, m.ints)
}

func (m *message) value() any {
	v := blank(m.kind)
	switch x := v.(type) {
	case *types.Ndau:
		*x = types.Ndau(m.ints[0])
	case *types.Duration:
		*x = types.Duration(m.ints[0])
	case *types.Timestamp:
		*x = types.Timestamp(m.ints[0])
	case *eai.Rate:
		*x = eai.Rate(m.ints[0])
	case *pricecurve.Nanocent:
		*x = pricecurve.Nanocent(m.ints[0])
	case *eai.RTRow:
		*x = eai.RTRow{From: types.Duration(m.ints[0]), Rate: eai.Rate(m.ints[1])}
	case *eai.RSRow:
		*x = eai.RSRow{Duration: types.Duration(m.ints[0]), Rate: eai.Rate(m.ints[1])}
	case *eai.RateTable:
		for i := 0; i < len(m.ints); i += 2 {
			*x = append(*x, eai.RTRow{From: types.Duration(m.ints[i]), Rate: eai.Rate(m.ints[i+1])})
		}
	case *eai.RateSlice:
		for i := 0; i < len(m.ints); i += 2 {
			*x = append(*x, eai.RSRow{Duration: types.Duration(m.ints[i]), Rate: eai.Rate(m.ints[i+1])})
		}
	}
	return v
}

func blank(kind string) any {
	switch kind {
	case "Ndau":
		return new(types.Ndau)
	case "Duration":
		return new(types.Duration)
	case "Timestamp":
		return new(types.Timestamp)
	case "Rate":
		return new(eai.Rate)
	case "Nanocent":
		return new(pricecurve.Nanocent)
	case "RTRow":
		return new(eai.RTRow)
	case "RSRow":
		return new(eai.RSRow)
	case "RateTable":
		return new(eai.RateTable)
	}
	return new(eai.RateSlice)
}

// is compares a value with the message.
func (m *message) is(v any) string {
	var got []int64
	switch x := v.(type) {
	case *types.Ndau:
		got = []int64{int64(*x)}
	case *types.Duration:
		got = []int64{int64(*x)}
	case *types.Timestamp:
		got = []int64{int64(*x)}
	case *eai.Rate:
		got = []int64{int64(*x)}
	case *pricecurve.Nanocent:
		got = []int64{int64(*x)}
	case *eai.RTRow:
		got = []int64{int64(x.From), int64(x.Rate)}
	case *eai.RSRow:
		got = []int64{int64(x.Duration), int64(x.Rate)}
	case *eai.RateTable:
		for _, r := range *x {
			got = append(got, int64(r.From), int64(r.Rate))
		}
	case *eai.RateSlice:
		for _, r := range *x {
			got = append(got, int64(r.Duration), int64(r.Rate))
		}
	}
	if !slices.Equal(got, m.ints) {
		if len(got) > 100 || len(m.ints) > 100 {
			return fmt.Sprintf("%T of %d rows, other ones", v, len(got)/2)
		}
		return fmt.Sprintf("%T %v", v, got)
	}
	return ""
}

type sizer interface{ Msgsize() int }

func execC27(e *env) {
	used := map[int]map[string]any{}
	e.RunActors(func(a int, o op, ix int) {
		if used[a] == nil {
			used[a] = map[string]any{}
		}
		c27(e, o, used[a])
	})
}

func c27(e *env, o op, used map[string]any) {
	r := simrt.NewRNG(uint64(o.Arg(0)))
	n := 1 + int(abs64(o.Arg(1))%12)
	rows := int(abs64(o.Arg(5)) % 200_000)
	if rows > 0 {
		n = 2 // a long table between short values
		e.Probe("long table")
	}
	if o.Arg(6) > 0 {
		n = int(o.Arg(6) % 10_000)
		e.Probe("long log")
	}
	var ms []*message
	var all []byte
	for i := 0; i < n; i++ {
		m := genMessage(r, 0)
		if i == 0 && rows > 0 {
			m = genMessage(r, rows)
		}
		ms = append(ms, m)
		all = append(all, m.b...)
	}
	target := func(m *message) any {
		if r.Chance(2) {
			return blank(m.kind)
		}
		if used[m.kind] == nil {
			used[m.kind] = blank(m.kind)
		}
		return used[m.kind]
	}
	switch o.K {
	case "memory":
		var out []byte
		for _, m := range ms {
			v := m.value()
			e.Guard("MarshalMsg of "+m.kind, func() {
				start := len(out)
				var err error
				if out, err = v.(msgp.Marshaler).MarshalMsg(out); err != nil {
					e.Fail("refused", "%s is not written: %v", m, err)
				}
				if !bytes.Equal(out[start:], m.b) {
					e.Fail("bytes", "%s is written as %s, want %s", m, hexText(out[start:]), hexText(m.b))
				}
				if s := v.(sizer).Msgsize(); s < len(m.b) {
					e.Fail("size", "%s takes %d bytes, estimated %d", m, len(m.b), s)
				}
			})
		}
		rest := append([]byte{}, out...)
		if o.Arg(2)&1 == 1 {
			rest = nil
			for _, m := range ms {
				rest = append(rest, m.wide...)
			}
			e.Probe("other widths")
		}
		for i, m := range ms {
			v := target(m)
			var err error
			e.Guard("UnmarshalMsg of "+m.kind, func() { rest, err = v.(msgp.Unmarshaler).UnmarshalMsg(rest) })
			if err != nil {
				e.Fail("refused", "value %d, %s, is not read: %v", i, m, err)
			}
			if d := m.is(v); d != "" {
				e.Fail("changed", "value %d, %s, is read as %s", i, m, d)
			}
		}
		if len(rest) > 0 {
			e.Fail("bytes", "%d bytes are left over after the last value", len(rest))
		}
		// a torn tail
		m := ms[len(ms)-1]
		for cut := 0; cut < len(m.b); cut += 1 + cut/8 {
			v := blank(m.kind)
			var err error
			e.Guard("UnmarshalMsg of "+m.kind, func() { _, err = v.(msgp.Unmarshaler).UnmarshalMsg(m.b[:cut:cut]) })
			e.Fault("torn value")
			if err == nil {
				e.Fail("torn", "the first %d of %d bytes of %s are read without an error", cut, len(m.b), m)
			}
		}
	case "stream":
		out := &sink{e: e, room: -1, err: errStream}
		if f, ok := o.Fault("full"); ok {
			out.room = int(abs64(f.Arg(0))) % (len(all) + 1)
			e.Fault("full")
		}
		w := msgp.NewWriterSize(out, []int{18, 64, 4096}[abs64(o.Arg(2))%3])
		failed := false
		for _, m := range ms {
			v := m.value()
			var err error
			e.Guard("EncodeMsg of "+m.kind, func() { err = v.(msgp.Encodable).EncodeMsg(w) })
			if err != nil {
				failed = true
				break
			}
			if r.Chance(4) {
				if w.Flush() != nil {
					failed = true
					break
				}
			}
		}
		if w.Flush() != nil {
			failed = true
		}
		if failed && out.room < 0 {
			e.Fail("refused", "writing a log failed")
		}
		if !failed && !bytes.Equal(out.data, all) {
			e.Fail("bytes", "%d values are streamed as %s, in memory %s", n, hexText(out.data), hexText(all))
		}
		if !bytes.HasPrefix(all, out.data) {
			e.Fail("bytes", "a failed log of %d values is no beginning of it", n)
		}
		data := out.data
		if !failed && o.Arg(3)%3 == 1 {
			data = nil
			for _, m := range ms {
				data = append(data, m.wide...)
			}
			e.Probe("other widths")
		}
		wide := !failed && o.Arg(3)%3 == 1
		p := &pipe{e: e, data: data, r: r, max: []int{0, 1, 3, 17, 100}[abs64(o.Arg(3))%5], cut: len(data), err: io.EOF, lag: o.Arg(3)%4 == 0}
		if f, ok := o.Fault("cut"); ok {
			p.cut = int(abs64(f.Arg(0))) % (len(data) + 1)
			e.Fault("cut")
		}
		if f, ok := o.Fault("readerr"); ok {
			p.err = errStream
			p.cut = int(abs64(f.Arg(0))) % (len(data) + 1)
			e.Fault("readerr")
		}
		end := 0
		rd := msgp.NewReaderSize(p, []int{18, 64, 4096}[abs64(o.Arg(2)/3)%3])
		for i, m := range ms {
			b := m.b
			if wide {
				b = m.wide
			}
			end += len(b)
			v := target(m)
			var err error
			e.Guard("DecodeMsg of "+m.kind, func() { err = v.(msgp.Decodable).DecodeMsg(rd) })
			if end <= min(p.cut, len(data)) {
				if err != nil {
					e.Fail("refused", "value %d of %d, %s, complete in the log, is not read: %v", i, n, m, err)
				}
				if d := m.is(v); d != "" {
					e.Fail("changed", "value %d of %d, %s, is read as %s", i, n, m, d)
				}
				e.Probe("read")
				continue
			}
			if err == nil {
				e.Fail("torn", "value %d of %d, %s, is read although the log ends before its end", i, n, m)
			}
			break
		}
	case "foreign":
		// what is no integer, or does not fit, is an error
		r := simrt.NewRNG(uint64(o.Arg(4)))
		bad := [][]byte{
			binary.BigEndian.AppendUint64([]byte{0xcf}, 1<<63|r.Next()),
			{0xc0}, {0xc3}, {0xa1, '7'}, {0xcb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0}, {0xc4, 1, 7}, {0x80},
		}[r.Intn(7)]
		for _, k := range kinds {
			b := bad
			switch k {
			case "RTRow", "RSRow":
				b = [][]byte{append(append([]byte{0x92}, bad...), 7), append([]byte{0x92, 7}, bad...), {0x91, 7}, {0x93, 7, 7, 7}, {7}}[r.Intn(5)]
			case "RateTable", "RateSlice":
				b = [][]byte{append(append([]byte{0x91, 0x92}, bad...), 7), append([]byte{0x91, 0x92, 7}, bad...), {0x91, 0x91, 7}, {0x91, 7}, bad}[r.Intn(5)]
			}
			v := blank(k)
			var err error
			e.Guard("UnmarshalMsg of "+k, func() { _, err = v.(msgp.Unmarshaler).UnmarshalMsg(b) })
			e.Fault("foreign value")
			if err == nil {
				e.Fail("foreign", "%x is read as %s %v", b, k, v)
			}
			v = blank(k)
			e.Guard("DecodeMsg of "+k, func() {
				err = v.(msgp.Decodable).DecodeMsg(msgp.NewReader(&pipe{e: e, data: b, r: r, cut: len(b), err: io.EOF}))
			})
			if err == nil {
				e.Fail("foreign", "%x is read from a stream as %s %v", b, k, v)
			}
		}
	}
	simrt.Event("%s %d values", o.K, n)
	e.State("log", o.K, n, faultKinds(o))
}

func genC27(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(2, 6)
	if thorough {
		n = r.Range(3, 20)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np), A: []int64{int64(r.Next() >> 1), int64(r.Intn(12)), int64(r.Intn(9)), int64(r.Intn(60)), int64(r.Next() >> 1)}}
		o.K = []string{"memory", "memory", "stream", "stream", "stream", "foreign"}[r.Intn(6)]
		if o.K == "stream" {
			switch r.Intn(5) {
			case 0:
				o.F = append(o.F, core.Fault{K: "full", A: []int64{int64(r.Intn(100000))}})
			case 1, 2:
				o.F = append(o.F, core.Fault{K: "cut", A: []int64{int64(r.Intn(100000))}})
			case 3:
				o.F = append(o.F, core.Fault{K: "readerr", A: []int64{int64(r.Intn(100000))}})
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// fixedC27 are logs with long tables, around every length where the header of
// a list or a buffer changes, and logs of many values.
func fixedC27() (ps []*plan) {
	sizes := []int{41, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10_001, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537}
	for i, n := range sizes {
		for j := int64(0); j < 4; j++ {
			seed := int64(1000*n) + j
			p := &plan{}
			p.Ops = append(p.Ops, op{K: "memory", A: []int64{seed, 0, j, 0, 0, int64(n)}},
				op{K: "stream", A: []int64{seed, 0, int64(i)%3 + 6, j + 4*(j%3), 0, int64(n)}},
				op{K: "stream", A: []int64{seed, 0, int64(i)%3 + 6, j + 5, 0, int64(n)}, F: []core.Fault{{K: []string{"cut", "readerr", "full", "cut"}[j], A: []int64{int64(n)*7 - j}}}})
			ps = append(ps, p)
		}
	}
	for _, n := range []int{100, 257, 1000, 5000, 9999} {
		ps = append(ps, &plan{Ops: []op{{K: "memory", A: []int64{int64(n), 0, 0, 0, 0, 0, int64(n)}}, {K: "stream", A: []int64{int64(n) + 1, 0, 2, 2, 0, 0, int64(n)}}}})
	}
	return
}

func hexText(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x… (%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// faultKinds are the kinds of an operation's faults.
func faultKinds(o op) string {
	s := ""
	for _, f := range o.F {
		s += f.K + " "
	}
	return s
}
