package hd

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/words"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// ---- C15: phrases give back what they were made from

type backup struct {
	data   []byte
	phrase string
	name   string
}

type phrases struct {
	e     *env
	order []int
	disk  map[int]*disk
	made  map[int][]*backup
}

func execC15(e *env) {
	p := &phrases{e: e, order: e.Plan.Actors(), disk: map[int]*disk{}, made: map[int][]*backup{}}
	for _, a := range p.order {
		p.disk[a] = newDisk()
	}
	e.RunActors(func(a int, o op, ix int) {
		if c, ok := o.Fault("crash"); ok {
			if !simrt.RunKillable("wallet", 1+abs64(c.Arg(0))%3000, func() { p.step(a, o) }) {
				e.Fault("crash")
				p.recoverAll(a)
			}
			return
		}
		p.step(a, o)
	})
	for _, a := range p.order {
		p.recoverAll(a)
	}
}

// phraseOf makes the phrase through the package or the facade.
func (p *phrases) phraseOf(b []byte, how int64) string {
	e := p.e
	keep := cp(b)
	var ws []string
	var s string
	var err error
	e.Guard("making a phrase", func() {
		if how%2 == 0 {
			ws, err = words.FromBytes("en", b)
			s = strings.Join(ws, " ")
		} else {
			s, err = keyaddr.WordsFromBytes("en", b64.EncodeToString(b))
		}
	})
	if err != nil {
		e.Fail("refused", "no phrase for %d bytes %x: %v", len(b), keep, err)
	}
	e.Check(bytes.Equal(b, keep), "argument", "making a phrase changed its data")
	if want := strings.Join(ref.Phrase(keep), " "); s != want {
		e.Fail("phrase", "the phrase of %x is %q, want %q", keep, s, want)
	}
	return s
}

// back recovers the bytes.
func (p *phrases) back(s string, data []byte, how int64, what string) {
	e := p.e
	var got []byte
	var err error
	ws := strings.Split(s, " ")
	keep := append([]string{}, ws...)
	e.Guard("reading a phrase", func() {
		if how%2 == 0 {
			got, err = words.ToBytes("en", ws)
		} else {
			var t string
			if t, err = keyaddr.WordsToBytes("en", s); err == nil {
				got, err = b64.DecodeString(t)
			}
		}
	})
	if err != nil {
		e.Fail("refused", "the phrase of %d bytes %x is refused %s: %v", len(data), data, what, err)
	}
	for i := range ws {
		e.Check(ws[i] == keep[i], "argument", "reading a phrase changed it")
	}
	rs := ref.Readings(keep)
	if bytes.Equal(got, data) {
		e.Probe("exact")
		return
	}
	// only allowed if it is also the phrase of a shorter string
	for _, r := range rs {
		if bytes.Equal(r, got) && len(got) == len(data)-1 {
			e.Probe("the phrase of a shorter string too")
			return
		}
	}
	e.Fail("changed", "the phrase of %x gives %x %s", data, got, what)
}

func (p *phrases) recoverAll(a int) {
	for _, m := range p.made[a] {
		b, ok := p.disk[a].read(m.name)
		if !ok {
			continue // the write never finished
		}
		p.back(string(b), m.data, int64(len(m.name)), "after a restart")
	}
}

func (p *phrases) step(a int, o op) {
	e := p.e
	switch o.K {
	case "make":
		data := o.Bytes()
		s := p.phraseOf(data, o.Arg(0))
		m := &backup{data: data, phrase: s, name: fmt.Sprintf("p%d", len(p.made[a]))}
		p.made[a] = append(p.made[a], m)
		p.disk[a].replace(m.name, []byte(s))
		e.State("phrase", len(data), len(ref.Readings(strings.Split(s, " "))))
	case "read":
		m := pick(p.made[a], o.Arg(0))
		if m == nil {
			return
		}
		p.back(m.phrase, m.data, o.Arg(1), "at once")
	case "restart":
		e.Fault("restart")
		p.recoverAll(a)
	case "send":
		m := pick(p.made[a], o.Arg(0))
		if m == nil {
			return
		}
		deliver(e, o, func(int) {
			p.back(m.phrase, m.data, o.Arg(1), "at a peer")
			if s := p.phraseOf(cp(m.data), o.Arg(1)+1); s != m.phrase {
				e.Fail("phrase", "a peer's phrase for %x is %q", m.data, s)
			}
		})
	case "wallet": // keys restored from a phrase
		seed := o.Bytes()
		k, err := keyaddr.NewKey(b64.EncodeToString(seed))
		if err != nil {
			return
		}
		s := p.phraseOf(seed, 1)
		t, err := keyaddr.WordsToBytes("en", s)
		if err != nil {
			e.Fail("refused", "the phrase of a seed is refused: %v", err)
		}
		if len(ref.Readings(strings.Split(s, " "))) > 1 {
			e.Probe("ambiguous seed")
			return
		}
		k2, err := keyaddr.NewKey(t)
		if err != nil {
			e.Fail("changed", "no key from the recovered seed: %v", err)
		}
		e.Check(k.Key == k2.Key, "changed", "the recovered wallet's key differs (seed %x)", seed)
		got, _ := b64.DecodeString(t)
		mk, err := key.NewMaster(got)
		if err != nil {
			e.Fail("changed", "no key from the recovered seed: %v", err)
		}
		h, _ := ref.Master(seed)
		mustBe(e, "changed", mk, h, "the recovered wallet's key")
		e.Probe("wallet restored")
	case "garbled": // base64 text that was damaged on the way
		t := []byte(b64.EncodeToString(o.Bytes()))
		x := newRNG(uint64(o.Arg(0)))
		for i := 0; i < 8; i++ {
			d := cp(t)
			j := x.Intn(len(d) + 1)
			switch x.Intn(6) {
			case 4: // a form field whose + became a space, or the URL alphabet
				d = []byte(strings.NewReplacer([][]string{{"+", " "}, {"+", "-", "/", "_"}, {"+", "%2B"}, {"/", "%2F"}, {"+", ".", "/", "-"}, {"+", ",", "/", "_"}}[x.Intn(6)]...).Replace(string(t)))
			case 5: // a character that is not in the alphabet
				if j < len(d) {
					d[j] = " \t-_.,:;!~*'()%$#@&\"\\\x7f\x00"[x.Intn(23)]
				}
			case 0:
				d = append(d[:j:j], append([]byte{"-_*. ~%,"[x.Intn(8)]}, d[j:]...)...)
			case 1:
				d = d[:j]
			case 2:
				d = append(d, t[:x.Intn(len(t)+1)]...)
			case 3:
				if j < len(d) {
					d[j] = "=-_\x00"[x.Intn(4)]
				}
			}
			if _, err := b64.DecodeString(string(d)); err == nil {
				continue
			}
			var err, err2 error
			e.Guard("reading garbled base64", func() {
				_, err = keyaddr.NewKey(string(d))
				_, err2 = keyaddr.WordsFromBytes("en", string(d))
			})
			if err == nil || err2 == nil {
				e.Fail("garbled", "%q, garbled from %q, gives a key (%v) or a phrase (%v)", d, t, err == nil, err2 == nil)
			}
			e.Fault("garbled text")
		}
	case "sweep": // the same length, all simple patterns
		n := int(abs64(o.Arg(0)) % 72)
		x := newRNG(uint64(o.Arg(1)))
		for i := 0; i < 12; i++ {
			b := x.Bytes(n)
			switch i {
			case 0:
				b = make([]byte, n)
			case 1:
				b = bytes.Repeat([]byte{0xff}, n)
			case 2, 3, 4: // low end zero
				for j := n - 1; j >= 0 && j >= n-i+1; j-- {
					b[j] = 0
				}
			case 5, 6:
				for j := 0; j < n && j < i-3; j++ {
					b[j] = 0
				}
			}
			s := p.phraseOf(b, int64(i))
			p.back(s, b, int64(i)/2, "at once")
		}
	case "long": // more bytes than any counter of bits, bytes or words may expect
		n := int(abs64(o.Arg(0)) % 200_000)
		x := newRNG(uint64(o.Arg(1)))
		b := x.Bytes(n)
		s := p.phraseOf(b, o.Arg(1))
		p.back(s, b, o.Arg(1), "at once")
		e.Probe("a long phrase")
	case "words": // every word number at some position
		x := newRNG(uint64(o.Arg(1)))
		base := int(abs64(o.Arg(0)) % 2048)
		for k := 0; k < 16; k++ {
			// bytes whose first word is base+k
			b := x.Bytes(16)
			w := (base + k) % 2048
			b[0], b[1] = byte(w>>3), byte(w<<5)|b[1]&31
			s := p.phraseOf(b, int64(k))
			e.Check(strings.HasPrefix(s, ref.English[w]+" "), "phrase", "the first word for %x is not %s", b, ref.English[w])
			p.back(s, b, int64(k), "at once")
		}
	case "lang":
		b := o.Bytes()
		l := pick([]string{"", "EN", "En", "fr", "en ", "english", "e", "_english"}, o.Arg(0))
		var err, err2 error
		e.Guard("an unknown language", func() {
			_, err = words.FromBytes(l, b)
			_, err2 = keyaddr.WordsFromBytes(l, b64.EncodeToString(b))
		})
		e.Check(err != nil && err2 != nil, "language", "a phrase in language %q", l)
	}
}

func genBytes(r *rng) []byte {
	n := []int{0, 1, 2, 3, 4, 8, 15, 16, 17, 20, 24, 28, 31, 32, 33, 64, 65}[r.Intn(17)]
	if r.Chance(2) {
		n = r.Intn(80)
	}
	if r.Chance(15) {
		n = r.Range(80, 300)
	}
	b := r.Bytes(n)
	switch r.Intn(6) {
	case 0:
		b = make([]byte, n)
	case 1:
		b = bytes.Repeat([]byte{0xff}, n)
	case 2:
		for i := 0; i < n && i < r.Range(1, 8); i++ {
			b[n-1-i] = 0
		}
	}
	return b
}

func genC15(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(5, 12)
	if thorough {
		n = r.Range(8, 40)
	}
	for a := 0; a < np; a++ {
		p.Ops = append(p.Ops, op{T: a, K: "make", A: []int64{int64(r.Intn(2))}, B: core.Hex(genBytes(r))})
	}
	for i := 0; i < n; i++ {
		a := r.Intn(np)
		switch r.Intn(11) {
		case 10:
			p.Ops = append(p.Ops, op{T: a, K: "garbled", A: []int64{int64(r.Next() >> 1)}, B: core.Hex(r.Bytes(r.Range(16, 64)))})
		case 0, 1:
			p.Ops = append(p.Ops, op{T: a, K: "make", A: []int64{int64(r.Intn(2))}, B: core.Hex(genBytes(r)), F: genFault(r, 4, "crash", int64(r.Intn(3000)))})
		case 2:
			p.Ops = append(p.Ops, op{T: a, K: "read", A: []int64{int64(r.Intn(8)), int64(r.Intn(2))}})
		case 3:
			p.Ops = append(p.Ops, op{T: a, K: "restart"})
		case 4, 5:
			p.Ops = append(p.Ops, op{T: a, K: "send", A: []int64{int64(r.Intn(8)), int64(r.Intn(2))}, F: netFaults(r)})
		case 6:
			p.Ops = append(p.Ops, op{T: a, K: "wallet", B: core.Hex(genSeed(r))})
		case 7:
			p.Ops = append(p.Ops, op{T: a, K: "sweep", A: []int64{int64(r.Intn(72)), int64(r.Next() >> 1)}})
		case 8:
			p.Ops = append(p.Ops, op{T: a, K: "words", A: []int64{int64(r.Intn(2048)), int64(r.Next() >> 1)}})
		case 9:
			p.Ops = append(p.Ops, op{T: a, K: "lang", A: []int64{int64(r.Intn(8))}, B: core.Hex(r.Bytes(16))})
		}
	}
	return p
}

// fixedC15 goes through all lengths and all words.
func fixedC15() []*plan {
	p := &plan{}
	for n := int64(0); n < 72; n++ {
		p.Ops = append(p.Ops, op{K: "sweep", A: []int64{n, n}})
	}
	q := &plan{}
	for w := int64(0); w < 2048; w += 16 {
		q.Ops = append(q.Ops, op{K: "words", A: []int64{w, w}})
	}
	l := &plan{}
	for i, n := range longSizes {
		l.Ops = append(l.Ops, op{K: "long", A: []int64{int64(n), int64(i)}}, op{K: "long", A: []int64{int64(n), int64(i + 1)}})
	}
	return []*plan{p, q, l}
}

var longSizes = []int{255, 256, 257, 351, 352, 353, 511, 512, 513, 1022, 1023, 1024, 1025, 1407, 1408, 1409, 2047, 2048, 2049, 2815, 2816, 2817, 4095, 4096, 4097, 5000, 8191, 8192, 8193}

// ---- C16: wrong phrases

func execC16(e *env) { e.RunActors(func(a int, o op, ix int) { c16(e, o) }) }

// judge reads a word list and checks the verdict.
func judge(e *env, ws []string, how int64, what string) {
	keep := append([]string{}, ws...)
	var got []byte
	var err error
	e.Guard("reading a phrase", func() {
		if how%2 == 0 {
			got, err = words.ToBytes("en", ws)
		} else {
			var t string
			if t, err = keyaddr.WordsToBytes("en", strings.Join(ws, " ")); err == nil {
				got, err = b64.DecodeString(t)
			}
		}
	})
	if how%2 == 1 { // the facade sees the words between single spaces
		keep = strings.Split(strings.Join(ws, " "), " ")
	}
	rs := ref.Readings(keep)
	if err != nil {
		if len(rs) > 0 {
			e.Fail("refused", "%q, the phrase of %x, is refused: %v", strings.Join(keep, " "), rs[0], err)
		}
		return
	}
	for _, r := range rs {
		if bytes.Equal(r, got) {
			e.Probe("another phrase")
			return
		}
	}
	e.Fail("accepted", "%d words %q (%s) are accepted as %x, whose phrase is %q", len(keep), strings.Join(keep, " "), what, got, strings.Join(ref.Phrase(got), " "))
}

// some24 lists all positions below n, or 24 of them if there are more.
func some24(r *rng, n int) (out []int) {
	for i := 0; i < n; i++ {
		if n <= 24 || r.Chance(n/24) && len(out) < 24 {
			out = append(out, i)
		}
	}
	return out
}

func c16(e *env, o op) {
	x := newRNG(uint64(o.Arg(0)))
	how := o.Arg(1)
	data := genBytes(x)
	orig := ref.Phrase(data)
	ws := append([]string{}, orig...)
	some := func() string { return ref.English[x.Intn(2048)] }
	at := func() int {
		if len(ws) == 0 {
			return 0
		}
		return x.Intn(len(ws))
	}
	switch o.K {
	case "wrong": // another listed word
		e.Fault("wrong word")
		i := at()
		for k := 0; k < 24; k++ {
			y := append([]string{}, ws...)
			y[i] = some()
			judge(e, y, how, "a wrong word")
		}
	case "near": // the neighbours in the list
		e.Fault("wrong word")
		for _, i := range some24(x, len(ws)) {
			n, _ := ref.WordNumber(ws[i])
			for _, d := range []int{-1, 1, 2, 16, 1024} {
				y := append([]string{}, ws...)
				y[i] = ref.English[(n+d+2048)%2048]
				judge(e, y, how, "a neighbouring word")
			}
		}
	case "unlisted":
		e.Fault("unlisted word")
		for k, i := range some24(x, len(ws)) {
			w := ws[i]
			for _, v := range []string{"", w + "s", w[:len(w)-1], w[:min(4, len(w))], strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:],
				w + " ", " " + w, w + "\n", "zzz", "a", "zoologist", "zo", "aba", w[1:], w + w, "\x00", "é", "~"} {
				if _, ok := ref.WordNumber(v); ok {
					continue
				}
				y := append([]string{}, ws...)
				y[i] = v
				// the package's view and the facade's
				judge(e, y, 0, "an unlisted word")
				judge(e, y, 1, "an unlisted word")
			}
			if k > 6 {
				break
			}
		}
	case "swap":
		e.Fault("swapped words")
		for _, i := range some24(x, len(ws)-1) {
			y := append([]string{}, ws...)
			j := i + 1
			if x.Chance(2) {
				j = x.Intn(len(ws))
			}
			y[i], y[j] = y[j], y[i]
			judge(e, y, how, "swapped words")
		}
	case "drop":
		e.Fault("missing word")
		for _, i := range some24(x, len(ws)) {
			y := append(append([]string{}, ws[:i]...), ws[i+1:]...)
			judge(e, y, how, "a missing word")
		}
		judge(e, ws[:at()], how, "the end missing")
		judge(e, ws[at():], how, "the beginning missing")
	case "repeat":
		e.Fault("repeated word")
		for _, i := range some24(x, len(ws)) {
			y := append(append(append([]string{}, ws[:i+1]...), ws[i]), ws[i+1:]...)
			judge(e, y, how, "a repeated word")
		}
		judge(e, append(append([]string{}, ws...), ws...), how, "the phrase twice")
	case "add":
		e.Fault("added word")
		for k := 0; k < 16; k++ {
			i := x.Intn(len(ws) + 1)
			y := append(append(append([]string{}, ws[:i]...), some()), ws[i:]...)
			judge(e, y, how, "an added word")
		}
	case "long": // a wrong word anywhere in a long phrase
		data = x.Bytes(int(abs64(o.Arg(2)) % 200_000))
		orig = ref.Phrase(data)
		e.Fault("wrong word")
		for k := 0; k < 12; k++ {
			ws := append([]string{}, orig...)
			i := x.Intn(len(ws))
			switch k {
			case 0:
				i = 0
			case 1:
				i = len(ws) - 1
			case 2:
				i = len(ws) - 2
			case 3:
				i = len(ws) / 2
			}
			if k%3 == 2 {
				j := x.Intn(len(ws))
				ws[i], ws[j] = ws[j], ws[i]
			} else {
				ws[i] = some()
			}
			judge(e, ws, how, "a wrong word in a long phrase")
		}
		judge(e, orig[:len(orig)-1], how, "a missing word")
		judge(e, append(append([]string{}, orig...), some()), how, "an added word")
	case "random":
		e.Fault("random words")
		n := int(abs64(o.Arg(2)) % 40)
		for k := 0; k < 24; k++ {
			y := make([]string, n)
			for i := range y {
				y[i] = some()
				if k%4 == 0 {
					y[i] = "abandon"
				}
				if k%4 == 1 {
					y[i] = "zoo"
				}
			}
			if n > 0 && k%2 == 0 {
				y[n-1] = some()
			}
			judge(e, y, how, "random words")
		}
	case "lastword": // a good phrase with every possible last word
		e.Fault("wrong word")
		y := append([]string{}, ws...)
		if len(y) > 30 {
			return
		}
		for k := 0; k < 2048; k++ {
			y[len(y)-1] = ref.English[k]
			judge(e, y, 0, "another last word")
		}
	case "lang":
		l := pick([]string{"", "EN", "En", "fr", "en ", "english", "e"}, o.Arg(2))
		var err, err2 error
		e.Guard("an unknown language", func() {
			_, err = words.ToBytes(l, ws)
			_, err2 = keyaddr.WordsToBytes(l, strings.Join(ws, " "))
		})
		e.Check(err != nil && err2 != nil, "language", "a phrase in language %q is accepted", l)
		e.Guard("no words", func() {
			_, err = words.ToBytes(l, nil)
			_, err2 = words.ToBytes("en", nil)
		})
		e.Check(err != nil && err2 != nil, "accepted", "an empty list of words is accepted")
	}
	judge(e, orig, how, "intact")
	e.State("words", o.K, len(orig), how)
}

func genC16(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 2)
	n := r.Range(2, 5)
	if thorough {
		n = r.Range(3, 12)
	}
	for i := 0; i < n; i++ {
		k := []string{"wrong", "near", "unlisted", "swap", "drop", "repeat", "add", "random", "random", "lang"}[r.Intn(10)]
		if r.Chance(40) {
			k = "lastword"
		}
		p.Ops = append(p.Ops, op{T: r.Intn(np), K: k, A: []int64{int64(r.Next() >> 1), int64(r.Intn(2)), int64(r.Intn(40))}})
	}
	return p
}

// fixedC16: random lists of every number of words.
func fixedC16() []*plan {
	p := &plan{}
	for n := int64(0); n < 40; n++ {
		p.Ops = append(p.Ops, op{K: "random", A: []int64{n, n % 2, n}})
	}
	out := []*plan{p}
	for i, n := range longSizes {
		out = append(out, &plan{Ops: []op{{K: "long", A: []int64{int64(i) * 77, int64(i) % 2, int64(n)}}}})
	}
	return out
}
