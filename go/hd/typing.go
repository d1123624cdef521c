package hd

import (
	"math"
	"strings"

	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/words"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

// ---- C32: completing words while they are typed

// matching is the published words that start with a prefix, in order.
func matching(prefix string, limit int64) string {
	var out []string
	for i := 0; i < 2048 && (limit <= 0 || int64(len(out)) < limit); i++ {
		if w := ref.English[i]; strings.HasPrefix(w, prefix) {
			out = append(out, w)
		}
	}
	return strings.Join(out, " ")
}

// suggest looks a prefix up.
func suggest(e *env, prefix string, limit int64, how int64) (s string) {
	e.Guard("looking up a prefix", func() {
		if how%2 == 0 {
			s = words.FromPrefix("en", prefix, int(limit))
		} else {
			s = keyaddr.WordsFromPrefix("en", prefix, int(limit))
		}
	})
	if want := matching(prefix, limit); s != want {
		e.Fail("list", "the words that start with %q, at most %d, are %q, want %q", prefix, limit, short(s), short(want))
	}
	return
}

func short(s string) string {
	if len(s) > 200 {
		return s[:150] + " ... " + s[len(s)-40:]
	}
	return s
}

// execC32: people type phrases; every key press starts a lookup, whose answer
// comes when it comes; the list shown is that of the newest press answered.
// A word is chosen as soon as it is the only one left, or at its end.
func execC32(e *env) {
	e.RunActors(func(a int, o op, ix int) {
		switch o.K {
		case "type":
			data := o.Bytes()
			if len(data) == 0 {
				return
			}
			phrase := ref.Phrase(data)
			if n := int(abs64(o.Arg(0)))%4 + 1; len(phrase) > n && o.Arg(3) != 0 {
				phrase = phrase[:n] // a part will do
			}
			var chosen []string
			for _, w := range phrase {
				chosen = append(chosen, typeWord(e, o, w))
			}
			if strings.Join(chosen, " ") != strings.Join(phrase, " ") {
				e.Fail("chosen", "typing %q led to %q", phrase, chosen)
			}
			if len(phrase) == len(ref.Phrase(data)) {
				var got []byte
				var err error
				e.Guard("reading a phrase", func() { got, err = words.ToBytes("en", chosen) })
				if err != nil {
					e.Fail("refused", "the phrase %q is refused: %v", chosen, err)
				}
				e.Probe("whole phrase")
				e.State("typed", len(got))
			}
		case "ask":
			prefix := string(o.Bytes())
			s := suggest(e, prefix, o.Arg(0), o.Arg(1))
			n := len(strings.Fields(s))
			simrt.Event("%q: %d words", prefix, n)
			e.State("ask", len(prefix), min(n, 10), o.Arg(0) <= 0)
			// asking again with the limit below and above what there is
			for _, l := range []int64{int64(n), int64(n) + 1, int64(n) - 1} {
				suggest(e, prefix, l, o.Arg(1)+1)
			}
			// the same characters, divided otherwise between prefix and limit
			if o.Arg(1)%4 >= 2 {
				suggest(e, prefix, 12, o.Arg(1))
				for _, x := range []string{"1", " ", "|", ":", ",", "-", "\x00", "en", "e"} {
					suggest(e, prefix+x, 2, o.Arg(1))
					suggest(e, x+prefix, 12, o.Arg(1))
				}
				suggest(e, prefix+"12", 0, o.Arg(1))
			}
		case "language":
			var s string
			e.Guard("looking up a prefix", func() { s = words.FromPrefix(o.S, "a", 3) })
			if s != "" && o.S != "en" {
				e.Fail("language", "there are words %q in the language %q", s, o.S)
			}
		}
	})
}

// typeWord types one word letter by letter.
func typeWord(e *env, o op, w string) string {
	limit := []int64{0, 1, 2, 5, 12, math.MaxInt32}[abs64(o.Arg(1))%6]
	shown, at := "", -1
	var tasks []*simrt.Task
	press := func(i int) {
		p := w[:i]
		f := func() {
			s := suggest(e, p, limit, o.Arg(2)+int64(i))
			if i > at {
				shown, at = s, i
			}
		}
		n := 1
		if _, ok := o.Fault("dup"); ok {
			e.Fault("dup")
			n = 2
		}
		if _, ok := o.Fault("drop"); ok && i%2 == 0 && i < len(w) {
			e.Fault("drop")
			n = 0
		}
		for k := 0; k < n; k++ {
			d := int64(1000)
			if x, ok := o.Fault("delay"); ok {
				e.Fault("delay")
				d += abs64(x.Arg(0)) * int64((7*i+3*k)%5)
			}
			tasks = append(tasks, simrt.GoNamed("lookup", func() {
				simrt.Sleep(durNS(d))
				f()
			}))
		}
	}
	for i := 0; i <= len(w); i++ {
		press(i)
		simrt.Sleep(durNS(100_000))
		// the only word left is the one meant
		if ws := strings.Fields(shown); len(ws) == 1 && limit != 1 && at > 0 {
			for _, t := range tasks {
				simrt.Join(t)
			}
			return ws[0]
		}
	}
	for _, t := range tasks {
		simrt.Join(t)
	}
	for _, x := range strings.Fields(shown) {
		if x == w {
			return x
		}
	}
	e.Fail("missing", "%q is not among %q, the words that start with it", w, shown)
	return ""
}

func genC32(r *rng, thorough bool) *plan {
	p := &plan{}
	np := r.Range(1, 3)
	n := r.Range(2, 8)
	if thorough {
		n = r.Range(3, 24)
	}
	for i := 0; i < n; i++ {
		o := op{T: r.Intn(np)}
		switch r.Intn(6) {
		case 0, 1:
			o.K = "type"
			o.B = core.Hex(r.Bytes(1 + r.Intn(6)))
			o.A = []int64{int64(r.Intn(4)), int64(r.Intn(6)), int64(r.Intn(2)), int64(r.Intn(3))}
			switch r.Intn(6) {
			case 0:
				o.F = append(o.F, core.Fault{K: "dup"})
			case 1:
				o.F = append(o.F, core.Fault{K: "drop"})
			}
			if r.Chance(2) {
				o.F = append(o.F, core.Fault{K: "delay", A: []int64{int64(r.Intn(500_000))}})
			}
		case 2:
			o.K = "language"
			o.S = []string{"en", "EN", "", "fr", "en-US", "e"}[r.Intn(6)]
		default:
			o.K = "ask"
			w := ref.English[r.Intn(2048)]
			if r.Chance(6) {
				w = ref.English[[]int{0, 1, 2046, 2047}[r.Intn(4)]]
			}
			s := w[:r.Intn(len(w)+1)]
			switch r.Intn(9) {
			case 0:
				s += string(rune('a' + r.Intn(26)))
			case 1:
				s = strings.ToUpper(s)
			case 2:
				s += []string{" ", "\x00", "z", "é", "{", "\xff", "`"}[r.Intn(7)]
			case 3:
				s = []string{" ", "\x00", "z", "é", "{", "\xff", "`", "A", "Z"}[r.Intn(9)] + s
			case 4:
				s = string(rune('a'+r.Intn(26))) + string(rune('a'+r.Intn(26)))
			case 5:
				s = string(rune('a' + r.Intn(26)))
			}
			o.B = core.Hex([]byte(s))
			o.A = []int64{[]int64{0, 0, -1, 1, 2, 3, 5, 10, 100, 2047, 2048, 2049, math.MaxInt64, math.MinInt64}[r.Intn(14)], int64(r.Intn(4))}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// fixedC32 asks for every prefix of every word.
func fixedC32() []*plan {
	seen := map[string]bool{}
	var ps []*plan
	p := &plan{}
	for i := 0; i < 2048; i++ {
		w := ref.English[i]
		for k := 0; k <= len(w); k++ {
			if s := w[:k]; !seen[s] {
				seen[s] = true
				p.Ops = append(p.Ops, op{K: "ask", B: core.Hex([]byte(s)), A: []int64{0, int64(i)}})
				if len(p.Ops) == 40 {
					ps = append(ps, p)
					p = &plan{}
				}
			}
		}
	}
	return append(ps, p)
}
