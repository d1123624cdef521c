// Package svc holds the scenario for the WebAssembly key service: a simulated
// page calls the real service and keeps account of its answers.
package svc

import (
	"encoding/base64"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/ndau/ndaumath/pkg/keyaddr"
	"verif/core"
	"verif/ref"
	js "verif/simjs"
	"verif/simrt"
)

type (
	op   = core.Op
	plan = core.Plan
	env  = core.Env
	rng  = simrt.RNG
)

var (
	reinit  func()
	service func()
)

// Checks are the checks of this binary.
func Checks(re func(), main func()) []*core.Check {
	reinit, service = re, main
	return []*core.Check{{Prop: "C17", Quick: 50000, Thorough: 600000,
		Rule:      "A simulated page loads the service, calls its functions with good and bad arguments and callbacks that throw or call again, overlaps and repeats shutdowns, closes and reloads, while its clock jumps; every call must be answered once, with the library's result or an error.",
		Real:      []string{"cmd/keyaddr (handlers, helpers, main)", "pkg/keyaddr and everything below it", "btcec, x/crypto and msgp (dependencies, not instrumented)"},
		Stub:      []string{"the page and its callbacks", "syscall/js", "the JavaScript event loop and goroutine scheduling", "the clock and the console"},
		Faults:    []string{"callback throws", "error handler throws", "no callback", "odd argument", "garbled argument", "wrong number of arguments", "nested call", "clock jump", "page closed", "shutdown"},
		Assume:    []string{"the page does not replace console.log or Date by things that throw", "numbers are whole", "goroutines are not preempted between blocking operations (as in WebAssembly)"},
		Scenarios: []*core.Scenario{{Name: "page", Weight: 1, Coop: true, Budget: 80_000_000, Gen: gen, Exec: run, Fixed: fixed}}}}
}

// functions and what their arguments are
var functions = []struct{ name, args string }{
	{"newKey", "e"}, {"wordsToBytes", "lw"}, {"deriveFrom", "kpc"}, {"ndauAddress", "k"}, {"toPublic", "k"}, {"child", "kn"},
	{"sign", "km"}, {"hardenedChild", "kn"}, {"wordsFromPrefix", "lxn"}, {"isPrivate", "k"}, {"wordsFromBytes", "le"}, {"fromString", "k"},
}

// call is one call and its answers.
type call struct {
	what    string
	usable  bool // has a callback that can be counted
	want    string
	lenient bool // an error is right as well
	mustErr bool
	answers int
	instant int // number of the program instance
}

type page struct {
	e         *env
	last      []string // the texts of the last good call
	lastName  string
	given     []string // the texts of the next call
	h         *js.Host
	ns        js.Value
	queue     []op
	calls     []*call
	keys      []string
	instance  int
	loose     bool
	deepest   int  // of calls made by callbacks
	exiting   bool // a shutdown was asked for
	depth     int
	reports   int // calls of the page's own error handler
	handler   int // 0: the service's, 1: own, 2: own that throws
	wantRep   int
	sureExit  bool
	calmExits int
	skew      float64
}

func run(e *env) {
	p := &page{e: e, deepest: 6}
	if n := e.Plan.Cfg["deep"]; n > 0 {
		p.deepest = int(n % 1000)
	}
	p.queue = append(p.queue, e.Plan.Ops...)
	if len(p.queue) == 0 || p.queue[0].K != "load" {
		p.load(op{K: "load"})
	}
	for len(p.queue) > 0 {
		p.next()
	}
	p.settle("at the end")
	simrt.Stop()
}

func (p *page) next() {
	o := p.queue[0]
	p.queue = p.queue[1:]
	simrt.Event("op %s %v", o.K, o.A)
	switch o.K {
	case "load":
		if p.depth > 0 {
			return
		}
		p.load(o)
	case "wait":
		if p.depth > 0 {
			return // scripts do not wait
		}
		simrt.Sleep(time.Duration(o.Arg(0)%3600) * time.Second)
		simrt.Idle()
	case "clock":
		p.e.Fault("clock jump")
		p.skew = []float64{0, -1e15, 1e15, 1e300, -5, 0.5, math.NaN()}[o.Arg(0)%7]
	case "handler":
		p.install(int(o.Arg(0) % 3))
	case "level":
		l := []js.Value{js.ValueOf("D"), js.ValueOf("I"), js.ValueOf("E"), js.ValueOf(""), js.ValueOf("X"), js.ValueOf(3), js.Null(), js.Undefined()}[o.Arg(0)%8]
		p.h.Global.Set("KeyaddrLogLevel", l)
	case "exit":
		p.exit(o)
	case "burst": // A: seed, callback kind, function, damage, count
		p.e.Probe("burst of calls")
		x := simrt.NewRNG(uint64(o.Arg(0)))
		var qs []op
		for k := o.Arg(4) % 1000; k > 0; k-- {
			qs = append(qs, op{K: functions[uint64(o.Arg(2))%uint64(len(functions))].name, A: []int64{int64(x.Next() >> 1), o.Arg(1), 0, o.Arg(3)}})
		}
		p.queue = append(qs, p.queue...)
	case "shift": // the last call again, its texts divided otherwise
		if len(p.last) > 1 {
			p.e.Probe("texts divided otherwise")
			x := simrt.NewRNG(uint64(o.Arg(0)))
			a := append([]string{}, p.last...)
			i := x.Intn(len(a) - 1)
			l, r := a[i], a[i+1]
			switch x.Intn(4) {
			case 0:
				a[i], a[i+1] = r, l
			case 1:
				a[i], a[i+1] = l+r, ""
			case 2:
				t := l + r
				k := x.Intn(len(t) + 1)
				a[i], a[i+1] = t[:k], t[k:]
			default: // to the next slash or blank
				t := l + r
				k := (len(l) + 1 + x.Intn(3)) % (len(t) + 1)
				for k < len(t) && t[k] != '/' && t[k] != ' ' {
					k++
				}
				a[i], a[i+1] = t[:k], t[k:]
			}
			p.given = a
			p.call(op{K: p.lastName, A: []int64{o.Arg(0), o.Arg(1) & 1, 0, 0}})
		}
	default:
		p.call(o)
	}
	p.e.State(o.K, p.depth, p.exiting, p.h.Prog.Ended(), p.loose, o.Arg(1))
}

// load opens the page (again).
func (p *page) load(o op) {
	if p.h != nil {
		p.settle("before reloading")
		if !p.h.Prog.Ended() {
			p.e.Fault("page closed")
			p.h.Prog.End()
		}
		reinit()
	}
	p.instance++
	p.exiting, p.sureExit = false, false
	p.h = js.NewHost()
	p.loose = o.Arg(0)%4 == 3
	p.h.Now = func() float64 { return float64(simrt.Now().UnixMilli()) + p.skew }
	p.reports, p.wantRep, p.handler = 0, 0, 0
	if h := int(o.Arg(1) % 3); h > 0 {
		p.install(h)
	}
	if l := o.Arg(2) % 4; l > 0 {
		p.h.Global.Set("KeyaddrLogLevel", []string{"", "D", "E", "I"}[l])
	}
	p.h.Start(service)
	p.h.Loose = p.loose
	p.ns = p.h.Global.Get("KeyaddrNS")
	if p.ns.Type() != js.TypeObject {
		p.e.Fail("service", "the service does not offer its functions")
	}
	if p.h.Prog.Ended() {
		p.e.Fail("service", "the service ends by itself")
	}
}

// install puts an error handler of the page in place.
func (p *page) install(kind int) {
	if kind == 0 {
		return
	}
	p.handler = kind
	p.h.Global.Set("KeyaddrErrorHandler", js.Native(func(_ js.Value, a []js.Value) (js.Value, *js.Value) {
		if len(a) != 1 || a[0].Type() != js.TypeString || a[0].String() == "" {
			p.e.Fail("report", "the error handler is called with %v", show(a))
		}
		p.reports++
		if kind == 2 {
			p.e.Fault("error handler throws")
			t := p.thrown(p.reports)
			return js.Value{}, &t
		}
		return js.Value{}, nil
	}))
}

func (p *page) thrown(n int) js.Value {
	switch n % 5 {
	case 1:
		return js.ValueOf("a string")
	case 2:
		return js.Undefined()
	case 3:
		return js.Null()
	case 4:
		return js.Object()
	}
	return js.NewError("Error", js.ValueOf("page error"))
}

// reported counts reports, whoever received them.
func (p *page) reported() int {
	n := p.reports
	for _, l := range p.h.Lines {
		if strings.Contains(l, "WASM Keyaddr Error") {
			n++
		}
	}
	return n
}

func show(a []js.Value) string {
	var s []string
	for _, x := range a {
		t := x.String()
		if x.Type() == js.TypeObject && x.Get("message").Type() == js.TypeString {
			t = "Error(" + x.Get("message").String() + ")"
		}
		if len(t) > 120 {
			t = t[:120] + "..."
		}
		s = append(s, fmt.Sprintf("%s %q", x.Type(), t))
	}
	return "(" + strings.Join(s, ", ") + ")"
}

// settle lets everything come to rest and checks the account.
func (p *page) settle(when string) {
	simrt.Idle()
	simrt.Sleep(time.Hour)
	simrt.Idle()
	for _, c := range p.calls {
		if c.instant != p.instance || c.answers > 0 || !c.usable {
			continue
		}
		if p.exiting {
			continue // it may have been cut off by the shutdown
		}
		p.e.Fail("unanswered", "%s is not answered (%s)", c.what, when)
	}
	if !p.exiting && p.reported() != p.wantRep {
		p.e.Fail("report", "%d calls without a usable callback, %d reports to the error handler (%s)", p.wantRep, p.reported(), when)
	}
	if p.reported() > p.wantRep {
		p.e.Fail("report", "%d calls without a usable callback, %d reports to the error handler (%s)", p.wantRep, p.reported(), when)
	}
	if p.sureExit && !p.h.Prog.Ended() {
		p.e.Fail("shutdown", "an answered shutdown has no effect (%s)", when)
	}
	if p.h.Prog.Ended() && !p.exiting {
		p.e.Fail("crash", "the service ended without having been asked to (%s)", when)
	}
}

// callback makes the function that gets a call's answer.
func (p *page) callback(c *call, kind, nest int64, seen func(a []js.Value)) js.Value {
	return js.Native(func(_ js.Value, a []js.Value) (js.Value, *js.Value) {
		c.answers++
		simrt.Event("answer to %s: %s", c.what, show(a))
		if c.answers > 1 {
			p.e.Fail("twice", "%s is answered again, with %s", c.what, show(a))
		}
		if c.instant != p.instance {
			p.e.Fail("late", "%s is answered by another instance", c.what)
		}
		p.judge(c, a)
		if seen != nil {
			seen(a)
		}
		p.depth++
		for ; nest > 0 && len(p.queue) > 0 && p.depth < p.deepest; nest-- {
			p.e.Fault("nested call")
			p.next()
		}
		p.depth--
		if kind == 1 {
			p.e.Fault("callback throws")
			t := p.thrown(int(nest) + len(c.what))
			return js.Value{}, &t
		}
		return js.Value{}, nil
	})
}

func nothing(v js.Value) bool { return v.IsNull() || v.IsUndefined() }

// judge checks an answer.
func (p *page) judge(c *call, a []js.Value) {
	if len(a) == 1 {
		a = append(a, js.Undefined())
	}
	if len(a) != 2 {
		p.e.Fail("answer", "%s is answered with %d values %s", c.what, len(a), show(a))
	}
	if !nothing(a[0]) {
		if !a[0].Truthy() {
			p.e.Fail("answer", "%s is answered with an error %s that is false", c.what, show(a))
		}
		if !nothing(a[1]) {
			p.e.Fail("answer", "%s is answered with an error and a value %s", c.what, show(a))
		}
		if !c.mustErr && !c.lenient {
			p.e.Fail("answer", "%s is answered with an error %s, the library's result is %s", c.what, show(a), c.want)
		}
		p.e.Probe("error answered")
		return
	}
	if c.mustErr {
		p.e.Fail("answer", "%s is answered with %s, the library's result is an error", c.what, show(a))
	}
	if got := value(a[1]); got != c.want {
		p.e.Fail("answer", "%s is answered with %s, the library's result is %s", c.what, show(a), c.want)
	}
	p.e.Probe("result answered")
	if s := a[1]; s.Type() == js.TypeString && (strings.HasPrefix(s.String(), "npvt") || strings.HasPrefix(s.String(), "npub")) && len(p.keys) < 20 {
		p.keys = append(p.keys, s.String())
	}
}

func value(v js.Value) string {
	if v.Type() == js.TypeObject {
		s := "{"
		for _, k := range v.Keys() {
			s += k + ":" + value(v.Get(k)) + " "
		}
		return s + "}"
	}
	return v.Type().String() + " " + v.String()
}

// argument makes an argument of a kind.
func (p *page) argument(x *rng, k byte) js.Value {
	switch k {
	case 'e':
		n := []int{16, 32, 64, 20, 15, 65, 0, 33}[x.Intn(8)]
		s := base64.StdEncoding.EncodeToString(x.Bytes(n))
		if x.Chance(8) {
			s = s[:len(s)/2] + "*"
		}
		return js.ValueOf(s)
	case 'l':
		if x.Chance(4) {
			return js.ValueOf([]string{"", "EN", "fr", "english"}[x.Intn(4)])
		}
		return js.ValueOf("en")
	case 'w':
		ws := ref.Phrase(x.Bytes([]int{16, 32, 3, 20}[x.Intn(4)]))
		switch x.Intn(6) {
		case 0:
			ws[x.Intn(len(ws))] = ref.English[x.Intn(2048)]
		case 1:
			ws = ws[1:]
		}
		return js.ValueOf(strings.Join(ws, " "))
	case 'k':
		if len(p.keys) > 0 && !x.Chance(6) {
			s := p.keys[x.Intn(len(p.keys))]
			if x.Chance(10) {
				s = s[:len(s)-1-x.Intn(3)]
			}
			return js.ValueOf(s)
		}
		return js.ValueOf([]string{"", "npvt", "npub", "foo", "npubaaaa", "npvt8"}[x.Intn(6)])
	case 'p':
		return js.ValueOf([]string{"/", "/", "/1", "", "/1'/2", "x"}[x.Intn(6)])
	case 'c':
		if x.Chance(12) { // errors may quote what was given
			return js.ValueOf("/" + strings.Repeat("7", []int{40, 300, 1000, 5000, 70000}[x.Intn(5)]))
		}
		return js.ValueOf([]string{"/1", "/2'", "/1/2", "/44'/20036'/100/1", "/1'/2/3", "/", "/2147483648", "/4294967296", "1", "/1/", "/a"}[x.Intn(11)])
	case 'n':
		if x.Chance(4) { // small after a loss of the upper bits
			return js.ValueOf(float64(int64(1)<<uint([]int{8, 15, 16, 24, 31, 32, 33, 40, 48, 52}[x.Intn(10)])*int64(x.Range(1, 3)) + int64(x.Range(-3, 9))))
		}
		return js.ValueOf([]float64{0, 1, 2, 100, 7, 2147483647, 2147483648, -1, -2147483648, -2147483649, 4294967296, 1e15, -1e15, 1e300, -1e300, math.Inf(1)}[x.Intn(16)])
	case 'm':
		s := base64.StdEncoding.EncodeToString(x.Bytes(x.Intn(60)))
		if x.Chance(6) {
			s = "~" + s
		}
		return js.ValueOf(s)
	case 'x':
		return js.ValueOf([]string{"", "a", "ab", "zo", "zoo", "zz", "A", "e", "\x00", "é"}[x.Intn(10)])
	}
	panic("argument")
}

func odd(x *rng) js.Value {
	switch x.Intn(12) {
	case 0:
		return js.Undefined()
	case 1:
		return js.Null()
	case 2:
		return js.ValueOf(true)
	case 3:
		return js.ValueOf(42)
	case 4:
		return js.Object()
	case 5:
		return js.Array(js.ValueOf("a"))
	case 6:
		return js.Native(func(js.Value, []js.Value) (js.Value, *js.Value) { return js.Value{}, nil })
	case 7:
		return js.Symbol()
	case 8:
		return js.ValueOf("")
	case 9:
		return js.ValueOf(strings.Repeat("x", 3000))
	case 10:
		return js.ValueOf("a\x00b\u2603\U0001f600")
	}
	return js.ValueOf(false)
}

// garble changes a text slightly; the library decides what it is worth.
func garble(x *rng, s string) string {
	at := x.Intn(len(s) + 1)
	switch x.Intn(12) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s + " "
	case 2:
		return " " + s
	case 3:
		return s + "\n"
	case 4:
		return "\t" + s
	case 5:
		return s[:at] + " " + s[at:]
	case 6:
		return s + "\x00"
	case 7:
		return s + s
	case 8:
		return s[:at] + s
	case 9:
		return strings.ReplaceAll(s, " ", "  ")
	case 10:
		return s[:at]
	}
	return strings.ToUpper(s[:at]) + s[at:]
}

// want asks the library.
func want(name string, a []js.Value) (string, error) {
	s := func(i int) string { return a[i].String() }
	str := func(t string, err error) (string, error) { return "string " + t, err }
	key := func(k *keyaddr.Key, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return str(k.Key, nil)
	}
	n := func(i int) (int64, error) {
		if a[i].Type() != js.TypeNumber {
			return 0, fmt.Errorf("not a number")
		}
		return int64(a[i].Int()), nil
	}
	switch name {
	case "newKey":
		return key(keyaddr.NewKey(s(0)))
	case "wordsToBytes":
		l := "en"
		if !a[0].IsUndefined() {
			l = s(0)
		}
		return str(keyaddr.WordsToBytes(l, s(1)))
	case "deriveFrom":
		return key(keyaddr.DeriveFrom(s(0), s(1), s(2)))
	case "ndauAddress":
		ad, err := (&keyaddr.Key{Key: s(0)}).NdauAddress()
		if err != nil {
			return "", err
		}
		return str(ad.Address, nil)
	case "toPublic":
		return key((&keyaddr.Key{Key: s(0)}).ToPublic())
	case "child", "hardenedChild":
		i, err := n(1)
		if err != nil {
			return "", err
		}
		if i != int64(int32(i)) {
			return "", fmt.Errorf("out of range")
		}
		if name == "child" {
			return key((&keyaddr.Key{Key: s(0)}).Child(int32(i)))
		}
		return key((&keyaddr.Key{Key: s(0)}).HardenedChild(int32(i)))
	case "sign":
		g, err := (&keyaddr.Key{Key: s(0)}).Sign(s(1))
		if err != nil {
			return "", err
		}
		return str(g.Signature, nil)
	case "wordsFromPrefix":
		i, err := n(2)
		if err != nil {
			return "", err
		}
		return str(keyaddr.WordsFromPrefix(s(0), s(1), int(i)), nil)
	case "isPrivate":
		b, err := (&keyaddr.Key{Key: s(0)}).IsPrivate()
		return fmt.Sprintf("boolean <boolean: %v>", b), err
	case "wordsFromBytes":
		return str(keyaddr.WordsFromBytes(s(0), s(1)))
	case "fromString":
		k, err := keyaddr.FromString(s(0))
		if err != nil {
			return "", err
		}
		return "{key:string " + k.Key + " }", nil
	}
	panic(name)
}

// call makes one call. A: seed, callback kind, nested operations, damage.
func (p *page) call(o op) {
	x := simrt.NewRNG(uint64(o.Arg(0)))
	fi := -1
	for i, f := range functions {
		if f.name == o.K {
			fi = i
		}
	}
	if fi < 0 {
		return
	}
	f := functions[fi]
	var a []js.Value
	for i := range f.args {
		a = append(a, p.argument(x, f.args[i]))
	}
	if g := p.given; len(g) == len(a) {
		for i := range a {
			if a[i].Type() == js.TypeString {
				a[i] = js.ValueOf(g[i])
			}
		}
	}
	p.given = nil
	if o.Arg(3)%4 == 0 && len(a) > 1 {
		p.last, p.lastName = nil, f.name
		for i := range a {
			p.last = append(p.last, a[i].String())
		}
	}
	c := &call{what: f.name, instant: p.instance}
	kind := o.Arg(1) % 8
	switch o.Arg(3) % 4 {
	case 1:
		p.e.Fault("odd argument")
		i := x.Intn(len(a))
		v := odd(x)
		c.lenient = v.Type() != a[i].Type()
		a[i] = v
	case 3: // text that is almost right
		i := x.Intn(len(a))
		if a[i].Type() == js.TypeString {
			p.e.Fault("garbled argument")
			a[i] = js.ValueOf(garble(x, a[i].String()))
		}
	case 2:
		p.e.Fault("wrong number of arguments")
		if x.Chance(2) {
			a = a[:x.Intn(len(a))]
		} else {
			for k := x.Range(1, 3); k > 0; k-- {
				a = append(a, p.argument(x, "lkn"[x.Intn(3)]))
			}
		}
	}
	if o.K == "wordsToBytes" && len(a) == 2 && a[0].IsUndefined() {
		c.lenient = false
	}
	c.what = f.name + show(a)
	if len(a) != len(f.args) {
		c.mustErr = true
	} else {
		var err error
		e := p.e
		e.Guard("the library's "+f.name, func() { c.want, err = want(f.name, a) })
		c.mustErr = err != nil
		for _, v := range a {
			if n := v.Type(); n == js.TypeNumber && v.Float() != math.Trunc(v.Float()) {
				c.lenient = true
			}
		}
	}
	switch kind {
	case 2, 3, 4: // no callback, or one that is none
		last := []js.Value{js.Null(), js.Undefined(), js.Object(), js.ValueOf("callback"), js.ValueOf(1)}[x.Intn(5)]
		if kind == 3 {
			last = js.Value{}
			if len(a) > 0 {
				last = a[len(a)-1]
			}
		} else {
			a = append(a, last)
		}
		if kind == 4 && len(a) > 0 { // the callback comes first
			a = append([]js.Value{p.callback(c, 0, 0, nil)}, a...)
		}
		if len(a) > 0 && a[len(a)-1].Type() == js.TypeFunction {
			return // an odd argument that is a function after all
		}
		p.e.Fault("no callback")
		p.expectReport(c)
	case 5: // the service's own function as the callback
		if x.Chance(2) {
			cb := p.ns.Get(functions[x.Intn(len(functions))].name)
			a = append(a, cb)
			p.expectReport(c) // the answer's second value is no function
			break
		}
		fallthrough
	default:
		c.usable = true
		a = append(a, p.callback(c, kind&1, o.Arg(2)%4, nil))
	}
	p.calls = append(p.calls, c)
	p.do(c, f.name, a)
}

func (p *page) expectReport(c *call) {
	if !p.h.Prog.Ended() {
		p.wantRep++
	}
}

func (p *page) do(c *call, name string, a []js.Value) {
	fn := p.ns.Get(name)
	if fn.Type() != js.TypeFunction {
		p.e.Fail("service", "the service does not offer %s", name)
	}
	gone := p.h.Prog.Ended()
	before := c.answers
	_, exc := js.Do(fn, a...)
	if gone {
		if exc == nil || c.answers != before {
			p.e.Fail("late", "%s is answered after the shutdown", c.what)
		}
		c.usable = false
		p.e.Probe("called after shutdown")
		return
	}
	if exc != nil {
		p.e.Fail("throws", "%s throws %s", c.what, show([]js.Value{*exc}))
	}
}

// exit asks for a shutdown. A: seed, callback kind, nested operations, damage.
func (p *page) exit(o op) {
	if p.depth == 0 && !p.loose {
		p.settle("before the shutdown")
	}
	x := simrt.NewRNG(uint64(o.Arg(0)))
	c := &call{what: "exit", instant: p.instance, want: "string keyaddr exiting...", lenient: false}
	kind := o.Arg(1) % 8
	var a []js.Value
	if o.Arg(3)%4 == 2 {
		p.e.Fault("wrong number of arguments")
		a = append(a, odd(x))
		c.mustErr = true
	}
	if kind == 2 || kind == 3 {
		p.e.Fault("no callback")
		if len(a) > 0 && a[len(a)-1].Type() == js.TypeFunction {
			a = nil
		}
		p.expectReport(c)
	} else {
		c.usable = true
		if !c.mustErr {
			p.e.Fault("shutdown")
			p.exiting = true
		}
		ix := p.instance
		a = append(a, p.callback(c, kind&1, o.Arg(2)%4, func(ans []js.Value) {
			if !c.mustErr && kind&1 == 0 && ix == p.instance {
				p.sureExit = true
			}
		}))
	}
	ended := p.h.Prog.Ended()
	p.calls = append(p.calls, c)
	p.do(c, "exit", a)
	if !p.loose && !ended && c.usable && c.answers == 0 {
		simrt.Idle()
		if p.depth == 0 && c.answers == 0 && !p.h.Prog.Ended() {
			p.e.Fail("unanswered", "a shutdown request is not answered")
		}
	}
}

func gen(r *rng, thorough bool) *plan {
	p := &plan{}
	n := r.Range(4, 14)
	if thorough {
		n = r.Range(6, 40)
	}
	seed := func() int64 { return int64(r.Next() >> 1) }
	p.Ops = append(p.Ops, op{K: "load", A: []int64{int64(r.Intn(4)), int64(r.Intn(3)), int64(r.Intn(4))}})
	p.Ops = append(p.Ops, op{K: "newKey", A: []int64{seed(), 0, int64(r.Intn(4)), 0}})
	for i := 0; i < n; i++ {
		o := op{A: []int64{seed(), int64(r.Intn(8)), int64(r.Intn(4)), int64(r.Intn(4))}}
		if r.Chance(2) {
			o.A[1], o.A[3] = 0, 0
		}
		switch r.Intn(22) {
		case 20, 21:
			o.K = "shift"
			if k := r.Intn(12); len(functions[k].args) > 1 && r.Chance(2) {
				p.Ops = append(p.Ops, op{K: functions[k].name, A: []int64{seed(), 0, 0, 0}})
			}
		case 0:
			o.K = "handler"
		case 1:
			o.K = "level"
		case 2:
			o.K = "wait"
		case 3:
			o.K = "clock"
		case 4:
			if r.Chance(2) {
				o.K = "exit"
			} else {
				o.K = "newKey"
			}
		case 5:
			if r.Chance(3) {
				o.K = "load"
			} else {
				o.K = "newKey"
			}
		case 6, 7:
			o.K = "newKey"
			if r.Chance(8) {
				o.K = "burst"
				o.A[2] = int64(r.Intn(12))
				o.A = append(o.A, int64(r.Range(10, 60)))
			}
		default:
			o.K = functions[r.Intn(len(functions))].name
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Chance(2) {
		for k := r.Range(1, 3); k > 0; k-- {
			p.Ops = append(p.Ops, op{K: "exit", A: []int64{seed(), int64(r.Intn(8)), int64(r.Intn(4)), int64(r.Intn(4))}})
		}
		p.Ops = append(p.Ops, op{K: functions[r.Intn(12)].name, A: []int64{seed(), 0, 0, 0}})
	}
	return p
}

// fixed tries every function with every kind of callback and damage.
func fixed() []*plan {
	var out []*plan
	for _, f := range append([]struct{ name, args string }{{"exit", ""}}, functions...) {
		for mode := int64(0); mode < 4; mode += 3 {
			p := &plan{Ops: []op{{K: "load", A: []int64{mode, 0, 1}}, {K: "newKey", A: []int64{3, 0, 0, 0}}, {K: "newKey", A: []int64{8, 0, 0, 0}}}}
			for cb := int64(0); cb < 8; cb++ {
				for dmg := int64(0); dmg < 4; dmg++ {
					for k := int64(0); k < 3; k++ {
						p.Ops = append(p.Ops, op{K: f.name, A: []int64{k*7919 + cb*31 + dmg, cb, 0, dmg}})
						if f.name == "exit" {
							p.Ops = append(p.Ops, op{K: "isPrivate", A: []int64{k, 0, 0, 0}}, op{K: "load", A: []int64{mode, cb % 3, 0}})
						}
					}
				}
			}
			out = append(out, p)
		}
	}
	for i := range functions { // many calls of one kind
		for _, kind := range []int64{0, 1, 2, 5} {
			p := &plan{Ops: []op{{K: "load", A: []int64{int64(i) % 4, 0, 2}}, {K: "newKey", A: []int64{3, 0, 0, 0}}, {K: "newKey", A: []int64{8, 0, 0, 0}}}}
			p.Ops = append(p.Ops, op{K: "burst", A: []int64{int64(i)*17 + kind, kind, int64(i), 0, 300}}, op{K: "newKey", A: []int64{3, 0, 0, 0}}, op{K: "exit", A: []int64{1, 0, 0, 0}})
			out = append(out, p)
		}
	}
	for i, f := range functions { // many calls at once, and calls by callbacks of calls
		p := &plan{Ops: []op{{K: "load", A: []int64{3, 0, 2}}, {K: "newKey", A: []int64{3, 0, 0, 0}}, {K: "wait", A: []int64{1}}}}
		p.Ops = append(p.Ops, op{K: "burst", A: []int64{int64(i)*19 + 5, 0, int64(i), 0, 400}}, op{K: "newKey", A: []int64{3, 0, 0, 0}})
		q := &plan{Cfg: map[string]int64{"deep": 150}, Ops: []op{{K: "load", A: []int64{0, 0, 2}}, {K: "newKey", A: []int64{3, 0, 0, 0}}}}
		for k := int64(0); k < 150; k++ {
			q.Ops = append(q.Ops, op{K: f.name, A: []int64{k*31 + int64(i), 0, 1, 0}})
		}
		out = append(out, p, q)
	}
	return out
}
