// Package simjs is a simulated JavaScript host with the interface of
// syscall/js. The WebAssembly service is linked against it, so that the page
// around the service - its callbacks, its clock, its console, its mistakes -
// is under the simulator's control.
//
// As in the real host, a call from the page runs the handler and then every
// goroutine that can run before the page goes on (unless Loose is set: then
// goroutines wait their turn), code of the page called from a goroutine runs
// on that goroutine, an exception thrown by the page is a panic with an Error
// in Go, a panic in Go ends the program, and after main returns no goroutine
// runs and calls throw.
package simjs

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"unicode/utf8"

	"verif/simrt"
)

// Type is the JavaScript type of a value.
type Type int

const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

func (t Type) String() string {
	return [...]string{"undefined", "null", "boolean", "number", "string", "symbol", "object", "function"}[t]
}

func (t Type) isObject() bool { return t == TypeObject || t == TypeFunction }

type ref struct {
	t     Type
	f     float64
	s     string
	b     bool
	props map[string]Value
	arr   []Value
	isArr bool
	bytes []byte // typed array
	isU8  bool
	fn    func(this Value, args []Value) (Value, *Value) // result or exception
	class string
}

// Value is a JavaScript value; the zero value is undefined.
type Value struct {
	_ [0]func()
	r *ref
}

// Error wraps a JavaScript error.
type Error struct{ Value }

func (e Error) Error() string { return "JavaScript error: " + e.Get("message").String() }

// ValueError is the panic of a method used on a value of the wrong type.
type ValueError struct {
	Method string
	Type   Type
}

func (e *ValueError) Error() string {
	return "syscall/js: call of " + e.Method + " on " + e.Type.String()
}

// Host is one page.
type Host struct {
	Global Value
	Prog   *simrt.Group // the running program
	Loose  bool
	Now    func() float64
	Lines  []string // console output
	Live   int      // functions not released
}

// H is the current page.
var H *Host

// NewHost opens a page.
func NewHost() *Host {
	h := &Host{Now: func() float64 { return float64(simrt.Now().UnixMilli()) }}
	H = h
	g := Object()
	h.Global = g
	con := Object()
	for _, n := range []string{"log", "error", "warn", "info", "debug"} {
		con.r.props[n] = Native(func(_ Value, a []Value) (Value, *Value) {
			l := ""
			for _, x := range a {
				l += display(x) + " "
			}
			simrt.Event("console: %s", l)
			h.Lines = append(h.Lines, l)
			return Value{}, nil
		})
	}
	g.r.props["console"] = con
	date := Native(func(Value, []Value) (Value, *Value) { return ValueOf("date"), nil })
	date.r.props["now"] = Native(func(Value, []Value) (Value, *Value) { return ValueOf(h.Now()), nil })
	g.r.props["Date"] = date
	for _, cls := range []string{"Error", "TypeError", "RangeError"} {
		g.r.props[cls] = Native(func(_ Value, a []Value) (Value, *Value) { return NewError(cls, a...), nil })
	}
	g.r.props["Object"] = Native(func(Value, []Value) (Value, *Value) { return Object(), nil })
	g.r.props["Array"] = Native(func(_ Value, a []Value) (Value, *Value) {
		v := Array()
		if len(a) == 1 && a[0].Type() == TypeNumber {
			v.r.arr = make([]Value, int(a[0].r.f))
		} else {
			v.r.arr = a
		}
		return v, nil
	})
	g.r.props["Uint8Array"] = Native(func(_ Value, a []Value) (Value, *Value) {
		v := Object()
		v.r.isU8 = true
		if len(a) == 1 && a[0].Type() == TypeNumber {
			v.r.bytes = make([]byte, int(a[0].r.f))
		}
		return v, nil
	})
	g.r.props["globalThis"] = g
	return h
}

// Object makes an empty object.
func Object() Value {
	return Value{r: &ref{t: TypeObject, props: map[string]Value{}, class: "Object"}}
}

// Array makes an array.
func Array(xs ...Value) Value {
	return Value{r: &ref{t: TypeObject, props: map[string]Value{}, arr: xs, isArr: true, class: "Array"}}
}

// NewError makes an error object.
func NewError(class string, a ...Value) Value {
	v := Object()
	v.r.class = class
	v.r.props["name"] = ValueOf(class)
	v.r.props["message"] = ValueOf("")
	if len(a) > 0 && !a[0].IsUndefined() {
		v.r.props["message"] = ValueOf(display(a[0]))
	}
	return v
}

// Class is an object's class.
func (v Value) Class() string {
	if v.r == nil {
		return ""
	}
	return v.r.class
}

// Native makes a function of the page.
func Native(f func(this Value, args []Value) (Value, *Value)) Value {
	return Value{r: &ref{t: TypeFunction, props: map[string]Value{}, fn: f, class: "Function"}}
}

// Symbol makes a symbol.
func Symbol() Value { return Value{r: &ref{t: TypeSymbol, class: "Symbol"}} }

func display(v Value) string {
	switch v.Type() {
	case TypeString:
		return v.r.s
	case TypeNumber:
		return number(v.r.f)
	case TypeBoolean:
		return strconv.FormatBool(v.r.b)
	case TypeObject:
		if m, ok := v.r.props["message"]; ok {
			return "Error: " + display(m)
		}
		return "[object]"
	}
	return v.Type().String()
}

func number(f float64) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	case f == 0:
		return "0"
	case math.Abs(f) < 1e21 && f == math.Trunc(f):
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// Undefined is undefined.
func Undefined() Value { return Value{} }

// Null is null.
func Null() Value { return Value{r: &ref{t: TypeNull}} }

// Global is the global object.
func Global() Value { return H.Global }

func (v Value) IsUndefined() bool { return v.r == nil }
func (v Value) IsNull() bool      { return v.Type() == TypeNull }
func (v Value) IsNaN() bool       { return v.Type() == TypeNumber && math.IsNaN(v.r.f) }

// Equal is ===.
func (v Value) Equal(w Value) bool {
	if v.Type() != w.Type() {
		return false
	}
	switch v.Type() {
	case TypeUndefined, TypeNull:
		return true
	case TypeBoolean:
		return v.r.b == w.r.b
	case TypeNumber:
		return v.r.f == w.r.f
	case TypeString:
		return v.r.s == w.r.s
	}
	return v.r == w.r
}

// Type is typeof, with null told apart.
func (v Value) Type() Type {
	if v.r == nil {
		return TypeUndefined
	}
	return v.r.t
}

func num(f float64) Value { return Value{r: &ref{t: TypeNumber, f: f}} }

// ValueOf converts a Go value.
func ValueOf(x any) Value {
	switch x := x.(type) {
	case Value:
		return x
	case Func:
		return x.Value
	case Error: // has a Value inside, but is not one of the accepted types
		panic("ValueOf: invalid value")
	case nil:
		return Null()
	case bool:
		return Value{r: &ref{t: TypeBoolean, b: x}}
	case int:
		return num(float64(x))
	case int8:
		return num(float64(x))
	case int16:
		return num(float64(x))
	case int32:
		return num(float64(x))
	case int64:
		return num(float64(x))
	case uint:
		return num(float64(x))
	case uint8:
		return num(float64(x))
	case uint16:
		return num(float64(x))
	case uint32:
		return num(float64(x))
	case uint64:
		return num(float64(x))
	case uintptr:
		return num(float64(x))
	case float32:
		return num(float64(x))
	case float64:
		return num(x)
	case string:
		return Value{r: &ref{t: TypeString, s: utf8Fixed(x)}}
	case []any:
		a := Array()
		for _, e := range x {
			a.r.arr = append(a.r.arr, ValueOf(e))
		}
		return a
	case map[string]any:
		o := Object()
		for k, e := range x {
			o.r.props[k] = ValueOf(e)
		}
		return o
	}
	panic("ValueOf: invalid value")
}

// utf8Fixed is what the host's text decoder makes of Go bytes.
func utf8Fixed(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s))
}

func (v Value) need(m string) {
	if t := v.Type(); !t.isObject() {
		panic(&ValueError{m, t})
	}
}

func (v Value) Get(p string) Value {
	v.need("Value.Get")
	if p == "length" && v.r.isArr {
		return num(float64(len(v.r.arr)))
	}
	if p == "length" && v.r.isU8 {
		return num(float64(len(v.r.bytes)))
	}
	return v.r.props[p]
}

func (v Value) Set(p string, x any) {
	v.need("Value.Set")
	v.r.props[p] = ValueOf(x)
}

func (v Value) Delete(p string) {
	v.need("Value.Delete")
	delete(v.r.props, p)
}

func (v Value) Index(i int) Value {
	v.need("Value.Index")
	if v.r.isU8 && i >= 0 && i < len(v.r.bytes) {
		return num(float64(v.r.bytes[i]))
	}
	if i < 0 || i >= len(v.r.arr) {
		return Value{}
	}
	return v.r.arr[i]
}

func (v Value) SetIndex(i int, x any) {
	v.need("Value.SetIndex")
	if i < 0 {
		return
	}
	for len(v.r.arr) <= i {
		v.r.arr = append(v.r.arr, Value{})
	}
	v.r.arr[i] = ValueOf(x)
}

func (v Value) Length() int {
	v.need("Value.Length")
	if v.r.isU8 {
		return len(v.r.bytes)
	}
	return len(v.r.arr)
}

// Keys lists an object's properties in order.
func (v Value) Keys() (out []string) {
	if v.Type().isObject() {
		for k := range v.r.props {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

func args(a []any) []Value {
	out := make([]Value, len(a))
	for i, x := range a {
		out[i] = ValueOf(x)
	}
	return out
}

// enter runs code of the page for Go.
func enter(f Value, this Value, a []Value) Value {
	var res Value
	var exc *Value
	simrt.Away(func() { res, exc = f.r.fn(this, a) })
	if exc != nil {
		panic(Error{*exc})
	}
	return res
}

func (v Value) Call(m string, a ...any) Value {
	vs := args(a)
	if t := v.Type(); !t.isObject() {
		panic(&ValueError{"Value.Call", t})
	}
	f := v.Get(m)
	if t := f.Type(); t != TypeFunction {
		panic("syscall/js: Value.Call: property " + m + " is not a function, got " + t.String())
	}
	return enter(f, v, vs)
}

func (v Value) Invoke(a ...any) Value {
	vs := args(a)
	if t := v.Type(); t != TypeFunction {
		panic(&ValueError{"Value.Invoke", t})
	}
	return enter(v, Undefined(), vs)
}

func (v Value) New(a ...any) Value {
	vs := args(a)
	if t := v.Type(); t != TypeFunction {
		panic(&ValueError{"Value.New", t})
	}
	return enter(v, Undefined(), vs)
}

func (v Value) Float() float64 {
	if v.Type() != TypeNumber {
		panic(&ValueError{"Value.Float", v.Type()})
	}
	return v.r.f
}

// Int truncates as WebAssembly does.
func (v Value) Int() int {
	if v.Type() != TypeNumber {
		panic(&ValueError{"Value.Int", v.Type()})
	}
	f := v.r.f
	switch {
	case math.IsNaN(f):
		return 0
	case f >= 1<<63:
		return math.MaxInt64
	case f < -(1 << 63):
		return math.MinInt64
	}
	return int(f)
}

func (v Value) Bool() bool {
	if v.Type() != TypeBoolean {
		panic(&ValueError{"Value.Bool", v.Type()})
	}
	return v.r.b
}

func (v Value) Truthy() bool {
	switch v.Type() {
	case TypeUndefined, TypeNull:
		return false
	case TypeBoolean:
		return v.r.b
	case TypeNumber:
		return v.r.f != 0 && !math.IsNaN(v.r.f)
	case TypeString:
		return v.r.s != ""
	}
	return true
}

func (v Value) String() string {
	switch v.Type() {
	case TypeString:
		return v.r.s
	case TypeUndefined:
		return "<undefined>"
	case TypeNull:
		return "<null>"
	case TypeBoolean:
		return "<boolean: " + strconv.FormatBool(v.r.b) + ">"
	case TypeNumber:
		return "<number: " + number(v.r.f) + ">"
	case TypeSymbol:
		return "<symbol>"
	case TypeObject:
		return "<object>"
	}
	return "<function>"
}

func (v Value) InstanceOf(t Value) bool {
	return v.Type().isObject() && t.Type() == TypeFunction && H.Global.r.props[v.r.class].r == t.r
}

func CopyBytesToGo(dst []byte, src Value) int {
	if src.r == nil || !src.r.isU8 {
		panic("syscall/js: CopyBytesToGo: expected src to be a Uint8Array or Uint8ClampedArray")
	}
	return copy(dst, src.r.bytes)
}

func CopyBytesToJS(dst Value, src []byte) int {
	if dst.r == nil || !dst.r.isU8 {
		panic("syscall/js: CopyBytesToJS: expected dst to be a Uint8Array or Uint8ClampedArray")
	}
	return copy(dst.r.bytes, src)
}

// Func is a Go function for the page.
type Func struct {
	Value
	live *bool
}

// FuncOf makes one.
func FuncOf(f func(this Value, args []Value) any) Func {
	h := H
	prog := h.Prog
	live := true
	h.Live++
	return Func{live: &live, Value: Native(func(this Value, a []Value) (Value, *Value) {
		if prog.Ended() {
			e := NewError("Error", ValueOf("Go program has already exited"))
			return Value{}, &e
		}
		if !live {
			h.Lines = append(h.Lines, "call to released function")
			return Value{}, nil
		}
		var res Value
		simrt.In(prog, func() { res = ValueOf(f(this, append([]Value(nil), a...))) })
		if !h.Loose {
			simrt.Idle()
		}
		return res, nil
	})}
}

// Release ends its use.
func (f Func) Release() {
	if f.live != nil && *f.live {
		*f.live = false
		H.Live--
	}
}

// Start runs a program's main in the page until it comes to rest.
func (h *Host) Start(main func()) {
	g := &simrt.Group{Name: "program"}
	h.Prog = g
	simrt.In(g, func() {
		simrt.GoNamed("service", func() {
			main()
			g.End()
		})
	})
	simrt.Idle()
}

// Do calls a function as the page does.
func Do(f Value, a ...Value) (res Value, exc *Value) {
	if f.Type() != TypeFunction {
		e := NewError("TypeError", ValueOf(fmt.Sprintf("%s is not a function", f.Type())))
		return Value{}, &e
	}
	return f.r.fn(Undefined(), a)
}
