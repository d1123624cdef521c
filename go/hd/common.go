// Package hd holds the scenarios over the packages that build offline: keys,
// signatures, addresses, phrases and bit sets.
package hd

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif/core"
	"verif/ref"
	"verif/simrt"
)

type (
	env  = core.Env
	op   = core.Op
	plan = core.Plan
	rng  = simrt.RNG
)

var b64 = base64.StdEncoding

// lzSeeds and lzChildren: nodes whose private key starts with zero bytes.
func lzSeed(s int) []byte {
	seed := make([]byte, 16+s*8)
	for i := range seed {
		seed[i] = byte(s*37 + i)
	}
	return seed
}

var lzChildren = [][3]uint32{
	{0, 280, 1}, {0, 1344, 1}, {0, 84092, 2}, {0, 120222, 2}, {0, 2147483724, 1}, {0, 2147483793, 1}, {0, 2147532283, 2}, {0, 2147572681, 2},
	{1, 88, 1}, {1, 201, 1}, {1, 13678, 2}, {1, 54830, 2}, {1, 2147483745, 1}, {1, 2147484308, 1}, {1, 2147576327, 2}, {1, 2147592737, 2},
	{2, 634, 1}, {2, 950, 1}, {2, 134868, 2}, {2, 306414, 2}, {2, 2147484132, 1}, {2, 2147484434, 1}, {2, 2147487235, 2}, {2, 2147577747, 2},
	{3, 97, 1}, {3, 102, 1}, {3, 6394, 2}, {3, 94733, 2}, {3, 2147483913, 1}, {3, 2147484147, 1}, {3, 2147527386, 2}, {3, 2147562788, 2},
	{4, 9, 1}, {4, 102, 1}, {4, 92658, 2}, {4, 115217, 2}, {4, 2147483790, 1}, {4, 2147484078, 1}, {4, 2147709683, 2}, {4, 2147876503, 2},
	{5, 124, 1}, {5, 900, 1}, {5, 187545, 2}, {5, 417497, 2}, {5, 2147483691, 1}, {5, 2147483814, 1}, {5, 2147641930, 2}, {5, 2147740236, 2},
}

// oddChildren: children of lzSeed(1) where the derivation's two halves, the
// private key or the public key's x start or end with two zero bytes or start
// with two full ones.
var oddChildren = []uint32{
	12322, 21406, 38933, 44780, 60730, 67704, 82402, 99185, 128535,
	2147484351, 2147496613, 2147505377, 2147528442, 2147534129, 2147555352, 2147561659, 2147593279, 2147612175, 2147633256,
}

// oddSeeds: 16-byte seeds, zero but for bytes 4 to 7, whose master key has two
// zero bytes at an end of the fingerprint, of the private key or of the
// public key's x, or two full ones.
var oddSeeds = []uint32{
	2606757, 5222899, 7804829, // fingerprint 0000xx
	40699, 7812644, 13044729, // fingerprint xx0000
	7813351, 7824833, 18215530, // fingerprint ffffxx
	15659, 7804347, 15614734, // x 0000...
	2612500, 15605495, 18203593, // x ...0000
	15600340, 15609207, 15616955, // private 0000...
	21087, 7863697, 10438462, // private ...0000
	5248638, 13000856, 15634445, // private ffff...
}

func oddSeed(i int) []byte {
	b := make([]byte, 16)
	binary.BigEndian.PutUint32(b[4:], oddSeeds[i%len(oddSeeds)])
	return b
}

// genSeed draws a seed: mostly random, of any legal length, sometimes one of
// the seeds with known leading-zero children or an extreme pattern.
func genSeed(r *rng) []byte {
	switch r.Intn(5) {
	case 0:
		if r.Chance(3) {
			return oddSeed(r.Intn(len(oddSeeds)))
		}
		return lzSeed(r.Intn(6))
	case 1:
		b := make([]byte, r.Range(16, 64))
		for i := range b {
			b[i] = []byte{0, 0xff, 0x80}[r.Intn(3)]
		}
		return b
	case 2:
		return r.Bytes(32)
	case 3:
		return r.Bytes([]int{16, 17, 63, 64}[r.Intn(4)])
	}
	return r.Bytes(r.Range(16, 64))
}

// nearSeed is another seed that has much in common with a seed.
func nearSeed(r *rng, seed []byte) []byte {
	b := cp(seed)
	switch r.Intn(8) {
	case 0, 1: // longer
		b = append(b, r.Bytes(1+r.Intn(32))...)
	case 2: // zeros behind it
		b = append(b, make([]byte, 1+r.Intn(32))...)
	case 3: // zeros before it
		b = append(make([]byte, 1+r.Intn(16)), b...)
	case 4: // shorter
		b = b[:len(b)-1-r.Intn(16)]
	case 5: // a piece of it
		b = b[1+r.Intn(16):]
	default: // one bit
		b[[]int{0, len(b) - 1, r.Intn(len(b))}[r.Intn(3)]] ^= 1 << uint(r.Intn(8))
	}
	if len(b) > 64 {
		b = b[:64]
	}
	for len(b) < 16 {
		b = append(b, byte(r.Next()))
	}
	return b
}

// genIndex draws a child index below 2^32, with the boundaries well covered.
func genIndex(r *rng) uint32 {
	switch r.Intn(9) {
	case 0:
		return []uint32{0, 1, 2, 255, 256, 257, 65535, 65536, 1<<24 - 1, 1 << 24}[r.Intn(10)]
	case 1:
		return []uint32{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2, 1<<31 - 2, 1<<30 - 1, 1 << 30, 3 << 30, 1<<31 | 1<<24}[r.Intn(10)]
	case 2:
		return uint32(r.Next())
	case 3:
		return uint32(r.Intn(300))
	case 4:
		return 1<<31 | uint32(r.Intn(300))
	case 5:
		return lzChildren[r.Intn(len(lzChildren))][1]
	case 6:
		return uint32(1) << uint(r.Intn(32))
	case 7:
		return uint32(r.Next()) >> uint(r.Intn(32))
	}
	return uint32(r.Next()) &^ (1 << 31)
}

// randPriv draws a private key, sometimes with zero bytes at either end.
func randPriv(r *rng) []byte {
	for {
		b := r.Bytes(32)
		switch r.Intn(6) {
		case 0:
			for i := 0; i < r.Range(1, 4); i++ {
				b[i] = 0
			}
		case 1:
			b[31] = 0
		case 2:
			for i := 0; i < 31; i++ {
				b[i] = 0
			}
			b[31] |= 1
		case 3: // just below the order
			o := ref.Order()
			o.Sub(o, core.Big(int64(r.Range(1, 1000)))).FillBytes(b)
		}
		n := ref.Order()
		x := core.Big(0).SetBytes(b)
		if x.Sign() != 0 && x.Cmp(n) < 0 {
			return b
		}
	}
}

// randHD draws a node that was not derived from anything here.
func randHD(r *rng, private bool) *ref.HD {
	depth := r.Intn(256)
	if r.Chance(3) {
		depth = []int{0, 1, 2, 253, 254, 255}[r.Intn(6)]
	}
	chain := r.Bytes(32)
	if r.Chance(6) {
		for i := 0; i < r.Range(1, 32); i++ {
			chain[i] = 0
		}
	}
	fp := r.Bytes(3)
	if r.Chance(5) {
		fp = []byte{0, 0, 0}
	}
	h := ref.NewHD(randPriv(r), nil, chain, fp, depth, genIndex(r))
	if !private {
		return h.Public()
	}
	return h
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// realOf builds the library's object for a node, from private copies.
func realOf(h *ref.HD) *key.ExtendedKey {
	return key.NewExtendedKey(cp(h.Key()), cp(h.Chain), cp(h.FP), uint8(h.Depth), h.Num, h.Priv != nil)
}

// view is everything observable about a key object.
type view struct {
	Text    string
	TextErr bool
	Key     string
	Pub     string
	Private bool
	Depth   int
	FP      uint32
}

// look observes a key object; the memo is filled as a side effect, which is
// not observable.
func look(k *key.ExtendedKey) (v view, panicked string) {
	panicked = core.Catch(func() {
		t, err := k.MarshalText()
		v.Text, v.TextErr = string(t), err != nil
		v.Key = hex.EncodeToString(k.Bytes())
		v.Private = k.IsPrivate()
		v.Depth = int(k.Depth())
		v.FP = k.ParentFingerprint()
		v.Pub = hex.EncodeToString(k.PubKeyBytes())
	})
	return
}

// expect is what a node must look like.
func expect(h *ref.HD) view {
	return view{
		Text: h.Text(), Key: hex.EncodeToString(h.Key()), Pub: hex.EncodeToString(h.Pub),
		Private: h.Priv != nil, Depth: h.Depth,
		FP: binary.BigEndian.Uint32(append([]byte{0}, h.FP...)),
	}
}

// diff names the first observable in which two views differ.
func diff(got, want view) string {
	switch {
	case got.Private != want.Private:
		return fmt.Sprintf("private: got %v, want %v", got.Private, want.Private)
	case got.Key != want.Key:
		return fmt.Sprintf("key bytes: got %s, want %s", got.Key, want.Key)
	case got.Pub != want.Pub:
		return fmt.Sprintf("public key: got %s, want %s", got.Pub, want.Pub)
	case got.Depth != want.Depth:
		return fmt.Sprintf("depth: got %d, want %d", got.Depth, want.Depth)
	case got.FP != want.FP:
		return fmt.Sprintf("parent fingerprint: got %06x, want %06x", got.FP, want.FP)
	case got.TextErr != want.TextErr:
		return fmt.Sprintf("text error: got %v, want %v", got.TextErr, want.TextErr)
	case got.Text != want.Text:
		return fmt.Sprintf("text: got %s, want %s", got.Text, want.Text)
	}
	return ""
}

// mustLook observes an object or fails the run.
func mustLook(e *env, class string, k *key.ExtendedKey, what string) view {
	v, p := look(k)
	if p != "" {
		e.Fail(class, "%s: observing the key panicked: %s", what, p)
	}
	return v
}

// mustBe checks an object against a node.
func mustBe(e *env, class string, k *key.ExtendedKey, h *ref.HD, what string) {
	if k == nil {
		e.Fail(class, "%s: no key and no error", what)
	}
	if d := diff(mustLook(e, class, k, what), expect(h)); d != "" {
		e.Fail(class, "%s: %s", what, d)
	}
}

// pathString writes a path.
func pathString(p []ref.PathElem) string {
	if len(p) == 0 {
		return "/"
	}
	var b strings.Builder
	for _, e := range p {
		fmt.Fprintf(&b, "/%d", e.N)
		if e.Hard {
			b.WriteByte('\'')
		}
	}
	return b.String()
}

func elem(i uint32) ref.PathElem {
	if i>>31 == 1 {
		return ref.PathElem{N: i &^ (1 << 31), Hard: true}
	}
	return ref.PathElem{N: i}
}

// genFault returns f with probability 1/n.
func genFault(r *rng, n int, k string, a ...int64) []core.Fault {
	if r.Chance(n) {
		return []core.Fault{{K: k, A: a}}
	}
	return nil
}

// disk is one party's storage: named files, written in place piece by piece
// (a crash or an error leaves a torn file) or by replacing the whole file.
type disk struct{ files map[string][]byte }

func newDisk() *disk { return &disk{files: map[string][]byte{}} }

func (d *disk) writeInPlace(name string, data []byte) {
	old := d.files[name]
	cur := append([]byte{}, old...)
	for i := 0; i < len(data); i += 16 {
		simrt.Step()
		j := min(i+16, len(data))
		if len(cur) < j {
			cur = append(cur, make([]byte, j-len(cur))...)
		}
		copy(cur[i:j], data[i:j])
		d.files[name] = append([]byte{}, cur...)
	}
	simrt.Step()
	d.files[name] = append([]byte{}, data...) // final size
}

func (d *disk) replace(name string, data []byte) {
	d.writeInPlace(name+".tmp", data)
	simrt.Step()
	d.files[name] = d.files[name+".tmp"]
	delete(d.files, name+".tmp")
}

func (d *disk) read(name string) ([]byte, bool) {
	b, ok := d.files[name]
	return append([]byte{}, b...), ok
}

// deliver hands a message to f once, never, or several times, now or later,
// according to the operation's faults.
func deliver(e *env, o op, f func(copyNo int)) {
	n := 1
	if _, ok := o.Fault("drop"); ok {
		e.Fault("drop")
		n = 0
	}
	if x, ok := o.Fault("dup"); ok {
		e.Fault("dup")
		n = 2 + int(abs64(x.Arg(0)))%3
	}
	for i := 0; i < n; i++ {
		i := i
		var d int64 = 1000
		if x, ok := o.Fault("delay"); ok {
			e.Fault("delay")
			d = 1000 + (abs64(x.Arg(0))*(int64(i)+1))%5_000_000_000
		}
		simrt.GoNamed("delivery", func() {
			simrt.Sleep(durNS(d))
			f(i)
		})
	}
}

func abs64(x int64) int64 {
	if x < 0 {
		if x == -x {
			return 0
		}
		return -x
	}
	return x
}

func netFaults(r *rng) []core.Fault {
	var out []core.Fault
	switch r.Intn(8) {
	case 0:
		out = append(out, core.Fault{K: "drop"})
	case 1:
		out = append(out, core.Fault{K: "dup", A: []int64{int64(r.Intn(3))}})
	}
	if r.Chance(2) {
		out = append(out, core.Fault{K: "delay", A: []int64{int64(r.Intn(2_000_000))}})
	}
	return out
}

// secpKeyPair is a signature key pair around a private key.
func secpPair(priv, extra []byte) (*signature.PublicKey, *signature.PrivateKey, error) {
	pvt, err := signature.RawPrivateKey(signature.Secp256k1, cp(priv), cp(extra))
	if err != nil {
		return nil, nil, err
	}
	pub, err := signature.RawPublicKey(signature.Secp256k1, ref.PubOf(priv), cp(extra))
	return pub, pvt, err
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

func pick[T any](xs []T, i int64) (z T) {
	if len(xs) == 0 {
		return z
	}
	return xs[int(abs64(i)%int64(len(xs)))]
}

// dressings is what people and programs put around a text they pass on.
var dressings = [][2]string{
	{" ", ""}, {"", " "}, {"\t", ""}, {"", "\t"}, {"\n", ""}, {"", "\n"}, {"", "\r\n"}, {"\r", "\r"}, {"", "\x00"}, {"\x00", ""}, {"\v", "\f"},
	{"\"", "\""}, {"'", "'"}, {"`", "`"}, {"<", ">"}, {"(", ")"}, {"[", "]"}, {"{", "}"}, {"\u201c", "\u201d"}, {"\u00ab", "\u00bb"},
	{"ndau:", ""}, {"NDAU:", ""}, {"ndau://", ""}, {"nd:", ""}, {"addr:", ""}, {"address:", ""}, {"key:", ""}, {"0x", ""}, {"0X", ""}, {"x", ""}, {"\\x", ""}, {"$", ""}, {"@", ""}, {"#", ""}, {"+", ""}, {"-", ""}, {"0", ""},
	{"", "h"}, {"", "."}, {"", ","}, {"", ";"}, {"", ":"}, {"", "/"}, {"", "!"}, {"", "?"}, {"", "="}, {"", "=="}, {"", "===="}, {"", "="}, {"", "%20"}, {"%20", ""}, {"", "+"}, {"", "-"}, {"", "_"}, {"", "@ndau"}, {"", "#"}, {"", "?amount=1"},
	{"\ufeff", ""}, {"", "\ufeff"}, {"\u200b", ""}, {"", "\u200b"}, {"\u00a0", ""}, {"", "\u00a0"}, {"\u00ad", ""}, {"\u200e", "\u200f"}, {"\u202a", "\u202c"}, {"\u2028", "\u2029"}, {"\u3000", ""}, {"\x7f", ""}, {"\x1b[0m", ""}, {"", "\x1b"}, {"\xff", ""}, {"", "\xc2"},
	{"https://ndau.io/", ""}, {"mailto:", ""}, {"bech32:", ""}, {"//", ""}, {"--", ""}, {"b32:", ""}, {"hex:", ""},
}

// dress puts dressing i on s; inside, when cut > 0, the dressing's parts come
// in the middle instead.
func dress(s string, i int64, cut int) string {
	d := dressings[abs64(i)%int64(len(dressings))]
	if cut > 0 && cut < len(s) {
		return s[:cut] + d[0] + d[1] + s[cut:]
	}
	return d[0] + s + d[1]
}
