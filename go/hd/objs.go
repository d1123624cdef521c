package hd

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif/core"
	"verif/ref"
)

// rec says what a value is; the reference's forms of it are computed from it.
type rec struct {
	kind string // pub, pvt, sig, ext
	alg  byte
	key  []byte // or the signature bytes
	ext  []byte
	h    *ref.HD // kind ext
}

func (r *rec) String() string {
	if r.kind == "ext" {
		return "extended " + where(r.h)
	}
	return fmt.Sprintf("%s of algorithm %d with %d+%d bytes", map[string]string{"pub": "public key", "pvt": "private key", "sig": "signature"}[r.kind], r.alg, len(r.key), len(r.ext))
}

func (r *rec) text() string {
	switch r.kind {
	case "pub":
		return ref.KeyText("npub", r.alg, r.key, r.ext)
	case "pvt":
		return ref.KeyText("npvt", r.alg, r.key, r.ext)
	case "sig":
		return ref.SigText(r.alg, r.key)
	}
	return r.h.Text()
}

func (r *rec) bin() []byte {
	switch r.kind {
	case "sig":
		return ref.Packed(r.alg, r.key)
	case "ext":
		return r.h.Binary()
	}
	return ref.Packed(r.alg, ref.KeyPack(r.key, r.ext))
}

// object is a library object of some kind.
type object struct {
	kind string
	pub  *signature.PublicKey
	pvt  *signature.PrivateKey
	sig  *signature.Signature
	ext  *key.ExtendedKey
}

func blank(kind string) *object {
	return &object{kind: kind, pub: new(signature.PublicKey), pvt: new(signature.PrivateKey), sig: new(signature.Signature), ext: new(key.ExtendedKey)}
}

var algs = map[byte]signature.Algorithm{}

func algOf(id byte) signature.Algorithm {
	switch id {
	case ref.AlgEd25519:
		return signature.Ed25519
	case ref.AlgSecp:
		return signature.Secp256k1
	case wideID:
		return AlgWide{}
	case longID:
		return AlgLong{}
	}
	return signature.Null
}

// AlgWide is an algorithm that a deployment has registered, with long keys
// and with signatures of any length.
type AlgWide struct{ toy }

// sizes
func (AlgWide) PublicKeySize() int  { return 255 }
func (AlgWide) PrivateKeySize() int { return 130 }

const wideID = 200

var wide bool // whether genRec makes values of AlgWide

// useWide registers AlgWide for the rest of this process.
func useWide(e *env) {
	if err := signature.RegisterAlgorithm(wideID, AlgWide{}); err != nil {
		e.Fail("refused", "registering an algorithm: %v", err)
	}
	if err := signature.RegisterAlgorithm(longID, AlgLong{}); err != nil {
		e.Fail("refused", "registering an algorithm: %v", err)
	}
	wide = true
}

// AlgLong has keys that the format cannot hold.
type AlgLong struct{ toy }

// sizes
func (AlgLong) PublicKeySize() int  { return 256 }
func (AlgLong) PrivateKeySize() int { return 300 }

const longID = 210

// build makes an object for a record through the raw constructors.
func build(r *rec) (*object, error) {
	o := blank(r.kind)
	var err error
	switch r.kind {
	case "pub":
		o.pub, err = signature.RawPublicKey(algOf(r.alg), cp(r.key), cp(r.ext))
	case "pvt":
		o.pvt, err = signature.RawPrivateKey(algOf(r.alg), cp(r.key), cp(r.ext))
	case "sig":
		o.sig, err = signature.RawSignature(algOf(r.alg), cp(r.key))
	case "ext":
		o.ext = realOf(r.h)
	}
	return o, err
}

// serial forms
var forms = []string{"text", "string", "binary", "message", "json", "facade", "old", "oldfacade"}

// has says whether a kind has a form.
func has(kind, form string) bool {
	switch form {
	case "binary", "message":
		return kind != "ext"
	case "facade", "old", "oldfacade":
		return kind == "ext"
	}
	return true
}

type jsonBox[T any] struct{ V T }

// write serialises an object.
func (o *object) write(form string) (b []byte, err error) {
	str := func(s string, e error) ([]byte, error) { return []byte(s), e }
	switch o.kind + "/" + form {
	case "pub/text":
		return o.pub.MarshalText()
	case "pvt/text":
		return o.pvt.MarshalText()
	case "sig/text":
		return o.sig.MarshalText()
	case "ext/text", "ext/old", "ext/oldfacade":
		return o.ext.MarshalText()
	case "pub/string":
		if s := o.pub.FullString(); true {
			return str(s, nil)
		}
	case "pvt/string":
		return str(o.pvt.MarshalString())
	case "sig/string":
		return str(o.sig.MarshalString())
	case "ext/string", "ext/facade":
		k, err := keyaddr.KeyFromExtended(o.ext)
		if err != nil {
			return nil, err
		}
		return []byte(k.Key), nil
	case "pub/binary":
		return o.pub.Marshal()
	case "pvt/binary":
		return o.pvt.Marshal()
	case "sig/binary":
		return o.sig.Marshal()
	case "pub/message":
		return o.pub.MarshalMsg(nil)
	case "pvt/message":
		return o.pvt.MarshalMsg(nil)
	case "sig/message":
		return o.sig.MarshalMsg(nil)
	case "pub/json":
		return json.Marshal(jsonBox[*signature.PublicKey]{o.pub})
	case "pvt/json":
		return json.Marshal(jsonBox[*signature.PrivateKey]{o.pvt})
	case "sig/json":
		return json.Marshal(jsonBox[*signature.Signature]{o.sig})
	case "ext/json":
		return json.Marshal(jsonBox[*key.ExtendedKey]{o.ext})
	}
	return nil, fmt.Errorf("no form %s/%s", o.kind, form)
}

// want is what write must produce.
func (r *rec) want(form string) []byte {
	switch form {
	case "binary", "message":
		return r.bin()
	case "json":
		return []byte(`{"V":"` + strings.ReplaceAll(r.text(), "=", "=") + `"}`)
	}
	return []byte(r.text())
}

// stored is what lies on disk for a form (the old text form is no longer
// written by the library).
func (r *rec) stored(form string) []byte {
	switch form {
	case "old", "oldfacade":
		id := key.NdauPublicKeyID
		if r.h.Priv != nil {
			id = key.NdauPrivateKeyID
		}
		if r.h.Chain[31]%2 == 1 { // a key of the test network
			id[0] = key.TestPrivateKeyID[0]
		}
		return []byte(r.h.OldText(id))
	}
	return r.want(form)
}

// read loads b into o (which may have been used before).
func (o *object) read(form string, b []byte) error {
	all := func(rest []byte, err error) error {
		if err == nil && len(rest) > 0 {
			err = fmt.Errorf("%d bytes left over", len(rest))
		}
		return err
	}
	switch o.kind + "/" + form {
	case "pub/text":
		return o.pub.UnmarshalText(b)
	case "pvt/text":
		return o.pvt.UnmarshalText(b)
	case "sig/text":
		return o.sig.UnmarshalText(b)
	case "ext/text":
		return o.ext.UnmarshalText(b)
	case "pub/string":
		k, err := signature.ParseKey(string(b))
		if err != nil {
			return err
		}
		p, ok := k.(*signature.PublicKey)
		if !ok {
			return fmt.Errorf("not a public key")
		}
		*o.pub = *p
		return nil
	case "pvt/string":
		k, err := signature.ParsePrivateKey(string(b))
		if err != nil {
			return err
		}
		*o.pvt = *k
		return nil
	case "sig/string":
		s, err := signature.ParseSignature(string(b))
		if err != nil {
			return err
		}
		*o.sig = *s
		return nil
	case "ext/string", "ext/facade", "ext/oldfacade":
		k, err := keyaddr.FromString(string(b))
		if err != nil {
			return err
		}
		e, err := k.ToExtended()
		if err == nil {
			*o.ext = *e
		}
		return err
	case "ext/old":
		e, err := key.FromOldSerialization(string(b))
		if err == nil {
			*o.ext = *e
		}
		return err
	case "pub/binary":
		return o.pub.Unmarshal(b)
	case "pvt/binary":
		return o.pvt.Unmarshal(b)
	case "sig/binary":
		return o.sig.Unmarshal(b)
	case "pub/message":
		return all(o.pub.UnmarshalMsg(b))
	case "pvt/message":
		return all(o.pvt.UnmarshalMsg(b))
	case "sig/message":
		return all(o.sig.UnmarshalMsg(b))
	case "pub/json":
		return json.Unmarshal(b, &jsonBox[*signature.PublicKey]{o.pub})
	case "pvt/json":
		return json.Unmarshal(b, &jsonBox[*signature.PrivateKey]{o.pvt})
	case "sig/json":
		return json.Unmarshal(b, &jsonBox[*signature.Signature]{o.sig})
	case "ext/json":
		return json.Unmarshal(b, &jsonBox[*key.ExtendedKey]{o.ext})
	}
	return fmt.Errorf("no form %s/%s", o.kind, form)
}

// differs compares an object with what it should be; "" if it is that.
func (o *object) differs(r *rec) (d string) {
	if p := core.Catch(func() { d = o.differs1(r) }); p != "" {
		return "observing it panicked: " + p
	}
	return d
}

func (o *object) differs1(r *rec) string {
	if o.kind != r.kind {
		return "kind " + o.kind
	}
	bytesDiffer := func(what string, got, want []byte) string {
		if !bytes.Equal(got, want) {
			return fmt.Sprintf("%s %x, want %x", what, got, want)
		}
		return ""
	}
	alg := func(a signature.Algorithm) string {
		if got, want := signature.NameOf(a), signature.NameOf(algOf(r.alg)); got != want {
			return fmt.Sprintf("algorithm %s, want %s", got, want)
		}
		return ""
	}
	isZero := func(z bool) string {
		if want := r.alg == ref.AlgNull && len(r.key) == 0 && len(r.ext) == 0; z != want {
			return fmt.Sprintf("is zero: %v", z)
		}
		return ""
	}
	switch o.kind {
	case "pub":
		if d := alg(o.pub.Algorithm()); d != "" {
			return d
		}
		if d := bytesDiffer("key", o.pub.KeyBytes(), r.key); d != "" {
			return d
		}
		if d := bytesDiffer("extra", o.pub.ExtraBytes(), r.ext); d != "" {
			return d
		}
		return isZero(o.pub.IsZero())
	case "pvt":
		if d := alg(o.pvt.Algorithm()); d != "" {
			return d
		}
		if d := bytesDiffer("key", o.pvt.KeyBytes(), r.key); d != "" {
			return d
		}
		if d := bytesDiffer("extra", o.pvt.ExtraBytes(), r.ext); d != "" {
			return d
		}
		return isZero(o.pvt.IsZero())
	case "sig":
		if d := alg(o.sig.Algorithm()); d != "" {
			return d
		}
		if d := bytesDiffer("data", o.sig.Bytes(), r.key); d != "" {
			return d
		}
	case "ext":
		v, p := look(o.ext)
		if p != "" {
			return "observing it panicked: " + p
		}
		return diff(v, expect(r.h))
	}
	t, err := o.write("text")
	if err != nil {
		return "cannot be written: " + err.Error()
	}
	if string(t) != r.text() {
		return fmt.Sprintf("text %s, want %s", t, r.text())
	}
	return ""
}

// extra lengths, with the ones where the packed form changes its length class
func genExtra(r *rng, klen int) []byte {
	switch r.Intn(8) {
	case 0, 1:
		return []byte{}
	case 2:
		return r.Bytes(40)
	case 3:
		return r.Bytes(max(0, 255-klen-1+r.Range(-2, 2)))
	case 4:
		return make([]byte, r.Intn(12))
	case 5:
		return r.Bytes(r.Range(200, 400))
	}
	return r.Bytes(r.Intn(50))
}

// genRec draws a value of any kind.
func genRec(r *rng, kinds ...string) *rec {
	k := kinds[r.Intn(len(kinds))]
	if k == "ext" {
		h := randHD(r, r.Chance(2))
		if r.Chance(3) { // a derived one
			h, _ = ref.Master(genSeed(r))
			for i := r.Intn(3); i > 0; i-- {
				h, _ = h.Child(genIndex(r))
			}
			if r.Chance(2) {
				h = h.Public()
			}
		}
		return &rec{kind: "ext", h: h}
	}
	out := &rec{kind: k}
	out.alg = byte(1 + r.Intn(2))
	if r.Chance(12) {
		out.alg = ref.AlgNull
	} else if wide && r.Chance(6) {
		out.alg = wideID
	}
	switch out.alg {
	case wideID:
		switch k {
		case "pub":
			out.key = r.Bytes(255)
		case "pvt":
			out.key = r.Bytes(130)
		default:
			out.key = r.Bytes([]int{0, 1, 127, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 1000}[r.Intn(15)])
			if r.Chance(40) {
				out.key = r.Bytes(65530 + r.Intn(10))
			}
		}
	case ref.AlgEd25519:
		pv := ed25519.NewKeyFromSeed(r.Bytes(32))
		if k == "pub" {
			out.key = pv.Public().(ed25519.PublicKey)
		} else if k == "pvt" {
			out.key = pv
		} else {
			out.key = ed25519.Sign(pv, r.Bytes(8))
		}
	case ref.AlgSecp:
		pv := randPriv(r)
		if k == "pub" {
			out.key = ref.PubOf(pv)
		} else if k == "pvt" {
			out.key = pv
		} else {
			out.key = secpSig(r, pv)
		}
	default:
		out.key = []byte{}
	}
	out.ext = []byte{}
	if k != "sig" {
		out.ext = genExtra(r, len(out.key))
	}
	return out
}

// secpSig makes DER-like signature bytes of varied length.
func secpSig(r *rng, pv []byte) []byte {
	if r.Chance(2) {
		// r and s of any size
		enc := func() []byte {
			b := r.Bytes(r.Range(1, 32))
			if b[0] == 0 {
				b[0] = 1
			}
			if b[0] >= 0x80 {
				b = append([]byte{0}, b...)
			}
			return append([]byte{2, byte(len(b))}, b...)
		}
		b := append(enc(), enc()...)
		return append([]byte{0x30, byte(len(b))}, b...)
	}
	return r.Bytes([]int{8, 9, 68, 69, 70, 71, 72, 0, 1, 255, 256, 300}[r.Intn(12)])
}

// opRec makes the record that an operation describes (deterministically).
func opRec(o op, kinds ...string) *rec {
	return genRec(newRNG(uint64(o.Arg(0))), kinds...)
}
