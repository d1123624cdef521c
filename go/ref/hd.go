package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
)

// HD is a node of the key tree.
type HD struct {
	Priv  []byte // 32 bytes, nil for a public node
	Pub   []byte // 33 bytes
	Chain []byte
	Depth int
	FP    []byte // 3 bytes
	Num   uint32
}

var n = btcec.S256().N

// Why a derivation is refused.
type Refusal string

// reasons
const (
	OK         Refusal = ""
	TooDeep    Refusal = "too deep"
	HardPublic Refusal = "hardened child of a public key"
	Unusable   Refusal = "unusable"
	BadSeed    Refusal = "bad seed length"
)

func pubOf(priv []byte) []byte {
	x, y := btcec.S256().ScalarBaseMult(priv)
	return compress(x, y)
}

// Negate is the private key of the negated point.
func Negate(priv []byte) []byte {
	return new(big.Int).Sub(n, new(big.Int).SetBytes(priv)).FillBytes(make([]byte, 32))
}

func compress(x, y *big.Int) []byte {
	out := make([]byte, 33)
	out[0] = 2 + byte(y.Bit(0))
	x.FillBytes(out[1:])
	return out
}

func decompress(p []byte) (*big.Int, *big.Int, bool) {
	if len(p) != 33 || (p[0] != 2 && p[0] != 3) {
		return nil, nil, false
	}
	c := btcec.S256()
	x := new(big.Int).SetBytes(p[1:])
	if x.Cmp(c.P) >= 0 {
		return nil, nil, false
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), c.P)
	y2.Add(y2, big.NewInt(7)).Mod(y2, c.P)
	y := new(big.Int).ModSqrt(y2, c.P)
	if y == nil {
		return nil, nil, false
	}
	if y.Bit(0) != uint(p[0]&1) {
		y.Sub(c.P, y)
	}
	return x, y, true
}

// Master is the root for a seed.
func Master(seed []byte) (*HD, Refusal) {
	if len(seed) < 16 || len(seed) > 64 {
		return nil, BadSeed
	}
	m := hmac.New(sha512.New, []byte("ndau seed"))
	m.Write(seed)
	i := m.Sum(nil)
	k := new(big.Int).SetBytes(i[:32])
	if k.Sign() == 0 || k.Cmp(n) >= 0 {
		return nil, Unusable
	}
	return &HD{Priv: i[:32:32], Pub: pubOf(i[:32]), Chain: i[32:], FP: []byte{0, 0, 0}}, OK
}

// Public drops the private half.
func (h *HD) Public() *HD {
	c := *h
	c.Priv = nil
	return &c
}

// Child derives child i (i >= 2^31 is hardened).
func (h *HD) Child(i uint32) (*HD, Refusal) {
	if h.Depth >= 255 {
		return nil, TooDeep
	}
	if h.Priv == nil && i>>31 == 1 {
		return nil, HardPublic
	}
	var data []byte
	if i>>31 == 1 {
		data = append([]byte{0}, h.Priv...)
	} else {
		data = append([]byte{}, h.Pub...)
	}
	data = binary.BigEndian.AppendUint32(data, i)
	m := hmac.New(sha512.New, h.Chain)
	m.Write(data)
	s := m.Sum(nil)
	il := new(big.Int).SetBytes(s[:32])
	if il.Sign() == 0 || il.Cmp(n) >= 0 {
		return nil, Unusable
	}
	f := sha256.Sum256(h.Pub)
	f = sha256.Sum256(f[:])
	c := &HD{Chain: s[32:], Depth: h.Depth + 1, FP: f[:3:3], Num: i}
	if h.Priv != nil {
		k := new(big.Int).Add(il, new(big.Int).SetBytes(h.Priv))
		k.Mod(k, n)
		if k.Sign() == 0 {
			return nil, Unusable
		}
		c.Priv = k.FillBytes(make([]byte, 32))
		c.Pub = pubOf(c.Priv)
	} else {
		px, py, ok := decompress(h.Pub)
		if !ok {
			return nil, Unusable
		}
		ix, iy := btcec.S256().ScalarBaseMult(s[:32])
		x, y := btcec.S256().Add(ix, iy, px, py)
		c.Pub = compress(x, y)
	}
	return c, OK
}

// Key is what the node's own key bytes are.
func (h *HD) Key() []byte {
	if h.Priv != nil {
		return h.Priv
	}
	return h.Pub
}

// Extra is the serialised remainder.
func (h *HD) Extra() []byte {
	out := []byte{byte(h.Depth)}
	out = append(out, h.FP...)
	out = binary.BigEndian.AppendUint32(out, h.Num)
	return append(out, h.Chain...)
}

// Prefix is npvt or npub.
func (h *HD) Prefix() string {
	if h.Priv != nil {
		return "npvt"
	}
	return "npub"
}

// Text is the current text form.
func (h *HD) Text() string { return KeyText(h.Prefix(), AlgSecp, h.Key(), h.Extra()) }

// Binary is the current binary form.
func (h *HD) Binary() []byte { return Packed(AlgSecp, KeyPack(h.Key(), h.Extra())) }

// OldText is the text form used before October 2018.
func (h *HD) OldText(id [3]byte) string {
	b := append([]byte{}, id[:]...)
	b = append(b, h.Extra()...)
	if h.Priv != nil {
		b = append(append(b, 0), h.Priv...)
	} else {
		b = append(b, h.Pub...)
	}
	s := sha256.Sum256(b)
	s = sha256.Sum256(s[:])
	return B32(append(b, s[:4]...))
}

// PathElem is one step of a derivation path.
type PathElem struct {
	N    uint32
	Hard bool
}

// Index is the child number of a step.
func (p PathElem) Index() uint32 {
	if p.Hard {
		return p.N | 1<<31
	}
	return p.N
}

// LeadingZeros looks for a child of a private node whose private key starts
// with at least z zero bytes, trying indices from start on.
func (h *HD) LeadingZeros(start uint32, z, tries int) (uint32, bool) {
	k := new(big.Int).SetBytes(h.Priv)
	for t := 0; t < tries; t++ {
		i := start + uint32(t)
		var data []byte
		if i>>31 == 1 {
			data = append([]byte{0}, h.Priv...)
		} else {
			data = append([]byte{}, h.Pub...)
		}
		m := hmac.New(sha512.New, h.Chain)
		m.Write(binary.BigEndian.AppendUint32(data, i))
		s := m.Sum(nil)
		v := new(big.Int).SetBytes(s[:32])
		if v.Add(v, k).Mod(v, n).BitLen() <= 256-8*z {
			return i, true
		}
	}
	return 0, false
}

// NewHD makes a node from its parts; pub is used for public nodes.
func NewHD(priv, pub, chain, fp []byte, depth int, num uint32) *HD {
	h := &HD{Chain: chain, FP: fp, Depth: depth, Num: num}
	if priv != nil {
		h.Priv = priv
		h.Pub = pubOf(priv)
	} else {
		h.Pub = pub
	}
	return h
}

// PubOf is the compressed public key of a private key.
func PubOf(priv []byte) []byte { return pubOf(priv) }

// Order is the group order.
func Order() *big.Int { return new(big.Int).Set(n) }

// ECDSAVerify checks a strict-enough DER signature on SHA-256 of the message.
func ECDSAVerify(pub, msg, sig []byte) bool {
	if len(sig) < 8 || sig[0] != 0x30 || int(sig[1]) != len(sig)-2 {
		return false
	}
	b := sig[2:]
	num := func() *big.Int {
		if len(b) < 3 || b[0] != 2 || b[1] == 0 || int(b[1])+2 > len(b) || b[2]&0x80 != 0 {
			return nil
		}
		v := new(big.Int).SetBytes(b[2 : 2+int(b[1])])
		b = b[2+int(b[1]):]
		return v
	}
	r, s := num(), (*big.Int)(nil)
	if r != nil {
		s = num()
	}
	if r == nil || s == nil || len(b) != 0 || r.Sign() == 0 || s.Sign() == 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 {
		return false
	}
	px, py, ok := decompress(pub)
	if !ok {
		return false
	}
	h := sha256.Sum256(msg)
	z := new(big.Int).SetBytes(h[:])
	w := new(big.Int).ModInverse(s, n)
	u1 := new(big.Int).Mul(z, w)
	u1.Mod(u1, n)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, n)
	c := btcec.S256()
	x1, y1 := c.ScalarBaseMult(u1.Bytes())
	x2, y2 := c.ScalarMult(px, py, u2.Bytes())
	x, _ := c.Add(x1, y1, x2, y2)
	return new(big.Int).Mod(x, n).Cmp(r) == 0
}

// OnCurve is whether p is a compressed point of the curve.
func OnCurve(p []byte) bool {
	_, _, ok := decompress(p)
	return ok
}

// FieldPrime is the size of the field of the curve.
func FieldPrime() *big.Int { return new(big.Int).Set(btcec.S256().P) }

// OldFrame is old-format text with any 33 bytes of key data.
func OldFrame(id [3]byte, extra, key []byte) string {
	b := append(append(id[:len(id):len(id)], extra...), key...)
	s := sha256.Sum256(b)
	s = sha256.Sum256(s[:])
	return B32(append(b, s[:4]...))
}
