// Package ref is an independent reference model of the formats and rules the
// library promises, written from their specifications with none of the
// library's code.  The secp256k1 group law comes from btcec (a dependency, not
// the code under test).
package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"strings"
)

// Alphabet is the 32-character alphabet.
const Alphabet = "abcdefghijkmnpqrstuvwxyz23456789"

// ErrBad is the reference's only decoding error.
var ErrBad = errors.New("ref: malformed")

// B32 encodes with '=' padding (RFC 4648 layout, ndau alphabet).
func B32(b []byte) string {
	var out strings.Builder
	acc, n, chars := uint64(0), 0, 0
	for _, c := range b {
		acc = acc<<8 | uint64(c)
		n += 8
		for n >= 5 {
			n -= 5
			out.WriteByte(Alphabet[acc>>uint(n)&31])
			chars++
		}
	}
	if n > 0 {
		out.WriteByte(Alphabet[acc<<uint(5-n)&31])
		chars++
	}
	for chars%8 != 0 {
		out.WriteByte('=')
		chars++
	}
	return out.String()
}

// B32Decode decodes unpadded-size text (length a multiple of 8, no padding
// characters), case-insensitively.  Anything else is ErrBad.
func B32Decode(s string) ([]byte, error) {
	if len(s)%8 != 0 {
		return nil, ErrBad
	}
	var out []byte
	acc, n := uint64(0), 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		v := strings.IndexByte(Alphabet, c)
		if v < 0 {
			return nil, ErrBad
		}
		acc = acc<<5 | uint64(v)
		n += 5
		if n >= 8 {
			n -= 8
			out = append(out, byte(acc>>uint(n)))
		}
	}
	return out, nil
}

// CRC16 is CRC-16/AUG-CCITT (poly 0x1021, init 0x1D0F, no reflection).
func CRC16(b []byte) uint16 {
	crc := uint16(0x1D0F)
	for _, c := range b {
		crc ^= uint16(c) << 8
		for i := 0; i < 8; i++ {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

// CRC8 is poly 0x1D, init 0.
func CRC8(b []byte) byte {
	var crc byte
	for _, c := range b {
		crc ^= c
		for i := 0; i < 8; i++ {
			if crc&0x80 != 0 {
				crc = crc<<1 ^ 0x1D
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

// Sum wraps b with the checksum frame used by key and signature text.
func Sum(b []byte) []byte {
	n := 3
	for (1+len(b)+n)%5 != 0 {
		n++
	}
	h := sha256.Sum224(b)
	out := append([]byte{byte(n)}, b...)
	return append(out, h[28-n:]...)
}

// Unsum undoes Sum.
func Unsum(f []byte) ([]byte, bool) {
	if len(f) < 4 {
		return nil, false
	}
	n := int(f[0])
	if n < 3 || n > 7 || len(f)-n < 1 || len(f)%5 != 0 {
		return nil, false
	}
	b := f[1 : len(f)-n]
	h := sha256.Sum224(b)
	return b, string(h[28-n:]) == string(f[len(f)-n:])
}

// Algorithm numbers on the wire.
const (
	AlgNull    = 0
	AlgEd25519 = 1
	AlgSecp    = 2
)

// Packed is the binary (msgpack) form: a 2-array of algorithm id and bytes.
func Packed(alg byte, data []byte) []byte {
	out := []byte{0x92}
	if alg < 0x80 {
		out = append(out, alg)
	} else {
		out = append(out, 0xcc, alg)
	}
	switch {
	case len(data) < 1<<8:
		out = append(out, 0xc4, byte(len(data)))
	case len(data) < 1<<16:
		out = append(out, 0xc5, byte(len(data)>>8), byte(len(data)))
	default:
		out = append(out, 0xc6)
		out = binary.BigEndian.AppendUint32(out, uint32(len(data)))
	}
	return append(out, data...)
}

// Unpacked decodes the canonical binary form.
func Unpacked(b []byte) (alg byte, data []byte, rest []byte, err error) {
	if len(b) < 2 || b[0] != 0x92 {
		return 0, nil, nil, ErrBad
	}
	b = b[1:]
	switch {
	case b[0] < 0x80:
		alg, b = b[0], b[1:]
	case b[0] == 0xcc && len(b) >= 2:
		alg, b = b[1], b[2:]
	default:
		return 0, nil, nil, ErrBad
	}
	if len(b) < 2 {
		return 0, nil, nil, ErrBad
	}
	var n int
	switch {
	case b[0] == 0xc4:
		n, b = int(b[1]), b[2:]
	case b[0] == 0xc5 && len(b) >= 3:
		n, b = int(b[1])<<8|int(b[2]), b[3:]
	case b[0] == 0xc6 && len(b) >= 5:
		n, b = int(binary.BigEndian.Uint32(b[1:])), b[5:]
	default:
		return 0, nil, nil, ErrBad
	}
	if n > len(b) {
		return 0, nil, nil, ErrBad
	}
	return alg, b[:n], b[n:], nil
}

// KeyPack is length-prefixed key bytes followed by extra data.
func KeyPack(key, extra []byte) []byte {
	return append(append([]byte{byte(len(key))}, key...), extra...)
}

// KeyText is the text form of a key with its prefix.
func KeyText(prefix string, alg byte, key, extra []byte) string {
	return prefix + B32(Sum(Packed(alg, KeyPack(key, extra))))
}

// SigText is the text form of a signature.
func SigText(alg byte, sig []byte) string { return B32(Sum(Packed(alg, sig))) }

// Address is the address of some data.
func Address(kind byte, data []byte) (string, bool) {
	if !strings.ContainsRune("anexbm", rune(kind)) || len(data) < 12 {
		return "", false
	}
	h := sha256.Sum256(data)
	// 'n','d',kind as 15 bits, then a zero bit
	v := strings.IndexByte(Alphabet, 'n')<<11 | strings.IndexByte(Alphabet, 'd')<<6 | strings.IndexByte(Alphabet, kind)<<1
	b := append([]byte{byte(v >> 8), byte(v)}, h[6:]...)
	c := CRC16(b)
	return B32(append(b, byte(c>>8), byte(c))), true
}

// AddressOK is whether text is, up to letter case, a well-formed address of a
// known kind with a good checksum.
func AddressOK(s string) bool {
	if len(s) != 48 {
		return false
	}
	b, err := B32Decode(s)
	if err != nil || len(b) != 30 {
		return false
	}
	k := s[2]
	if k >= 'A' && k <= 'Z' {
		k += 32
	}
	if !strings.ContainsRune("anexbm", rune(k)) {
		return false
	}
	c := CRC16(b[:28])
	return b[28] == byte(c>>8) && b[29] == byte(c)
}
