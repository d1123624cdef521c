package ref

import (
	_ "embed"
	"strings"
)

// Phrase arithmetic: data bits followed by the low bits of its CRC-8 (zero
// extended), cut into 11-bit words, with at least four checksum bits.

// PhraseBits returns the word numbers for b.
func PhraseBits(b []byte) []int {
	nb := len(b) * 8
	nw := (nb + 4 + 10) / 11
	ck := nw*11 - nb
	bits := make([]byte, 0, nw*11)
	for _, c := range b {
		for i := 7; i >= 0; i-- {
			bits = append(bits, c>>uint(i)&1)
		}
	}
	crc := int(CRC8(b))
	for i := ck - 1; i >= 0; i-- {
		bits = append(bits, byte(crc>>uint(i)&1))
	}
	out := make([]int, nw)
	for w := range out {
		for i := 0; i < 11; i++ {
			out[w] = out[w]<<1 | int(bits[w*11+i])
		}
	}
	return out
}

// PhraseReadings lists every byte string whose phrase is exactly these words.
func PhraseReadings(ws []int) [][]byte {
	var out [][]byte
	for n := 0; n*8+4 <= len(ws)*11; n++ {
		// the phrase for n bytes must have len(ws) words
		if (n*8+4+10)/11 != len(ws) {
			continue
		}
		b := make([]byte, n)
		for i := 0; i < n*8; i++ {
			w, k := i/11, i%11
			if ws[w]>>uint(10-k)&1 == 1 {
				b[i/8] |= 1 << uint(7-i%8)
			}
		}
		p := PhraseBits(b)
		same := true
		for i := range p {
			if p[i] != ws[i] {
				same = false
			}
		}
		if same {
			out = append(out, b)
		}
	}
	return out
}

//go:embed data/english.txt
var englishText string

// English is the published word list.
var English = strings.Fields(englishText)

var englishIx = func() map[string]int {
	m := map[string]int{}
	for i, w := range English {
		m[w] = i
	}
	return m
}()

// WordNumber is a listed word's number.
func WordNumber(w string) (int, bool) { i, ok := englishIx[w]; return i, ok }

// Phrase is the phrase for b.
func Phrase(b []byte) []string {
	var out []string
	for _, i := range PhraseBits(b) {
		out = append(out, English[i])
	}
	return out
}

// Readings lists the byte strings whose phrase is exactly these words.
func Readings(ws []string) [][]byte {
	var ns []int
	for _, w := range ws {
		n, ok := WordNumber(w)
		if !ok {
			return nil
		}
		ns = append(ns, n)
	}
	return PhraseReadings(ns)
}
