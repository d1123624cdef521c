package simrt

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"sort"
)

// Entropy is the simulated system entropy source (crypto/rand).
type Entropy struct {
	rng  *RNG
	Mode EntropyMode
	N    int // for ShortThenErr / FailAfter: bytes delivered before failing
	// Served records every byte handed out.
	Served []byte
	Calls  int
	Fired  int
	// Pattern, if any, is what the source delivers over and over.
	Pattern []byte
}

// EntropyMode is how the entropy source misbehaves.
type EntropyMode int

// the entropy source's behaviours
const (
	EntropyOK        EntropyMode = iota
	EntropyShort                 // returns fewer bytes than asked, no error
	EntropyFailAfter             // delivers N bytes in total, then errors
	EntropyOneByte               // one byte at a time
	EntropyEOF                   // delivers N bytes in total, then io.EOF
	EntropyZeroRead              // sometimes returns 0, nil
)

// ErrEntropy is what a failing source reports.
var ErrEntropy = errors.New("simulated entropy failure")

// NewEntropy makes a source.
func NewEntropy(r *RNG) *Entropy { return &Entropy{rng: r} }

// Read implements io.Reader.
func (e *Entropy) Read(p []byte) (int, error) {
	e.Calls++
	n := len(p)
	var err error
	switch e.Mode {
	case EntropyShort:
		if n > 1 {
			n = 1 + e.rng.Intn(n)
			if n < len(p) {
				e.Fired++
			}
		}
	case EntropyOneByte:
		if n > 1 {
			n = 1
			e.Fired++
		}
	case EntropyZeroRead:
		if e.rng.Intn(2) == 0 {
			n = 0
			e.Fired++
		}
	case EntropyFailAfter, EntropyEOF:
		left := e.N - len(e.Served)
		if left < 0 {
			left = 0
		}
		if n > left {
			n = left
			e.Fired++
			err = ErrEntropy
			if e.Mode == EntropyEOF {
				err = io.EOF
			}
		}
	}
	for i := 0; i < n; i++ {
		p[i] = byte(e.rng.Next() >> 11)
		if len(e.Pattern) > 0 {
			p[i] = e.Pattern[(len(e.Served)+i)%len(e.Pattern)]
		}
	}
	e.Served = append(e.Served, p[:n]...)
	return n, err
}

// SystemEntropy returns the run's entropy source.
func (s *Sim) SystemEntropy() *Entropy { return s.entropy }

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) {
	if S == nil {
		return crand.Read(p)
	}
	return S.entropy.Read(p)
}

// CryptoReader stands in for crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

// CryptoRead stands in for crypto/rand.Read.
func CryptoRead(p []byte) (int, error) { return io.ReadFull(CryptoReader, p) }

// CryptoInt stands in for crypto/rand.Int.
func CryptoInt(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }

type simSource struct{ r *RNG }

func (s simSource) Int63() int64    { return int64(s.r.Next() >> 1) }
func (s simSource) Uint64() uint64  { return s.r.Next() }
func (s simSource) Seed(seed int64) {}

var fallback = mrand.New(simSource{NewRNG(1)})
var fallback2 = mrand2.New(simSource{NewRNG(1)})

// MR stands in for math/rand's global generator.
func MR() *mrand.Rand {
	if S == nil {
		return fallback
	}
	if S.mr == nil {
		S.mr = mrand.New(simSource{S.mrand})
	}
	return S.mr
}

// MR2 stands in for math/rand/v2's global generator.
func MR2() *mrand2.Rand {
	if S == nil {
		return fallback2
	}
	return mrand2.New(simSource{S.mrand})
}

// MapSeq iterates a map in an order decided by the simulator.
func MapSeq[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		MapR(m)
		for _, k := range MapKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapSeq1 iterates the keys only.
func MapSeq1[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) {
		MapR(m)
		for _, k := range MapKeys(m) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}

// MapKeys returns the keys in the simulator's order.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	type kk struct {
		s string
		k K
	}
	ks := make([]kk, 0, len(m))
	for k := range m {
		ks = append(ks, kk{fmt.Sprintf("%T/%v", k, k), k})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
	if S != nil {
		r := NewRNG(S.mapSalt)
		S.mapSalt = r.Next()
		for i := len(ks) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	out := make([]K, len(ks))
	for i := range ks {
		out[i] = ks[i].k
	}
	return out
}
