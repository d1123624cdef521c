package hd

import (
	"time"

	"verif/simrt"
)

func durNS(n int64) time.Duration { return time.Duration(n) }

func newRNG(seed uint64) *rng { return simrt.NewRNG(seed) }
