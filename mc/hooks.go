package main

import (
	"math/big"
	"math/rand"
	randv2 "math/rand/v2"
	"sync"

	"github.com/tokenized/pkg/bitcoin"

	_ "github.com/tokenized/bitcoin_interpreter"
	_ "github.com/tokenized/txbuilder"
	_ "github.com/tokenized/txbuilder/fees"
)

// fullRange are the representatives of a draw over all 63 bit values.
var fullRange = []int64{0, 1<<63 - 1, 1 << 62, 1, 1<<62 - 1}

// withDraws runs f with every random draw a choice. Ranges up to exact values are enumerated in
// full, larger ones by the lowest, highest, middle and the values next to the ends.
func withDraws(x *X, exact int64, f func()) {
	choose := func(n int64) int64 {
		if n < 0 {
			n = -n
		}
		if n == 0 {
			return Pick(x, "draw63", fullRange)
		}
		if n <= exact {
			return int64(x.Choose("draw", int(n)))
		}
		reps := []int64{0, n - 1, n / 2}
		return reps[x.Choose("drawBig", len(reps))]
	}
	rand.VerifChoose = choose
	randv2.VerifChoose = choose
	defer func() {
		rand.VerifChoose = nil
		randv2.VerifChoose = nil
	}()
	f()
}

// withFixedDraws runs f with every draw giving its lowest value, where draws do not matter.
func withFixedDraws(f func()) {
	zero := func(n int64) int64 { return 0 }
	rand.VerifChoose = zero
	randv2.VerifChoose = zero
	defer func() {
		rand.VerifChoose = nil
		randv2.VerifChoose = nil
	}()
	f()
}

// withDrawsLimited enumerates only the draws over at most max values; all others, and shuffles, give
// their lowest value.
func withDrawsLimited(x *X, max int64, f func()) {
	choose := func(n int64) int64 {
		if n > 0 && n <= max {
			return int64(x.Choose("draw", int(n)))
		}
		return 0
	}
	rand.VerifChoose = choose
	randv2.VerifChoose = choose
	defer func() {
		rand.VerifChoose = nil
		randv2.VerifChoose = nil
	}()
	f()
}

// withPattern runs f with draws that follow one of 39 patterns, every word of one to three draws each
// of which is the lowest, the middle or the highest value, repeated. It is for lists too long to
// enumerate every draw.
func withPattern(x *X, f func()) {
	word := make([]int, 1+x.Choose("period", 3))
	for i := range word {
		word[i] = x.Choose("draw", 3)
	}
	k := 0
	choose := func(n int64) int64 {
		if n < 0 {
			n = -n
		}
		if n == 0 {
			n = 1<<63 - 1
		}
		w := word[k%len(word)]
		k++
		return []int64{0, n / 2, n - 1}[w]
	}
	rand.VerifChoose = choose
	randv2.VerifChoose = choose
	defer func() {
		rand.VerifChoose = nil
		randv2.VerifChoose = nil
	}()
	f()
}

// Public keys are calculated once for each key: nearly all the time of signing with symbolic
// signatures went into repeating that.
var publicKeys sync.Map

func init() {
	bitcoin.VerifPublicKey = func(k bitcoin.Key) bitcoin.PublicKey {
		id := string(k.Number())
		e, ok := publicKeys.Load(id)
		if !ok {
			e = k.VerifMultiply()
			publicKeys.Store(id, e)
		}
		p := e.(bitcoin.PublicKey)
		return bitcoin.PublicKey{X: *new(big.Int).Set(&p.X), Y: *new(big.Int).Set(&p.Y)}
	}
}
