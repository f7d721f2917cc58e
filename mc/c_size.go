package main

import (
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// fakeSig is a signature whose encoding with the type byte takes n bytes (9 to 72). It is not valid;
// it is used where only lengths matter.
func fakeSig(n int) bitcoin.Signature {
	body := n - 7
	ls := 32
	if body-ls < 1 {
		ls = body - 1
	}
	lr := body - ls
	var s bitcoin.Signature
	b := make([]byte, ls)
	b[0] = 1
	s.S.SetBytes(b)
	if lr == 33 {
		b = make([]byte, 32)
		b[0] = 0x80
	} else {
		b = make([]byte, lr)
		b[0] = 1
	}
	s.R.SetBytes(b)
	if len(s.Bytes())+1 != n {
		panic(fmt.Sprintf("harness: fake signature of %d bytes instead of %d", len(s.Bytes())+1, n))
	}
	return s
}

var fakeSigs [73]bitcoin.Signature

func init() {
	for i := 9; i <= 72; i++ {
		fakeSigs[i] = fakeSig(i)
	}
}

// withSigs runs f with every signature length given by next.
func withSigs(next func() int, f func()) {
	bitcoin.VerifSign = func(bitcoin.Key, bitcoin.Hash32) (bitcoin.Signature, error) { return fakeSigs[next()], nil }
	defer func() { bitcoin.VerifSign = nil }()
	f()
}

func perm(n int, f func(int) int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = f(i)
	}
	return r
}

// sizeKinds are the kinds of inputs that can be signed.
func sizeKinds() []lock {
	return []lock{lockPKH(0), lockPK(1), lockMulti(1, 2), lockMulti(2, 0, 1, 2), lockMulti(3, 0, 1, 2, 3),
		lockMulti(1, 3, 4), manyPKH(2, 36, map[int]int{0: 0, 35: 1}), manyPKH(2, 37, map[int]int{3: 0, 5: 1}),
		manyPKH(2, 38, map[int]int{3: 0, 5: 1}), manyPKH(1, 200, map[int]int{199: 2})}
}

func buildSized(kinds []lock, outs []bitcoin.Script) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(0.5, 0.25)
	for i, k := range kinds {
		if i > 300 { // adding them compares each with all others
			tx.MsgTx.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: outpointHash(i), Index: uint32(i)}, nil))
			tx.Inputs = append(tx.Inputs, &txbuilder.InputSupplement{LockingScript: k.Script, Value: 100000})
			continue
		}
		if err := tx.AddInput(wire.OutPoint{Hash: outpointHash(i), Index: uint32(i)}, k.Script, 100000); err != nil {
			panic("a valid start was refused: " + err.Error())
		}
	}
	for _, s := range outs {
		tx.MsgTx.AddTxOut(wire.NewTxOut(100000, s))
		tx.Outputs = append(tx.Outputs, &txbuilder.OutputSupplement{})
	}
	return tx
}

// judgeSize checks estimate, signs and checks the actual size against the signature lengths used.
func judgeSize(x *X, kinds []lock, outs []bitcoin.Script, next func() int) {
	tx := buildSized(kinds, outs)
	x.Op()
	want := 8 + varintSize(uint64(len(kinds))) + varintSize(uint64(len(outs)))
	sum := want
	for _, k := range kinds {
		want += refInputSize(k.Unlock)
		n, err := txbuilder.InputSize(k.Script)
		if err != nil {
			x.Failf("input size: %s", err)
		}
		sum += n
	}
	for _, s := range outs {
		want += refOutputSize(len(s))
		sum += txbuilder.OutputSize(s)
	}
	est := tx.EstimatedSize()
	if est != want {
		x.Failf("estimated size %d, should be %d", est, want)
	}
	if sum != est {
		x.Failf("input and output sizes add up to %d but the estimate is %d", sum, est)
	}
	if got := tx.EstimatedFee(); got != ratFee(uint64(want), 0.5) {
		x.Failf("estimated fee %d for size %d", got, want)
	}
	if len(kinds) > 1000 { // signing that many takes minutes
		x.State(hashOf(est))
		return
	}
	var lens []int
	var err error
	if next == nil {
		_, err = tx.SignOnly(keys)
	} else {
		withSigs(func() int {
			n := next()
			lens = append(lens, n)
			return n
		}, func() { _, err = tx.SignOnly(keys) })
	}
	x.Op()
	if err != nil {
		x.Failf("signing failed: %s", err)
	}
	actual := sizeOf(tx.MsgTx)
	if actual > est {
		x.Failf("signed size %d is above the estimate %d (signatures %v)", actual, est, lens)
	}
	if next != nil {
		// exact: unlocking scripts shrink only by the unused signature bytes
		sz := 8 + varintSize(uint64(len(kinds))) + varintSize(uint64(len(outs)))
		j := 0
		for _, k := range kinds {
			u := k.Unlock
			for r := 0; r < k.Required && j < len(lens); r++ {
				u -= 73 - lens[j]
				j++
			}
			sz += refInputSize(u)
		}
		for _, s := range outs {
			sz += refOutputSize(len(s))
		}
		if sz != actual {
			x.Failf("signed size %d, estimate %d, but signatures of %v bytes account for %d", actual, est, lens, sz)
		}
	} else if slack := est - actual; slack > sigSlack(kinds) {
		x.Failf("estimate %d exceeds the signed size %d by %d", est, actual, slack)
	}
	x.State(hashOf(est, actual))
}

// sigSlack allows real signatures to be a few bytes short of the longest encoding.
func sigSlack(kinds []lock) int {
	n := 0
	for _, k := range kinds {
		n += 8*k.Required + 2
	}
	return n
}

func init() {
	register(&Check{
		ID:          "C12",
		Assumptions: []string{"public keys are compressed", "signature encodings take 9 to 72 bytes with the type byte"},
		Scenarios: func(thorough bool) []*Scenario {
			kinds := sizeKinds()
			lens := []int{72, 71, 9}
			counts := []int{0, 1, 2, 251, 252, 253, 254}
			maxIn := 2
			if thorough {
				lens = []int{72, 71, 70, 40, 9}
			}
			pool := scriptPool()
			scripts := []bitcoin.Script{p2pkh(4), p2pk(5), nil, opReturn(252), opReturn(253), opReturn(65535), opReturn(65536), multi(2, 0, 1, 2)}
			return []*Scenario{{
				Name: "published sizes", Single: true,
				Bounds: "the published sizes of standard inputs and outputs, for the longest signature",
				Body: func(x *X) {
					sig, pub := 74, 34
					for i, p := range [][3]int{
						{txbuilder.BaseTxSize, 8, fees.BaseTxSize},
						{txbuilder.InputBaseSize, 40, fees.InputBaseSize},
						{txbuilder.OutputBaseSize, 8, fees.OutputBaseSize},
						{txbuilder.DustInputSize, 148, fees.DustInputSize},
						{txbuilder.PublicKeyHashPushDataSize, 21, fees.PublicKeyHashPushDataSize},
						{txbuilder.PublicKeyPushDataSize, pub, fees.PublicKeyPushDataSize},
						{txbuilder.MaxSignatureSize, sig - 1, fees.MaxSignatureSize},
						{txbuilder.MaxSignaturesPushDataSize, sig, fees.MaxSignaturesPushDataSize},
						{txbuilder.MaximumP2PKHSigScriptSize, sig + pub, sig + pub},
						{txbuilder.MaximumP2PKHInputSize, refInputSize(sig + pub), refInputSize(sig + pub)},
						{txbuilder.MaximumP2RPHSigScriptSize, sig + pub, sig + pub},
						{txbuilder.MaximumP2RPHInputSize, refInputSize(sig + pub), refInputSize(sig + pub)},
						{txbuilder.MaximumP2PKSigScriptSize, sig, sig},
						{txbuilder.MaximumP2PKInputSize, refInputSize(sig), refInputSize(sig)},
						{txbuilder.P2PKHOutputScriptSize, len(p2pkh(0)), len(p2pkh(0))},
						{txbuilder.P2PKHOutputSize, refOutputSize(len(p2pkh(0))), refOutputSize(len(p2pkh(0)))},
						{txbuilder.P2PKOutputScriptSize, len(p2pk(0)), len(p2pk(0))},
						{txbuilder.P2PKOutputSize, refOutputSize(len(p2pk(0))), refOutputSize(len(p2pk(0)))},
					} {
						x.Op()
						if p[0] != p[1] || p[2] != p[1] {
							x.Failf("published size %d is %d (fee library %d), should be %d", i, p[0], p[2], p[1])
						}
						x.State(hashOf(i))
					}
				},
			}, {
				Name: "signature lengths", Depth: 3,
				Bounds: fmt.Sprintf("up to %d inputs of %d kinds, every signature length of %v for each signature", maxIn, len(kinds), lens),
				Body: func(x *X) {
					n := 1 + x.Choose("inputs", maxIn)
					var ks []lock
					for i := 0; i < n; i++ {
						ks = append(ks, Pick(x, "kind", kinds))
					}
					judgeSize(x, ks, []bitcoin.Script{p2pkh(7)}, func() int { return Pick(x, "length", lens) })
				},
			}, {
				Name: "three inputs", Depth: 3, ThoroughOnly: true,
				Bounds: "three inputs of 7 kinds, longest and shortest for each signature",
				Body: func(x *X) {
					ks := []lock{Pick(x, "kind", kinds[:7]), Pick(x, "kind", kinds[:7]), Pick(x, "kind", kinds[:7])}
					judgeSize(x, ks, []bitcoin.Script{p2pkh(7)}, func() int { return Pick(x, "length", []int{72, 9}) })
				},
			}, {
				Name:   "output scripts",
				Bounds: "up to 3 outputs of every length class, every kind of input",
				Body: func(x *X) {
					n := x.Choose("outputs", 4)
					var outs []bitcoin.Script
					for i := 0; i < n; i++ {
						outs = append(outs, Pick(x, "script", scripts))
					}
					judgeSize(x, []lock{Pick(x, "kind", kinds)}, outs, func() int { return 72 })
				},
			}, {
				Name:   "counts",
				Bounds: fmt.Sprintf("input and output counts from %v, every kind, longest and mixed signatures", counts),
				Body: func(x *X) {
					n := Pick(x, "inputs", counts)
					m := Pick(x, "outputs", counts)
					k := Pick(x, "kind", kinds[:6])
					if n > 2 && k.Required > 1 && !x.Thorough {
						return
					}
					mixed := x.Bool("mixed")
					ks := make([]lock, n)
					for i := range ks {
						ks[i] = k
						if mixed {
							ks[i] = kinds[i%5]
						}
					}
					outs := make([]bitcoin.Script, m)
					for i := range outs {
						outs[i] = p2pkh(i % 8)
						if mixed && i%50 == 3 {
							outs[i] = opReturn(253)
						}
					}
					c := 0
					judgeSize(x, ks, outs, func() int {
						c++
						if mixed {
							return 72 - c%4
						}
						return 72
					})
				},
			}, {
				Name: "very many", Depth: 2,
				Bounds: "65534 to 65537 inputs of a kind (not signed), or outputs",
				Body: func(x *X) {
					n := 65534 + x.Choose("count", 4)
					var ks []lock
					var outs []bitcoin.Script
					if k := x.Choose("kind", 4); k < 3 {
						for i := 0; i < n; i++ {
							ks = append(ks, kinds[k])
						}
					} else {
						ks = append(ks, kinds[0])
						for i := 0; i < n; i++ {
							outs = append(outs, p2pkh(i%8))
						}
					}
					judgeSize(x, ks, outs, func() int { return 72 })
				},
			}, {
				Name:   "real signatures",
				Bounds: "every pair of kinds with signatures made by the keys",
				Body: func(x *X) {
					judgeSize(x, []lock{Pick(x, "first", kinds), Pick(x, "second", kinds)}, []bitcoin.Script{Pick(x, "script", scripts[:5])}, nil)
				},
			}, {
				Name:   "sized only",
				Bounds: "every pair of script kinds including those sized but not signed here and unknown ones",
				Body: func(x *X) {
					var ks []lock
					want := 10
					for i := 0; i < 2; i++ {
						k := Pick(x, "kind", pool)
						ks = append(ks, k)
						if k.Unlock >= 0 {
							want += refInputSize(k.Unlock)
						} else {
							want += refInputSize(108)
						}
					}
					x.Op()
					tx := buildSized(ks, nil)
					if got := tx.EstimatedSize(); got != want {
						x.Failf("estimated size %d for %s and %s, should be %d", got, ks[0].Name, ks[1].Name, want)
					}
					x.State(hashOf(want))
				},
			}}
		},
	})
}
