package main

import (
	"fmt"
	"math"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

var allRates = []float32{0, 0.001, 0.0099, 0.05, 0.25, 0.3, 0.5, 0.75, 1, 1.1, 1.5, 2, 2.25, 5, 10.01, 100, 999.5, 1000}

// scriptPool is every kind of locking script with its reference unlocking size.
func scriptPool() []lock {
	l := []lock{lockPKH(0), lockPK(1), lockMulti(1, 0), lockMulti(1, 0, 1), lockMulti(2, 0, 1), lockMulti(2, 0, 1, 2),
		lockMulti(3, 0, 1, 2, 3, 4),
		manyPKH(2, 36, nil), manyPKH(2, 37, nil), manyPKH(16, 16, nil), manyPKH(16, 20, nil), manyPKH(17, 20, nil), manyPKH(20, 20, nil),
		manyPKH(1, 145, nil), manyPKH(1, 146, nil), manyPKH(130, 200, nil),
		lockAgent(lockPKH(0)), lockAgent(lockPK(1)), lockAgent(lockMulti(2, 0, 1, 2)), lockAgent(lockMulti(1, 0, 3)),
	}
	un := func(name string, s bitcoin.Script) { l = append(l, lock{Name: name, Script: s, Unlock: -1}) }
	un("empty", nil)
	un("true", bitcoin.Script{0x51})
	un("return", opReturn(2))
	un("data252", opReturn(252))
	un("data253", opReturn(253))
	un("data65535", opReturn(65535))
	un("data65536", opReturn(65536))
	un("plain22", plainScript(22))
	sh := append(bitcoin.Script{0xa9, 20}, pkhs[0]...)
	un("sh", append(sh, 0x87))
	un("short pkh", p2pkh(0)[:24])
	un("long pkh", append(append(bitcoin.Script{}, p2pkh(0)...), 0x61))
	un("pkh with verify", append(append(bitcoin.Script{}, p2pkh(0)[:24]...), 0xad))
	un("cut multi", multi(2, 0, 1, 2)[:60])
	un("truncated push", bitcoin.Script{0x4c, 0x20, 0x01})
	un("nested notif", bitcoin.Script{0x64, 0x51, 0x64})
	unc := append(bitcoin.Script{65, 4}, make([]byte, 64)...)
	un("uncompressed", append(unc, 0xac))
	return l
}

func judgeScript(x *X, l lock, rate, dustRate float32) {
	x.Op()
	s := l.Script
	outSize := refOutputSize(len(s))
	if got := txbuilder.OutputSize(s); got != outSize {
		x.Failf("%s: output size %d, should be %d", l.Name, got, outSize)
	}
	outFee := ratFee(uint64(outSize), float64(rate))
	if got := txbuilder.LockingScriptOutputFee(s, rate); got != outFee {
		x.Failf("%s: output fee %d at %v, should be %d", l.Name, got, rate, outFee)
	}
	f, d := txbuilder.OutputFeeAndDustForLockingScript(s, dustRate, rate)
	if f != outFee || !isDust(d, outSize, dustRate) {
		x.Failf("%s: output fee %d and dust limit %d at %v/%v, should be %d and %v", l.Name, f, d, rate, dustRate, outFee,
			refDusts(outSize, dustRate))
	}
	if d := txbuilder.DustLimitForLockingScript(s, dustRate); !isDust(d, outSize, dustRate) {
		x.Failf("%s: dust limit %d at %v, should be %v", l.Name, d, dustRate, refDusts(outSize, dustRate))
	}
	if d := txbuilder.DustLimitForOutput(&wire.TxOut{Value: 77, LockingScript: s}, dustRate); !isDust(d, outSize, dustRate) {
		x.Failf("%s: dust limit %d at %v, should be %v", l.Name, d, dustRate, refDusts(outSize, dustRate))
	}
	if l.Unlock >= 0 && agentLocks[string(s)].Script == nil || l.Name == "sh" {
		ra, err := bitcoin.RawAddressFromLockingScript(s)
		if err == nil && ra.IsEmpty() {
			err = fmt.Errorf("empty")
		}
		var back bitcoin.Script
		if err == nil {
			back, err = ra.LockingScript()
		}
		if err == nil && back.Equal(s) {
			if got, err := txbuilder.AddressOutputFee(ra, rate); err != nil || got != outFee {
				x.Failf("%s: address output fee %d (%v), should be %d", l.Name, got, err, outFee)
			}
			if got, err := txbuilder.DustLimitForAddress(ra, dustRate); err != nil || !isDust(got, outSize, dustRate) {
				x.Failf("%s: address dust limit %d (%v), should be %v", l.Name, got, err, refDusts(outSize, dustRate))
			}
			f, d, err := txbuilder.OutputFeeAndDustForAddress(ra, dustRate, rate)
			if err != nil || f != outFee || !isDust(d, outSize, dustRate) {
				x.Failf("%s: address output fee %d and dust %d (%v)", l.Name, f, d, err)
			}
			x.Outcome("address")
		}
	}

	us, uerr := txbuilder.UnlockingScriptSize(s)
	is, ierr := txbuilder.InputSize(s)
	inFee, inErr := txbuilder.LockingScriptInputFee(s, rate)
	utxo := utxoOf(hashA, 1, 5000, s, "")
	uFee, ufErr := txbuilder.UTXOFee(utxo, rate)
	sz, szFee, szErr := txbuilder.UTXOInputSizeAndFee(utxo, rate)
	tOut, tIn, tErr := txbuilder.OutputTotalCost(s, rate)
	if tOut != outFee {
		x.Failf("%s: total cost output part %d, should be %d", l.Name, tOut, outFee)
	}
	if l.Unlock < 0 {
		for i, e := range []error{uerr, ierr, inErr, ufErr, szErr, tErr} {
			if e == nil {
				x.Failf("%s: unknown script kind was sized (%d)", l.Name, i)
			}
		}
		if tIn != 0 {
			x.Failf("%s: total cost input part %d for an unknown kind", l.Name, tIn)
		}
		x.Outcome("unknown kind")
	} else {
		want := ratFee(uint64(refInputSize(l.Unlock)), float64(rate))
		for i, e := range []error{uerr, ierr, inErr, ufErr, szErr, tErr} {
			if e != nil {
				x.Failf("%s: refused (%d): %s", l.Name, i, e)
			}
		}
		if us != l.Unlock || is != refInputSize(l.Unlock) || sz != is {
			x.Failf("%s: unlocking size %d input size %d/%d, should be %d and %d", l.Name, us, is, sz, l.Unlock, refInputSize(l.Unlock))
		}
		if inFee != want || uFee != want || szFee != want || tIn != want {
			x.Failf("%s: input fees %d %d %d %d at %v, should be %d", l.Name, inFee, uFee, szFee, tIn, rate, want)
		}
		x.Outcome("known kind")
	}
	x.State(hashOf(l.Name, outFee, d, inFee))
}

func rateFor(x *X, label string) float32 { return Pick(x, label, allRates) }

func denseSizes(thorough bool) []int {
	var l []int
	hi := 700
	if thorough {
		hi = 4000
	}
	for i := 0; i < hi; i++ {
		l = append(l, i)
	}
	for _, b := range []int{4096, 10000, 65535, 100000, 1000000, 10000000} {
		for d := -12; d <= 12; d++ {
			l = append(l, b+d)
		}
	}
	// as far as double precision holds every product with a single precision rate
	for _, b := range []int{1 << 17, 1 << 20, 1 << 23, 1 << 24, 1 << 25, 1 << 26, 1 << 27, 1 << 28} {
		for d := -3; d <= 5; d++ {
			l = append(l, b+d)
		}
	}
	return l
}

func init() {
	register(&Check{
		ID: "C26",
		Assumptions: []string{
			"rates are single precision numbers, as the builder holds them, so size times rate is exact in double precision",
			"the dust limit may be computed exactly or in single precision; outputs up to 5 MB",
		},
		Scenarios: func(thorough bool) []*Scenario {
			sizes := denseSizes(thorough)
			pool := scriptPool()
			var lens []int
			for i := 0; i < 320; i++ {
				lens = append(lens, i)
			}
			lens = append(lens, 65520, 65534, 65535, 65536, 65537, 100000)
			var rates []float32
			rates = append(rates, allRates...)
			n := 40
			if thorough {
				n = 400
			}
			for i := 1; i <= n; i++ {
				rates = append(rates, float32(i)*0.025, math.Nextafter32(float32(i)*0.05, 0), float32(1)/float32(i))
			}
			return []*Scenario{{
				Name: "fee for a size", Depth: 1,
				Bounds: fmt.Sprintf("%d sizes x %d rates, both rounding directions and both packages", len(sizes), len(rates)),
				Body: func(x *X) {
					rate := Pick(x, "rate", rates)
					size := Pick(x, "size", sizes)
					x.Op()
					up, down := ratFee(uint64(size), float64(rate)), ratFeeDown(uint64(size), float64(rate))
					if got := txbuilder.EstimatedFeeValue(uint64(size), float64(rate)); got != up {
						x.Failf("fee for %d bytes at %v is %d, should be %d", size, rate, got, up)
					}
					if got := txbuilder.EstimatedFeeValueDown(uint64(size), float64(rate)); got != down {
						x.Failf("fee rounded down for %d bytes at %v is %d, should be %d", size, rate, got, down)
					}
					if got := txbuilder.DustLimit(size, rate); (size+148)*3 < 1<<24 && !isDust(got, size, rate) {
						x.Failf("dust limit for %d bytes at %v is %d, should be %v", size, rate, got, refDusts(size, rate))
					}
					x.State(hashOf(size, up, down))
				},
			}, {
				Name:   "length prefix",
				Bounds: "every value within 300 of each boundary of the length prefix",
				Body: func(x *X) {
					b := Pick(x, "boundary", []uint64{0, 0xfd, 0x10000, 0x100000000, 1<<63 - 1})
					v := b + uint64(x.Choose("above", 300))
					if b > 0 && x.Bool("below") {
						v = b - (v - b)
					}
					x.Op()
					if got := txbuilder.VarIntSerializeSize(v); got != varintSize(v) {
						x.Failf("length prefix of %d takes %d bytes, should be %d", v, got, varintSize(v))
					}
					x.State(hashOf(v))
				},
			}, {
				Name: "script kinds", Depth: 2,
				Bounds: fmt.Sprintf("%d scripts of every kind x all pairs of %d fee and dust rates", len(pool), len(allRates)),
				Body: func(x *X) {
					judgeScript(x, Pick(x, "script", pool), rateFor(x, "rate"), rateFor(x, "dust rate"))
				},
			}, {
				Name: "script lengths", Depth: 2,
				Bounds: fmt.Sprintf("every script length 0..319 and around 65536 x %d rates", len(allRates)),
				Body: func(x *X) {
					n := Pick(x, "length", lens)
					r := rateFor(x, "rate")
					if n >= 65520 && r > 5 {
						return
					}
					judgeScript(x, lock{Name: fmt.Sprint("plain", n), Script: plainScript(n), Unlock: -1}, r, r)
				},
			}}
		},
	})
}

// srcTx is a transaction source for the standalone fee functions.
type srcTx struct {
	tx   *wire.MsgTx
	outs []*wire.TxOut // nil: not available
}

func (s *srcTx) TxID() bitcoin.Hash32     { return *s.tx.TxHash() }
func (s *srcTx) GetMsgTx() *wire.MsgTx    { return s.tx }
func (s *srcTx) InputCount() int          { return len(s.tx.TxIn) }
func (s *srcTx) Input(i int) *wire.TxIn   { return s.tx.TxIn[i] }
func (s *srcTx) OutputCount() int         { return len(s.tx.TxOut) }
func (s *srcTx) Output(i int) *wire.TxOut { return s.tx.TxOut[i] }
func (s *srcTx) InputOutput(i int) (*wire.TxOut, error) {
	if s.outs[i] == nil {
		return nil, fmt.Errorf("missing")
	}
	return s.outs[i], nil
}

var _ bitcoin_interpreter.TransactionWithOutputs = (*srcTx)(nil)
var _ = fees.EstimateFee
