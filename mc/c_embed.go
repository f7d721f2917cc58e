package main

import (
	"context"
	"fmt"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// payload is an unlocking script that declares the size and value of an unknown input.
func payload(size, value uint64) bitcoin.Script {
	s, err := channels.Wrap(&unlocking_data.UnlockingData{Size: size, Value: value, Party: 1})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return s
}

// countsSane is false if a damaged payload announces so many parts that its own library would try to
// reserve gigabytes for them. Those are outside what is explored here.
func countsSane(s bitcoin.Script) bool {
	if len(s) < 5 {
		return true
	}
	b := s[5:]
	number := func() int64 {
		if len(b) == 0 {
			return 0
		}
		op := b[0]
		b = b[1:]
		if op >= 0x51 && op <= 0x60 {
			return int64(op - 0x50)
		}
		n := int(op)
		switch op {
		case 76, 77, 78:
			w := 1 << (op - 76)
			if len(b) < w {
				return 0
			}
			n = 0
			for i := w - 1; i >= 0; i-- {
				n = n<<8 | int(b[i])
			}
			b = b[w:]
		default:
			if op > 78 {
				return 0
			}
		}
		if n < 0 || n > len(b) {
			return int64(n)
		}
		v := int64(0)
		for i := n - 1; i >= 0; i-- {
			if v < 1<<40 {
				v = v<<8 | int64(b[i])
			}
		}
		b = b[n:]
		return v
	}
	ids := number()
	if ids > 1000 {
		return false
	}
	for i := int64(0); i < ids; i++ {
		number()
	}
	return number() <= 1000
}

// declared parses a payload; anything that cannot be parsed is not a declaration.
func declared(s bitcoin.Script) (size, value uint64, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	if len(s) < 2 || s[0] != 0 || s[1] != 0x6a {
		return 0, 0, false
	}
	msg, _, err := channels.NewProtocols(unlocking_data.NewProtocol()).Parse(s)
	if err != nil {
		return 0, 0, false
	}
	d, ok := msg.(*unlocking_data.UnlockingData)
	if !ok || d == nil {
		return 0, 0, false
	}
	return d.Size, d.Value, true
}

// embedded is one way an input can be described.
type embedded struct {
	Name   string
	Lock   bitcoin.Script
	Value  uint64
	Unlock bitcoin.Script
}

// refEmbedded is the size and value an input counts for.
func refEmbedded(e embedded) (size int, value uint64) {
	ds, dv, ok := declared(e.Unlock)
	value = e.Value
	if e.Value == 0 && ok {
		value = dv
	}
	if len(e.Lock) == 0 && ok {
		return 40 + varintSize(ds) + int(ds), value
	}
	if l, known := lockOf(string(e.Lock)); known {
		return refInputSize(l.Unlock), value
	}
	return refInputSize(108), value
}

func embeddedTx(es []embedded, rate float32) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(rate, rate/2)
	for i, e := range es {
		tx.MsgTx.AddTxIn(&wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: outpointHash(i), Index: uint32(i)},
			UnlockingScript: append(bitcoin.Script{}, e.Unlock...), Sequence: 0xffffffff})
		tx.Inputs = append(tx.Inputs, &txbuilder.InputSupplement{LockingScript: e.Lock, Value: e.Value})
	}
	return tx
}

// judgeEmbedded checks every figure that depends on the inputs.
func judgeEmbedded(x *X, es []embedded, rate float32, out uint64) {
	x.Op()
	tx := embeddedTx(es, rate)
	if out > 0 {
		tx.MsgTx.AddTxOut(wire.NewTxOut(out, p2pkh(3)))
		tx.Outputs = append(tx.Outputs, &txbuilder.OutputSupplement{})
	}
	before := mustSnap(x, tx)
	size := 8 + varintSize(uint64(len(es))) + 1
	if out > 0 {
		size += 34
	}
	value := uint64(0)
	for _, e := range es {
		s, v := refEmbedded(e)
		size += s
		value += v
	}
	if got := tx.EstimatedSize(); got != size {
		x.Failf("estimated size %d, should be %d for %s", got, size, names(es))
	}
	if got, want := tx.EstimatedFee(), ratFee(uint64(size), float64(rate)); got != want {
		x.Failf("estimated fee %d, should be %d for %s", got, want, names(es))
	}
	if got := tx.InputValue(); got != value {
		x.Failf("input value %d, should be %d for %s", got, value, names(es))
	}
	if got := tx.ActualFee(); got != int64(value)-int64(out) {
		x.Failf("fee %d, should be %d", got, int64(value)-int64(out))
	}
	fee := uint64(0)
	if value > out {
		fee = value - out
	}
	if got := tx.Fee(); got != fee {
		x.Failf("fee %d, should be %d", got, fee)
	}
	if d := mustSnap(x, tx).diff(before); d != "" {
		x.Failf("asking for the figures changed the transaction: %s", d)
	}
	x.State(hashOf(size, value))
}

func names(es []embedded) string {
	r := ""
	for _, e := range es {
		r += e.Name + " "
	}
	return r
}

func embeddedKinds() []embedded {
	var l []embedded
	for _, size := range []uint64{0, 1, 107, 252, 253, 65535, 65536, 1 << 20} {
		for _, v := range []uint64{0, 1, 1000, 1<<32 + 5} {
			l = append(l, embedded{fmt.Sprintf("declares %d/%d", size, v), nil, 0, payload(size, v)})
		}
	}
	l = append(l,
		embedded{"v0", nil, 0, payloadV0(120, 5000)},
		embedded{"known", p2pkh(0), 4000, nil},
		embedded{"known pk", p2pk(1), 1 << 40, nil},
		embedded{"known multi", multi(2, 0, 1, 2), 777, nil},
		embedded{"known and declared", p2pkh(0), 4000, payload(500, 9)},
		embedded{"script known", p2pk(0), 0, payload(500, 9)},
		embedded{"unknown script kind", plainScript(30), 0, payload(500, 9)},
		embedded{"unknown script kind with value", plainScript(30), 60, payload(500, 9)},
		embedded{"value known", nil, 4000, payload(500, 9)},
		embedded{"nothing", nil, 0, nil},
		embedded{"signed", nil, 0, cat([]byte{71}, make([]byte, 71), []byte{33}, make([]byte, 33))},
		embedded{"bare return", nil, 0, bitcoin.Script{0, 0x6a}},
		embedded{"return", nil, 0, opReturn(40)},
		embedded{"foreign", nil, 0, foreignPayload()},
		embedded{"not a return", nil, 0, append(bitcoin.Script{0x51}, payload(9, 9)...)},
	)
	return l
}

func payloadV0(size, value int64) bitcoin.Script {
	valid := payload(1, 1)
	// envelope: OP_FALSE OP_RETURN <0xbd01> <1 protocol> "UL" <count> items...
	var items bitcoin.ScriptItems
	for _, n := range []int64{0, size, value} {
		items = append(items, bitcoin.PushNumberScriptItem(n))
	}
	body, err := items.Script()
	if err != nil {
		panic("harness: " + err.Error())
	}
	head := cloneBytes(valid[:9])
	s := append(bitcoin.Script(head), 0x53)
	s = append(s, body...)
	if a, b, ok := declared(s); !ok || a != uint64(size) || b != uint64(value) {
		panic(fmt.Sprintf("harness: version 0 payload: %x", []byte(s)))
	}
	return s
}

func foreignPayload() bitcoin.Script {
	s := append(bitcoin.Script{}, payload(300, 300)...)
	for i := range s {
		if s[i] == 'U' && s[i+1] == 'L' {
			s[i] = 'X'
			return s
		}
	}
	panic("harness: foreign")
}

// mutants are all single byte changes, cuts and one byte insertions of a valid payload.
func mutant(x *X, p bitcoin.Script, thorough bool) bitcoin.Script {
	switch x.Choose("change", 3) {
	case 0:
		i := x.Choose("at", len(p)-2) + 2
		v := byte(x.Choose("to", 256))
		r := append(bitcoin.Script{}, p...)
		r[i] = v
		return r
	case 1:
		return append(bitcoin.Script{}, p[:x.Choose("cut", len(p))]...)
	}
	i := x.Choose("at", len(p)-1) + 2
	v := byte(x.Choose("insert", 256))
	r := append(bitcoin.Script{}, p[:i]...)
	r = append(r, v)
	return append(r, p[i:]...)
}

func init() {
	register(&Check{
		ID: "C25",
		Assumptions: []string{
			"the format of embedded unlocking data is what its own library writes and accepts",
			"declared sizes up to 2^32 and values within the monetary range",
		},
		Scenarios: func(thorough bool) []*Scenario {
			kinds := embeddedKinds()
			rates := []float32{0, 0.05, 0.5, 1, 2.25}
			bases := []bitcoin.Script{payload(200, 7000), payloadV0(120, 5000), payload(0, 0), payload(70000, 1<<40)}
			nMut := 2
			if thorough {
				nMut = 4
			}
			return []*Scenario{{
				Name:   "one input",
				Bounds: fmt.Sprintf("%d ways of describing an input, %d rates, with and without an output", len(kinds), len(rates)),
				Body: func(x *X) {
					judgeEmbedded(x, []embedded{Pick(x, "kind", kinds)}, Pick(x, "rate", rates), Pick(x, "out", []uint64{0, 1, 1000, 1 << 33}))
				},
			}, {
				Name:   "mixtures",
				Bounds: "every pair (quick) or triple (thorough) of ways of describing inputs",
				Body: func(x *X) {
					n := 2
					if x.Thorough {
						n = 3
					}
					var es []embedded
					for i := 0; i < n; i++ {
						es = append(es, Pick(x, "kind", kinds))
					}
					judgeEmbedded(x, es, 0.5, 1000)
				},
			}, {
				Name:   "damaged",
				Bounds: fmt.Sprintf("every single byte change, cut and insertion of %d valid payloads", nMut),
				Body: func(x *X) {
					p := bases[x.Choose("base", nMut)]
					m := mutant(x, p, thorough)
					if !countsSane(m) {
						return
					}
					if s, _, ok := declared(m); ok && s > 1<<32 {
						return
					}
					e := embedded{fmt.Sprintf("%x", []byte(m)), nil, 0, m}
					judgeEmbedded(x, []embedded{e}, 0.5, 1000)
					tx := embeddedTx([]embedded{e}, 0.5)
					if len(tx.String(bitcoin.MainNet)) == 0 || len(txbuilder.TxString(tx)) == 0 {
						x.Failf("no description")
					}
					_, _, ok := declared(m)
					x.Outcome("still valid %v", ok)
				},
			}, {
				Name:   "funding",
				Bounds: "declared values one satoshi around what the outputs and fee need, with and without offered outputs",
				Body: func(x *X) {
					size := Pick(x, "size", []uint64{0, 107, 252, 253, 3000})
					rate := Pick(x, "rate", []float32{0, 0.05, 0.5, 1})
					out := uint64(10000)
					need := out + ratFee(uint64(8+2+40+varintSize(size)+int(size)+34), float64(rate))
					value := uint64(int64(need) + int64(x.Choose("around", 5)) - 2)
					offered := x.Bool("offered")
					other := x.Bool("break")
					tx := embeddedTx([]embedded{{"e", nil, 0, payload(size, value)}}, rate)
					tx.MsgTx.AddTxOut(wire.NewTxOut(out, p2pkh(3)))
					tx.Outputs = append(tx.Outputs, &txbuilder.OutputSupplement{})
					tx.SetChangeLockingScript(p2pkh(4), "")
					var utxos []bitcoin.UTXO
					if offered {
						utxos = append(utxos, utxoOf(hashB, 3, 50000, p2pkh(1), ""))
					}
					x.Op()
					var err error
					if other {
						withFixedDraws(func() {
							err = tx.AddFundingBreakChange(utxos, 1000, []txbuilder.AddressKeyID{{Address: addrOf(p2pkh(4))}})
						})
					} else {
						err = tx.AddFunding(utxos)
					}
					added := len(tx.MsgTx.TxIn) - 1
					if value >= need && !other && added != 0 {
						x.Failf("declared value %d covers %d but %d inputs were added", value, need, added)
					}
					if value >= need && !other && err != nil {
						x.Failf("declared value %d covers %d but funding failed: %s", value, need, err)
					}
					if value < need && !offered && !is(err, txbuilder.ErrInsufficientValue) {
						x.Failf("declared value %d does not cover %d but funding gave %v", value, need, err)
					}
					if value < need && offered && (err != nil || added != 1) {
						x.Failf("declared value %d and 50000 more cover %d but funding gave %v with %d inputs", value, need, err, added)
					}
					if err == nil {
						want := ratFee(uint64(refEmbeddedTx(tx)), float64(rate))
						if fee := tx.ActualFee(); fee < int64(want) {
							x.Failf("funded with fee %d, needs %d", fee, want)
						}
					}
					x.Outcome("added %d error %v", added, err != nil)
					x.State(hashOf(mustSnap(x, tx).hash()))
				},
			}}
		},
	})

	register(&Check{
		ID: "C21",
		Assumptions: []string{
			"rates are single precision numbers held in double precision, so that the product with a size is exact",
			"declared sizes up to 2^32",
		},
		Scenarios: func(thorough bool) []*Scenario {
			pool := scriptPool()
			kinds := embeddedKinds()
			sizes := denseSizes(thorough)
			return []*Scenario{{
				Name: "script kinds", Depth: 2,
				Bounds: fmt.Sprintf("%d scripts of every kind x all pairs of %d rates", len(pool), len(allRates)),
				Body: func(x *X) {
					feesScript(x, Pick(x, "script", pool), float64(rateFor(x, "rate")), float64(rateFor(x, "dust rate")))
				},
			}, {
				Name: "sizes", Depth: 1,
				Bounds: fmt.Sprintf("%d sizes x %d rates", len(sizes), len(allRates)),
				Body: func(x *X) {
					r := float64(rateFor(x, "rate"))
					n := Pick(x, "size", sizes)
					x.Op()
					if got := fees.EstimateFeeValue(n, r); got != ratFee(uint64(n), r) {
						x.Failf("fee for %d bytes at %v is %d, should be %d", n, r, got, ratFee(uint64(n), r))
					}
					if got := fees.DustLimit(n, r); got != feesDust(n, r) {
						x.Failf("dust limit for %d bytes at %v is %d, should be %d", n, r, got, feesDust(n, r))
					}
					if got := fees.InputSizeForUnlockingScriptSize(n); got != refInputSize(n) {
						x.Failf("input size for unlocking size %d is %d", n, got)
					}
					if got := fees.OutputSizeForLockingScriptSize(n); got != refOutputSize(n) {
						x.Failf("output size for script size %d is %d", n, got)
					}
					if got := fees.DustLimitForLockingScriptSize(n, r); got != feesDust(refOutputSize(n), r) {
						x.Failf("dust limit for script size %d is %d", n, got)
					}
					x.State(hashOf(n, r))
				},
			}, {
				Name: "transactions", Depth: 2,
				Bounds: "every pair (thorough: and every triple of a subset) of ways of describing inputs, missing ones included, with 0 to 2 outputs",
				Body: func(x *X) {
					n := x.Choose("inputs", 3)
					var es []embedded
					for i := 0; i < n; i++ {
						es = append(es, Pick(x, "kind", kinds))
					}
					missing := x.Choose("missing", n+1) - 1
					feesTx(x, es, missing, Pick(x, "outs", [][]uint64{nil, {700}, {0, 1 << 40}}), 0.5)
				},
			}, {
				Name: "three inputs", Depth: 2, ThoroughOnly: true,
				Bounds: "every triple of ways of describing inputs",
				Body: func(x *X) {
					es := []embedded{Pick(x, "kind", kinds), Pick(x, "kind", kinds), Pick(x, "kind", kinds)}
					feesTx(x, es, -1, []uint64{700}, 0.5)
				},
			}, {
				Name:   "counts",
				Bounds: "0 to 2, 251 to 254 and (for one of them, at one rate) 65535 and 65536 inputs and outputs, every rate",
				Body: func(x *X) {
					n := Pick(x, "inputs", []int{0, 1, 2, 251, 252, 253, 254, 65535, 65536})
					m := Pick(x, "outputs", []int{0, 1, 2, 251, 252, 253, 254, 65535, 65536})
					if n+m > 66000 || n+m > 1000 && n != 1 && m != 1 {
						return
					}
					es := make([]embedded, n)
					for i := range es {
						es[i] = embedded{"known", []bitcoin.Script{p2pkh(0), p2pk(1), multi(2, 0, 1, 2)}[i%3], uint64(i + 1), nil}
						if i%7 == 6 {
							es[i] = embedded{"declared", nil, 0, payload(uint64(i), uint64(i)*3)}
						}
					}
					outs := make([]uint64, m)
					for i := range outs {
						outs[i] = uint64(i)
					}
					rate := 0.5
					if n+m < 1000 {
						rate = float64(rateFor(x, "rate"))
					}
					feesTx(x, es, -1, outs, rate)
				},
			}, {
				Name:   "damaged",
				Bounds: "every single byte change, cut and insertion of valid embedded data",
				Body: func(x *X) {
					m := mutant(x, payload(200, 7000), thorough)
					if !countsSane(m) {
						return
					}
					if s, _, ok := declared(m); ok && s > 1<<32 {
						return
					}
					feesTx(x, []embedded{{fmt.Sprintf("%x", []byte(m)), nil, 0, m}}, -1, []uint64{700}, 0.5)
				},
			}}
		},
	})
}

// refEmbeddedTx is the worst case size of a transaction that may contain embedded inputs.
func refEmbeddedTx(tx *txbuilder.TxBuilder) int {
	n := 8 + varintSize(uint64(len(tx.MsgTx.TxIn))) + varintSize(uint64(len(tx.MsgTx.TxOut)))
	for i, in := range tx.MsgTx.TxIn {
		s, _ := refEmbedded(embedded{"", tx.Inputs[i].LockingScript, tx.Inputs[i].Value, in.UnlockingScript})
		n += s
	}
	for _, o := range tx.MsgTx.TxOut {
		n += refOutputSize(len(o.LockingScript))
	}
	return n
}

func feesDust(outputSize int, rate float64) uint64 {
	d := ratFee(uint64(outputSize+148)*3, rate)
	if d < 1 {
		return 1
	}
	return d
}

func feesScript(x *X, l lock, rate, dustRate float64) {
	x.Op()
	s := l.Script
	n := refOutputSize(len(s))
	if got := fees.OutputSize(s); got != n {
		x.Failf("%s: output size %d, should be %d", l.Name, got, n)
	}
	outFee := ratFee(uint64(n), rate)
	if got := fees.OutputFeeForLockingScript(s, rate); got != outFee {
		x.Failf("%s: output fee %d, should be %d", l.Name, got, outFee)
	}
	dust := feesDust(n, dustRate)
	f, d := fees.OutputFeeAndDustForLockingScript(s, dustRate, rate)
	if f != outFee || d != dust {
		x.Failf("%s: output fee %d and dust limit %d, should be %d and %d", l.Name, f, d, outFee, dust)
	}
	sz, d := fees.OutputSizeAndDustForLockingScript(s, dustRate)
	if sz != n || d != dust {
		x.Failf("%s: output size %d and dust limit %d, should be %d and %d", l.Name, sz, d, n, dust)
	}
	if d := fees.DustLimitForLockingScript(s, dustRate); d != dust {
		x.Failf("%s: dust limit %d, should be %d", l.Name, d, dust)
	}
	if d := fees.DustLimitForOutput(&wire.TxOut{Value: 3, LockingScript: s}, dustRate); d != dust {
		x.Failf("%s: dust limit %d, should be %d", l.Name, d, dust)
	}
	keep := cloneBytes(s)
	us, err := fees.EstimateUnlockingSize(s)
	co, ci, cerr := fees.OutputTotalCost(s, rate)
	if string(keep) != string(s) {
		x.Failf("%s: the script was changed", l.Name)
	}
	if co != outFee {
		x.Failf("%s: output part of the total cost %d, should be %d", l.Name, co, outFee)
	}
	if l.Unlock < 0 {
		if err == nil || cerr == nil || ci != 0 {
			x.Failf("%s: unknown script kind was sized: %d %v, cost %d %v", l.Name, us, err, ci, cerr)
		}
		x.Outcome("unknown kind")
	} else {
		if err != nil || us != l.Unlock {
			x.Failf("%s: unlocking size %d (%v), should be %d", l.Name, us, err, l.Unlock)
		}
		want := ratFee(uint64(refInputSize(l.Unlock)), rate)
		if cerr != nil || ci != want {
			x.Failf("%s: input part of the total cost %d (%v), should be %d", l.Name, ci, cerr, want)
		}
		if b, err := txbuilder.UnlockingScriptSize(s); err != nil || b != us {
			x.Failf("%s: the builder's estimate %d (%v) differs from %d", l.Name, b, err, us)
		}
		x.Outcome("known kind")
	}
	x.State(hashOf(l.Name, outFee, dust, ci))
}

// refUnlocker sizes unlocking scripts as the reference does.
type refUnlocker struct{}

func (refUnlocker) Unlock(context.Context, bitcoin_interpreter.TransactionWithOutputs, int) (bitcoin.Script, error) {
	return nil, fmt.Errorf("not used")
}
func (refUnlocker) SubUnlock(context.Context, bitcoin_interpreter.TransactionWithOutputs, int, int) (bitcoin.Script, error) {
	return nil, fmt.Errorf("not used")
}
func (refUnlocker) UnlockingSize(s bitcoin.Script) (int, error) {
	if l, ok := lockOf(string(s)); ok {
		return l.Unlock, nil
	}
	return 0, bitcoin.ErrUnknownScriptTemplate
}
func (refUnlocker) CanUnlock(bitcoin.Script) bool          { return true }
func (refUnlocker) CanPartiallyUnlock(bitcoin.Script) bool { return true }
func (u refUnlocker) Copy() bitcoin_interpreter.Unlocker   { return u }

// feesTx compares the figures for a whole transaction. The data of input missing is not available.
func feesTx(x *X, es []embedded, missing int, outs []uint64, rate float64) {
	x.Op()
	tx := &wire.MsgTx{Version: 1}
	src := &srcTx{tx: tx}
	size := 8 + varintSize(uint64(len(es))) + varintSize(uint64(len(outs)))
	var inValue, outValue uint64
	sizeOK, valueOK := true, true
	for i, e := range es {
		tx.AddTxIn(&wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: outpointHash(i), Index: uint32(i)}, UnlockingScript: e.Unlock})
		o := &wire.TxOut{Value: e.Value, LockingScript: e.Lock}
		if i == missing {
			o = nil
			sizeOK, valueOK = false, false
		}
		src.outs = append(src.outs, o)
		ds, dv, ok := declared(e.Unlock)
		// size
		want, wantOK := 0, true
		if len(e.Lock) > 0 {
			if l, known := lockOf(string(e.Lock)); known {
				want = refInputSize(l.Unlock)
			} else {
				wantOK = false
			}
		} else if ok {
			want = 40 + varintSize(ds) + int(ds)
		} else {
			wantOK = false
		}
		got, err := fees.EstimateInputSize(tx.TxIn[i], e.Lock, refUnlocker{})
		if (err == nil) != wantOK || wantOK && got != want {
			x.Failf("%s: input size %d (%v), should be %d (known %v)", e.Name, got, err, want, wantOK)
		}
		sizeOK = sizeOK && wantOK
		size += want
		// value
		v, vOK := e.Value, true
		if e.Value == 0 {
			v, vOK = dv, ok
		}
		gotV, err := fees.InputValue(tx.TxIn[i], &wire.TxOut{Value: e.Value, LockingScript: e.Lock})
		if (err == nil) != vOK || vOK && gotV != v {
			x.Failf("%s: input value %d (%v), should be %d (known %v)", e.Name, gotV, err, v, vOK)
		}
		valueOK = valueOK && vOK
		inValue += v
	}
	for i, v := range outs {
		s := p2pkh(i % 8)
		tx.AddTxOut(wire.NewTxOut(v, s))
		size += refOutputSize(len(s))
		outValue += v
	}
	got, err := fees.EstimateSize(src, refUnlocker{})
	if (err == nil) != sizeOK || sizeOK && got != size {
		x.Failf("size %d (%v), should be %d (known %v) for %s missing %d", got, err, size, sizeOK, names(es), missing)
	}
	fee, err := fees.EstimateFee(src, refUnlocker{}, rate)
	if (err == nil) != sizeOK || sizeOK && fee != ratFee(uint64(size), rate) {
		x.Failf("fee %d (%v), should be %d (known %v)", fee, err, ratFee(uint64(size), rate), sizeOK)
	}
	iv, err := fees.InputsValue(src)
	if (err == nil) != valueOK || valueOK && iv != inValue {
		x.Failf("input value %d (%v), should be %d (known %v) for %s", iv, err, inValue, valueOK, names(es))
	}
	if ov := fees.OutputsValue(src); ov != outValue {
		x.Failf("output value %d, should be %d", ov, outValue)
	}
	af, err := fees.Fee(src)
	if (err == nil) != valueOK || valueOK && af != int64(inValue)-int64(outValue) {
		x.Failf("fee %d (%v), should be %d (known %v)", af, err, int64(inValue)-int64(outValue), valueOK)
	}
	if missing < 0 && sizeOK && valueOK {
		b, err := txbuilder.NewTxBuilderFromTransactionWithOutputs(float32(rate), 1, src)
		if err != nil {
			x.Failf("builder from the same data: %s", err)
		}
		if b.EstimatedSize() != size || b.InputValue() != inValue || b.OutputValue(true) != outValue {
			x.Failf("the builder estimates size %d in %d out %d, not %d %d %d", b.EstimatedSize(), b.InputValue(),
				b.OutputValue(true), size, inValue, outValue)
		}
		x.Outcome("all known")
	} else {
		x.Outcome("something missing")
	}
	x.State(hashOf(size, inValue, outValue))
}
