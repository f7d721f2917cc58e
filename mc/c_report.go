package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/expanded_tx"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// ---- rebuilding ----

// source is a transaction with whatever spent outputs are known.
type source struct {
	tx    *wire.MsgTx
	spent []*wire.TxOut
}

func (s *source) TxID() bitcoin.Hash32     { return *s.tx.TxHash() }
func (s *source) GetMsgTx() *wire.MsgTx    { return s.tx }
func (s *source) InputCount() int          { return len(s.tx.TxIn) }
func (s *source) Input(i int) *wire.TxIn   { return s.tx.TxIn[i] }
func (s *source) OutputCount() int         { return len(s.tx.TxOut) }
func (s *source) Output(i int) *wire.TxOut { return s.tx.TxOut[i] }
func (s *source) InputOutput(i int) (*wire.TxOut, error) {
	if i >= len(s.spent) || s.spent[i] == nil {
		return nil, errors.New("not known")
	}
	return &wire.TxOut{Value: s.spent[i].Value, LockingScript: fs(s.spent[i].LockingScript)}, nil
}

func copyMsg(tx *wire.MsgTx) *wire.MsgTx {
	c := tx.Copy()
	return &c
}

// parents are three transactions with outputs of differing scripts and values; decoys are nearly the
// same but have other identifiers.
func parents() (list, decoys []*wire.MsgTx) {
	for p := 0; p < 3; p++ {
		tx := wire.NewMsgTx(1)
		tx.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: outpointHash(900 + p), Index: uint32(p)}, nil))
		for o := 0; o <= p; o++ {
			s := [][]byte{p2pkh(p), p2pk(o), multi(2, 0, 1, 2)}[(p+o)%3]
			tx.AddTxOut(wire.NewTxOut(uint64(1000*(p+1)+o), s))
		}
		list = append(list, tx)
		d := copyMsg(tx)
		d.LockTime = 7
		for _, o := range d.TxOut {
			o.Value += 500000
			o.LockingScript = p2pkh(6)
		}
		decoys = append(decoys, d)
	}
	return
}

// spendable are the outpoints the inputs are chosen from.
func spendable(ps []*wire.MsgTx) []wire.OutPoint {
	var l []wire.OutPoint
	for _, p := range ps {
		for o := range p.TxOut {
			l = append(l, wire.OutPoint{Hash: *p.TxHash(), Index: uint32(o)})
		}
	}
	l = append(l, wire.OutPoint{Hash: *ps[0].TxHash(), Index: 1}, // out of range
		wire.OutPoint{Hash: *ps[2].TxHash(), Index: 0xffffffff}, // far out of range
		wire.OutPoint{Hash: outpointHash(444), Index: 0},        // unknown
		wire.OutPoint{Index: 0xffffffff})                        // coinbase
	return l
}

func rebuiltTx(x *X, ps []*wire.MsgTx, maxIn int) *wire.MsgTx {
	tx := wire.NewMsgTx(2)
	tx.LockTime = 77
	pool := spendable(ps)
	n := 1 + x.Choose("inputs", maxIn)
	for i := 0; i < n; i++ {
		o := Pick(x, "spends", pool)
		in := wire.NewTxIn(&o, nil)
		in.Sequence = uint32(100 + i)
		if i == 1 {
			in.UnlockingScript = bitcoin.Script{0x51, 0x52}
		}
		tx.AddTxIn(in)
	}
	for i := 0; i < n-1; i++ {
		tx.AddTxOut(wire.NewTxOut(uint64(500+i), p2pkh(3+i)))
	}
	return tx
}

// judgeRebuilt compares the builder with the original and what is known of the spent outputs.
func judgeRebuilt(x *X, how string, orig []byte, tx *wire.MsgTx, b *txbuilder.TxBuilder, err error, known func(o wire.OutPoint) (inSnap, bool), partial bool) {
	x.Op()
	missing := 0
	for _, in := range tx.TxIn {
		if _, ok := known(in.PreviousOutPoint); !ok && (partial || !in.PreviousOutPoint.Hash.IsZero()) {
			missing++
		}
	}
	x.Outcome("%s missing %d of %d", how, missing, len(tx.TxIn))
	if (missing > 0) != (err != nil) {
		x.Failf("%s: data for %d inputs is missing, reported %v", how, missing, err)
	}
	if partial && err != nil && !is(err, txbuilder.ErrMissingInputData) {
		x.Failf("%s: reported %v", how, err)
	}
	if !partial && err != nil {
		return
	}
	if b == nil {
		x.Failf("%s: no builder", how)
	}
	if !bytes.Equal(serialize(b.MsgTx), orig) {
		x.Failf("%s: the transaction was changed", how)
	}
	s := mustSnap(x, b)
	if s.FeeRate != 0.5 || s.DustRate != 0.25 || s.SendMax || s.Change != "" {
		x.Failf("%s: settings %s", how, s)
	}
	for i, in := range s.Ins {
		w, ok := known(tx.TxIn[i].PreviousOutPoint)
		if !ok {
			w = inSnap{}
		}
		if in.Script != w.Script || in.Value != w.Value || in.KeyID != w.KeyID {
			x.Failf("%s: input %d has script %s value %d label %q, should be %s %d %q", how, i, short(in.Script), in.Value, in.KeyID,
				short(w.Script), w.Value, w.KeyID)
		}
	}
	for i, o := range s.Outs {
		if o.Rem || o.Dust || o.KeyID != "" {
			x.Failf("%s: output %d is marked", how, i)
		}
	}
	x.State(hashOf(s.hash(), how))
	// usable
	judgeQueries(x, b)
	c := b.Copy()
	if d := mustSnap(x, &c).diff(s); d != "" {
		x.Failf("%s: copy differs: %s", how, d)
	}
	if e := b.AddOutput(p2pkh(5), 5000, false, false); e != nil {
		x.Failf("%s: cannot add an output: %s", how, e)
	}
	if e := b.AddInputUTXO(utxoOf(outpointHash(555), 5, 99, p2pkh(0), "n")); e != nil {
		x.Failf("%s: cannot add an input: %s", how, e)
	}
	after := mustSnap(x, b)
	if len(after.Ins) != len(s.Ins)+1 || len(after.Outs) != len(s.Outs)+1 || !sameList(after.Ins[:len(s.Ins)], s.Ins) {
		x.Failf("%s: editing afterwards changed something else", how)
	}
}

// parentLists are the ways of supplying parents.
func parentList(x *X, ps, decoys []*wire.MsgTx) (l []*wire.MsgTx, have [3]bool) {
	orders := [][]int{{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	o := Pick(x, "parents", orders)
	extra := x.Choose("extra", 4)
	for _, p := range o {
		if extra == 1 {
			l = append(l, decoys[p])
		}
		l = append(l, ps[p])
		if extra == 2 {
			l = append(l, decoys[p])
		}
		if extra == 3 {
			l = append(l, ps[p])
		}
		have[p] = true
	}
	return
}

func rebuildScenarios(thorough bool) []*Scenario {
	known := func(ps []*wire.MsgTx, have [3]bool) func(o wire.OutPoint) (inSnap, bool) {
		return func(o wire.OutPoint) (inSnap, bool) {
			for i, p := range ps {
				if have[i] && *p.TxHash() == o.Hash && o.Index < uint32(len(p.TxOut)) {
					return inSnap{Script: string(p.TxOut[o.Index].LockingScript), Value: p.TxOut[o.Index].Value}, true
				}
			}
			return inSnap{}, false
		}
	}
	maxIn := depthOf(thorough, 2, 3)
	return []*Scenario{{
		Name: "parents", Depth: 2,
		Bounds: "one to 2 (thorough: 3) inputs spending any of ten outpoints (existing, out of range, unknown, coinbase); every ordered subset of three " +
			"parents, with nearly equal decoys or repeats",
		Body: func(x *X) {
			ps, ds := parents()
			tx := rebuiltTx(x, ps, maxIn)
			list, have := parentList(x, ps, ds)
			orig := serialize(tx)
			before := deepHash(list)
			b, err := txbuilder.NewTxBuilderFromWire(0.5, 0.25, tx, list)
			if deepHash(list) != before {
				x.Failf("the supplied parents were changed")
			}
			judgeRebuilt(x, "from parents", orig, copyMsg(tx), b, err, known(ps, have), true)
		},
	}, {
		Name: "spent outputs", Depth: 2,
		Bounds: "the same transactions; every subset of the outputs spent, in both orders, with decoys of equal identifier and other index and of an " +
			"identifier differing in one bit, before, after or not at all",
		Body: func(x *X) {
			ps, _ := parents()
			tx := rebuiltTx(x, ps, maxIn)
			orig := serialize(tx)
			pool := spendable(ps)[:6]
			mask := x.Choose("subset", 1<<6)
			reverse := x.Bool("reversed")
			decoys := x.Choose("decoys", 3)
			var list, dl []bitcoin.UTXO
			have := map[wire.OutPoint]inSnap{}
			for i, o := range pool {
				if mask>>uint(i)&1 == 0 {
					continue
				}
				u := utxoOf(o.Hash, o.Index, uint64(70000+i), signKinds()[i%5].Script, fmt.Sprint("k", i))
				list = append(list, u)
				have[o] = inSnap{Script: string(u.LockingScript), Value: u.Value, KeyID: u.KeyID}
				d := fresh(u)
				d.Index += 100
				d.Value++
				e := fresh(u)
				e.Hash[31] ^= 1
				e.Value += 2
				f := fresh(u)
				f.Hash[0] ^= 0x80
				f.Value += 3
				dl = append(dl, d, e, f)
			}
			if reverse {
				for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
					list[i], list[j] = list[j], list[i]
				}
			}
			switch decoys {
			case 1:
				list = append(dl, list...)
			case 2:
				list = append(list, dl...)
			}
			before := deepHash(list)
			b, err := txbuilder.NewTxBuilderFromWireUTXOs(0.5, 0.25, tx, list)
			if deepHash(list) != before {
				x.Failf("the supplied outputs were changed")
			}
			judgeRebuilt(x, "from spent outputs", orig, copyMsg(tx), b, err, func(o wire.OutPoint) (inSnap, bool) {
				r, ok := have[o]
				return r, ok
			}, true)
		},
	}, {
		Name: "other source", Depth: 2,
		Bounds: "the same transactions from another source that knows any subset of the parents: an own implementation, an expanded transaction with " +
			"spent outputs or ancestors, and another builder",
		Body: func(x *X) {
			ps, ds := parents()
			tx := rebuiltTx(x, ps, maxIn)
			orig := serialize(tx)
			mask := x.Choose("parents", 8)
			var have [3]bool
			for i := range have {
				have[i] = mask>>uint(i)&1 == 1
			}
			kn := known(ps, have)
			spent := make([]*wire.TxOut, len(tx.TxIn))
			all := true
			for i, in := range tx.TxIn {
				if s, ok := kn(in.PreviousOutPoint); ok {
					spent[i] = wire.NewTxOut(s.Value, bitcoin.Script(s.Script))
				} else {
					all = false
				}
			}
			var src txbuilder.TransactionWithOutputs
			switch x.Choose("source", 4) {
			case 0:
				src = &source{tx, spent}
			case 1:
				e := &expanded_tx.ExpandedTx{Tx: tx, SpentOutputs: make(expanded_tx.Outputs, len(spent))}
				for i, o := range spent {
					if o != nil {
						e.SpentOutputs[i] = &expanded_tx.Output{Value: o.Value, LockingScript: o.LockingScript}
					}
				}
				src = e
			case 2:
				e := &expanded_tx.ExpandedTx{Tx: tx}
				for i, p := range ps {
					e.Ancestors = append(e.Ancestors, &expanded_tx.AncestorTx{Tx: ds[i]})
					if have[i] {
						e.Ancestors = append(e.Ancestors, &expanded_tx.AncestorTx{Tx: p})
					}
				}
				src = e
			case 3:
				var l []*wire.MsgTx
				for i, p := range ps {
					if have[i] {
						l = append(l, p)
					}
				}
				b, _ := txbuilder.NewTxBuilderFromWire(1, 1, copyMsg(tx), l)
				if !all {
					// judged by the other scenarios
					for i := range b.Inputs {
						if b.Inputs[i] == nil {
							return
						}
					}
				}
				src = b
			}
			b, err := txbuilder.NewTxBuilderFromTransactionWithOutputs(0.5, 0.25, src)
			judgeRebuilt(x, "from another source", orig, copyMsg(tx), b, err, kn, false)
		},
	}, {
		Name: "many", Depth: 2,
		Bounds: "1 to 300 inputs of as many parents or one parent, in the same or reverse order, complete or with one missing at either end or in the middle, " +
			"in all three ways",
		Body: func(x *X) {
			n := Pick(x, "inputs", []int{1, 2, 3, 9, 10, 17, 33, 100, 252, 253, 300})
			one := x.Bool("one parent")
			reverse := x.Bool("reversed")
			gone := Pick(x, "missing", []int{-1, 0, n / 2, n - 1})
			kinds := signKinds()
			tx := wire.NewMsgTx(2)
			var ps []*wire.MsgTx
			var list []bitcoin.UTXO
			spent := make([]*wire.TxOut, n)
			have := map[wire.OutPoint]inSnap{}
			big := wire.NewMsgTx(1)
			for i := 0; i < n; i++ {
				big.AddTxOut(wire.NewTxOut(uint64(1000+i), kinds[i%len(kinds)].Script))
			}
			for i := 0; i < n; i++ {
				o := wire.OutPoint{Hash: *big.TxHash(), Index: uint32(i)}
				s := big.TxOut[i]
				if !one {
					p := wire.NewMsgTx(1)
					p.LockTime = uint32(i)
					for k := 0; k <= i%4; k++ {
						p.AddTxOut(wire.NewTxOut(uint64(5000*k+i), kinds[(i+k)%len(kinds)].Script))
					}
					o = wire.OutPoint{Hash: *p.TxHash(), Index: uint32(i % 4)}
					s = p.TxOut[i%4]
					if i != gone {
						ps = append(ps, p)
					}
				} else if i == gone {
					o.Index += 1000
				}
				tx.AddTxIn(wire.NewTxIn(&o, nil))
				if i != gone {
					list = append(list, utxoOf(o.Hash, o.Index, s.Value, s.LockingScript, ""))
					have[o] = inSnap{Script: string(s.LockingScript), Value: s.Value}
					spent[i] = s
				}
			}
			if one {
				ps = append(ps, big)
			}
			tx.AddTxOut(wire.NewTxOut(700, p2pkh(5)))
			if reverse {
				for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
					list[i], list[j] = list[j], list[i]
				}
				for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
					ps[i], ps[j] = ps[j], ps[i]
				}
			}
			orig := serialize(tx)
			var b *txbuilder.TxBuilder
			var err error
			how := x.Choose("how", 3)
			switch how {
			case 0:
				b, err = txbuilder.NewTxBuilderFromWire(0.5, 0.25, tx, ps)
			case 1:
				b, err = txbuilder.NewTxBuilderFromWireUTXOs(0.5, 0.25, tx, list)
			case 2:
				b, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(0.5, 0.25, &source{tx, spent})
			}
			judgeRebuilt(x, "from many", orig, copyMsg(tx), b, err, func(o wire.OutPoint) (inSnap, bool) {
				r, ok := have[o]
				return r, ok
			}, how < 2)
		},
	}, {
		Name: "fields", Depth: 3,
		Bounds: "two inputs with sequence, position, unlocking script and the value and script spent at their extremes, every version, lock time and output value " +
			"at its extremes, in all three ways",
		Body: func(x *X) {
			tx := wire.NewMsgTx(1)
			parent := wire.NewMsgTx(1)
			s := wire.NewTxOut(Pick(x, "value", []uint64{0, 1 << 32, 2100000000000000}),
				Pick(x, "script", []bitcoin.Script{nil, p2pkh(1), plainScript(300)}))
			n := Pick(x, "position", []int{0, 256})
			for i := 0; i < n; i++ {
				parent.AddTxOut(wire.NewTxOut(uint64(i), p2pkh(2)))
			}
			parent.AddTxOut(s)
			o := wire.OutPoint{Hash: *parent.TxHash(), Index: uint32(n)}
			tx.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: outpointHash(7), Index: 7}, nil))
			tx.AddTxIn(wire.NewTxIn(&o, Pick(x, "unlocking", []bitcoin.Script{nil, {}, {0x51}, payload(5, 6)})))
			if x.Bool("first") {
				tx.TxIn[0], tx.TxIn[1] = tx.TxIn[1], tx.TxIn[0]
			}
			tx.AddTxOut(Pick(x, "pays", []*wire.TxOut{wire.NewTxOut(0, nil), wire.NewTxOut(2100000000000000, p2pkh(3)), wire.NewTxOut(0, opReturn(9))}))
			setFields(x, &txbuilder.TxBuilder{MsgTx: tx})
			orig := serialize(tx)
			have := map[wire.OutPoint]inSnap{o: {Script: string(s.LockingScript), Value: s.Value}}
			var b *txbuilder.TxBuilder
			var err error
			how := x.Choose("how", 3)
			switch how {
			case 0:
				b, err = txbuilder.NewTxBuilderFromWire(0.5, 0.25, tx, []*wire.MsgTx{parent})
			case 1:
				have[o] = inSnap{Script: string(s.LockingScript), Value: s.Value, KeyID: "label"}
				b, err = txbuilder.NewTxBuilderFromWireUTXOs(0.5, 0.25, tx, []bitcoin.UTXO{utxoOf(o.Hash, o.Index, s.Value, s.LockingScript, "label")})
			case 2:
				// without the other input
				for i, in := range tx.TxIn {
					if in.PreviousOutPoint != o {
						tx.TxIn = append(tx.TxIn[:i:i], tx.TxIn[i+1:]...)
						break
					}
				}
				orig = serialize(tx)
				b, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(0.5, 0.25, &source{tx, []*wire.TxOut{s}})
			}
			judgeRebuilt(x, "with extreme fields", orig, copyMsg(tx), b, err, func(o wire.OutPoint) (inSnap, bool) {
				r, ok := have[o]
				return r, ok
			}, how < 2)
		},
	}, {
		Name: "round trip", Depth: 2,
		Bounds: "transactions of one to three inputs of every kind, rebuilt in all three ways and signed: every signature valid and equal to that of the " +
			"original builder",
		Body: func(x *X) {
			kinds := signKinds()
			var ks []lock
			for i := 0; i < 1+x.Choose("inputs", 3); i++ {
				ks = append(ks, Pick(x, "kind", kinds))
			}
			tx := signTx(ks, 2)
			msg := copyMsg(tx.MsgTx)
			s := mustSnap(x, tx)
			var list []bitcoin.UTXO
			var spent []*wire.TxOut
			for _, in := range s.Ins {
				list = append(list, utxoOf(in.Hash, in.Index, in.Value, bitcoin.Script(in.Script), in.KeyID))
				spent = append(spent, wire.NewTxOut(in.Value, bitcoin.Script(in.Script)))
			}
			var b *txbuilder.TxBuilder
			var err error
			if x.Bool("source") {
				b, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(tx.FeeRate, tx.DustFeeRate, &source{msg, spent})
			} else {
				b, err = txbuilder.NewTxBuilderFromWireUTXOs(tx.FeeRate, tx.DustFeeRate, msg, list)
			}
			if err != nil {
				x.Failf("complete data refused: %s", err)
			}
			withSymbolic(nil, func() {
				x.Op()
				if _, err := tx.SignOnly(keys); err != nil {
					x.Failf("signing the original: %s", err)
				}
				if _, err := b.SignOnly(keys); err != nil {
					x.Failf("signing the rebuilt: %s", err)
				}
				judgeSigned(x, b, allInputs(b))
				if !bytes.Equal(serialize(tx.MsgTx), serialize(b.MsgTx)) {
					x.Failf("the rebuilt transaction signs differently")
				}
			})
			x.State(deepHash(b))
		},
	}}
}

// ---- reports ----

var spaces = regexp.MustCompile(`[^a-z]`)

type field struct{ key, val string }

func fields(text string) []field {
	var r []field
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		k, v := l, ""
		if i := strings.Index(l, ":"); i >= 0 {
			k, v = l[:i], strings.TrimSpace(l[i+1:])
		}
		r = append(r, field{spaces.ReplaceAllString(strings.ToLower(k), ""), v})
	}
	return r
}

// report is a parsed description.
type report struct {
	head []field
	ins  [][]field
	outs [][]field
	tail []field
}

// parseReport splits a description into its inputs and outputs. Inputs start with their outpoint;
// outputs are separated when a field repeats.
func parseReport(x *X, text string) report {
	var r report
	state := 0
	for _, f := range fields(text) {
		switch {
		case state == 0 && strings.HasPrefix(f.key, "inputs"):
			state = 1
			continue
		case state == 1 && strings.HasPrefix(f.key, "outputs"):
			state = 2
			continue
		case state == 2 && f.key == "locktime":
			state = 3
		}
		switch state {
		case 0:
			r.head = append(r.head, f)
		case 1:
			if f.key == "outpoint" {
				r.ins = append(r.ins, nil)
			}
			if len(r.ins) == 0 {
				x.Failf("an input without outpoint in\n%s", text)
			}
			r.ins[len(r.ins)-1] = append(r.ins[len(r.ins)-1], f)
		case 2:
			if n := len(r.outs); n == 0 || get(r.outs[n-1], f.key) != nil {
				r.outs = append(r.outs, nil)
			}
			n := len(r.outs)
			r.outs[n-1] = append(r.outs[n-1], f)
		case 3:
			r.tail = append(r.tail, f)
		}
	}
	if state != 3 {
		x.Failf("the description lacks a section:\n%s", text)
	}
	return r
}

func get(l []field, key string) *string {
	for _, f := range l {
		if f.key == key {
			return &f.val
		}
	}
	return nil
}

// amount reads satoshis, or bitcoins with a decimal point.
func amount(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	if strings.Contains(s, ".") {
		r.Mul(r, new(big.Rat).SetInt64(100000000))
	}
	return r
}

func sameAmount(s *string, v uint64) bool {
	if s == nil {
		return false
	}
	a := amount(*s)
	return a != nil && a.Cmp(new(big.Rat).SetInt(new(big.Int).SetUint64(v))) == 0
}

var numbers = regexp.MustCompile(`-?\d+(\.\d+)?`)

func firstNumber(s *string) (float64, bool) {
	if s == nil {
		return 0, false
	}
	m := numbers.FindString(*s)
	if m == "" {
		return 0, false
	}
	f, err := strconv.ParseFloat(m, 64)
	return f, err == nil
}

func isNumber(s *string, n int64) bool {
	if s == nil {
		return false
	}
	return numbers.FindString(*s) == fmt.Sprint(n)
}

// address checks that a printed address stands for the script. The dependency decodes the addresses
// of single keys only; its encoding is the reference for the rest.
func address(x *X, s *string, script bitcoin.Script, net bitcoin.Network, text string) {
	_, ok := lockOf(string(script))
	single := ok && (len(script) == 25 || len(script) == 35)
	if s == nil {
		if single {
			x.Failf("no address for %x in\n%s", []byte(script), text)
		}
		return
	}
	if single {
		a, err := bitcoin.DecodeAddress(*s)
		if err != nil {
			x.Failf("address %q: %s", *s, err)
		}
		ls, err := bitcoin.NewRawAddressFromAddress(a).LockingScript()
		if err != nil || !bytes.Equal(ls, script) {
			x.Failf("address %q stands for %x, the script is %x\n%s", *s, []byte(ls), []byte(script), text)
		}
	}
	ra, err := bitcoin.RawAddressFromLockingScript(script)
	if err != nil || bitcoin.NewAddressFromRawAddress(ra, net).String() != *s {
		x.Failf("address %q stands for another script than %x\n%s", *s, []byte(script), text)
	}
}

// judgeReports checks both descriptions of a builder.
func judgeReports(x *X, tx *txbuilder.TxBuilder) {
	s := mustSnap(x, tx)
	h := deepHash(tx)
	judgeTxString(x, tx, s)
	for _, net := range []bitcoin.Network{bitcoin.MainNet, bitcoin.TestNet} {
		judgeString(x, tx, s, net)
	}
	if deepHash(tx) != h {
		x.Failf("describing the transaction changed it")
	}
}

func txid(tx *wire.MsgTx) string {
	b := dsha(serialize(tx))
	r := ""
	for i := len(b) - 1; i >= 0; i-- {
		r += fmt.Sprintf("%02x", b[i])
	}
	return r
}

func hashString(h bitcoin.Hash32) string {
	r := ""
	for i := 31; i >= 0; i-- {
		r += fmt.Sprintf("%02x", h[i])
	}
	return r
}

func judgeString(x *X, tx *txbuilder.TxBuilder, s snap, net bitcoin.Network) {
	text := tx.String(net)
	r := parseReport(x, text)
	id := get(r.head, "txid")
	if id == nil || !strings.HasPrefix(*id, txid(tx.MsgTx)) {
		x.Failf("the identifier should be %s in\n%s", txid(tx.MsgTx), text)
	}
	rest := numbers.FindAllString((*id)[64:], -1)
	fee := int64(refInputValue(tx)) - int64(outputTotal(s))
	if fee < 0 {
		fee = 0
	}
	if w := []string{fmt.Sprint(sizeOf(tx.MsgTx)), fmt.Sprint(refEmbeddedTx(tx)), fmt.Sprint(fee)}; fmt.Sprint(rest) != fmt.Sprint(w) {
		x.Failf("size, estimated size and fee should be %v in\n%s", w, text)
	}
	if v := get(r.head, "version"); !isNumber(v, int64(tx.MsgTx.Version)) {
		x.Failf("version should be %d in\n%s", tx.MsgTx.Version, text)
	}
	if v := get(r.tail, "locktime"); !isNumber(v, int64(tx.MsgTx.LockTime)) {
		x.Failf("lock time should be %d in\n%s", tx.MsgTx.LockTime, text)
	}
	if len(r.ins) != len(s.Ins) || len(r.outs) != len(s.Outs) {
		x.Failf("%d inputs and %d outputs described instead of %d and %d in\n%s", len(r.ins), len(r.outs), len(s.Ins), len(s.Outs), text)
	}
	for i, in := range s.Ins {
		f := r.ins[i]
		o := get(f, "outpoint")
		if !strings.Contains(*o, hashString(in.Hash)) || !strings.Contains(strings.Replace(*o, hashString(in.Hash), "", 1), fmt.Sprint(in.Index)) {
			x.Failf("input %d spends %s %d in\n%s", i, hashString(in.Hash), in.Index, text)
		}
		sameScript(x, get(f, "unlockingscript"), in.Unlock, text)
		sameScript(x, get(f, "lockingscript"), in.Script, text)
		if v := get(f, "sequence"); v == nil || !isHex(*v, in.Sequence) {
			x.Failf("input %d has sequence %x in\n%s", i, in.Sequence, text)
		}
		if !sameAmount(get(f, "value"), in.Value) {
			x.Failf("input %d has value %d in\n%s", i, in.Value, text)
		}
		sameLabel(x, get(f, "keyid"), in.KeyID, text)
		address(x, get(f, "address"), bitcoin.Script(in.Script), net, text)
	}
	for i, o := range s.Outs {
		f := r.outs[i]
		sameScript(x, get(f, "lockingscript"), o.Script, text)
		if !sameAmount(get(f, "value"), o.Value) {
			x.Failf("output %d has value %d in\n%s", i, o.Value, text)
		}
		sameLabel(x, get(f, "keyid"), o.KeyID, text)
		address(x, get(f, "address"), bitcoin.Script(o.Script), net, text)
		if (get(f, "isremainder") != nil) != o.Rem || (get(f, "isdust") != nil) != o.Dust {
			x.Failf("output %d is remainder %v dust %v in\n%s", i, o.Rem, o.Dust, text)
		}
	}
}

func isHex(s string, v uint32) bool {
	n, err := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	return err == nil && n == uint64(v)
}

func sameScript(x *X, s *string, script, text string) {
	if s == nil || strings.TrimSpace(bitcoin.Script(script).String()) != *s {
		x.Failf("a script should be %q in\n%s", bitcoin.Script(script).String(), text)
	}
}

func sameLabel(x *X, s *string, label, text string) {
	if (s == nil) != (label == "") || s != nil && *s != label {
		x.Failf("a label should be %q in\n%s", label, text)
	}
}

func refInputValue(tx *txbuilder.TxBuilder) uint64 {
	t := uint64(0)
	for i, in := range tx.MsgTx.TxIn {
		_, v := refEmbedded(embedded{"", tx.Inputs[i].LockingScript, tx.Inputs[i].Value, in.UnlockingScript})
		t += v
	}
	return t
}

// judgeTxString checks the description of any transaction whose spent outputs may be known.
func judgeTxString(x *X, tx expanded_tx.TransactionWithOutputs, s snap) {
	text := txbuilder.TxString(tx)
	r := parseReport(x, text)
	msg := tx.GetMsgTx()
	if id := get(r.head, "txid"); id == nil || *id != txid(msg) {
		x.Failf("the identifier should be %s in\n%s", txid(msg), text)
	}
	if len(r.ins) != len(s.Ins) || len(r.outs) != len(s.Outs) {
		x.Failf("%d inputs and %d outputs described instead of %d and %d in\n%s", len(r.ins), len(r.outs), len(s.Ins), len(s.Outs), text)
	}
	sizeKnown, valueKnown := true, true
	size := 8 + varintSize(uint64(len(s.Ins))) + varintSize(uint64(len(s.Outs)))
	var in, out uint64
	for i, e := range s.Ins {
		f := r.ins[i]
		o := get(f, "outpoint")
		if !strings.Contains(*o, hashString(e.Hash)) || !strings.HasSuffix(*o, fmt.Sprint(e.Index)) {
			x.Failf("input %d spends %s %d in\n%s", i, hashString(e.Hash), e.Index, text)
		}
		sameScript(x, get(f, "unlockingscript"), e.Unlock, text)
		if v := get(f, "sequence"); v == nil || !isHex(*v, e.Sequence) {
			x.Failf("input %d has sequence %x in\n%s", i, e.Sequence, text)
		}
		ds, dv, ok := declared(bitcoin.Script(e.Unlock))
		switch {
		case e.Script != "" || e.Value != 0:
			sameScript(x, get(f, "lockingscript"), e.Script, text)
			if !sameAmount(get(f, "value"), e.Value) {
				x.Failf("input %d has value %d in\n%s", i, e.Value, text)
			}
			in += e.Value
			if l, ok := lockOf(e.Script); ok {
				size += refInputSize(l.Unlock)
				if v := get(f, "estimatedunlockingscriptsize"); v != nil && !isNumber(v, int64(l.Unlock)) {
					x.Failf("input %d needs an unlocking script of %d in\n%s", i, l.Unlock, text)
				}
			} else {
				sizeKnown = false
			}
			continue
		case ok:
			size += 40 + varintSize(ds) + int(ds)
			in += dv
			sizeKnown = sizeKnown && ds > 0
			valueKnown = valueKnown && dv > 0
			if v := get(f, "size"); (v != nil || ds > 0) && !isNumber(v, int64(ds)) {
				x.Failf("input %d declares size %d in\n%s", i, ds, text)
			}
			if v := get(f, "value"); (v != nil || dv > 0) && !isNumber(v, int64(dv)) {
				x.Failf("input %d declares value %d in\n%s", i, dv, text)
			}
			continue
		case e.Unlock != "" && !strings.HasPrefix(e.Unlock, "\x00\x6a"):
			size += 40 + varintSize(uint64(len(e.Unlock))) + len(e.Unlock)
			valueKnown = false
		default:
			sizeKnown, valueKnown = false, false
		}
		if get(f, "value") != nil {
			x.Failf("a value is stated for input %d, which is not known, in\n%s", i, text)
		}
	}
	for i, o := range s.Outs {
		sameScript(x, get(r.outs[i], "lockingscript"), o.Script, text)
		if !sameAmount(get(r.outs[i], "value"), o.Value) {
			x.Failf("output %d has value %d in\n%s", i, o.Value, text)
		}
		out += o.Value
		size += refOutputSize(len(o.Script))
	}
	if !isNumber(get(r.tail, "locktime"), int64(msg.LockTime)) || !isNumber(get(r.tail, "rawsize"), int64(sizeOf(msg))) {
		x.Failf("lock time should be %d and size %d in\n%s", msg.LockTime, sizeOf(msg), text)
	}
	est := get(r.tail, "estimatedtxsize")
	if sizeKnown && !isNumber(est, int64(size)) || !sizeKnown && est != nil {
		x.Failf("the estimated size should be %d (known %v) in\n%s", size, sizeKnown, text)
	}
	fee, neg, rate := get(r.tail, "fee"), get(r.tail, "negativefee"), get(r.tail, "feerate")
	want := ""
	if valueKnown {
		want = fmt.Sprintf("[%d %d %d]", int64(in)-int64(out), in, out)
	}
	have := ""
	if fee != nil {
		have = fmt.Sprint(numbers.FindAllString(*fee, -1))
	} else if neg != nil {
		have = fmt.Sprint(numbers.FindAllString(*neg, -1))
	}
	if have != want {
		x.Failf("fee, input and output values should be %s, are %s in\n%s", want, have, text)
	}
	if (rate != nil) != (valueKnown && sizeKnown && in >= out) {
		x.Failf("the fee rate is stated or missing in\n%s", text)
	}
	if rate != nil {
		have, _ := firstNumber(rate)
		want := float64(in-out) / float64(size)
		if d := have - want; d > 0.00006+want*2e-7 || -d > 0.00006+want*2e-7 {
			x.Failf("the fee rate should be %f in\n%s", want, text)
		}
	}
	x.Outcome("report size %v value %v", sizeKnown, valueKnown)
}

// judgeQueries asks everything that can be asked and checks that nothing changes.
func judgeQueries(x *X, tx *txbuilder.TxBuilder) {
	s := mustSnap(x, tx)
	h := deepHash(tx)
	x.Op()
	if id := tx.TxID(); hashString(id) != txid(tx.MsgTx) {
		x.Failf("identifier %s, should be %s", hashString(id), txid(tx.MsgTx))
	}
	if tx.GetMsgTx() != tx.MsgTx || tx.InputCount() != len(s.Ins) || tx.OutputCount() != len(s.Outs) {
		x.Failf("counts %d %d\n%s", tx.InputCount(), tx.OutputCount(), s)
	}
	b, err := tx.Serialize()
	if err != nil || !bytes.Equal(b, serialize(tx.MsgTx)) {
		x.Failf("serialized as %x (%v)", b, err)
	}
	all := true
	for i, in := range s.Ins {
		if tx.Input(i) != tx.MsgTx.TxIn[i] {
			x.Failf("input %d is another", i)
		}
		o, err := tx.InputOutput(i)
		if known := in.Script != "" || in.Value != 0; known != (err == nil) || known && (string(o.LockingScript) != in.Script || o.Value != in.Value) {
			x.Failf("output spent by input %d: %v %v", i, o, err)
		}
		if tx.InputIsSigned(i) != (in.Unlock != "") {
			x.Failf("input %d signed: %v", i, tx.InputIsSigned(i))
		}
		all = all && in.Unlock != ""
		ra, err := tx.InputAddress(i)
		queryAddress(x, ra, err, in.Script)
	}
	if tx.AllInputsAreSigned() != all {
		x.Failf("all inputs signed: %v, should be %v", tx.AllInputsAreSigned(), all)
	}
	for i, o := range s.Outs {
		if tx.Output(i) != tx.MsgTx.TxOut[i] {
			x.Failf("output %d is another", i)
		}
		ra, err := tx.OutputAddress(i)
		queryAddress(x, ra, err, o.Script)
	}
	for _, i := range []int{0, 1, 100} {
		if _, err := tx.InputAddress(len(s.Ins) + i); err == nil {
			x.Failf("address of an input that does not exist")
		}
		if _, err := tx.InputOutput(len(s.Ins) + i); err == nil {
			x.Failf("output spent by an input that does not exist")
		}
		if _, err := tx.OutputAddress(len(s.Outs) + i); err == nil {
			x.Failf("address of an output that does not exist")
		}
		if tx.InputIsSigned(len(s.Ins) + i) {
			x.Failf("an input that does not exist is signed")
		}
	}
	in, out := int64(refInputValue(tx)), int64(outputTotal(s))
	size := refEmbeddedTx(tx)
	fee := in - out
	if tx.ActualFee() != fee || int64(tx.InputValue()) != in || int64(tx.OutputValue(true)) != out || tx.EstimatedSize() != size ||
		tx.EstimatedFee() != ratFee(uint64(size), float64(tx.FeeRate)) {
		x.Failf("fee %d in %d out %d size %d, should be %d %d %d %d\n%s", tx.ActualFee(), tx.InputValue(), tx.OutputValue(true),
			tx.EstimatedSize(), fee, in, out, size, s)
	}
	if fee < 0 {
		fee = 0
	}
	if int64(tx.Fee()) != fee {
		x.Failf("fee %d, should be %d", tx.Fee(), fee)
	}
	c := tx.Copy()
	if d := mustSnap(x, &c).diff(s); d != "" {
		x.Failf("copy: %s", d)
	}
	_ = tx.String(bitcoin.MainNet)
	_ = txbuilder.TxString(tx)
	if deepHash(tx) != h {
		x.Failf("a query changed the builder")
	}
}

func queryAddress(x *X, ra bitcoin.RawAddress, err error, script string) {
	if err != nil {
		if _, ok := lockOf(script); ok && len(script) < 300 {
			x.Failf("no address for %x: %s", script, err)
		}
		return
	}
	ls, err := ra.LockingScript()
	if err != nil || string(ls) != script {
		x.Failf("address of %x stands for %x", script, []byte(ls))
	}
}

// reportIns are the ways an input can be described.
func reportIns() []embedded {
	sig := cat([]byte{71}, make([]byte, 71), []byte{33}, make([]byte, 33))
	return []embedded{
		{"pkh", p2pkh(0), 123456789, nil},
		{"signed pkh", p2pkh(0), 16777217, sig},
		{"pk", p2pk(1), 1, nil},
		{"multi", multi(2, 0, 1, 2), 2100000000000001, nil},
		{"other", plainScript(30), 2099999999999999, nil},
		{"missing", nil, 0, nil},
		{"missing signed", nil, 0, sig},
		{"declared", nil, 0, payload(253, 5000000001)},
		{"declared small", nil, 0, payload(107, 1)},
		{"declared size", nil, 0, payload(70000, 0)},
		{"declared value", nil, 0, payload(0, 33)},
		{"damaged", nil, 0, payload(253, 50)[:12]},
		{"foreign", nil, 0, foreignPayload()},
		{"bare return", nil, 0, bitcoin.Script{0, 0x6a}},
		{"cut multi", multi(2, 0, 1, 2)[:60], 900, nil},
		{"cut multi short", multi(2, 0, 1, 2)[:4], 900, nil},
		{"not if", bitcoin.Script{0x64, 0x51, 0x68}, 900, nil},
		{"bad push", bitcoin.Script{0x4c, 0xff, 0x01}, 900, nil},
		{"bad push unlock", p2pkh(1), 77, bitcoin.Script{0x05}},
		{"agent", lockAgent(lockPKH(2)).Script, 4000, nil},
	}
}

type reportOut struct {
	script bitcoin.Script
	value  uint64
	rem    bool
	dust   bool
	key    string
}

func reportOuts() []reportOut {
	return []reportOut{
		{p2pkh(3), 123456789, false, false, ""},
		{p2pkh(3), 2100000000000000, true, false, "label"},
		{p2pk(3), 16777217, false, true, "m/0/1"},
		{opReturn(60), 0, false, false, ""},
		{multi(2, 0, 1, 2), 2099999999999999, true, true, "k"},
		{plainScript(40), 99999999, false, false, ""},
		{multi(2, 0, 1, 2)[:60], 1, false, false, ""},
		{bitcoin.Script{}, 100000001, false, false, ""},
		{bitcoin.Script{0x64, 0x51, 0x68}, 33554433, false, false, ""},
		{bitcoin.Script{0x4c, 0xff, 0x01}, 546, false, false, ""},
	}
}

func reportTx(x *X, maxIn, maxOut int) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(0.5, 0.25)
	tx.MsgTx.Version = 2
	tx.MsgTx.LockTime = 654321
	n := x.Choose("inputs", maxIn+1)
	for i := 0; i < n; i++ {
		e := Pick(x, "input", reportIns())
		in := &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: outpointHash(i), Index: []uint32{0, 7, 0xffffffff}[i]},
			UnlockingScript: fs(e.Unlock), Sequence: []uint32{0xffffffff, 0, 0x1234}[i]}
		tx.MsgTx.AddTxIn(in)
		k := ""
		if i > 0 {
			k = "in label"
		}
		tx.Inputs = append(tx.Inputs, &txbuilder.InputSupplement{LockingScript: fs(e.Lock), Value: e.Value, KeyID: k})
	}
	if n == 3 {
		maxOut = 1
	}
	n = x.Choose("outputs", maxOut+1)
	for i := 0; i < n; i++ {
		o := Pick(x, "output", reportOuts())
		tx.MsgTx.AddTxOut(wire.NewTxOut(o.value, fs(o.script)))
		tx.Outputs = append(tx.Outputs, &txbuilder.OutputSupplement{IsRemainder: o.rem, IsDust: o.dust, KeyID: o.key})
	}
	return tx
}

func init() {
	register(&Check{ID: "C20", Scenarios: rebuildScenarios})
	register(&Check{ID: "C24", Assumptions: []string{
		"the text of a script is taken from the script type of the dependency",
		"the fee rate figure is given in single precision",
	}, Scenarios: func(thorough bool) []*Scenario {
		return []*Scenario{{
			Name: "shapes", Depth: 2,
			Bounds: "up to 2 (thorough: 3) inputs of twenty kinds (known, missing, signed, embedded data complete, partial and damaged, scripts cut short) " +
				"and up to 2 outputs (with 3 inputs: one) of ten kinds, values over the monetary range",
			Body: func(x *X) {
				tx := reportTx(x, depthOf(thorough, 2, 3), 2)
				x.Op()
				judgeReports(x, tx)
				judgeQueries(x, tx)
				x.State(deepHash(tx))
			},
		}, {
			Name: "other sources", Depth: 2,
			Bounds: "up to two inputs and one output, described from a transaction source that is not a builder",
			Body: func(x *X) {
				tx := reportTx(x, 2, 1)
				s := mustSnap(x, tx)
				src := &source{tx.MsgTx, nil}
				e := &expanded_tx.ExpandedTx{Tx: tx.MsgTx, SpentOutputs: make(expanded_tx.Outputs, len(s.Ins))}
				for i, in := range s.Ins {
					if in.Script == "" && in.Value == 0 {
						src.spent = append(src.spent, nil)
					} else {
						src.spent = append(src.spent, wire.NewTxOut(in.Value, bitcoin.Script(in.Script)))
						e.SpentOutputs[i] = &expanded_tx.Output{Value: in.Value, LockingScript: bitcoin.Script(in.Script)}
					}
				}
				x.Op()
				h := deepHash(tx)
				judgeTxString(x, src, s)
				judgeTxString(x, e, s)
				if deepHash(tx) != h {
					x.Failf("describing a transaction changed it")
				}
				x.State(h)
			},
		}, {
			Name: "values", Depth: 1,
			Bounds: "every power of two and of ten in the monetary range, one less and one more, as input and output value",
			Body: func(x *X) {
				var vs []uint64
				for p := uint64(1); p <= 2100000000000000; p *= 2 {
					vs = append(vs, p-1, p, p+1)
				}
				for p := uint64(1); p <= 2100000000000000; p *= 10 {
					vs = append(vs, p-1, p, p+1, 3*p+1)
				}
				a, b := Pick(x, "in", vs), Pick(x, "out", vs)
				tx := txbuilder.NewTxBuilder(0.5, 0.25)
				tx.MsgTx.AddTxIn(&wire.TxIn{Sequence: 1})
				tx.Inputs = append(tx.Inputs, &txbuilder.InputSupplement{LockingScript: p2pkh(0), Value: a})
				tx.MsgTx.AddTxOut(wire.NewTxOut(b, p2pkh(3)))
				tx.Outputs = append(tx.Outputs, &txbuilder.OutputSupplement{})
				x.Op()
				judgeReports(x, tx)
				x.State(deepHash(tx))
			},
		}, {
			Name: "many", Depth: 2,
			Bounds: "0 to 300 inputs and outputs that run through all kinds or have all data",
			Body: func(x *X) {
				counts := []int{0, 1, 9, 10, 11, 100, 252, 253, 300}
				n, m := Pick(x, "inputs", counts), Pick(x, "outputs", counts)
				ins, outs := reportIns(), reportOuts()
				if x.Bool("complete") {
					ins = []embedded{ins[0], ins[2], ins[7], ins[8]}
				}
				tx := txbuilder.NewTxBuilder(0.5, 0.25)
				for i := 0; i < n; i++ {
					e := ins[i%len(ins)]
					tx.MsgTx.AddTxIn(&wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: outpointHash(i), Index: uint32(i)},
						UnlockingScript: fs(e.Unlock), Sequence: uint32(i)})
					tx.Inputs = append(tx.Inputs, &txbuilder.InputSupplement{LockingScript: fs(e.Lock), Value: e.Value % 5000000000, KeyID: fmt.Sprint("k", i)})
				}
				for i := 0; i < m; i++ {
					o := outs[i%len(outs)]
					tx.MsgTx.AddTxOut(wire.NewTxOut(o.value%4000000000, fs(o.script)))
					tx.Outputs = append(tx.Outputs, &txbuilder.OutputSupplement{IsRemainder: o.rem, IsDust: o.dust, KeyID: o.key})
				}
				x.Op()
				judgeReports(x, tx)
				judgeQueries(x, tx)
				x.State(deepHash(tx))
			},
		}, {
			Name: "histories", Depth: 4,
			Bounds: "every state reached by up to 3 funding, fee, signing and editing operations from five arrangements",
			Body: func(x *X) {
				tx := moneyStart(x, moneyRates[:1], []string{"p", "pr", "rp", "m", "pmq"}, changeKinds[:2])
				withSymbolic(pattern([]int{71, 72, 70}), func() {
					withFixedDraws(func() { moneyHistory(x, "C24", tx, 3) })
				})
				judgeReports(x, tx)
				judgeQueries(x, tx)
			},
		}}
	}})
}
