package main

import (
	"bytes"
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// move is one operation that moves money.
type move struct {
	kind   string // fund, break, calculate, sign
	offers []bitcoin.UTXO
	dests  []txbuilder.AddressKeyID
	brk    uint64
	keys   []bitcoin.Key
	err    error
	before snap
	after  snap
	actual int // serialized size afterwards
}

func (mv *move) String() string {
	r := mv.kind
	for _, u := range mv.offers {
		l, _ := lockOf(string(u.LockingScript))
		r += fmt.Sprintf(" %s:%d", l.Name, u.Value)
	}
	return fmt.Sprintf("%s -> %v\nbefore:\n%s\nafter:\n%s", r, mv.err, mv.before, mv.after)
}

func (mv *move) run(x *X, tx *txbuilder.TxBuilder) {
	mv.before = mustSnap(x, tx)
	x.Op()
	var offers []bitcoin.UTXO
	for _, u := range mv.offers {
		offers = append(offers, fresh(u))
	}
	switch mv.kind {
	case "fund":
		mv.err = tx.AddFunding(offers)
	case "break":
		mv.err = tx.AddFundingBreakChange(offers, mv.brk, mv.dests)
	case "calculate":
		mv.err = tx.CalculateFee()
	case "sign":
		_, mv.err = tx.Sign(mv.keys)
	default:
		panic("harness: move")
	}
	mv.after = mustSnap(x, tx)
	mv.actual = sizeOf(tx.MsgTx)
}

func hasRem(s snap) bool {
	for _, o := range s.Outs {
		if o.Rem {
			return true
		}
	}
	return false
}

func feeOf(s snap) int64 { return int64(inputTotal(s)) - int64(outputTotal(s)) }

func estFeeOf(s snap) int64 { return int64(ratFee(uint64(refEstimate(s)), float64(s.FeeRate))) }

// changeBound is the largest surplus a fee calculation keeps as fee: what adding, holding and spending
// a change output costs.
func changeBound(s snap) int64 {
	rate := float64(s.FeeRate)
	grow := uint64(varintSize(uint64(len(s.Outs)+1)) - varintSize(uint64(len(s.Outs))))
	size := uint64(refEstimate(s))
	if s.Change == "" {
		return int64(ratFee(size+grow+34, rate) - ratFee(size, rate) + ratFee(68, rate) + ratFee(298, rate))
	}
	o, i := refCost(s.Change, s.FeeRate)
	return int64(ratFee(size+grow+uint64(refOutputSize(len(s.Change))), rate) - ratFee(size, rate) + o + i)
}

func (mv *move) newInputs() int { return len(mv.after.Ins) - len(mv.before.Ins) }

// enough is C03: a transaction reported complete pays the fee rate.
func (mv *move) enough(x *X) {
	if mv.err != nil && !(mv.kind == "sign" && is(mv.err, txbuilder.ErrMissingPrivateKey)) {
		return
	}
	need := estFeeOf(mv.after)
	if mv.kind == "sign" && mv.err == nil {
		need = int64(ratFee(uint64(mv.actual), float64(mv.after.FeeRate)))
	}
	if fee := feeOf(mv.after); fee < need {
		x.Failf("the fee is %d, should be at least %d, after %s", fee, need, mv)
	}
}

// notTooMuch is C04: nor does it pay much more.
func (mv *move) notTooMuch(x *X) {
	if mv.err != nil {
		return
	}
	a := mv.after
	rate := float64(a.FeeRate)
	bound := int64(0)
	dust := func(script string) int64 { return int64(dustOf(script, a.DustRate)) }
	if !hasRem(a) {
		bound = changeBound(a)
	}
	rounding := int64(mv.newInputs() + 2)
	switch {
	case mv.kind == "fund" && mv.newInputs() > 0 && !a.SendMax:
		bound = rounding
		if hasRem(mv.before) {
			for _, o := range mv.before.Outs {
				if o.Rem {
					bound += dust(o.Script)
					break
				}
			}
		} else if !hasRem(a) {
			s := a.Change
			if s == "" {
				s = string(p2pkh(0))
			}
			f := int64(ratFee(uint64(refOutputSize(len(s))), rate))
			d := dust(s)
			if d < f {
				d = f
			}
			bound += d + f + int64(ratFee(2, rate))
		}
	case mv.kind == "break" && !a.SendMax && len(mv.dests) > 0 && !hasRem(mv.before):
		script, _ := mv.dests[0].Address.LockingScript()
		o, i := refCost(string(script), a.FeeRate)
		if hasRem(a) {
			bound = int64(len(a.Outs)-len(mv.before.Outs)) + 1 + int64(ratFee(2, rate))
			if mv.newInputs() == 0 {
				bound = 0
			}
		} else {
			bound = int64(2*o+i) + 1 + int64(ratFee(2, rate))
		}
	}
	if excess := feeOf(a) - estFeeOf(a); excess > bound {
		x.Failf("the fee is %d, %d more than the finished transaction needs and more than the %d that could be kept, after %s", feeOf(a), excess,
			bound, mv)
	}
}

// payeesSafe is C05: nothing but remainder outputs, new inputs and unlocking scripts changes.
func (mv *move) payeesSafe(x *X) {
	b, a := mv.before, mv.after
	if len(a.Ins) < len(b.Ins) {
		x.Failf("inputs were removed by %s", mv)
	}
	for i := range b.Ins {
		p, q := b.Ins[i], a.Ins[i]
		if mv.kind == "sign" {
			p.Unlock = q.Unlock
		}
		if p != q {
			x.Failf("input %d was changed by %s", i, mv)
		}
	}
	if mv.kind == "calculate" || mv.kind == "sign" {
		if len(a.Ins) != len(b.Ins) {
			x.Failf("inputs were added by %s", mv)
		}
	}
	// an output to a listed change destination may be made the remainder
	change := func(o outSnap) bool {
		for _, d := range mv.dests {
			if s, _ := d.Address.LockingScript(); string(s) == o.Script {
				return true
			}
		}
		return o.Rem
	}
	j := 0
	for i, o := range b.Outs {
		if change(o) {
			continue
		}
		for j < len(a.Outs) && change(a.Outs[j]) {
			j++
		}
		if j >= len(a.Outs) || a.Outs[j] != o {
			x.Failf("output %d, which is not a remainder, was changed, moved or removed by %s", i, mv)
		}
		j++
	}
	if a.Version != b.Version || a.LockTime != b.LockTime || a.FeeRate != b.FeeRate || a.DustRate != b.DustRate || a.SendMax != b.SendMax {
		x.Failf("a setting was changed by %s", mv)
	}
	if mv.kind != "break" && (a.Change != b.Change || a.ChangeKeyID != b.ChangeKeyID) {
		x.Failf("the change destination was changed by %s", mv)
	}
}

// changeWhereAsked is C28: what is added goes to the change destination.
func (mv *move) changeWhereAsked(x *X) {
	b, a := mv.before, mv.after
	// remainder outputs are matched in order; one may be missing if it was removed
	taken, first := make([]bool, len(a.Outs)), 0
	for _, o := range b.Outs {
		for k := first; k < len(a.Outs); k++ {
			q := a.Outs[k]
			if !taken[k] && (o.Rem && q.Rem && q.Script == o.Script && q.KeyID == o.KeyID && q.Dust == o.Dust || !o.Rem && q == o) {
				taken[k] = true
				for first < len(taken) && taken[first] {
					first++
				}
				break
			}
		}
	}
	var rest []outSnap
	for k, o := range a.Outs {
		if !taken[k] {
			rest = append(rest, o)
		}
	}
	listed := map[[2]string]bool{}
	for _, d := range mv.dests {
		s, _ := d.Address.LockingScript()
		listed[[2]string{string(s), d.KeyID}] = true
	}
	for _, o := range rest {
		ok := o.Script == b.Change && o.KeyID == b.ChangeKeyID && o.Rem && b.Change != ""
		if mv.kind == "break" {
			ok = ok && b.SendMax || listed[[2]string{o.Script, o.KeyID}]
		}
		if !ok || o.Dust {
			x.Failf("an output was added or changed that is not to the change destination: %s, by %s", short(o.Script), mv)
		}
	}
	if mv.kind == "break" && len(rest) > 0 && mv.err == nil {
		n := 0
		for _, o := range rest {
			if o.Rem {
				n++
			}
		}
		if n != 1 {
			x.Failf("%d of the added change outputs are marked as remainder, by %s", n, mv)
		}
	}
	if mv.kind != "break" && len(rest) > 1 || mv.kind == "break" && len(rest) > len(mv.dests) {
		x.Failf("too many outputs added by %s", mv)
	}
	if is(mv.err, txbuilder.ErrChangeAddressNeeded) && (!b.SendMax || hasRem(b)) {
		if hasRem(b) || b.Change != "" && mv.kind != "break" || mv.kind == "break" && len(mv.dests) > 0 {
			x.Failf("a change destination was demanded although there is one, by %s", mv)
		}
		if feeOf(a)-estFeeOf(a) <= 0 {
			x.Failf("a change destination was demanded although nothing is left over, by %s", mv)
		}
	}
	if mv.err == nil && !hasRem(a) && a.Change == "" && mv.kind != "break" && mv.newInputs() == 0 {
		if feeOf(a)-estFeeOf(a) > changeBound(a) {
			x.Failf("a surplus of %d with nowhere to go was given away by %s", feeOf(a)-estFeeOf(a), mv)
		}
	}
}

// offersUsed is C16 and C17: which of the offered outputs are taken.
func (mv *move) offersUsed(x *X) {
	if mv.kind != "fund" && mv.kind != "break" {
		return
	}
	b, a := mv.before, mv.after
	var eff []inSnap
	for _, u := range mv.offers {
		dup := false
		for _, l := range [][]inSnap{b.Ins, eff} {
			for _, in := range l {
				dup = dup || in.Hash == u.Hash && in.Index == u.Index
			}
		}
		if !dup {
			eff = append(eff, inOf(u))
		}
	}
	k := mv.newInputs()
	if k < 0 || k > len(eff) || !sameList(a.Ins[len(b.Ins):], eff[:k]) {
		x.Failf("the inputs added are not the first of those offered, by %s", mv)
	}
	if mv.err != nil && !is(mv.err, txbuilder.ErrInsufficientValue) && !is(mv.err, txbuilder.ErrChangeAddressNeeded) {
		x.Failf("unexpected error from %s", mv)
	}
	if b.SendMax {
		if k != len(eff) && len(mv.offers) > 0 {
			x.Failf("not everything offered was taken, by %s", mv)
		}
		return
	}
	// lacking is how much the first n offers leave uncovered; with parts set every part of the fee is
	// rounded up for itself and, when the change is split, one change output is paid for
	lacking := func(n int, parts bool) int64 {
		s := b
		s.Ins = append(append([]inSnap{}, b.Ins...), eff[:n]...)
		l := int64(outputTotal(b)) - int64(inputTotal(s))
		rate := float64(b.FeeRate)
		switch {
		case !parts:
			return l + estFeeOf(s)
		case mv.kind == "break":
			size := uint64(refEstimate(s))
			if !hasRem(b) && len(mv.dests) > 0 {
				script, _ := mv.dests[0].Address.LockingScript()
				size += uint64(refOutputSize(len(script)))
			}
			return l + int64(ratFee(size, rate))
		}
		l += estFeeOf(b)
		for i := range eff[:n] {
			t := b
			t.Ins = s.Ins[:len(b.Ins)+i]
			was := refEstimate(t)
			t.Ins = s.Ins[:len(b.Ins)+i+1]
			grow := varintSize(uint64(len(t.Ins))) - varintSize(uint64(len(t.Ins)-1))
			l += int64(ratFee(uint64(refEstimate(t)-was-grow), rate) + ratFee(uint64(grow), rate))
		}
		return l
	}
	if mv.err == nil && k > 0 && lacking(k-1, true) <= 0 {
		x.Failf("more was taken than needed: %d offers already cover everything, by %s", k-1, mv)
	}
	if mv.err == nil && lacking(k, false) > 0 {
		x.Failf("reported funded but %d short, by %s", lacking(k, false), mv)
	}
	if is(mv.err, txbuilder.ErrInsufficientValue) {
		for n := 0; n <= len(eff); n++ {
			if lacking(n, true) <= 0 {
				x.Failf("reported insufficient although %d offers cover everything, by %s", n, mv)
			}
		}
	}
}

// maximum is C17.
func (mv *move) maximum(x *X) {
	mv.offersUsed(x)
	if !mv.before.SendMax || !hasRem(mv.before) || mv.kind != "fund" && mv.kind != "break" || len(mv.offers) == 0 {
		return
	}
	a := mv.after
	first, others, was := -1, uint64(0), uint64(0)
	for i, o := range a.Outs {
		if o.Rem && first < 0 {
			first = i
			was = mv.before.Outs[i].Value
		} else {
			others += o.Value
		}
	}
	if first < 0 || len(a.Outs) != len(mv.before.Outs) {
		x.Failf("outputs were added or removed by %s", mv)
	}
	due := int64(inputTotal(a)) - int64(others) - estFeeOf(a)
	if mv.err == nil {
		if int64(a.Outs[first].Value) != due {
			x.Failf("the remainder is %d, should be %d, after %s", a.Outs[first].Value, due, mv)
		}
		return
	}
	o, i := refCost(a.Outs[first].Script, a.FeeRate)
	if !is(mv.err, txbuilder.ErrInsufficientValue) || due >= 0 && (due >= int64(was) || due >= int64(o+i)) {
		x.Failf("sending the maximum (%d) was refused: %s", due, mv)
	}
}

func (mv *move) judge(x *X, id string) {
	switch id {
	case "C03":
		mv.enough(x)
	case "C04":
		mv.notTooMuch(x)
	case "C05":
		mv.payeesSafe(x)
	case "C16":
		mv.offersUsed(x)
	case "C17":
		mv.maximum(x)
	case "C28":
		mv.changeWhereAsked(x)
	}
	x.Outcome("%s %v", mv.kind, cause(mv.err))
	x.State(hashOf(mv.after.hash(), mv.kind))
}

// ---- transactions to start from ----

type changeKind struct {
	Name   string
	Script bitcoin.Script
}

var changeKinds = []changeKind{{"none", nil}, {"pkh", p2pkh(7)}, {"pk", p2pk(7)}, {"multi", multi(2, 5, 6, 7)},
	{"a payee", p2pkh(3)}, {"unknown", plainScript(40)}}

// must is for what prepares a transaction: a refusal there is reported like a crash.
func must(err error) {
	if err != nil {
		panic("a valid start was refused: " + err.Error())
	}
}

// addOuts adds outputs by letter: p and q pay, d is dust, n carries data, r takes the remainder, m
// is a maximum and x a maximum given as script.
func addOuts(x *X, tx *txbuilder.TxBuilder, letters string) {
	for i, c := range letters {
		v := uint64(1000 + i)
		switch c {
		case 'p':
			must(tx.AddOutput(p2pkh(3), v, false, false))
		case 'q':
			must(tx.AddOutput(p2pk(3), v, false, false))
		case 'd':
			must(tx.AddOutput(p2pkh(2), 0, false, true))
		case 'n':
			must(tx.AddOutput(opReturn(50), 0, false, false))
		case 'r':
			must(tx.AddOutput(p2pkh(4), v, true, false))
		case 'm':
			must(tx.AddMaxOutput(addrOf(p2pkh(4))))
		case 'x':
			must(tx.AddMaxScriptOutput(p2pk(4)))
		}
		if (c == 'm' || c == 'x') && (!tx.SendMax || !tx.Outputs[len(tx.Outputs)-1].IsRemainder) {
			x.Failf("adding a maximum as output %d of %s does not send the maximum", i, letters)
		}
		tx.Outputs[len(tx.Outputs)-1].KeyID = fmt.Sprint("o", i)
	}
}

var destKinds = [][]txbuilder.AddressKeyID{
	{{Address: addrOf(p2pkh(6)), KeyID: "d0"}},
	{{Address: addrOf(p2pkh(6)), KeyID: "d0"}, {Address: addrOf(p2pk(6)), KeyID: "d1"}},
	{{Address: addrOf(multi(2, 5, 6, 7)), KeyID: "d0"}, {Address: addrOf(p2pkh(6)), KeyID: "d1"}, {Address: addrOf(p2pkh(5)), KeyID: "d2"}},
}

// offerLists are the kinds offered; value 0 stands for the one that decides the surplus.
type offer struct {
	lock  lock
	value uint64
	at    int // outpoint number
}

func offerLists() [][]offer {
	return [][]offer{
		{{lockPKH(0), 0, 1}},
		{{lockPK(1), 400, 1}, {lockPKH(0), 0, 2}},
		{{lockPKH(1), 10, 1}, {lockMulti(2, 0, 1, 2), 700, 2}, {lockPKH(0), 0, 3}},
		{{lockPKH(0), 300, 1}, {lockPKH(0), 300, 1}, {lockPKH(2), 5000, 50}, {lockMulti(1, 0, 1), 0, 2}, {lockPKH(2), 900, 3}},
		{{lockMulti(3, 0, 1, 2), 0, 1}, {lockPKH(0), 100000, 2}},
	}
}

// offersFor gives the deciding offer the value that leaves the surplus once everything up to it is
// taken. ok is false if that is not a value.
func offersFor(s snap, list []offer, surplus int64) (r []bitcoin.UTXO, ok bool) {
	ins := append([]inSnap{}, s.Ins...)
	decided := false
	for i, o := range list {
		u := utxoOf(outpointHash(o.at), uint32(o.at), o.value, o.lock.Script, fmt.Sprint("u", i))
		in := inOf(u)
		dup := false
		for _, e := range ins {
			dup = dup || e.Hash == in.Hash && e.Index == in.Index
		}
		if !dup && !decided {
			ins = append(ins, in)
		}
		if o.value == 0 {
			t := s
			t.Ins = ins
			v := int64(outputTotal(s)) + estFeeOf(t) + surplus - int64(inputTotal(t))
			if v < 1 {
				return nil, false
			}
			u.Value = uint64(v)
			decided = true
		}
		r = append(r, u)
	}
	return r, true
}

// surpluses are the amounts at which some decision is made.
func surpluses(s snap, wide bool) []int64 {
	rate := float64(s.FeeRate)
	script := s.Change
	if script == "" {
		script = string(p2pkh(0))
	}
	o, i := refCost(script, s.FeeRate)
	d := int64(dustOf(script, s.DustRate))
	centres := []int64{0, int64(o), d, d + int64(o), int64(o + i), int64(2*o + i), changeBound(s), int64(ratFee(149, rate)), 50000}
	span := int64(1)
	if wide {
		span = 3
	}
	seen := map[int64]bool{}
	var r []int64
	for _, c := range centres {
		for e := -span; e <= span+1; e++ {
			if v := c + e; !seen[v] {
				seen[v] = true
				r = append(r, v)
			}
		}
	}
	return r
}

var moneyRates = [][2]float32{{0.5, 0.5}, {0.05, 1}, {1, 0.25}, {0, 0}, {0, 1}, {2.3, 0.0625}}

// moneyStart builds a transaction ready for funding.
func moneyStart(x *X, rates [][2]float32, outs []string, changes []changeKind) *txbuilder.TxBuilder {
	r := Pick(x, "rates", rates)
	tx := txbuilder.NewTxBuilder(r[0], r[1])
	ch := Pick(x, "change", changes)
	letters := Pick(x, "outputs", outs)
	first := ch.Name == "a payee" && x.Bool("destination first")
	if first {
		must(tx.SetChangeLockingScript(fs(ch.Script), "ch"))
	}
	addOuts(x, tx, letters)
	if len(ch.Script) > 0 && !first {
		must(tx.SetChangeLockingScript(fs(ch.Script), "ch"))
	}
	return tx
}

func addPre(x *X, tx *txbuilder.TxBuilder, n int) {
	switch n {
	case 1:
		must(tx.AddInputUTXO(utxoOf(outpointHash(50), 50, 350, p2pkh(1), "pre")))
		tx.MsgTx.TxIn[0].Sequence = 5
	case 2:
		must(tx.AddInputUTXO(utxoOf(outpointHash(60), 60, 200, multi(2, 0, 1, 2), "pre")))
		must(tx.AddInputUTXO(utxoOf(outpointHash(61), 61, 250, p2pk(0), "pre2")))
	}
	tx.MsgTx.Version = 2
	tx.MsgTx.LockTime = 9
}

// setFields gives the fields of a transaction and its inputs extreme values.
func setFields(x *X, tx *txbuilder.TxBuilder) {
	tx.MsgTx.Version = Pick(x, "version", []int32{0, 1, 2, -1})
	tx.MsgTx.LockTime = Pick(x, "lock time", []uint32{0, 1, 500000000, 0xffffffff})
	tx.MsgTx.TxIn[0].Sequence = Pick(x, "sequence", []uint32{0, 1, 1 << 31, 0xfffffffe, 0xffffffff})
	if n := len(tx.MsgTx.TxIn); n > 1 {
		tx.MsgTx.TxIn[n-1].Sequence = Pick(x, "last sequence", []uint32{0, 0xffffffff})
	}
}

// journey funds, optionally calculates the fee, and signs.
func journey(x *X, id string, tx *txbuilder.TxBuilder, surplus func(s snap) int64, lists [][]offer) {
	list := Pick(x, "offers", lists)
	mv := &move{kind: "fund"}
	if method := x.Choose("method", 1+len(destKinds)); method > 0 {
		mv.kind, mv.dests, mv.brk = "break", destKinds[method-1], 500
	}
	travel(x, id, tx, mv, list, surplus, withFixedDraws)
}

// travel is a journey that starts with the given move, under the given draws.
func travel(x *X, id string, tx *txbuilder.TxBuilder, mv *move, list []offer, surplus func(s snap) int64, draws func(f func())) {
	s := mustSnap(x, tx)
	var ok bool
	if mv.offers, ok = offersFor(s, list, surplus(s)); !ok {
		return
	}
	draws(func() { mv.run(x, tx) })
	mv.judge(x, id)
	if mv.err != nil {
		return
	}
	finish(x, id, tx)
}

func finish(x *X, id string, tx *txbuilder.TxBuilder) {
	if x.Bool("calculate") {
		mv := &move{kind: "calculate"}
		mv.run(x, tx)
		mv.judge(x, id)
	}
	n := 3
	if len(tx.Inputs) > 200 {
		n = 1
	}
	p := Pick(x, "lengths", lengthPatterns[:n])
	withSymbolic(pattern(p), func() {
		mv := &move{kind: "sign", keys: keys}
		mv.run(x, tx)
		mv.judge(x, id)
		if id == "C16" && mv.err != nil && (mv.before.Change != "" || hasRem(mv.before)) {
			x.Failf("a transaction reported funded could not be signed: %s", mv)
		}
	})
}

// moneyScenarios are shared by the properties about fees, payees, change and funding.
func moneyScenarios(id string, thorough bool) []*Scenario {
	outs := []string{"", "p", "pd", "r", "dpr", "rp", "nq", "prpr"}
	return []*Scenario{{
		Name: "boundaries",
		Bounds: "six pairs of rates, eight arrangements of outputs, six change destinations, present inputs, two (thorough: five) lists of offers, both funding " +
			"methods, surplus one satoshi around every decision, then fee calculation or not and signing with varying signature lengths",
		Body: func(x *X) {
			tx := moneyStart(x, moneyRates, outs, changeKinds)
			addPre(x, tx, x.Choose("present", 3))
			l := offerLists()
			if !thorough {
				l = l[2:4]
			}
			journey(x, id, tx, func(s snap) int64 { return Pick(x, "surplus", surpluses(s, thorough)) }, l)
		},
	}, {
		Name:   "every surplus",
		Bounds: "surplus of every satoshi from 5 short to 1300 over (thorough: all rates and arrangements)",
		Body: func(x *X) {
			rates, o, c := moneyRates[:3], []string{"p", "pr"}, []changeKind{changeKinds[0], changeKinds[1], changeKinds[3]}
			if thorough {
				rates, o = moneyRates, []string{"p", "pr", "nq", "r"}
			}
			tx := moneyStart(x, rates, o, c)
			n := int64(x.Choose("surplus", 1306)) - 5
			journey(x, id, tx, func(s snap) int64 { return n }, offerLists()[:1])
		},
	}, {
		Name: "many", Depth: 4,
		Bounds: "251 and 252 (thorough: 250 to 253) inputs or outputs before funding, so that each count prefix widens, surplus around every decision",
		Body: func(x *X) {
			tx := moneyStart(x, [][2]float32{{1, 1}, {0.5, 0.5}, {0.05, 0.05}}, []string{"", "r"}, []changeKind{changeKinds[1]})
			many := x.Choose("many", 3) // inputs present, outputs, or inputs offered
			counts := []int{251, 252}
			if thorough {
				counts = []int{250, 251, 252, 253}
			}
			n := Pick(x, "count", counts)
			var list []offer
			switch many {
			case 0:
				for i := 0; i < n; i++ {
					must(tx.AddInputUTXO(utxoOf(outpointHash(1000+i), uint32(i), 10, p2pkh(0), "")))
				}
				list = offerLists()[1]
			case 1:
				for i := len(tx.Outputs); i < n; i++ {
					must(tx.AddOutput(p2pkh(3), 600, false, false))
				}
				list = offerLists()[0]
			case 2:
				again := x.Bool("again")
				for i := 0; i < n; i++ {
					list = append(list, offer{lockPKH(0), 10, 1000 + i})
					if again && i%50 == 0 || again && i > n-3 {
						list = append(list, list[len(list)-1])
					}
				}
				list = append(list, offer{lockPKH(0), 0, 5000}, offer{lockPKH(1), 5000, 5001})
			}
			journey(x, id, tx, func(s snap) int64 { return Pick(x, "surplus", surpluses(s, false)) }, [][]offer{list})
		},
	}, {
		Name: "fields", Depth: 4,
		Bounds: "every combination of version, lock time, sequences at their extremes, payees of no, one and less than the dust amount, one of the inputs " +
			"signed, both funding methods, then fee calculation or not and signing",
		Body: func(x *X) {
			tx := moneyStart(x, moneyRates[1:2], []string{"pp", "prq"}, changeKinds[1:2])
			addPre(x, tx, 2)
			setFields(x, tx)
			tx.MsgTx.TxOut[0].Value = Pick(x, "payee", []uint64{0, 1, 100})
			if x.Bool("signed") {
				tx.MsgTx.TxIn[1].UnlockingScript = bitcoin.Script{0x51}
			}
			mv := &move{kind: "fund"}
			if x.Bool("break") {
				mv.kind, mv.dests, mv.brk = "break", destKinds[1], 500
			}
			travel(x, id, tx, mv, offerLists()[1], func(s snap) int64 { return Pick(x, "surplus", []int64{1, 50000}) }, withFixedDraws)
		},
	}, {
		Name: "very many", Depth: 4,
		Bounds: "65534 and 65535 inputs or outputs before funding by both methods and fee calculation, surplus around the change decision",
		Body: func(x *X) {
			tx := txbuilder.NewTxBuilder(0.5, 0.25)
			must(tx.SetChangeLockingScript(p2pkh(7), "ch"))
			n := 65534 + x.Choose("count", 2)
			list := offerLists()[0]
			if x.Bool("outputs") {
				for i := 0; i < n; i++ {
					must(tx.AddOutput(p2pkh(3), 600, false, false))
				}
			} else {
				must(tx.AddOutput(p2pkh(3), 10000000, false, false))
				for i := 0; i < n; i++ {
					tx.MsgTx.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: outpointHash(1000 + i), Index: uint32(i)}, nil))
					tx.Inputs = append(tx.Inputs, &txbuilder.InputSupplement{LockingScript: p2pkh(0), Value: 10})
				}
			}
			mv := &move{kind: "fund"}
			if x.Bool("break") {
				mv.kind, mv.dests, mv.brk = "break", destKinds[1], 500
			}
			s := mustSnap(x, tx)
			b := changeBound(s)
			mv.offers, _ = offersFor(s, list, Pick(x, "surplus", []int64{0, b, b + 1, b + 3}))
			withFixedDraws(func() { mv.run(x, tx) })
			mv.judge(x, id)
			if mv.err == nil {
				mv = &move{kind: "calculate"}
				mv.run(x, tx)
				mv.judge(x, id)
			}
		},
	}, {
		Name: "large amounts", Depth: 4,
		Bounds: "payees, earlier offers and surplus of up to a third of the supply each, on both sides of 2^31, 2^32 and 2^53 and one satoshi around the change decision, " +
			"both funding methods",
		Body: func(x *X) {
			large := []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 600, 700000000000000}
			tx := moneyStart(x, [][2]float32{{0.5, 0.5}, {0.05, 1}}, []string{"", "r"}, []changeKind{changeKinds[0], changeKinds[1]})
			must(tx.AddOutput(p2pkh(3), Pick(x, "payee", append([]uint64{1000}, large...)), false, false))
			list := []offer{{lockPKH(0), 0, 1}}
			if v := Pick(x, "first", append([]uint64{0}, large...)); v > 0 {
				list = append([]offer{{lockPK(1), v, 2}}, list...)
			}
			mv := &move{kind: "fund"}
			switch x.Choose("method", 3) {
			case 1:
				mv.kind, mv.dests, mv.brk = "break", destKinds[1], 500
			case 2:
				mv.kind, mv.dests, mv.brk = "break", destKinds[2], 1<<32
			}
			travel(x, id, tx, mv, list, func(s snap) int64 {
				b := changeBound(s)
				r := []int64{-1, 0, 1, b, b + 1}
				for _, v := range large {
					r = append(r, int64(v))
				}
				return Pick(x, "surplus", r)
			}, withFixedDraws)
		},
	}, {
		Name: "draws", Depth: 4,
		Bounds: "breaking change over one to three destinations, break values 1, 60 and 500, surplus around every decision and large, every draw of increments, powers and " +
			"variations (shuffles and variation amounts at their lowest)",
		Body: func(x *X) {
			rates := [][2]float32{{0.5, 0.5}, {0.05, 1}, {1, 0.25}}
			if !thorough {
				rates = rates[:2]
			}
			tx := moneyStart(x, rates, []string{"p"}, changeKinds[:1])
			mv := &move{kind: "break", dests: Pick(x, "destinations", destKinds), brk: Pick(x, "break", []uint64{1, 60, 500})}
			travel(x, id, tx, mv, offerLists()[0], func(s snap) int64 { return Pick(x, "surplus", surpluses(s, false)) },
				func(f func()) { withDrawsLimited(x, 8, f) })
		},
	}, {
		Name: "many destinations", Depth: 4,
		Bounds: "breaking change over 4 to 300 destinations of one and of mixed kinds, surplus from less than one to more than all can hold, draws following each of 39 patterns",
		Body: func(x *X) {
			tx := moneyStart(x, [][2]float32{{0.5, 0.5}, {1, 0.25}}, []string{"p"}, changeKinds[:1])
			n := Pick(x, "destinations", []int{4, 5, 10, 252, 253, 300})
			var dests []txbuilder.AddressKeyID
			for i, d := range destinations(n)[x.Choose("kinds", 2)] {
				dests = append(dests, txbuilder.AddressKeyID{Address: addrOf(d), KeyID: fmt.Sprint("d", i)})
			}
			mv := &move{kind: "break", dests: dests, brk: Pick(x, "break", []uint64{100, 500})}
			travel(x, id, tx, mv, offerLists()[0], func(s snap) int64 {
				return Pick(x, "surplus", []int64{1, 300, 2000, int64(n) * 400, int64(n) * 100000})
			}, func(f func()) { withPattern(x, f) })
		},
	}, {
		Name: "histories", Depth: 4,
		Bounds: "every sequence of 4 funding, fee, signing and editing operations from five (thorough: eight) arrangements",
		Body: func(x *X) {
			outs := []string{"p", "dr", "rp", "m", "pmq"}
			if thorough {
				outs = append(outs, "", "rr", "dnr")
			}
			tx := moneyStart(x, moneyRates[:2], outs, []changeKind{changeKinds[0], changeKinds[1], changeKinds[3]})
			withSymbolic(pattern([]int{71, 72, 70}), func() {
				withFixedDraws(func() { moneyHistory(x, id, tx, 4) })
			})
		},
	}}
}

func moneyHistory(x *X, id string, tx *txbuilder.TxBuilder, depth int) {
	next := 0
	for d := 0; d < depth; d++ {
		x.Prune(hashOf(deepHash(tx), next), depth-d)
		var mv *move
		next++
		u := func(v uint64, s bitcoin.Script) bitcoin.UTXO {
			return utxoOf(outpointHash(100+next*10+int(v%7)), uint32(next), v, s, fmt.Sprint("h", next))
		}
		c := x.Choose("op", 16)
		switch c {
		case 0:
			mv = &move{kind: "fund", offers: []bitcoin.UTXO{u(900, p2pkh(0)), u(3001, multi(2, 0, 1, 2))}}
		case 1:
			mv = &move{kind: "fund", offers: []bitcoin.UTXO{u(200000, p2pk(1))}}
		case 2:
			mv = &move{kind: "break", offers: []bitcoin.UTXO{u(901, p2pkh(0)), u(4002, p2pk(1))}, dests: destKinds[1], brk: 100}
		case 3:
			mv = &move{kind: "break", offers: []bitcoin.UTXO{u(90000, p2pkh(0))}, dests: destKinds[2], brk: 1000}
		case 4:
			mv = &move{kind: "fund"}
		case 5:
			mv = &move{kind: "break", dests: destKinds[0], brk: 10}
		case 6:
			mv = &move{kind: "calculate"}
		case 7:
			mv = &move{kind: "sign", keys: keys}
		case 8:
			mv = &move{kind: "sign", keys: keys[:1]}
		case 9:
			_ = tx.AddOutput(p2pkh(3), 777, false, false)
		case 10:
			_ = tx.AddOutput(p2pk(5), 1700, true, false)
		case 11:
			_ = tx.SetChangeLockingScript(fs(p2pk(6)), "late")
		case 12:
			if len(tx.MsgTx.TxOut) > 0 {
				_ = tx.RemoveOutput(len(tx.MsgTx.TxOut) - 1)
			}
		case 13:
			_ = tx.AddInputUTXO(u(1500, p2pkh(2)))
		case 14:
			*tx = tx.Copy()
		case 15:
			_ = tx.AddValueToOutput(0, 600)
		}
		if mv != nil {
			mv.run(x, tx)
			mv.judge(x, id)
		}
	}
}

func init() {
	common := []string{
		"signatures are symbolic with chosen lengths of at most 72 bytes, the longest the network accepts",
		"break-change destinations are not also payees",
	}
	add := func(id string, extra func(thorough bool) []*Scenario, assume ...string) {
		register(&Check{ID: id, Assumptions: append(append([]string{}, common...), assume...), Scenarios: func(thorough bool) []*Scenario {
			r := moneyScenarios(id, thorough)
			if extra != nil {
				r = append(r, extra(thorough)...)
			}
			return r
		}})
	}
	lengths := func(id string) func(bool) []*Scenario {
		return func(thorough bool) []*Scenario {
			return []*Scenario{{
				Name: "signature lengths", Depth: 4,
				Bounds: "one and two inputs; every sequence of signature lengths over all attempts, from 6 (thorough: 10) lengths between 9 and 72 for " +
					"one input and 72, 71 and 9 for two; surplus around the change decision",
				Body: func(x *X) {
					rates := [][2]float32{{0.5, 0.5}, {5, 5}, {1, 1}, {0.05, 0.05}}
					if !thorough {
						rates = rates[:2]
					}
					tx := moneyStart(x, rates, []string{"p", "pr"},
						[]changeKind{changeKinds[1], changeKinds[0], changeKinds[3]})
					two := x.Bool("two")
					kinds := []lock{lockPKH(0)}
					opts := []int{72, 71, 70, 66, 63, 9}
					if thorough {
						opts = []int{72, 71, 70, 69, 68, 67, 66, 64, 63, 9}
					}
					if two {
						kinds = []lock{lockPKH(0), lockPK(1)}
						opts = []int{72, 71, 9}
					}
					for i, k := range kinds {
						must(tx.AddInputUTXO(utxoOf(outpointHash(i), uint32(i), 5000, k.Script, "")))
					}
					s := mustSnap(x, tx)
					b := changeBound(s)
					n := Pick(x, "surplus", []int64{0, 1, b - 1, b, b + 1, b + 2, 3000})
					v := int64(5000) + n - (feeOf(s) - estFeeOf(s))
					if v < 1 {
						return
					}
					tx.Inputs[0].Value = uint64(v)
					calls := 0
					withSymbolic(func() int {
						calls++
						if calls > 60 {
							x.Failf("signing does not come to an end")
						}
						return Pick(x, "length", opts)
					}, func() {
						mv := &move{kind: "sign", keys: keys}
						mv.run(x, tx)
						mv.judge(x, id)
					})
				},
			}}
		}
	}
	add("C03", func(thorough bool) []*Scenario {
		return append(lengths("C03")(thorough), &Scenario{
			Name: "missing keys", Depth: 4,
			Bounds: "three inputs of mixed kinds, every subset of the keys, surplus around every decision, then the rest of the keys",
			Body: func(x *X) {
				tx := moneyStart(x, moneyRates, []string{"p", "pr"}, []changeKind{changeKinds[1], changeKinds[0], changeKinds[3]})
				for i, k := range []lock{lockPKH(0), lockMulti(2, 1, 2, 3), lockPK(4)} {
					must(tx.AddInputUTXO(utxoOf(outpointHash(i), uint32(i), 5000, k.Script, "")))
				}
				s := mustSnap(x, tx)
				v := int64(5000) + Pick(x, "surplus", surpluses(s, false)) - (feeOf(s) - estFeeOf(s))
				if v < 1 {
					return
				}
				tx.Inputs[0].Value = uint64(v)
				var ks []bitcoin.Key
				for i := 0; i < 5; i++ {
					if x.Bool("key") {
						ks = append(ks, keys[i])
					}
				}
				withSymbolic(pattern(Pick(x, "lengths", lengthPatterns)), func() {
					mv := &move{kind: "sign", keys: ks}
					mv.run(x, tx)
					mv.judge(x, "C03")
					// another party completes it
					if is(mv.err, txbuilder.ErrMissingPrivateKey) {
						if _, err := tx.SignOnly(keys); err != nil {
							x.Failf("completing: %s", err)
						}
						fee, need := feeOf(mustSnap(x, tx)), int64(ratFee(uint64(sizeOf(tx.MsgTx)), float64(tx.FeeRate)))
						if fee < need {
							x.Failf("completed by others the fee is %d, should be at least %d, after %s", fee, need, mv)
						}
					}
				})
			},
		})
	})
	add("C04", lengths("C04"), "rounding each part up to a whole satoshi separately is not overpaying")
	add("C05", nil)
	add("C16", nil, "a send with break-change needs room for one change output", "offered outputs are of kinds the library can size")
	add("C28", func(thorough bool) []*Scenario {
		return []*Scenario{{
			Name: "nearly the change script", Depth: 2,
			Bounds: "a payee at the change script, at one with any single bit changed, one byte shorter or longer or repeated, the destination set before or after, as script or " +
				"address; both funding methods, fee calculation and signing",
			Body: func(x *X) {
				kind := Pick(x, "change", changeKinds[1:4])
				s := append(bitcoin.Script{}, kind.Script...)
				switch n := x.Choose("difference", 8*len(s)+5); {
				case n < 8*len(s):
					s[n/8] ^= 1 << (n % 8)
				case n == 8*len(s):
					s = s[:len(s)-1]
				case n == 8*len(s)+1:
					s = append(s, 0x61)
				case n == 8*len(s)+2:
					s = append(bitcoin.Script{0x61}, s...)
				case n == 8*len(s)+3:
					s = append(s, s...)
				}
				first, byAddress := x.Bool("destination first"), x.Bool("address")
				tx := txbuilder.NewTxBuilder(0.5, 0.25)
				set := func() {
					if byAddress {
						must(tx.SetChangeAddress(addrOf(kind.Script), "ch"))
					} else {
						must(tx.SetChangeLockingScript(fs(kind.Script), "ch"))
					}
				}
				if first {
					set()
				}
				must(tx.AddOutput(p2pkh(3), 1000, false, false))
				must(tx.AddOutput(fs(s), 1001, false, false))
				if !first {
					set()
				}
				same := bytes.Equal(s, kind.Script)
				if m := tx.Outputs[1].IsRemainder; m != (same && !first) || tx.Outputs[0].IsRemainder {
					x.Failf("a payee at %x with change to %x is marked as remainder: %v", []byte(s), []byte(kind.Script), m)
				}
				journey(x, "C28", tx, func(s snap) int64 { return 50000 }, offerLists()[:1])
			},
		}, {
			Name: "destination set again", Depth: 2,
			Bounds: "the destination set up to three times out of three scripts and labels present or absent, as script or address, before or after a payee at the first",
			Body: func(x *X) {
				tx := txbuilder.NewTxBuilder(0.5, 0.25)
				must(tx.AddOutput(p2pkh(3), 1000, false, false))
				at, label, wantLabel, marked := x.Choose("payee after", 4), "", "", false
				var script bitcoin.Script
				for i := 0; i < 3; i++ {
					if i == at {
						must(tx.AddOutput(p2pkh(7), 1001, false, false))
					}
					n := x.Choose("set", 7)
					if n == 6 {
						break
					}
					script, label = changeKinds[1+n%3].Script, []string{"", fmt.Sprint("label", i)}[n/3]
					if x.Bool("address") {
						must(tx.SetChangeAddress(addrOf(script), label))
					} else {
						must(tx.SetChangeLockingScript(fs(script), label))
					}
					if !bytes.Equal(tx.ChangeScript, script) || tx.ChangeKeyID != label {
						x.Failf("the change destination is %x labelled %q instead of %x labelled %q", []byte(tx.ChangeScript), tx.ChangeKeyID, []byte(script), label)
					}
					if i >= at && n%3 == 0 {
						wantLabel, marked = label, true
					}
					if i >= at && (tx.Outputs[1].IsRemainder != marked || tx.Outputs[1].KeyID != wantLabel) {
						x.Failf("the payee at a change destination is marked %v and labelled %q, should be %v and %q", tx.Outputs[1].IsRemainder, tx.Outputs[1].KeyID, marked, wantLabel)
					}
				}
				x.State(mustSnap(x, tx).hash())
				journey(x, "C28", tx, func(s snap) int64 { return 50000 }, offerLists()[:1])
			},
		}}
	})

	register(&Check{ID: "C17", Assumptions: common, Scenarios: func(thorough bool) []*Scenario {
		return []*Scenario{{
			Name: "maximum", Depth: 4,
			Bounds: "every rate, arrangement of other outputs around the maximum, change destination, present inputs, list of offers with duplicates, both " +
				"methods, totals around what is just enough, funded again and signed",
			Body: func(x *X) {
				tx := moneyStart(x, moneyRates, []string{"m", "pm", "mp", "dmn", "mr", "rm", "mm", "pqmdn", "x", "px", "xm"}, changeKinds)
				addPre(x, tx, x.Choose("present", 3))
				s := mustSnap(x, tx)
				list := Pick(x, "offers", offerLists())
				method := x.Choose("method", 3)
				// everything is taken, so the surplus counts all offers
				n := Pick(x, "surplus", surpluses(s, thorough))
				offers, ok := maxOffers(s, list, n)
				if !ok {
					return
				}
				run := func(offers []bitcoin.UTXO) {
					mv := &move{kind: "fund", offers: offers}
					if method > 0 {
						mv.kind, mv.brk = "break", 500
						if method == 1 {
							mv.dests = destKinds[0]
						}
					}
					withFixedDraws(func() { mv.run(x, tx) })
					mv.judge(x, "C17")
				}
				run(offers)
				switch x.Choose("then", 3) {
				case 1:
					run([]bitcoin.UTXO{offers[0], utxoOf(outpointHash(77), 7, 800, p2pkh(0), "")})
				case 2:
					before := mustSnap(x, tx)
					withSymbolic(pattern([]int{71, 72}), func() {
						mv := &move{kind: "sign", keys: keys}
						mv.run(x, tx)
						mv.payeesSafe(x)
						if mv.err == nil && hasRem(before) {
							mv.enough(x)
							mv.notTooMuch(x)
						}
					})
				}
			},
		}, {
			Name:   "many",
			Bounds: "1 to 4 and 250 to 255 offers, each repeated or not",
			Body: func(x *X) {
				tx := moneyStart(x, moneyRates, []string{"m", "pm", "mn"}, changeKinds[:2])
				n := Pick(x, "count", []int{1, 2, 3, 4, 250, 251, 252, 253, 254, 255})
				rep := x.Choose("repeated", 3)
				var offers []bitcoin.UTXO
				for i := 0; i < n; i++ {
					u := utxoOf(outpointHash(i+1), uint32(i), 700+uint64(i), signKinds()[i%5].Script, fmt.Sprint(i))
					offers = append(offers, u)
					if rep == 1 {
						offers = append(offers, u)
					}
				}
				if rep == 2 {
					offers = append(offers, offers...)
				}
				mv := &move{kind: "fund", offers: offers}
				if x.Bool("break") {
					mv.kind, mv.dests, mv.brk = "break", destKinds[1], 500
				}
				withFixedDraws(func() { mv.run(x, tx) })
				mv.judge(x, "C17")
			},
		}, {
			Name: "large amounts", Depth: 3,
			Bounds: "two offers and a payee on both sides of 2^31, 2^32 and 2^53 and of up to a third of the supply, in every combination, both methods",
			Body: func(x *X) {
				large := []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 600, 700000000000000}
				tx := moneyStart(x, moneyRates[:2], []string{"m", "rm"}, changeKinds[:2])
				if v := Pick(x, "payee", append([]uint64{0}, large...)); v > 0 {
					must(tx.AddOutput(p2pkh(3), v, false, false))
				}
				mv := &move{kind: "fund"}
				for i := 0; i < 2; i++ {
					v := Pick(x, "offer", append([]uint64{900}, large...))
					mv.offers = append(mv.offers, utxoOf(outpointHash(i+1), uint32(i), v, p2pkh(i), fmt.Sprint(i)))
				}
				if x.Bool("break") {
					mv.kind, mv.dests, mv.brk = "break", destKinds[1], 500
				}
				withFixedDraws(func() { mv.run(x, tx) })
				mv.judge(x, "C17")
			},
		}, {
			Name: "histories", Depth: 4,
			Bounds: "every sequence of 3 operations from arrangements with a maximum",
			Body: func(x *X) {
				tx := moneyStart(x, moneyRates[:2], []string{"m", "pmq", "rm"}, changeKinds[:2])
				withSymbolic(pattern([]int{71, 72, 70}), func() {
					withFixedDraws(func() { moneyHistory(x, "C17", tx, 3) })
				})
			},
		}}
	}})

	register(&Check{ID: "C27", Scenarios: func(thorough bool) []*Scenario {
		return []*Scenario{{
			Name: "sequences",
			Bounds: "every sequence of 3 (thorough: 4) adjustments by amounts one satoshi around every decision, fee calculations, zeroizations and outputs put in before or after or the last one changed, from " +
				"eight arrangements, four change destinations and three rates",
			Body: func(x *X) {
				tx := feeStart(x)
				adjustSequence(x, tx, depthOf(thorough, 3, 4))
			},
		}, {
			Name:   "every amount",
			Bounds: "every amount from -900 to 1100 on each arrangement, followed by a fee calculation done twice",
			Body: func(x *X) {
				tx := feeStart(x)
				m := modelOf(x, tx, nil)
				m = adjustBoth(x, tx, m, int64(x.Choose("amount", 2001))-900)
				m = settle(x, tx, m, "calculate")
				settle(x, tx, m, "calculate")
			},
		}, {
			Name: "large amounts", Depth: 2,
			Bounds: "every pair of adjustments by up to a third of the supply either way, on both sides of 2^31, 2^32 and 2^53, with and without a remainder output and a change " +
				"destination, then a fee calculation",
			Body: func(x *X) {
				tx := txbuilder.NewTxBuilder(0.5, 0.25)
				must(tx.AddInputUTXO(utxoOf(hashA, 0, 2000000000000000, p2pkh(0), "")))
				must(tx.AddOutput(p2pkh(3), 600, false, false))
				if x.Bool("remainder") {
					must(tx.AddOutput(p2pk(4), Pick(x, "held", []uint64{1 << 32, 700000000000000}), true, false))
				}
				if x.Bool("destination") {
					must(tx.SetChangeLockingScript(p2pkh(7), "ch"))
				}
				m := modelOf(x, tx, nil)
				for i := 0; i < 2; i++ {
					a := Pick(x, "amount", []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 600, 700000000000000})
					if x.Bool("down") {
						a = -a
					}
					m = adjustBoth(x, tx, m, a)
				}
				settle(x, tx, m, "calculate")
			},
		}, {
			Name: "many", Depth: 3,
			Bounds: "250 to 254, and at one rate 65534 to 65536, outputs, amounts around every decision, then each adjusted back",
			Body: func(x *X) {
				rate := Pick(x, "rate", []float32{1, 0.5, 0.05})
				tx := txbuilder.NewTxBuilder(rate, 0.5)
				n := Pick(x, "outputs", []int{250, 251, 252, 253, 254, 65534, 65535, 65536})
				if n > 1000 && rate != 0.5 {
					return
				}
				for i := 0; i < n; i++ {
					must(tx.AddOutput(p2pkh(3), 600, false, false))
				}
				must(tx.AddInputUTXO(utxoOf(hashA, 0, 900000+uint64(n/1000)*1200000, p2pkh(0), "")))
				must(tx.SetChangeLockingScript(p2pkh(7), "ch"))
				m := modelOf(x, tx, nil)
				if x.Bool("calculate") {
					m = settle(x, tx, m, "calculate")
				}
				adjustSequenceFrom(x, tx, m, 1, false)
			},
		}}
	}})
}

// maxOffers chooses the deciding value so that all offers together leave the surplus.
func maxOffers(s snap, list []offer, surplus int64) (r []bitcoin.UTXO, ok bool) {
	t := s
	t.Ins = append([]inSnap{}, s.Ins...)
	decide := -1
	for i, o := range list {
		u := utxoOf(outpointHash(o.at), uint32(o.at), o.value, o.lock.Script, fmt.Sprint("u", i))
		in := inOf(u)
		dup := false
		for _, e := range t.Ins {
			dup = dup || e.Hash == in.Hash && e.Index == in.Index
		}
		if !dup {
			t.Ins = append(t.Ins, in)
		}
		if o.value == 0 {
			decide = i
		}
		r = append(r, u)
	}
	v := int64(outputTotal(s)) + estFeeOf(t) + surplus - int64(inputTotal(t))
	if v < 1 {
		return nil, false
	}
	r[decide].Value = uint64(v)
	return r, true
}

// adjustBoth adjusts the implementation and the model.
func adjustBoth(x *X, tx *txbuilder.TxBuilder, m *model, amount int64) *model {
	c := m.clone()
	wantDone, w := c.adjust(amount)
	x.Op()
	x.Logf("adjust by %d", amount)
	done, err := tx.AdjustFee(amount)
	return compareAdjust(x, tx, m, c, w, err, fmt.Sprintf("adjusting the fee by %d", amount), func() {
		if done != wantDone {
			x.Failf("adjusting the fee by %d says done %v, should be %v\n%s", amount, done, wantDone, m.snap)
		}
	})
}

func compareAdjust(x *X, tx *txbuilder.TxBuilder, m, c *model, w want, err error, what string, more func()) *model {
	if !w.matches(err) {
		x.Failf("%s gave %v, should be %s\n%s", what, err, w, m.snap)
	}
	x.Outcome(string(w))
	if w != wantOK {
		c = m
	} else if more != nil {
		more()
	}
	if d := mustSnap(x, tx).diff(c.snap); d != "" {
		x.Failf("%s: %s\nbefore:\n%s", what, d, m.snap)
	}
	x.State(deepHash(tx))
	return c
}

// settle calculates or zeroizes the fee on both sides and checks what it is for.
func settle(x *X, tx *txbuilder.TxBuilder, m *model, kind string) *model {
	c := m.clone()
	var err error
	var amount, goal int64
	x.Op()
	x.Logf("%s", kind)
	if kind == "calculate" {
		goal = int64(m.estimatedFee())
		amount = goal - m.actualFee()
		err = tx.CalculateFee()
	} else {
		amount = -m.actualFee()
		err = tx.ZeroizeFee()
	}
	_, w := c.adjust(amount)
	c = compareAdjust(x, tx, m, c, w, err, kind, nil)
	if err == nil && hasRem(m.snap) && len(c.Outs) == len(m.Outs) && feeOf(c.snap) != goal {
		x.Failf("after %s the fee is %d, should be %d", kind, feeOf(c.snap), goal)
	}
	if err == nil && kind == "calculate" {
		h := deepHash(tx)
		if e := tx.CalculateFee(); e != nil || deepHash(tx) != h {
			x.Failf("calculating the fee again changed something (%v)\n%s", e, c.snap)
		}
	}
	return c
}

func adjustSequence(x *X, tx *txbuilder.TxBuilder, depth int) {
	adjustSequenceFrom(x, tx, modelOf(x, tx, nil), depth, true)
}

// editOutputs puts a payee or another remainder before or after the outputs.
func editOutputs(x *X, tx *txbuilder.TxBuilder, m *model, i int) *model {
	at := 0
	if i&1 == 1 {
		at = len(m.Outs)
	}
	rem := i&2 != 0
	c := m.clone()
	if i >= 4 { // change the last output
		at = len(m.Outs) - 1
		x.Op()
		switch i {
		case 4:
			x.Logf("update output %d", at)
			c.Outs[at].Script = string(p2pk(7))
			return compareAdjust(x, tx, m, c, wantOK, tx.UpdateOutput(uint32(at), p2pk(7)), "updating an output", nil)
		case 5:
			x.Logf("set output %d to dust", at)
			c.Outs[at].Dust = true
			c.Outs[at].Value = dustOf(c.Outs[at].Script, c.DustRate)
			return compareAdjust(x, tx, m, c, wantOK, tx.SetOutputToDust(uint32(at)), "setting an output to dust", nil)
		}
	}
	w := c.insertOut(at, p2pkh(4), 1234, rem, false)
	x.Op()
	x.Logf("insert output at %d (remainder %v)", at, rem)
	err := tx.InsertOutput(at, p2pkh(4), 1234, rem, false)
	return compareAdjust(x, tx, m, c, w, err, "inserting an output", nil)
}

func adjustSequenceFrom(x *X, tx *txbuilder.TxBuilder, m *model, depth int, edits bool) {
	for d := 0; d < depth; d++ {
		x.Prune(deepHash(tx), depth-d)
		var amounts []int64
		for _, o := range feeOps(m) {
			var a int64
			if n, _ := fmt.Sscanf(o.Name, "adjust fee by %d", &a); n == 1 {
				amounts = append(amounts, a)
			}
		}
		n := len(amounts) + 2
		if edits && len(m.Outs) < 6 {
			n += 4
			if len(m.Outs) > 0 {
				n += 2
			}
		}
		i := x.Choose("amount", n)
		switch {
		case i < len(amounts):
			m = adjustBoth(x, tx, m, amounts[i])
		case i == len(amounts):
			m = settle(x, tx, m, "calculate")
		case i == len(amounts)+1:
			m = settle(x, tx, m, "zeroize")
		default:
			m = editOutputs(x, tx, m, i-len(amounts)-2)
		}
	}
}
