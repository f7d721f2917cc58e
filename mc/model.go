package main

// A transaction builder as plain lists: what every edit and fee adjustment should do, written from
// the documentation. Explorations run it side by side with the implementation.

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

type model struct {
	snap
	added []bool // outputs added by a fee adjustment
}

func (m *model) clone() *model {
	c := *m
	c.Ins = append([]inSnap{}, m.Ins...)
	c.Outs = append([]outSnap{}, m.Outs...)
	c.added = append([]bool{}, m.added...)
	return &c
}

// want is what an operation should report.
type want string

const (
	wantOK     want = "success"
	wantDup    want = "duplicate input"
	wantRange  want = "position out of range"
	wantDust   want = "below dust"
	wantSmall  want = "too little to subtract"
	wantValue  want = "insufficient value"
	wantChange want = "change destination needed"
	wantAddr   want = "bad address"
	wantEither want = "success or refusal" // nothing is asked for, so nothing may change
)

// matches tells whether an error is of the kind wanted.
func (w want) matches(err error) bool {
	switch w {
	case wantEither:
		return true
	case wantOK:
		return err == nil
	case wantDup:
		return is(err, txbuilder.ErrDuplicateInput)
	case wantDust:
		return is(err, txbuilder.ErrBelowDustValue)
	case wantValue:
		return is(err, txbuilder.ErrInsufficientValue)
	case wantChange:
		return is(err, txbuilder.ErrChangeAddressNeeded)
	}
	return err != nil
}

func dustOf(script string, rate float32) uint64 {
	return refDusts(refOutputSize(len(script)), rate)[0]
}

func unspendable(s string) bool {
	return len(s) > 0 && s[0] == 0x6a || len(s) > 1 && s[0] == 0 && s[1] == 0x6a
}

func (m *model) spends(h bitcoin.Hash32, index uint32, except int) bool {
	for i, in := range m.Ins {
		if i != except && in.Hash == h && in.Index == index {
			return true
		}
	}
	return false
}

func inOf(u bitcoin.UTXO) inSnap {
	return inSnap{Hash: u.Hash, Index: u.Index, Sequence: 0xffffffff, Script: string(u.LockingScript), Value: u.Value, KeyID: u.KeyID}
}

func (m *model) insertIn(i int, in inSnap) want {
	if i > len(m.Ins) {
		return wantRange
	}
	if m.spends(in.Hash, in.Index, -1) {
		return wantDup
	}
	m.Ins = append(m.Ins[:i:i], append([]inSnap{in}, m.Ins[i:]...)...)
	return wantOK
}

func (m *model) updateIn(i int, u bitcoin.UTXO) want {
	if i >= len(m.Ins) {
		return wantRange
	}
	if m.spends(u.Hash, u.Index, i) {
		return wantDup
	}
	n := inOf(u)
	n.Unlock, n.Sequence = m.Ins[i].Unlock, m.Ins[i].Sequence
	m.Ins[i] = n
	return wantOK
}

func (m *model) removeIn(i int) want {
	if i >= len(m.Ins) {
		return wantRange
	}
	m.Ins = append(m.Ins[:i:i], m.Ins[i+1:]...)
	return wantOK
}

func (m *model) insertOut(i int, script bitcoin.Script, value uint64, rem, dust bool) want {
	if i > len(m.Outs) {
		return wantRange
	}
	o := outSnap{Value: value, Script: string(script), Rem: rem, Dust: dust}
	if dust {
		o.Value = dustOf(o.Script, m.DustRate)
	} else if value < ratFee(uint64(refOutputSize(len(script))), float64(m.FeeRate)) && !(m.SendMax && rem) && !unspendable(o.Script) {
		return wantDust
	}
	m.Outs = append(m.Outs[:i:i], append([]outSnap{o}, m.Outs[i:]...)...)
	m.added = append(m.added[:i:i], append([]bool{false}, m.added[i:]...)...)
	return wantOK
}

func (m *model) removeOut(i int) want {
	if i >= len(m.Outs) {
		return wantRange
	}
	m.Outs = append(m.Outs[:i:i], m.Outs[i+1:]...)
	m.added = append(m.added[:i:i], m.added[i+1:]...)
	return wantOK
}

func (m *model) addValue(i int, v uint64) want {
	if i >= len(m.Outs) {
		return wantRange
	}
	o := &m.Outs[i]
	if o.Dust {
		if v < dustOf(o.Script, m.DustRate) {
			return wantDust
		}
		o.Dust = false
		o.Value = v
	} else {
		o.Value += v
	}
	return wantOK
}

func (m *model) subValue(i int, v uint64) want {
	if i >= len(m.Outs) {
		return wantRange
	}
	o := &m.Outs[i]
	d := dustOf(o.Script, m.DustRate)
	if o.Value < d && v == 0 {
		return wantEither
	}
	if o.Value < d || o.Value-d < v {
		return wantSmall
	}
	o.Value -= v
	return wantOK
}

func (m *model) setChange(script bitcoin.Script, key string) want {
	m.Change, m.ChangeKeyID = string(script), key
	for i := range m.Outs {
		if m.Outs[i].Script == m.Change {
			m.Outs[i].Rem = true
			m.Outs[i].KeyID = key
		}
	}
	return wantOK
}

func (m *model) estimatedFee() uint64 {
	return ratFee(uint64(refEstimate(m.snap)), float64(m.FeeRate))
}

func (m *model) actualFee() int64 { return int64(inputTotal(m.snap) - outputTotal(m.snap)) }

// adjust is a fee adjustment; done tells whether no further adjustment makes sense.
func (m *model) adjust(amount int64) (done bool, w want) {
	if amount == 0 {
		return true, wantOK
	}
	first := -1
	for i, o := range m.Outs {
		if o.Rem {
			first = i
			break
		}
	}
	if amount > 0 {
		if first < 0 || m.Outs[first].Value < uint64(amount) {
			return false, wantValue
		}
		o, i := refCost(m.Outs[first].Script, m.FeeRate)
		left := m.Outs[first].Value - uint64(amount)
		if left < o+i {
			if !m.added[first] {
				return false, wantValue
			}
			m.removeOut(first)
			return true, wantOK
		}
		m.Outs[first].Value = left
		return false, wantOK
	}
	surplus := uint64(-amount)
	if first >= 0 {
		m.Outs[first].Value += surplus
		return false, wantOK
	}
	size := uint64(refEstimate(m.snap))
	grow := uint64(varintSize(uint64(len(m.Outs)+1)) - varintSize(uint64(len(m.Outs))))
	var o, i uint64
	rate := float64(m.FeeRate)
	if m.Change == "" {
		grow += 34
		o, i = ratFee(68, rate), ratFee(298, rate)
	} else {
		grow += uint64(refOutputSize(len(m.Change)))
		o, i = refCost(m.Change, m.FeeRate)
	}
	extra := ratFee(size+grow, rate) - ratFee(size, rate)
	if extra > surplus || surplus-extra <= o+i {
		return true, wantOK
	}
	if m.Change == "" {
		return false, wantChange
	}
	m.Outs = append(m.Outs, outSnap{Value: surplus - extra, Script: m.Change, Rem: true, KeyID: m.ChangeKeyID})
	m.added = append(m.added, true)
	return false, wantOK
}

// op is one operation on both sides. Operations without a model are free in what they do; the
// exploration takes over the state they leave.
type op struct {
	Name string
	Do   func(tx *txbuilder.TxBuilder) error
	M    func(m *model) want
}

var (
	hashC = hash32(0xc3)
	hashD = func() bitcoin.Hash32 { h := hashA; h[31] ^= 1; return h }() // differs from A in one bit
	utxo0 = utxoOf(hashA, 0, 10000, p2pkh(0), "k0")
	utxo1 = utxoOf(hashA, 1, 20000, p2pk(1), "k1")
	utxo2 = utxoOf(hashB, 0, 30000, multi(2, 0, 1, 2), "k2")
	utxo3 = utxoOf(hashA, 0, 44444, p2pkh(3), "k3") // same outpoint as utxo0
	utxo4 = utxoOf(hashD, 0, 50000, p2pkh(1), "k4")
)

// clone of a utxo, so that nothing given to a builder is shared between executions.
func fresh(u bitcoin.UTXO) bitcoin.UTXO {
	u.LockingScript = fs(u.LockingScript)
	return u
}

// reuse, if set, makes a caller that gives the same bytes every time it means the same script.
var reuse map[string]bitcoin.Script

func fs(s bitcoin.Script) bitcoin.Script {
	if reuse == nil {
		return append(bitcoin.Script{}, s...)
	}
	r, ok := reuse[string(s)]
	if !ok {
		r = append(bitcoin.Script{}, s...)
		reuse[string(s)] = r
	}
	return r
}

// reusing runs an execution in which scripts are given more than once, and none of them may change.
func reusing(x *X, f func()) {
	reuse = map[string]bitcoin.Script{}
	defer func() { reuse = nil }()
	f()
	for want, s := range reuse {
		if string(s) != want {
			x.Failf("the caller's script %s was changed to %s", short(want), short(string(s)))
		}
	}
}

func positions(n int, all bool) []int {
	var r []int
	if n > 8 { // the ends and the middle of a long list
		return []int{0, 1, n / 2, n - 1, n, n + 1}
	}
	for i := 0; i <= n+1; i++ {
		r = append(r, i)
	}
	if all {
		r = append(r, 1000)
	}
	return r
}

func inputOps(m *model, utxos []bitcoin.UTXO) []op {
	var r []op
	n := len(m.Ins)
	for ui := range utxos {
		u := utxos[ui]
		r = append(r, op{fmt.Sprintf("add utxo %d", ui),
			func(tx *txbuilder.TxBuilder) error { return tx.AddInputUTXO(fresh(u)) },
			func(m *model) want { return m.insertIn(len(m.Ins), inOf(u)) }})
		r = append(r, op{fmt.Sprintf("add outpoint %d", ui),
			func(tx *txbuilder.TxBuilder) error {
				return tx.AddInput(wire.OutPoint{Hash: u.Hash, Index: u.Index}, fs(u.LockingScript), u.Value)
			},
			func(m *model) want {
				in := inOf(u)
				in.KeyID = ""
				return m.insertIn(len(m.Ins), in)
			}})
		for _, p := range positions(n, ui == 0) {
			p := p
			r = append(r, op{fmt.Sprintf("insert utxo %d at %d", ui, p),
				func(tx *txbuilder.TxBuilder) error { return tx.InsertInput(p, fresh(u)) },
				func(m *model) want { return m.insertIn(p, inOf(u)) }})
			r = append(r, op{fmt.Sprintf("update input %d to utxo %d", p, ui),
				func(tx *txbuilder.TxBuilder) error { return tx.UpdateInputUTXO(p, fresh(u)) },
				func(m *model) want { return m.updateIn(p, u) }})
		}
	}
	for _, p := range positions(n, true) {
		p := p
		r = append(r, op{fmt.Sprintf("remove input %d", p),
			func(tx *txbuilder.TxBuilder) error { return tx.RemoveInput(p) },
			func(m *model) want { return m.removeIn(p) }})
	}
	return r
}

// unusualUTXOs have fields at their extremes.
var unusualUTXOs = []bitcoin.UTXO{
	utxoOf(hashA, 0, 0, p2pkh(0), ""),
	utxoOf(hashA, math.MaxUint32, 2100000000000000, nil, "k"),
	utxoOf(bitcoin.Hash32{}, 0, 1, opReturn(300), strings.Repeat("long label", 30)),
	utxoOf(hashB, 1<<31, 0, nil, ""),
	utxoOf(hashB, 65536, 1<<32, plainScript(70000), "k"),
}

// unusualOutputs are edits with scripts and amounts at their extremes.
func unusualOutputs(m *model) []op {
	var r []op
	n := len(m.Outs)
	for _, s := range []bitcoin.Script{nil, plainScript(253), plainScript(70000), {0x00, 0x6a}, {0x6a}} {
		for _, v := range []uint64{0, 40000, 1 << 32, 2100000000000000} {
			r = append(r, addOutOp(s, v, false, false), insOutOp(0, s, v, true, false), insOutOp(n, s, v, false, v == 0))
		}
		s := s
		for _, p := range positions(n-1, false) {
			p := p
			r = append(r, op{fmt.Sprintf("update output %d to %s", p, short(string(s))),
				func(tx *txbuilder.TxBuilder) error { return tx.UpdateOutput(uint32(p), fs(s)) },
				func(m *model) want {
					if p >= len(m.Outs) {
						return wantRange
					}
					m.Outs[p].Script = string(s)
					return wantOK
				}})
		}
	}
	for _, p := range positions(n, true) {
		p := p
		r = append(r, op{fmt.Sprintf("remove output %d", p),
			func(tx *txbuilder.TxBuilder) error { return tx.RemoveOutput(p) },
			func(m *model) want { return m.removeOut(p) }})
	}
	return r
}

func addOutOp(s bitcoin.Script, v uint64, rem, dust bool) op {
	return op{fmt.Sprintf("add output %s %d %v %v", short(string(s)), v, rem, dust),
		func(tx *txbuilder.TxBuilder) error { return tx.AddOutput(fs(s), v, rem, dust) },
		func(m *model) want { return m.insertOut(len(m.Outs), s, v, rem, dust) }}
}

func insOutOp(p int, s bitcoin.Script, v uint64, rem, dust bool) op {
	return op{fmt.Sprintf("insert output %s %d %v %v at %d", short(string(s)), v, rem, dust, p),
		func(tx *txbuilder.TxBuilder) error { return tx.InsertOutput(p, fs(s), v, rem, dust) },
		func(m *model) want { return m.insertOut(p, s, v, rem, dust) }}
}

func addValueOp(p int, v uint64) op {
	return op{fmt.Sprintf("add %d to output %d", v, p),
		func(tx *txbuilder.TxBuilder) error { return tx.AddValueToOutput(uint32(p), v) },
		func(m *model) want { return m.addValue(p, v) }}
}

func subValueOp(p int, v uint64) op {
	return op{fmt.Sprintf("subtract %d from output %d", v, p),
		func(tx *txbuilder.TxBuilder) error { return tx.SubtractValueFromOutput(uint32(p), v) },
		func(m *model) want { return m.subValue(p, v) }}
}

// outputOps are the edits of outputs. With boundary set amounts are taken around each limit.
func outputOps(m *model, boundary bool) []op {
	var r []op
	n := len(m.Outs)
	fee := func(s bitcoin.Script) uint64 { return ratFee(uint64(refOutputSize(len(s))), float64(m.FeeRate)) }
	scripts := []bitcoin.Script{p2pkh(5), p2pk(2), opReturn(30)}
	for si, s := range scripts {
		r = append(r, addOutOp(s, 1000+uint64(si), false, false), addOutOp(s, 0, si == 1, true))
		if boundary || si == 0 {
			r = append(r, addOutOp(s, fee(s), true, false))
			if f := fee(s); f > 0 {
				r = append(r, addOutOp(s, f-1, false, false), addOutOp(s, f-1, true, false), insOutOp(0, s, f-1, false, false),
					insOutOp(n, s, f-1, true, false))
			}
			r = append(r, insOutOp(n, s, fee(s), false, false))
		}
		for _, p := range positions(n, si == 0) {
			if si > 0 && p > n {
				continue
			}
			r = append(r, insOutOp(p, s, 2000+uint64(si), si == 1, si == 2))
		}
	}
	bad := bitcoin.RawAddress{}
	good := addrOf(p2pkh(4))
	r = append(r,
		op{"add payment", func(tx *txbuilder.TxBuilder) error { return tx.AddPaymentOutput(good, 3000, true) },
			func(m *model) want { return m.insertOut(len(m.Outs), p2pkh(4), 3000, true, false) }},
		op{"add payment below dust", func(tx *txbuilder.TxBuilder) error { return tx.AddPaymentOutput(good, 1, false) },
			func(m *model) want { return m.insertOut(len(m.Outs), p2pkh(4), 1, false, false) }},
		op{"add dust", func(tx *txbuilder.TxBuilder) error { return tx.AddDustOutput(good, false) },
			func(m *model) want { return m.insertOut(len(m.Outs), p2pkh(4), 0, false, true) }},
		op{"add dust remainder", func(tx *txbuilder.TxBuilder) error { return tx.AddDustOutput(good, true) },
			func(m *model) want { return m.insertOut(len(m.Outs), p2pkh(4), 0, true, true) }},
		op{"add payment nowhere", func(tx *txbuilder.TxBuilder) error { return tx.AddPaymentOutput(bad, 3000, false) },
			func(m *model) want { return wantAddr }},
		op{"add dust nowhere", func(tx *txbuilder.TxBuilder) error { return tx.AddDustOutput(bad, false) },
			func(m *model) want { return wantAddr }},
		op{"add maximum nowhere", func(tx *txbuilder.TxBuilder) error { return tx.AddMaxOutput(bad) },
			func(m *model) want { return wantAddr }},
		op{"change nowhere", func(tx *txbuilder.TxBuilder) error { return tx.SetChangeAddress(bad, "x") },
			func(m *model) want { return wantAddr }},
		op{"add maximum", func(tx *txbuilder.TxBuilder) error { return tx.AddMaxOutput(good) },
			func(m *model) want {
				m.SendMax = true
				return m.insertOut(len(m.Outs), p2pkh(4), 0, true, false)
			}},
		op{"add maximum script", func(tx *txbuilder.TxBuilder) error { return tx.AddMaxScriptOutput(fs(p2pk(3))) },
			func(m *model) want {
				m.SendMax = true
				return m.insertOut(len(m.Outs), p2pk(3), 0, true, false)
			}},
		op{"change address", func(tx *txbuilder.TxBuilder) error { return tx.SetChangeAddress(good, "ch") },
			func(m *model) want { return m.setChange(p2pkh(4), "ch") }},
		op{"change script", func(tx *txbuilder.TxBuilder) error { return tx.SetChangeLockingScript(fs(p2pkh(5)), "cs") },
			func(m *model) want { return m.setChange(p2pkh(5), "cs") }},
		op{"change without label", func(tx *txbuilder.TxBuilder) error { return tx.SetChangeLockingScript(fs(p2pkh(5)), "") },
			func(m *model) want { return m.setChange(p2pkh(5), "") }},
		op{"add two outputs", func(tx *txbuilder.TxBuilder) error {
			tx.AddOutputs([]*txbuilder.Output{
				{TxOut: wire.TxOut{Value: 5, LockingScript: fs(p2pkh(6))}, Supplement: txbuilder.OutputSupplement{IsRemainder: true, KeyID: "o1"}},
				{TxOut: wire.TxOut{Value: 6, LockingScript: fs(p2pk(6))}, Supplement: txbuilder.OutputSupplement{IsDust: true, KeyID: "o2"}}})
			return nil
		}, func(m *model) want {
			m.Outs = append(m.Outs, outSnap{5, string(p2pkh(6)), true, false, "o1"}, outSnap{6, string(p2pk(6)), false, true, "o2"})
			m.added = append(m.added, false, false)
			return wantOK
		}})
	for _, p := range positions(n, true) {
		p := p
		r = append(r, op{fmt.Sprintf("remove output %d", p),
			func(tx *txbuilder.TxBuilder) error { return tx.RemoveOutput(p) },
			func(m *model) want { return m.removeOut(p) }})
	}
	for _, p := range positions(n-1, true) {
		p := p
		r = append(r, op{fmt.Sprintf("set output %d to dust", p),
			func(tx *txbuilder.TxBuilder) error { return tx.SetOutputToDust(uint32(p)) },
			func(m *model) want {
				if p >= len(m.Outs) {
					return wantRange
				}
				m.Outs[p].Dust = true
				m.Outs[p].Value = dustOf(m.Outs[p].Script, m.DustRate)
				return wantOK
			}})
		r = append(r, op{fmt.Sprintf("update output %d", p),
			func(tx *txbuilder.TxBuilder) error { return tx.UpdateOutput(uint32(p), fs(p2pk(7))) },
			func(m *model) want {
				if p >= len(m.Outs) {
					return wantRange
				}
				m.Outs[p].Script = string(p2pk(7))
				return wantOK
			}})
		r = append(r, addValueOp(p, 777), subValueOp(p, 7))
		if p < n {
			d := dustOf(m.Outs[p].Script, m.DustRate)
			v := m.Outs[p].Value
			if boundary {
				r = append(r, addValueOp(p, d-1), addValueOp(p, d), addValueOp(p, d+1), addValueOp(p, 0), addValueOp(p, 1<<51),
					subValueOp(p, 0), subValueOp(p, d))
				if v > 0 {
					r = append(r, subValueOp(p, v-1))
				}
				if v >= d {
					r = append(r, subValueOp(p, v-d))
				}
			}
			r = append(r, subValueOp(p, v), subValueOp(p, v+1), subValueOp(p, math.MaxUint64))
			if v >= d {
				r = append(r, subValueOp(p, v-d+1))
			}
		} else {
			r = append(r, subValueOp(p, math.MaxUint64))
		}
	}
	return r
}

func adjustOp(amount int64) op {
	return op{fmt.Sprintf("adjust fee by %d", amount),
		func(tx *txbuilder.TxBuilder) error { _, err := tx.AdjustFee(amount); return err },
		func(m *model) want { _, w := m.adjust(amount); return w }}
}

// feeOps are the fee adjustments around every decision boundary of the state.
func feeOps(m *model) []op {
	amounts := map[int64]bool{}
	var list []int64
	put := func(v int64) {
		for d := int64(-1); d <= 1; d++ {
			if a := v + d; !amounts[a] {
				amounts[a] = true
				list = append(list, a)
			}
		}
	}
	put(0)
	put(math.MaxInt64 - 1)
	rate := float64(m.FeeRate)
	size := uint64(refEstimate(m.snap))
	for _, o := range m.Outs {
		if o.Rem {
			a, b := refCost(o.Script, m.FeeRate)
			put(int64(o.Value))
			put(int64(o.Value) - int64(a+b))
		}
	}
	grow, a, b := uint64(34), ratFee(68, rate), ratFee(298, rate)
	if m.Change != "" {
		grow = uint64(refOutputSize(len(m.Change)))
		a, b = refCost(m.Change, m.FeeRate)
	}
	extra := ratFee(size+grow, rate) - ratFee(size, rate)
	put(-int64(extra))
	put(-int64(extra + a + b))
	put(-5000)
	var r []op
	for _, v := range list {
		r = append(r, adjustOp(v))
	}
	r = append(r, op{"calculate fee", func(tx *txbuilder.TxBuilder) error { return tx.CalculateFee() },
		func(m *model) want {
			_, w := m.adjust(int64(m.estimatedFee()) - m.actualFee())
			return w
		}}, op{"zeroize fee", func(tx *txbuilder.TxBuilder) error { return tx.ZeroizeFee() },
		func(m *model) want {
			_, w := m.adjust(-m.actualFee())
			return w
		}})
	return r
}

// longStarts have more inputs and outputs than the others.
var longStarts = []string{"long 5", "long 9", "long 17", "long 60", "long 300"}

// longUTXOs are an unspent output and those spent at the start, in the middle and at the end of a long list.
func longUTXOs(start string) []bitcoin.UTXO {
	n, _ := strconv.Atoi(start[5:])
	r := []bitcoin.UTXO{utxo2}
	for _, i := range []int{0, n / 2, n - 1} {
		r = append(r, utxoOf(hashC, uint32(i), 6000, p2pk(i%8), "again"))
	}
	return r
}

// starts are the transactions explorations begin from.
var starts = []string{"empty", "populated", "slack", "from wire"}

func startTx(name string, feeRate, dustRate float32) *txbuilder.TxBuilder {
	must := func(err error) {
		if err != nil {
			panic("a valid start was refused: " + err.Error())
		}
	}
	tx := txbuilder.NewTxBuilder(feeRate, dustRate)
	if name == "empty" {
		return tx
	}
	n := 2
	if name == "slack" {
		n = 5
	}
	long := strings.HasPrefix(name, "long ")
	if long {
		n, _ = strconv.Atoi(name[5:])
	}
	for i := 0; i < n; i++ {
		u := utxoOf(hashC, uint32(i), 5000+uint64(i), p2pkh(i%8), fmt.Sprint("start", i))
		if i == 1 {
			u = utxo0
		}
		must(tx.AddInputUTXO(fresh(u)))
		tx.MsgTx.TxIn[i].Sequence = 0xfffffff0 + uint32(i)
		tx.MsgTx.TxIn[i].UnlockingScript = bitcoin.Script{0x51, byte(0x52 + i)}
	}
	for i := 0; i < n+1; i++ {
		must(tx.AddOutput(fs(p2pkh(5+i%2)), 1500+uint64(i), i == 2, i == 0 || long && i%5 == 4))
		tx.Outputs[i].KeyID = fmt.Sprint("out", i)
	}
	if name == "slack" {
		for len(tx.MsgTx.TxIn) > 2 {
			must(tx.RemoveInput(len(tx.MsgTx.TxIn) - 1))
		}
		for len(tx.MsgTx.TxOut) > 3 {
			must(tx.RemoveOutput(1))
		}
	}
	if name == "wide" {
		for i, n := range []int{300, 1000} {
			must(tx.AddInputUTXO(utxoOf(hashC, uint32(90+i), 7000, plainScript(n), strings.Repeat("k", n))))
			tx.MsgTx.TxIn[2+i].UnlockingScript = append(bitcoin.Script{}, plainScript(n+1)...)
			must(tx.AddOutput(append(bitcoin.Script{}, plainScript(n+2)...), 2000, false, false))
			tx.Outputs[3+i].KeyID = strings.Repeat("o", n)
		}
		must(tx.AddInputUTXO(fresh(utxoOf(hashC, 95, 7000, multi(2, 0, 1, 2), ""))))
		must(tx.AddOutput(append(bitcoin.Script{}, opReturn(5000)...), 0, false, false))
	}
	tx.MsgTx.LockTime = 77
	tx.MsgTx.Version = 2
	if name == "from wire" {
		t, err := txbuilder.NewTxBuilderFromWireUTXOs(feeRate, dustRate, tx.MsgTx, []bitcoin.UTXO{
			utxoOf(hashC, 0, 5000, p2pkh(0), "start0"), fresh(utxo0)})
		must(err)
		t.Outputs[2].IsRemainder = true
		return t
	}
	return tx
}

func modelOf(x *X, tx *txbuilder.TxBuilder, added []bool) *model {
	m := &model{snap: mustSnap(x, tx)}
	m.added = make([]bool, len(m.Outs))
	copy(m.added, added)
	return m
}

// step is what a judge gets to see.
type step struct {
	Op            op
	Err           error
	Want          want
	Before, After *model // the model on both sides of the operation
	HashBefore    uint64
}

// explore performs every sequence of operations to the depth.
func explore(x *X, tx *txbuilder.TxBuilder, gen func(m *model) []op, depth int, judge func(tx *txbuilder.TxBuilder, s step)) {
	m := modelOf(x, tx, nil)
	for d := 0; d < depth; d++ {
		h := deepHash(tx)
		x.Prune(h, depth-d)
		ops := gen(m)
		o := ops[x.Choose("op", len(ops))]
		before := m.clone()
		x.Op()
		x.Logf("%s", o.Name)
		err := o.Do(tx)
		s := step{Op: o, Err: err, Before: before, HashBefore: h}
		if o.M == nil {
			m = modelOf(x, tx, nil)
		} else {
			c := m.clone()
			s.Want = o.M(c)
			if s.Want == wantOK {
				m = c
			}
		}
		s.After = m
		judge(tx, s)
		x.State(mustSnap(x, tx).hash())
		// carry on from what the implementation has, should the judge have let a difference pass
		if o.M != nil {
			if now := mustSnap(x, tx); now.diff(m.snap) != "" {
				return
			}
		}
	}
}
