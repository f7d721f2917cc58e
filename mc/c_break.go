package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// breakCase is one call to one of the two value splitting functions.
type breakCase struct {
	value, breakValue uint64
	dests             []bitcoin.Script
	rate              float32
	last, subtract    bool
	byAddress         bool
}

func (c breakCase) String() string {
	return fmt.Sprintf("value %d break %d destinations %d rate %v last %v subtract %v addresses %v", c.value, c.breakValue,
		len(c.dests), c.rate, c.last, c.subtract, c.byAddress)
}

// judgeBreak runs the call and judges the result against conservation of value.
func judgeBreak(x *X, c breakCase) []*txbuilder.Output {
	x.Op()
	x.Logf("%s", c)
	var outs []*txbuilder.Output
	var err error
	if c.byAddress {
		var l []txbuilder.AddressKeyID
		for i, s := range c.dests {
			l = append(l, txbuilder.AddressKeyID{Address: addrOf(s), KeyID: fmt.Sprintf("key%d", i)})
		}
		outs, err = txbuilder.BreakValue(c.value, c.breakValue, l, 1.0, c.rate, c.last, c.subtract)
	} else {
		outs, err = txbuilder.BreakValueLockingScripts(c.value, c.breakValue, append([]bitcoin.Script{}, c.dests...), 1.0, c.rate,
			c.last, c.subtract)
	}
	if err != nil {
		x.Failf("%s: refused: %s", c, err)
	}
	if len(outs) > len(c.dests) {
		x.Failf("%s: %d outputs", c, len(outs))
	}
	sum, fees := uint64(0), uint64(0)
	var used []int
	remainders := 0
	for _, o := range outs {
		if o == nil {
			x.Failf("%s: missing output", c)
		}
		sum += o.TxOut.Value
		idx := -1
		for i, s := range c.dests {
			if s.Equal(o.TxOut.LockingScript) && (!c.byAddress || o.Supplement.KeyID == fmt.Sprintf("key%d", i)) {
				taken := false
				for _, u := range used {
					taken = taken || u == i
				}
				if !taken {
					idx = i
					break
				}
			}
		}
		if idx < 0 {
			x.Failf("%s: output with script %x and label %q is not one of the destinations, or a destination is used twice", c,
				[]byte(o.TxOut.LockingScript), o.Supplement.KeyID)
		}
		if !c.byAddress && o.Supplement.KeyID != "" {
			x.Failf("%s: output has label %q", c, o.Supplement.KeyID)
		}
		used = append(used, idx)
		of, inf := refCost(string(o.TxOut.LockingScript), c.rate)
		fees += of
		if o.Supplement.IsDust {
			x.Failf("%s: output marked as dust", c)
		}
		if o.Supplement.IsRemainder {
			remainders++
		}
		if o.TxOut.Value < inf && o.TxOut.Value < c.breakValue-c.breakValue/10 {
			x.Failf("%s: output of %d costs %d to spend", c, o.TxOut.Value, inf)
		}
		if o.TxOut.Value == 0 && c.breakValue > 0 {
			x.Failf("%s: output with no value", c)
		}
	}
	sort.Ints(used)
	for i, u := range used {
		if u != i {
			x.Failf("%s: destinations used %v, not in order", c, used)
		}
	}
	want := 0
	if c.last && len(outs) > 0 {
		want = 1
	}
	if remainders != want {
		x.Failf("%s: %d outputs marked as remainder, should be %d", c, remainders, want)
	}
	if !c.subtract {
		fees = 0
	}
	if len(outs) == 0 {
		of, inf := refCost(string(c.dests[0]), c.rate)
		if !c.subtract {
			of = 0
		}
		if c.value > of+inf {
			x.Failf("%s: no outputs although the value covers one (cost %d)", c, of+inf)
		}
	} else if sum+fees != c.value {
		x.Failf("%s: outputs sum to %d and fees to %d, together %d", c, sum, fees, sum+fees)
	}
	x.Outcome("%d outputs", len(outs))
	var vals []uint64
	for _, o := range outs {
		vals = append(vals, o.TxOut.Value)
	}
	x.State(hashOf(c.value, c.breakValue, len(c.dests), fmt.Sprint(vals, used, c.rate, c.last, c.subtract)))
	return outs
}

func destLists(n int) [][]bitcoin.Script {
	var same, mixed, rev []bitcoin.Script
	for i := 0; i < n; i++ {
		same = append(same, p2pkh(i))
		switch i % 3 {
		case 0:
			mixed = append(mixed, p2pk(i))
		case 1:
			mixed = append(mixed, multi(2, i, i+1, i+2))
		case 2:
			mixed = append(mixed, p2pkh(i))
		}
	}
	for i := n - 1; i >= 0; i-- {
		rev = append(rev, mixed[i])
	}
	if n < 2 {
		return [][]bitcoin.Script{same, {multi(2, 0, 1, 2)}}
	}
	return [][]bitcoin.Script{same, mixed, rev}
}

var manyDestinations = map[int][][]bitcoin.Script{}

// destinations are n different scripts of one kind and of mixed kinds.
func destinations(n int) [][]bitcoin.Script {
	if manyDestinations[n] == nil {
		var same, mixed []bitcoin.Script
		for i := 0; i < n; i++ {
			s := append(bitcoin.Script{}, p2pkh(0)...)
			s[4], s[5] = byte(i), byte(i>>8)
			same = append(same, s)
			if i%3 == 1 {
				s = append(bitcoin.Script{}, multi(2, 0, 1, 2)...)
				for j := range s {
					if bytes.HasPrefix(s[j:], pkhs[0]) {
						s[j], s[j+1] = byte(i), byte(i>>8)
						break
					}
				}
			}
			mixed = append(mixed, s)
		}
		manyDestinations[n] = [][]bitcoin.Script{same, mixed}
	}
	return manyDestinations[n]
}

func init() {
	register(&Check{
		ID: "C13",
		Assumptions: []string{
			"draws over more than six values are represented by the lowest, middle and highest value",
			"an output may hold less than it costs to spend only if the break value less a tenth is itself that small",
		},
		Scenarios: func(thorough bool) []*Scenario {
			return []*Scenario{{
				Name: "small values", Depth: 5,
				Bounds: "every value 0..48 (quick: 0..36) x break value 1..12 (quick: 8 of them) x 1..3 destinations x both modes x both variants, every draw and shuffle",
				Body: func(x *X) {
					maxV, breaks := 37, []uint64{1, 2, 3, 4, 5, 6, 9, 10}
					if x.Thorough {
						maxV, breaks = 49, []uint64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
					}
					n := 1 + x.Choose("destinations", 3)
					c := breakCase{value: uint64(x.Choose("value", maxV)), breakValue: Pick(x, "break", breaks), rate: 0.05}
					c.byAddress = x.Bool("addresses")
					c.subtract = x.Bool("subtract")
					c.last = x.Bool("last")
					if n == 3 && !x.Thorough && c.value%3 != 1 {
						return
					}
					c.dests = destLists(n)[0]
					withDraws(x, 6, func() { judgeBreak(x, c) })
				},
			}, {
				Name: "relations", Depth: 5,
				Bounds: "values one satoshi around each threshold (output fee, spend cost, break value, multiples of it, powers used) x break values x rates x destination kinds, 1..3 destinations, every draw and shuffle",
				Body: func(x *X) {
					n := 1 + x.Choose("destinations", 3)
					lists := destLists(n)
					c := breakCase{}
					c.byAddress = x.Bool("addresses")
					c.dests = lists[x.Choose("kinds", len(lists))]
					c.rate = Pick(x, "rate", []float32{0, 0.05, 0.5, 1, 5})
					c.breakValue = Pick(x, "break", []uint64{1, 4, 10, 546, 10000, 2100000000000000})
					c.subtract = x.Bool("subtract")
					c.last = x.Bool("last")
					of, inf := refCost(string(c.dests[0]), c.rate)
					b := c.breakValue
					bases := []uint64{0, of, of + inf, b, b + of, b + of + inf, 2*b + 2*of, 50 * b, 500 * b, 2100000000000000}
					base := Pick(x, "base", bases)
					delta := x.Choose("delta", 3)
					if n == 3 && !x.Thorough && (delta == 0 || c.last) {
						return
					}
					if base == 0 && delta == 0 || base > 2100000000000000 {
						return
					}
					c.value = base + uint64(delta) - 1
					withDraws(x, 3, func() { judgeBreak(x, c) })
				},
			}, {
				Name: "unknown kinds", Depth: 4,
				Bounds: "destination scripts of unknown kinds and long scripts, one or two of them, values around the thresholds, every draw; three of them with the shuffle and variation amount at their lowest draw",
				Body: func(x *X) {
					pool := []bitcoin.Script{plainScript(5), plainScript(253), p2pkh(0), opReturn(40), multi(1, 1, 2)}
					c := breakCase{rate: Pick(x, "rate", []float32{0, 0.5, 1}), breakValue: Pick(x, "break", []uint64{1, 5, 1000}),
						subtract: x.Bool("subtract"), last: x.Bool("last")}
					a := x.Choose("a", len(pool))
					c.dests = append(c.dests, pool[a])
					if b := x.Choose("b", len(pool)+1); b < len(pool) {
						if b == a {
							return
						}
						c.dests = append(c.dests, pool[b])
						if d := x.Choose("c", len(pool)+1); d < len(pool) {
							if d == a || d == b {
								return
							}
							c.dests = append(c.dests, pool[d])
						}
					}
					c.value = Pick(x, "value", []uint64{0, 1, 4, 6, 7, 14, 15, 34, 35, 131, 132, 262, 263, 1000, 1014, 1250, 2250, 5000, 1000000})
					if len(c.dests) == 3 {
						withDrawsLimited(x, 3, func() { judgeBreak(x, c) })
						return
					}
					withDraws(x, 3, func() { judgeBreak(x, c) })
				},
			}, {
				Name: "more destinations", Depth: 6,
				Bounds: "4 (thorough: 5) destinations, including equal scripts under different labels, every increment, power and variation draw; shuffle and variation amount at their lowest draw",
				Body: func(x *X) {
					n := 4
					if x.Thorough {
						n += x.Choose("extra", 2)
					}
					c := breakCase{byAddress: true, breakValue: Pick(x, "break", []uint64{10, 1000}), rate: Pick(x, "rate", []float32{0.05, 1}),
						subtract: x.Bool("subtract"), last: true}
					c.dests = destLists(n)[0]
					if x.Bool("equal") {
						c.dests[2] = c.dests[0]
						c.dests[1] = c.dests[0]
					}
					c.value = Pick(x, "value", []uint64{300, 1500, 5000, 300000, 100000000})
					withDrawsLimited(x, 4, func() { judgeBreak(x, c) })
				},
			}, {
				Name: "many destinations", Depth: 3,
				Bounds: "6 to 300 destinations of one and of mixed kinds, values from one output to more than all can hold, both modes and variants, draws " +
					"following each of 39 patterns",
				Body: func(x *X) {
					n := Pick(x, "destinations", []int{6, 9, 10, 11, 16, 17, 33, 100, 253, 300})
					c := breakCase{breakValue: Pick(x, "break", []uint64{10, 1000, 1 << 33}), rate: Pick(x, "rate", []float32{0, 0.05, 1}),
						subtract: x.Bool("subtract"), last: x.Bool("last"), byAddress: x.Bool("addresses")}
					lists := destinations(n)
					c.dests = lists[x.Choose("kinds", len(lists))]
					c.value = c.breakValue * Pick(x, "value", []uint64{2, 20, 150, 2000, 60000})
					if c.value > 2100000000000000 {
						return
					}
					withPattern(x, func() { judgeBreak(x, c) })
				},
			}, {
				Name: "added to a transaction", Depth: 4,
				Bounds: "results of every draw for up to 3 destinations appended to a transaction with 0..2 outputs",
				Body: func(x *X) {
					n := 1 + x.Choose("destinations", 3)
					c := breakCase{byAddress: x.Bool("addresses"), breakValue: 100, rate: 0.5, subtract: true, last: x.Bool("last"),
						dests: destLists(n)[0], value: Pick(x, "value", []uint64{10, 400, 5000})}
					have := x.Choose("have", 3)
					tx := txbuilder.NewTxBuilder(0.5, 0.25)
					for i := 0; i < have; i++ {
						tx.AddOutput(p2pk(i), 5000, i == 1, false)
					}
					before := mustSnap(x, tx)
					withDraws(x, 3, func() {
						outs := judgeBreak(x, c)
						for _, o := range outs {
							before.Outs = append(before.Outs, outSnap{o.TxOut.Value, string(o.TxOut.LockingScript), o.Supplement.IsRemainder,
								o.Supplement.IsDust, o.Supplement.KeyID})
						}
						tx.AddOutputs(outs)
					})
					if d := mustSnap(x, tx).diff(before); d != "" {
						x.Failf("appending the outputs: %s", d)
					}
				},
			}}
		},
	})

	register(&Check{
		ID:          "C14",
		Assumptions: []string{"draws over more than eight values are represented by the lowest, middle and highest value", "quantities up to 2^60"},
		Scenarios: func(thorough bool) []*Scenario {
			judge := func(x *X, value, brk uint64, count int) {
				x.Op()
				parts, err := txbuilder.BreakQuantity(value, brk, count)
				if err != nil {
					x.Failf("splitting %d by %d into %d refused: %s", value, brk, count, err)
				}
				x.Logf("splitting %d by %d into %d: %v", value, brk, count, parts)
				if len(parts) > count || (len(parts) < 1 && value > 0) {
					x.Failf("splitting %d by %d into %d gave %d parts %v", value, brk, count, len(parts), parts)
				}
				sum := uint64(0)
				for _, p := range parts {
					sum += p
					if p == 0 && value != 0 {
						x.Failf("splitting %d by %d into %d gave a zero part %v", value, brk, count, parts)
					}
				}
				if sum != value {
					x.Failf("splitting %d by %d into %d gave %v which sum to %d", value, brk, count, parts, sum)
				}
				x.Outcome("%d parts", len(parts))
				x.State(hashOf(value, brk, count, fmt.Sprint(parts)))
			}
			return []*Scenario{{
				Name: "small", Depth: 3,
				Bounds: "every quantity 0..64 (quick: 0..40) x break value 1..12 x 1..3 parts, every draw and shuffle",
				Body: func(x *X) {
					maxV := 41
					if x.Thorough {
						maxV = 65
					}
					value := uint64(x.Choose("value", maxV))
					brk := uint64(1 + x.Choose("break", 12))
					count := 1 + x.Choose("count", 3)
					withDraws(x, 8, func() { judge(x, value, brk, count) })
				},
			}, {
				Name: "large", Depth: 4,
				Bounds: "quantities around multiples of the break value up to 2^53 x break values x 1..4 parts, every draw; for 4 parts the shuffle at its lowest draw",
				Body: func(x *X) {
					brk := Pick(x, "break", []uint64{1, 3, 10, 1000, 1 << 32, 1 << 50})
					base := Pick(x, "base", []uint64{1, brk, 2 * brk, 5 * brk, 7 * brk, 50 * brk, 500 * brk, 5000 * brk, 1 << 53})
					delta := x.Choose("delta", 3)
					count := 1 + x.Choose("count", 4)
					if base > 1<<53 {
						return
					}
					value := base + uint64(delta) - 1
					if count == 4 {
						if !x.Thorough && delta != 1 {
							return
						}
						withDrawsLimited(x, 4, func() { judge(x, value, brk, count) })
						return
					}
					withDraws(x, 6, func() { judge(x, value, brk, count) })
				},
			}, {
				Name: "many parts", Depth: 3,
				Bounds: "5 to 300 parts, quantities from fewer than the parts to more than all of them times the break value and up to 2^60, draws following each of 39 patterns",
				Body: func(x *X) {
					count := Pick(x, "count", []int{5, 8, 9, 10, 11, 16, 17, 33, 100, 255, 256, 257, 300})
					brk := Pick(x, "break", []uint64{1, 2, 7, 10, 1000, 1 << 20, 1 << 33})
					value := Pick(x, "value", []uint64{1, 2, 7, 99, 100, 101, 1000, 12345, brk, 3*brk + 1, uint64(count) * brk, uint64(count)*brk*3 - 1,
						5000*brk + 3, 1 << 53, 1<<60 - 1})
					withPattern(x, func() { judge(x, value, brk, count) })
				},
			}, {
				Name: "zero break value", Depth: 3,
				Bounds: "break value zero, quantities 0..20, 1..3 parts, every draw",
				Body: func(x *X) {
					value := uint64(x.Choose("value", 21))
					count := 1 + x.Choose("count", 3)
					withDraws(x, 6, func() { judge(x, value, 0, count) })
				},
			}}
		},
	})

	perms := map[string]map[string]bool{}
	register(&Check{
		ID:          "C15",
		Assumptions: []string{"randomness comes from the standard library's math/rand or math/rand/v2"},
		Scenarios: func(thorough bool) []*Scenario {
			max := 6
			if thorough {
				max = 8
			}
			shuffle := func(x *X, n, after int, draws func(f func())) []int {
				tx := shuffleTx(n)
				if x.Bool("slack") {
					// capacity beyond the length, shared with an older view of the list
					tx.MsgTx.TxOut = append(make([]*wire.TxOut, 0, n+4), tx.MsgTx.TxOut...)
					tx.Outputs = append(make([]*txbuilder.OutputSupplement, 0, n+4), tx.Outputs...)
				}
				before := mustSnap(x, tx)
				id := func(i int) uint64 { return hashOf(deepHash(tx.MsgTx.TxOut[i]), deepHash(tx.Outputs[i])) }
				var ids []uint64
				for i := 0; i < n; i++ {
					ids = append(ids, id(i))
				}
				x.Op()
				draws(func() {
					if after < 0 {
						tx.RandomizeOutputs()
					} else {
						tx.RandomizeOutputsAfter(after)
					}
				})
				got := mustSnap(x, tx)
				if len(got.Outs) != n {
					x.Failf("%d outputs became %d", n, len(got.Outs))
				}
				used := make([]bool, n)
				perm := make([]int, n)
				for i := 0; i < n; i++ {
					found := false
					for j := range ids {
						if !used[j] && ids[j] == id(i) {
							used[j], found = true, true
							perm[i] = j
							break
						}
					}
					if !found {
						x.Failf("output %d after shuffling (after %d) is not one of the original outputs with its own data:\nbefore %s\nafter %s",
							i, after, before, got)
					}
					if i <= after && perm[i] != i {
						x.Failf("output %d moved although only outputs after %d were to be shuffled", i, after)
					}
				}
				got.Outs, before.Outs = nil, nil
				if d := got.diff(before); d != "" {
					x.Failf("shuffling changed something else: %s", d)
				}
				x.State(hashOf(n, after, fmt.Sprint(perm)))
				return perm
			}
			return []*Scenario{{
				Name: "long lists", Depth: 2,
				Bounds: "7 to 300 outputs, whole list and after positions from the start to past the end, draws following each of 39 patterns",
				Body: func(x *X) {
					n := Pick(x, "outputs", []int{7, 8, 9, 10, 16, 17, 32, 33, 64, 252, 253, 254, 300})
					after := Pick(x, "after", []int{-1, 0, 1, 2, n / 2, n - 3, n - 2, n - 1, n})
					perm := shuffle(x, n, after, func(f func()) { withPattern(x, f) })
					x.Outcome("%d outputs moved %v", n, !sort.IntsAreSorted(perm))
				},
			}, {
				Name: "all draws", Single: true,
				Bounds: fmt.Sprintf("0..%d outputs, whole list and after every position up to two past the end, every random outcome", max),
				Body: func(x *X) {
					n := x.Choose("outputs", max+1)
					after := x.Choose("after", n+3) - 1 // -1: the whole list
					perm := shuffle(x, n, after, func(f func()) { withDraws(x, 64, f) })
					key := fmt.Sprintf("%d/%d", n, after)
					if perms[key] == nil {
						perms[key] = map[string]bool{}
					}
					perms[key][fmt.Sprint(perm)] = true
					x.Outcome("%d outputs after %d", n, after)
				},
				After: func(fail func(string)) {
					for n := 0; n <= max; n++ {
						for after := -1; after < n+2; after++ {
							m := n - (after + 1)
							want := 1
							for i := 2; i <= m; i++ {
								want *= i
							}
							if got := len(perms[fmt.Sprintf("%d/%d", n, after)]); got != want {
								fail(fmt.Sprintf("shuffling %d outputs after %d can reach %d orders, should be %d", n, after, got, want))
							}
						}
					}
				},
			}}
		},
	})
}

// shuffleTx has n different outputs, one added by a fee adjustment.
func shuffleTx(n int) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(0.5, 1.0)
	tx.AddInputUTXO(utxoOf(hashA, 0, 1000000, p2pkh(0), "in0"))
	tx.AddInputUTXO(utxoOf(hashB, 1, 1000000, p2pk(1), "in1"))
	for i := 0; i < n; i++ {
		if i == 2 {
			tx.SetChangeLockingScript(p2pkh(7), "changekey")
			tx.CalculateFee()
			if len(tx.Outputs) != 3 {
				panic("harness: no change output")
			}
			continue
		}
		script := destinations(300)[0][i]
		if i < 8 {
			script = p2pkh(i)
		}
		if err := tx.AddOutput(script, uint64(1000+i), i == 4, i == 1); err != nil {
			panic("a valid start was refused: " + err.Error())
		}
		tx.Outputs[i].KeyID = fmt.Sprintf("out%d", i)
	}
	return tx
}
