package main

import (
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

var allUTXOs = []bitcoin.UTXO{utxo0, utxo1, utxo2, utxo3, utxo4}

// judgeEdit requires the implementation to do and report exactly what the plain lists do.
func judgeEdit(x *X) func(tx *txbuilder.TxBuilder, s step) {
	return func(tx *txbuilder.TxBuilder, s step) {
		now := mustSnap(x, tx)
		if !s.Want.matches(s.Err) {
			x.Failf("%s gave %v, should be %s, on\n%s", s.Op.Name, s.Err, s.Want, s.Before.snap)
		}
		if d := now.diff(s.After.snap); d != "" {
			x.Failf("%s: %s\nbefore:\n%s", s.Op.Name, d, s.Before.snap)
		}
		if s.Err == nil {
			x.Outcome("done")
		} else {
			x.Outcome(string(s.Want))
		}
	}
}

// judgeRefused looks only at operations that should be or were refused.
func judgeRefused(x *X) func(tx *txbuilder.TxBuilder, s step) {
	return func(tx *txbuilder.TxBuilder, s step) {
		if s.Err == nil {
			if s.Want != wantOK && s.Want != wantEither {
				x.Failf("%s was accepted, should be refused (%s), on\n%s", s.Op.Name, s.Want, s.Before.snap)
			}
			x.Outcome("accepted")
			return
		}
		if now := mustSnap(x, tx); now.diff(s.Before.snap) != "" {
			x.Failf("%s was refused (%s) but changed something: %s", s.Op.Name, s.Err, now.diff(s.Before.snap))
		}
		if deepHash(tx) != s.HashBefore {
			x.Failf("%s was refused (%s) but changed something internal", s.Op.Name, s.Err)
		}
		if !s.Want.matches(s.Err) {
			x.Failf("%s gave %v, should be %s, on\n%s", s.Op.Name, s.Err, s.Want, s.Before.snap)
		}
		x.Outcome(string(s.Want))
	}
}

func noDuplicates(x *X, tx *txbuilder.TxBuilder, after string) {
	now := mustSnap(x, tx)
	for i := range now.Ins {
		for j := 0; j < i; j++ {
			if now.Ins[i].Hash == now.Ins[j].Hash && now.Ins[i].Index == now.Ins[j].Index {
				x.Failf("inputs %d and %d spend the same outpoint after %s\n%s", j, i, after, now)
			}
		}
	}
}

func depthOf(thorough bool, quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

func init() {
	register(&Check{
		ID: "C07",
		Scenarios: func(thorough bool) []*Scenario {
			di, do, db := depthOf(thorough, 3, 4), depthOf(thorough, 3, 3), depthOf(thorough, 2, 3)
			return []*Scenario{{
				Name: "inputs", Depth: 2,
				Bounds: fmt.Sprintf("every sequence of %d input edits at every position over five outpoints, four starting transactions", di),
				Body: func(x *X) {
					explore(x, startTx(Pick(x, "start", starts), 0.5, 0.25), func(m *model) []op { return inputOps(m, allUTXOs) }, di, judgeEdit(x))
				},
			}, {
				Name: "outputs", Depth: 2,
				Bounds: fmt.Sprintf("every sequence of %d output edits at every position, four starting transactions", do),
				Body: func(x *X) {
					explore(x, startTx(Pick(x, "start", starts), 0.5, 0.25), func(m *model) []op { return outputOps(m, false) }, do, judgeEdit(x))
				},
			}, {
				Name: "both", Depth: 2,
				Bounds: fmt.Sprintf("every sequence of %d edits of inputs or outputs and fee adjustments, four starting transactions", db),
				Body: func(x *X) {
					explore(x, startTx(Pick(x, "start", starts), 0.5, 0.25), func(m *model) []op {
						return append(append(inputOps(m, allUTXOs[:3]), outputOps(m, false)...), adjustOp(-100), adjustOp(-3000), adjustOp(100),
							adjustOp(1400))
					}, db, judgeEdit(x))
				},
			}, {
				Name: "long lists", Depth: 2,
				Bounds: "every sequence of 2 edits of inputs, or of outputs, at the ends, next to them and in the middle of lists of 5 to 300",
				Body: func(x *X) {
					start := Pick(x, "start", longStarts)
					ins := x.Bool("inputs")
					explore(x, startTx(start, 0.5, 0.25), func(m *model) []op {
						if ins {
							return inputOps(m, longUTXOs(start))
						}
						return outputOps(m, false)
					}, 2, judgeEdit(x))
				},
			}, {
				Name: "unusual", Depth: 2,
				Bounds: "every sequence of 2 edits of inputs that spend nothing, an enormous amount, an empty or long script or have extreme positions or no label, " +
					"or of outputs of empty, long and unspendable scripts and enormous amounts",
				Body: func(x *X) {
					start := Pick(x, "start", starts)
					ins := x.Bool("inputs")
					explore(x, startTx(start, 0.5, 0.25), func(m *model) []op {
						if ins {
							return inputOps(m, unusualUTXOs)
						}
						return unusualOutputs(m)
					}, 2, judgeEdit(x))
				},
			}, {
				Name: "the same script again", Depth: 2,
				Bounds: fmt.Sprintf("every sequence of %d edits of inputs or outputs by a caller that gives the very same bytes whenever it means the same script", db),
				Body: func(x *X) {
					reusing(x, func() {
						explore(x, startTx(Pick(x, "start", starts), 0.5, 0.25), func(m *model) []op {
							return append(inputOps(m, allUTXOs[:3]), outputOps(m, false)...)
						}, db, judgeEdit(x))
					})
				},
			}}
		},
	})

	register(&Check{
		ID: "C08",
		Scenarios: func(thorough bool) []*Scenario {
			depth := depthOf(thorough, 3, 4)
			lists := [][]int{{0}, {0, 0}, {0, 3}, {3, 0, 1}, {1, 0, 1, 2}, {4, 0, 1, 2, 3}, {2, 2, 2}}
			fund := func() []op {
				var r []op
				for li := range lists {
					list := lists[li]
					get := func() []bitcoin.UTXO {
						var u []bitcoin.UTXO
						for _, k := range list {
							u = append(u, fresh(allUTXOs[k]))
						}
						return u
					}
					r = append(r, op{fmt.Sprint("fund from ", list), func(tx *txbuilder.TxBuilder) error { return tx.AddFunding(get()) }, nil})
					r = append(r, op{fmt.Sprint("fund and break from ", list), func(tx *txbuilder.TxBuilder) error {
						var err error
						withFixedDraws(func() {
							err = tx.AddFundingBreakChange(get(), 2000, []txbuilder.AddressKeyID{{Address: addrOf(p2pkh(6)), KeyID: "c"}})
						})
						return err
					}, nil})
				}
				return r
			}
			body := func(x *X, start string, depth int, gen func(m *model) []op, outs bool) {
				tx := startTx(start, 0.5, 0.25)
				if outs && x.Bool("much to pay") {
					if err := tx.AddOutput(p2pkh(7), 70000, false, false); err != nil {
						panic("a valid start was refused: " + err.Error())
					}
				}
				if outs && x.Bool("send maximum") {
					if err := tx.AddMaxOutput(addrOf(p2pkh(7))); err != nil {
						panic("a valid start was refused: " + err.Error())
					}
				}
				explore(x, tx, gen, depth, func(tx *txbuilder.TxBuilder, s step) {
					noDuplicates(x, tx, s.Op.Name)
					if s.Op.M != nil {
						if is(s.Err, txbuilder.ErrDuplicateInput) != (s.Want == wantDup) || (s.Err == nil) != (s.Want == wantOK) {
							x.Failf("%s gave %v, should be %s, on\n%s", s.Op.Name, s.Err, s.Want, s.Before.snap)
						}
					} else {
						if is(s.Err, txbuilder.ErrDuplicateInput) {
							x.Failf("%s failed because of a duplicate: %s", s.Op.Name, s.Err)
						}
					}
					x.Outcome("%v", cause(s.Err))
				})
			}
			return []*Scenario{{
				Name: "edits", Depth: 2,
				Bounds: fmt.Sprintf("every sequence of %d input edits over outpoints equal in hash and index, in either or in neither (one differs by a "+
					"single bit)", depth),
				Body: func(x *X) {
					body(x, Pick(x, "start", starts), depth, func(m *model) []op { return inputOps(m, allUTXOs) }, false)
				},
			}, {
				Name: "long lists", Depth: 2,
				Bounds: "every sequence of 2 input edits of lists of 5 to 300 with an unspent outpoint and those spent at either end and in the middle",
				Body: func(x *X) {
					start := Pick(x, "start", longStarts)
					body(x, start, 2, func(m *model) []op { return inputOps(m, longUTXOs(start)) }, false)
				},
			}, {
				Name: "nearly equal", Depth: 1,
				Bounds: "an outpoint that differs from one of three spent ones in any single bit, or in none, added, inserted, put in place of another and " +
					"offered for funding by both methods, alone and after the equal one",
				Body: func(x *X) {
					tx := txbuilder.NewTxBuilder(0.5, 0.25)
					for i := 0; i < 3; i++ {
						if err := tx.AddInputUTXO(utxoOf(outpointHash(i), uint32(5*i), 1000, p2pkh(i), "")); err != nil {
							panic("a valid start was refused: " + err.Error())
						}
					}
					k := x.Choose("near", 3)
					u := utxoOf(outpointHash(k), uint32(5*k), 50000, p2pkh(5), "near")
					bit := x.Choose("bit", 289)
					switch {
					case bit < 256:
						u.Hash[bit/8] ^= 1 << uint(bit%8)
					case bit < 288:
						u.Index ^= 1 << uint(bit-256)
					}
					equal := bit == 288
					before := mustSnap(x, tx)
					x.Op()
					var err error
					funds := false
					switch x.Choose("how", 7) {
					case 0:
						err = tx.AddInputUTXO(u)
					case 1:
						err = tx.AddInput(wire.OutPoint{Hash: u.Hash, Index: u.Index}, u.LockingScript, u.Value)
					case 2:
						err = tx.InsertInput(x.Choose("at", 4), u)
					case 3:
						at := x.Choose("at", 3)
						err = tx.UpdateInputUTXO(at, u)
						if equal && at == k {
							equal = false // its own
						}
					default:
						funds = true
						if err := tx.AddOutput(p2pkh(7), 20000, false, false); err != nil {
							panic("a valid start was refused: " + err.Error())
						}
						if err := tx.SetChangeLockingScript(p2pkh(6), ""); err != nil {
							panic("a valid start was refused: " + err.Error())
						}
						before = mustSnap(x, tx)
						list := []bitcoin.UTXO{u}
						if x.Bool("after the equal one") {
							list = []bitcoin.UTXO{utxoOf(outpointHash(k), uint32(5*k), 60000, p2pkh(5), "equal"), u}
						}
						if x.Bool("breaking change") {
							withFixedDraws(func() {
								err = tx.AddFundingBreakChange(list, 5000, []txbuilder.AddressKeyID{{Address: addrOf(p2pkh(6)), KeyID: "c"}})
							})
						} else {
							err = tx.AddFunding(list)
						}
					}
					noDuplicates(x, tx, "a nearly equal outpoint")
					after := mustSnap(x, tx)
					switch {
					case equal && funds:
						if !is(err, txbuilder.ErrInsufficientValue) || len(after.Ins) != len(before.Ins) {
							x.Failf("funding from an outpoint already spent gave %v:\n%s", err, after)
						}
					case equal:
						if !is(err, txbuilder.ErrDuplicateInput) {
							x.Failf("a duplicate gave %v:\n%s", err, after)
						}
					default:
						if err != nil {
							x.Failf("an outpoint differing in bit %d from input %d gave %s:\n%s", bit, k, err, after)
						}
						found := 0
						for _, in := range after.Ins {
							if in.Hash == u.Hash && in.Index == u.Index {
								found++
							}
						}
						if found != 1 {
							x.Failf("the outpoint is spent %d times:\n%s", found, after)
						}
					}
					x.Outcome("%v", cause(err))
					x.State(after.hash())
				},
			}, {
				Name:   "with funding",
				Bounds: "every sequence of 3 input edits and funding calls by both methods from lists with repeated and already spent outpoints",
				Body: func(x *X) {
					body(x, Pick(x, "start", starts), 3, func(m *model) []op {
						var r []op
						if len(m.Ins) < 4 {
							r = inputOps(m, []bitcoin.UTXO{utxo0, utxo3})
						} else {
							r = append(r, inputOps(m, nil)...)
						}
						return append(r, fund()...)
					}, true)
				},
			}}
		},
	})

	register(&Check{
		ID: "C09",
		Scenarios: func(thorough bool) []*Scenario {
			rates := [][2]float32{{0.5, 0.5}, {0, 0}, {1, 0.25}}
			return []*Scenario{{
				Name: "inputs", Depth: 2,
				Bounds: "every sequence of 3 input edits at every position, four starting transactions",
				Body: func(x *X) {
					explore(x, startTx(Pick(x, "start", starts), 0.5, 0.25), func(m *model) []op { return inputOps(m, allUTXOs) }, 3, judgeRefused(x))
				},
			}, {
				Name: "outputs and fees", Depth: 2,
				Bounds: "every sequence of 2 output edits and fee adjustments with amounts around every limit, four starting " +
					"transactions, three pairs of rates",
				Body: func(x *X) {
					r := Pick(x, "rates", rates)
					explore(x, startTx(Pick(x, "start", starts), r[0], r[1]), func(m *model) []op {
						return append(outputOps(m, true), feeOps(m)...)
					}, 2, judgeRefused(x))
				},
			}, {
				Name: "long lists", Depth: 2,
				Bounds: "every sequence of 2 edits of inputs, or of outputs and fee adjustments, at the ends, next to them and in the middle of lists of 5 to 300",
				Body: func(x *X) {
					start := Pick(x, "start", longStarts)
					ins := x.Bool("inputs")
					explore(x, startTx(start, 0.5, 0.25), func(m *model) []op {
						if ins {
							return inputOps(m, longUTXOs(start))
						}
						return append(outputOps(m, false), feeOps(m)...)
					}, 2, judgeRefused(x))
				},
			}, {
				Name: "deeper", Depth: 2, ThoroughOnly: true,
				Bounds: "every sequence of 3 output edits and fee adjustments with amounts around every limit, from a populated transaction",
				Body: func(x *X) {
					explore(x, startTx("populated", 0.5, 0.25), func(m *model) []op {
						return append(outputOps(m, len(m.Outs) < 3), feeOps(m)...)
					}, 3, judgeRefused(x))
				},
			}, {
				Name:   "fees",
				Bounds: "every sequence of 4 fee adjustments around every limit, with and without remainder output and change destination",
				Body: func(x *X) {
					tx := feeStart(x)
					explore(x, tx, feeOps, 4, judgeRefused(x))
				},
			}}
		},
	})

	register(&Check{
		ID: "C19",
		Assumptions: []string{
			"rates at which three times the rate times any size is exact in single precision; other rates are covered by the arithmetic check",
		},
		Scenarios: func(thorough bool) []*Scenario {
			rates := [][2]float32{{0.5, 0.5}, {0, 0}, {1, 1}, {0.05, 1}, {2, 0.25}, {0.001, 0.25}}
			depth := depthOf(thorough, 2, 3)
			return []*Scenario{{
				Name: "adding",
				Bounds: "every script of the pool, every flag combination, both insertion methods, send-maximum on or off, every amount from one " +
					"below to one above each limit, six pairs of rates",
				Body: func(x *X) {
					r := Pick(x, "rates", rates)
					tx := txbuilder.NewTxBuilder(r[0], r[1])
					s := Pick(x, "script", dustScripts())
					if x.Bool("send maximum") {
						tx.SendMax = true
					}
					if x.Bool("others") {
						_ = tx.AddOutput(p2pkh(0), 9999, false, false)
						_ = tx.AddOutput(p2pkh(1), 9998, true, false)
					}
					m := modelOf(x, tx, nil)
					fee := ratFee(uint64(refOutputSize(len(s))), float64(r[0]))
					dust := dustOf(string(s), r[1])
					v := amountNear(x, []uint64{0, fee, dust, 1 << 32, 2100000000000000})
					rem, isD := x.Bool("remainder"), x.Bool("dust")
					var o op
					if x.Bool("insert") {
						o = insOutOp(x.Choose("position", len(m.Outs)+1), s, v, rem, isD)
					} else {
						o = addOutOp(s, v, rem, isD)
					}
					runOp(x, tx, m, o)
				},
			}, {
				Name: "changing",
				Bounds: fmt.Sprintf("every sequence of %d edits with amounts around every limit starting from an output of every kind and "+
					"amount around its limits", depth),
				Body: func(x *X) {
					r := Pick(x, "rates", rates[:5])
					tx := txbuilder.NewTxBuilder(r[0], r[1])
					s := Pick(x, "script", []bitcoin.Script{p2pkh(0), p2pk(1), opReturn(20), plainScript(300)})
					dust := dustOf(string(s), r[1])
					isD := x.Bool("dust")
					if x.Bool("send maximum") {
						tx.SendMax = true
					}
					v := amountNear(x, []uint64{0, dust, 2 * dust, 1 << 40})
					tx.AddOutputs([]*txbuilder.Output{newOutput(s, v, isD, "a"), newOutput(s, 5*dust, !isD, "b")})
					explore(x, tx, valueOps, depth, judgeEdit(x))
				},
			}}
		},
	})

	register(&Check{
		ID: "C18",
		Scenarios: func(thorough bool) []*Scenario {
			depth := depthOf(thorough, 1, 2)
			return []*Scenario{{
				Name: "copies",
				Bounds: fmt.Sprintf("a copy after every sequence of %d edits and money operations, then every edit, fee adjustment, funding or signature on either side, "+
					"then every such operation on the other; one start has scripts and labels of up to 1000 bytes and an output of 5000", depth),
				Body: func(x *X) {
					withSymbolic(nil, func() { withFixedDraws(func() { copyBody(x, append(starts[:4:4], "wide"), depth) }) })
				},
			}, {
				Name: "long lists", Depth: 2,
				Bounds: "copies of transactions with 5 to 300 inputs and outputs, with every operation on either side; every field and byte slice of those with up to 60 changed in place",
				Body: func(x *X) {
					withSymbolic(nil, func() {
						withFixedDraws(func() {
							if x.Bool("bytes") {
								bytesBody(x, longStarts[:4])
							} else {
								copyBody(x, longStarts, 0)
							}
						})
					})
				},
			}, {
				Name: "bytes",
				Bounds: "a copy, or a copy of a copy, of every start with a funded or signed transaction; every field and byte slice of either changed in " +
					"place",
				Body: func(x *X) {
					withSymbolic(nil, func() { withFixedDraws(func() { bytesBody(x, append(starts[:4:4], "wide")) }) })
				},
			}, {
				Name:   "fee adjustment",
				Bounds: "copies taken after every sequence of 2 fee adjustments around every limit, followed by every adjustment on both sides",
				Body: func(x *X) {
					tx := feeStart(x)
					explore(x, tx, feeOps, 2, func(tx *txbuilder.TxBuilder, s step) {})
					c := tx.Copy()
					if deepHash(&c) != deepHash(tx) {
						x.Failf("the copy differs from the original: %s", mustSnap(x, &c).diff(mustSnap(x, tx)))
					}
					ops := feeOps(modelOf(x, tx, nil))
					o := ops[x.Choose("then", len(ops))]
					x.Op()
					e1 := o.Do(tx)
					x.Op()
					e2 := o.Do(&c)
					if cause(e1) != cause(e2) || deepHash(&c) != deepHash(tx) {
						x.Failf("%s gives %v on the original and %v on the copy: %s", o.Name, e1, e2, mustSnap(x, &c).diff(mustSnap(x, tx)))
					}
					x.State(deepHash(tx))
				},
			}}
		},
	})

	register(&Check{
		ID: "C06",
		Assumptions: []string{
			"values and their sums stay within the monetary range (21 million coins)",
			"adjusting the fee by an arbitrary amount chosen by the caller is not a funding operation and may overspend",
		},
		Scenarios: func(thorough bool) []*Scenario {
			depth := depthOf(thorough, 2, 3)
			return []*Scenario{{
				Name: "totals", Depth: 2,
				Bounds: fmt.Sprintf("every sequence of %d edits with amounts from zero to the whole supply and copies; all totals after each step", depth),
				Body: func(x *X) {
					r := Pick(x, "rate", []float32{0.5, 0.05})
					tx := startTx(Pick(x, "start", starts), r, r/2)
					judgeTotals(x, tx, "start")
					explore(x, tx, totalOps, depth, func(tx *txbuilder.TxBuilder, s step) { judgeTotals(x, tx, s.Op.Name) })
				},
			}, {
				Name: "never created", Depth: 2,
				Bounds: "every sequence of 2 edits and 2 funding, fee or signing operations; each that reports success leaves no more in outputs " +
					"than in inputs",
				Body: func(x *X) {
					withSymbolic(nil, func() {
						withFixedDraws(func() {
							tx := startTx(Pick(x, "start", starts), 0.5, 0.25)
							n := 0
							explore(x, tx, func(m *model) []op {
								n++
								if n <= 1 {
									return totalOps(m)
								}
								return moneyOps()
							}, depthOf(thorough, 3, 3), func(tx *txbuilder.TxBuilder, s step) {
								judgeTotals(x, tx, s.Op.Name)
								now := mustSnap(x, tx)
								if s.Op.M == nil && s.Err == nil && outputTotal(now) > inputTotal(now) {
									x.Failf("%s reported success although outputs exceed inputs\n%s", s.Op.Name, now)
								}
								x.Outcome("%v", cause(s.Err))
							})
						})
					})
				},
			}}
		},
	})
}

func newOutput(s bitcoin.Script, v uint64, dust bool, key string) *txbuilder.Output {
	o := &txbuilder.Output{}
	o.TxOut.Value, o.TxOut.LockingScript = v, fs(s)
	o.Supplement.IsDust, o.Supplement.KeyID = dust, key
	return o
}

var dustScriptPool []bitcoin.Script

func dustScripts() []bitcoin.Script {
	if dustScriptPool == nil {
		dustScriptPool = []bitcoin.Script{p2pkh(0), p2pk(1), multi(1, 0, 1), opReturn(2), opReturn(252), opReturn(253), plainScript(1),
			plainScript(252), plainScript(253), plainScript(300), {}, {0x6a}, {0x00}, {0x51, 0x6a}, {0x00, 0x6a}, {0x00, 0x51, 0x6a},
			plainScript(70000), {0x6a, 0x01}, opReturn(70000)}
	}
	return dustScriptPool
}

func amountNear(x *X, centres []uint64) uint64 {
	c := Pick(x, "amount", centres)
	d := x.Choose("offset", 3)
	if c == 0 && d == 0 {
		return 2
	}
	return c + uint64(d) - 1
}

func runOp(x *X, tx *txbuilder.TxBuilder, m *model, o op) {
	h := deepHash(tx)
	before := m.clone()
	x.Op()
	x.Logf("%s", o.Name)
	err := o.Do(tx)
	c := m.clone()
	w := o.M(c)
	if w != wantOK {
		c = m
	}
	judgeEdit(x)(tx, step{Op: o, Err: err, Want: w, Before: before, After: c, HashBefore: h})
	x.State(hashOf(mustSnap(x, tx).hash(), string(w)))
}

// valueOps are the edits of amounts.
func valueOps(m *model) []op {
	var r []op
	seen := map[string]bool{}
	put := func(o op) {
		if !seen[o.Name] {
			seen[o.Name] = true
			r = append(r, o)
		}
	}
	for p := range m.Outs {
		p := p
		d := dustOf(m.Outs[p].Script, m.DustRate)
		v := m.Outs[p].Value
		for _, a := range []uint64{0, 1, d - 1, d, d + 1, 1 << 33} {
			put(addValueOp(p, a))
		}
		for _, a := range []uint64{0, 1, d, v, v + 1, ^uint64(0), ^uint64(0) - d, 1 << 63} {
			put(subValueOp(p, a))
		}
		if v > 0 {
			put(subValueOp(p, v-1))
		}
		if v >= d {
			put(subValueOp(p, v-d))
			put(subValueOp(p, v-d+1))
		}
		put(op{fmt.Sprintf("set output %d to dust", p),
			func(tx *txbuilder.TxBuilder) error { return tx.SetOutputToDust(uint32(p)) },
			func(m *model) want {
				m.Outs[p].Dust = true
				m.Outs[p].Value = dustOf(m.Outs[p].Script, m.DustRate)
				return wantOK
			}})
		put(op{fmt.Sprintf("update output %d", p),
			func(tx *txbuilder.TxBuilder) error { return tx.UpdateOutput(uint32(p), fs(plainScript(400))) },
			func(m *model) want {
				m.Outs[p].Script = string(plainScript(400))
				return wantOK
			}})
	}
	return r
}

// feeStart is a transaction for exploring fee adjustments.
func feeStart(x *X) *txbuilder.TxBuilder {
	rate := Pick(x, "rate", []float32{0.5, 0.05, 1})
	tx := txbuilder.NewTxBuilder(rate, rate/2)
	must := func(err error) {
		if err != nil {
			panic("a valid start was refused: " + err.Error())
		}
	}
	must(tx.AddInputUTXO(fresh(utxo2)))
	must(tx.AddInputUTXO(fresh(utxo0)))
	arrangement := Pick(x, "outputs", []string{"", "p", "r", "pr", "rp", "prr", "prpr", "pp"})
	for i, c := range arrangement {
		must(tx.AddOutput(p2pkh(3+i), 1000+uint64(i), c == 'r', false))
	}
	switch x.Choose("change", 4) {
	case 1:
		must(tx.SetChangeLockingScript(p2pkh(7), "change"))
	case 2:
		must(tx.SetChangeLockingScript(multi(2, 5, 6, 7), "change"))
	case 3:
		must(tx.SetChangeLockingScript(plainScript(40), "change"))
	}
	return tx
}

// totalOps are edits that change totals.
func totalOps(m *model) []op {
	var r []op
	big := []bitcoin.UTXO{utxoOf(hashB, 5, 1<<53+1, p2pkh(0), "b"), utxoOf(hashB, 6, 0, p2pkh(1), ""), utxoOf(hashB, 7, 1<<32, p2pk(0), "")}
	ops := inputOps(m, big)
	for _, o := range ops {
		if len(m.Ins) < 4 || o.Name[0] == 'r' || o.Name[0] == 'u' {
			r = append(r, o)
		}
	}
	vals := []uint64{1 << 52, 1<<32 + 7, 20}
	for _, v := range vals {
		for f := 0; f < 2; f++ {
			r = append(r, addOutOp(p2pkh(1), v, f == 1, false), insOutOp(len(m.Outs)/2, opReturn(40), v, f == 1, false))
		}
	}
	r = append(r, addOutOp(p2pkh(2), 0, true, true), addOutOp(opReturn(10), 0, false, false))
	for p := range m.Outs {
		p := p
		r = append(r, addValueOp(p, 1<<51), subValueOp(p, 1000),
			op{fmt.Sprintf("remove output %d", p), func(tx *txbuilder.TxBuilder) error { return tx.RemoveOutput(p) },
				func(m *model) want { return m.removeOut(p) }})
	}
	r = append(r, adjustOp(-200), adjustOp(-(1 << 40)), adjustOp(1<<33),
		op{"change script", func(tx *txbuilder.TxBuilder) error { return tx.SetChangeLockingScript(fs(p2pkh(5)), "cs") },
			func(m *model) want { return m.setChange(p2pkh(5), "cs") }},
		op{"copy", func(tx *txbuilder.TxBuilder) error { *tx = tx.Copy(); return nil }, func(m *model) want { return wantOK }})
	return r
}

func judgeTotals(x *X, tx *txbuilder.TxBuilder, after string) {
	s := mustSnap(x, tx)
	in, out := inputTotal(s), outputTotal(s)
	pay, rem := uint64(0), uint64(0)
	for _, o := range s.Outs {
		if o.Rem {
			rem += o.Value + ratFeeDown(uint64(refOutputSize(len(o.Script))), float64(s.FeeRate))
		} else {
			pay += o.Value
		}
	}
	fee := uint64(0)
	if in > out {
		fee = in - out
	}
	bad := func(what string, got, should interface{}) {
		x.Failf("after %s the %s is reported as %v, should be %v\n%s", after, what, got, should, s)
	}
	if g := tx.InputValue(); g != in {
		bad("input value", g, in)
	}
	if g := tx.OutputValue(true); g != out {
		bad("output value", g, out)
	}
	if g := tx.OutputValue(false); g != pay {
		bad("output value without change", g, pay)
	}
	if g := tx.Fee(); g != fee {
		bad("fee", g, fee)
	}
	if g := tx.ActualFee(); g != int64(in-out) {
		bad("actual fee", g, int64(in-out))
	}
	if g := tx.Remainder(); g != rem {
		bad("remainder", g, rem)
	}
}

// moneyOps are the operations that move money.
func moneyOps() []op {
	free := func(name string, f func(tx *txbuilder.TxBuilder) error) op { return op{Name: name, Do: f} }
	lists := [][]bitcoin.UTXO{{utxo1}, {utxo1, utxo2, utxo4}, {utxoOf(hashB, 9, 1<<50, p2pkh(2), "")}, {}}
	r := []op{
		free("calculate fee", func(tx *txbuilder.TxBuilder) error { return tx.CalculateFee() }),
		free("zeroize fee", func(tx *txbuilder.TxBuilder) error { return tx.ZeroizeFee() }),
		free("sign", func(tx *txbuilder.TxBuilder) error { _, err := tx.Sign(keys); return err }),
		{"copy", func(tx *txbuilder.TxBuilder) error { *tx = tx.Copy(); return nil }, func(m *model) want { return wantOK }},
		addOutOp(p2pkh(3), 40000, false, false),
		{"change script", func(tx *txbuilder.TxBuilder) error { return tx.SetChangeLockingScript(fs(p2pkh(5)), "cs") },
			func(m *model) want { return m.setChange(p2pkh(5), "cs") }},
		{"add maximum", func(tx *txbuilder.TxBuilder) error { return tx.AddMaxOutput(addrOf(p2pkh(4))) },
			func(m *model) want {
				m.SendMax = true
				return m.insertOut(len(m.Outs), p2pkh(4), 0, true, false)
			}},
	}
	for i := range lists {
		l := lists[i]
		get := func() []bitcoin.UTXO {
			var u []bitcoin.UTXO
			for _, k := range l {
				u = append(u, fresh(k))
			}
			return u
		}
		r = append(r, free(fmt.Sprint("fund from list ", i), func(tx *txbuilder.TxBuilder) error { return tx.AddFunding(get()) }),
			free(fmt.Sprint("fund and break from list ", i), func(tx *txbuilder.TxBuilder) error {
				return tx.AddFundingBreakChange(get(), 2000, []txbuilder.AddressKeyID{{Address: addrOf(p2pkh(6)), KeyID: "c"},
					{Address: addrOf(p2pkh(7)), KeyID: "d"}})
			}))
	}
	return r
}

func copyOps(m *model) []op {
	r := inputOps(m, []bitcoin.UTXO{utxo1})
	r = append(r, outputOps(m, false)...)
	r = append(r, adjustOp(-3000), adjustOp(-50), adjustOp(500))
	r = append(r, moneyOps()...)
	r = append(r, op{Name: "sign only", Do: func(tx *txbuilder.TxBuilder) error { _, err := tx.SignOnly(keys); return err }},
		op{Name: "shuffle", Do: func(tx *txbuilder.TxBuilder) error { tx.RandomizeOutputs(); return nil }},
		op{Name: "print", Do: func(tx *txbuilder.TxBuilder) error { _ = tx.String(bitcoin.MainNet); return nil }})
	return r
}

func copyBody(x *X, starts []string, depth int) {
	tx := startTx(Pick(x, "start", starts), 0.5, 0.25)
	n := 0
	explore(x, tx, func(m *model) []op {
		n++
		if n > 1 {
			return moneyOps()
		}
		return copyOps(m)
	}, depth, func(tx *txbuilder.TxBuilder, s step) {})
	orig := deepHash(tx)
	c := tx.Copy()
	if deepHash(&c) != orig {
		x.Failf("the copy differs from the original: %s", mustSnap(x, &c).diff(mustSnap(x, tx)))
	}
	if deepHash(tx) != orig {
		x.Failf("copying changed the original")
	}
	a, b := tx, &c
	if x.Bool("copy first") {
		a, b = b, a
	}
	ops := copyOps(modelOf(x, tx, nil))
	i := x.Choose("then", len(ops))
	x.Op()
	e1 := ops[i].Do(a)
	if deepHash(b) != orig {
		x.Failf("%s on one changed the other", ops[i].Name)
	}
	after := deepHash(a)
	x.Op()
	e2 := ops[i].Do(b)
	if deepHash(a) != after {
		x.Failf("%s on the other changed the one", ops[i].Name)
	}
	if cause(e1) != cause(e2) && (e1 == nil || e2 == nil || e1.Error() != e2.Error()) || deepHash(b) != after {
		x.Failf("%s gives different results on copy and original: %v %v %s", ops[i].Name, e1, e2, mustSnap(x, a).diff(mustSnap(x, b)))
	}
	// a different operation on one, with what both have now
	j := (i*7 + 3) % len(ops)
	x.Op()
	_ = ops[j].Do(a)
	if deepHash(b) != after {
		x.Failf("%s on one changed the other", ops[j].Name)
	}
	x.State(after)
}

func bytesBody(x *X, starts []string) {
	tx := startTx(Pick(x, "start", starts), 0.5, 0.25)
	if err := tx.SetChangeLockingScript(fs(p2pkh(4)), "ch"); err != nil {
		x.Failf("%s", err)
	}
	prep := x.Choose("prepared", 4)
	if prep > 0 {
		if err := tx.AddFunding([]bitcoin.UTXO{fresh(utxo2), fresh(utxo4)}); err != nil && tx.OutputCount() > 0 {
			x.Outcome("funding: %v", cause(err))
		}
	}
	if prep > 1 {
		_, err := tx.Sign(keys)
		x.Outcome("signing: %v", cause(err))
	}
	if prep > 2 {
		_ = tx.AddOutput(tx.ChangeScript, 3000, false, false)
		_ = tx.AddMaxOutput(addrOf(p2pkh(1)))
	}
	c := tx.Copy()
	if x.Bool("twice") {
		c2 := c.Copy()
		c = c2
	}
	a, b := tx, &c
	if x.Bool("copy first") {
		a, b = b, a
	}
	orig := deepHash(b)
	flip := func(s []byte) {
		for i := range s {
			s[i] ^= 0xff
		}
		if cap(s) > len(s) { // room behind the end is not shared either
			s = s[:cap(s)]
			for i := range s {
				s[i] ^= 0x55
			}
		}
	}
	check := func(what string) {
		x.Op()
		if deepHash(b) != orig {
			x.Failf("changing %s of one changed the other", what)
		}
	}
	n := len(a.MsgTx.TxIn)
	for i := 0; i < n; i++ {
		flip(a.MsgTx.TxIn[i].UnlockingScript)
		check("an unlocking script")
		a.MsgTx.TxIn[i].Sequence ^= 5
		check("a sequence")
		a.MsgTx.TxIn[i].PreviousOutPoint.Hash[3] ^= 5
		check("a hash")
		a.MsgTx.TxIn[i].PreviousOutPoint.Index ^= 5
		check("an index")
		flip(a.Inputs[i].LockingScript)
		check("a spent script")
		a.Inputs[i].Value ^= 5
		check("a spent value")
		a.Inputs[i].KeyID += "x"
		check("an input label")
	}
	for i := range a.MsgTx.TxOut {
		flip(a.MsgTx.TxOut[i].LockingScript)
		check("an output script")
		a.MsgTx.TxOut[i].Value ^= 5
		check("an output value")
		a.Outputs[i].IsDust = !a.Outputs[i].IsDust
		check("a dust flag")
		a.Outputs[i].IsRemainder = !a.Outputs[i].IsRemainder
		check("a remainder flag")
		a.Outputs[i].KeyID += "x"
		check("an output label")
	}
	flip(a.ChangeScript)
	check("the change script")
	a.ChangeKeyID += "x"
	a.MsgTx.LockTime ^= 5
	a.MsgTx.Version ^= 5
	a.FeeRate *= 2
	a.DustFeeRate *= 2
	a.SendMax = !a.SendMax
	check("a setting")
	if n > 0 {
		a.MsgTx.TxIn[0], a.Inputs[0] = nil, nil
	}
	if len(a.MsgTx.TxOut) > 0 {
		a.MsgTx.TxOut[0], a.Outputs[0] = nil, nil
	}
	check("an entry")
	x.State(orig)
}
