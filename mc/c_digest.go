package main

import (
	"bytes"
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// digestTx builds a transaction with distinct content everywhere.
func digestTx(nIn, nOut int, seq, lockTime uint32, version int32) *wire.MsgTx {
	tx := &wire.MsgTx{Version: version, LockTime: lockTime}
	for i := 0; i < nIn; i++ {
		in := &wire.TxIn{Sequence: 0xffffffff - uint32(i)}
		if i == nIn-1 {
			in.Sequence = seq
		}
		in.PreviousOutPoint = wire.OutPoint{Hash: outpointHash(i + 1), Index: uint32(i*3 + 1)}
		tx.TxIn = append(tx.TxIn, in)
	}
	for i := 0; i < nOut; i++ {
		s := p2pkh(i % 8)
		switch i {
		case 1:
			s = nil
		case 2:
			s = opReturn(253)
		}
		tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: uint64(i)*1000003 + 1, LockingScript: s})
	}
	return tx
}

var stdTypes = []uint32{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x01, 0x02, 0x03, 0x81, 0x82, 0x83}

func cat(parts ...[]byte) bitcoin.Script {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func digestScripts() []bitcoin.Script {
	d := func(n int, b byte) []byte { return bytes.Repeat([]byte{b}, n) }
	sep := []byte{0xab}
	l := []bitcoin.Script{
		p2pkh(0), p2pk(1), multi(2, 0, 1, 2), {}, {0xab}, {0x51},
		cat(sep, p2pkh(0)), cat(p2pkh(0), sep), cat([]byte{0x51}, sep, p2pkh(1)),
		cat(sep, []byte{0x52, 0x75}, sep, p2pkh(2)),
		cat([]byte{3, 0xab, 0xab, 0xab, 0x75}, p2pkh(0)),           // separators inside data
		cat(sep, []byte{3, 0xab, 0x51, 0xab, 0x75}, p2pkh(0)),      // both
		cat(sep, []byte{76, 2, 9, 9, 0x75}, p2pkh(0)),              // long form of a short push
		cat(sep, []byte{77, 2, 0, 9, 9, 0x75}, p2pkh(0)),           //
		cat(sep, []byte{78, 2, 0, 0, 0, 9, 9, 0x75}, p2pkh(0)),     //
		cat(sep, []byte{1, 5, 0x75, 1, 0x81, 0x75}, p2pkh(0)),      // pushes of small numbers
		cat(sep, []byte{76, 0, 0x75, 0x4f, 0x75, 0x00, 0x75}),      // empty long push, negative one
		cat(sep, []byte{76, 200}, d(200, 7), []byte{0x75, 0xac}),   //
		cat([]byte{77, 0, 1}, d(256, 0xab), []byte{0x75}, p2pk(1)), //
		plainScript(252), plainScript(253),
		cat(sep, plainScript(252)), cat(sep, plainScript(253)),
	}
	return l
}

var digestValues = []uint64{0, 1, 546, 1<<32 + 7, 2100000000000000}

func checkDigest(x *X, tx *wire.MsgTx, index int, script bitcoin.Script, value uint64, ht uint32) {
	x.Op()
	before := serialize(tx)
	want := refPreimage(tx, index, script, value, ht)
	lockBefore := cloneBytes(script)
	t := txbuilder.SigHashType(ht)
	h, err := txbuilder.SignatureHash(tx, index, script, value, t, &txbuilder.SigHashCache{})
	if err != nil {
		x.Failf("digest refused: %s", err)
	}
	if !bytes.Equal(h[:], dsha(want)) {
		x.Failf("digest is %x, should be %x (type %02x index %d script %x)", h[:], dsha(want), ht, index, short(string(script)))
	}
	for _, f := range []func(*wire.MsgTx, int, []byte, uint64, txbuilder.SigHashType, *txbuilder.SigHashCache) ([]byte, error){
		txbuilder.SignaturePreimage, txbuilder.SignatureHashPreimageBytes} {
		p, err := f(tx, index, script, value, t, &txbuilder.SigHashCache{})
		if err != nil {
			x.Failf("preimage refused: %s", err)
		}
		if !bytes.Equal(p, want) {
			x.Failf("preimage is %x, should be %x (type %02x index %d)", p, want, ht, index)
		}
	}
	if !bytes.Equal(before, serialize(tx)) || !bytes.Equal(lockBefore, script) {
		x.Failf("digest computation changed the transaction or script")
	}
	x.State(hashOf(h[:]))
}

// wellFormed tells whether all pushes of the script are complete.
func wellFormed(s []byte) bool {
	for i := 0; i < len(s); {
		op := s[i]
		i++
		n := 0
		switch {
		case op >= 1 && op <= 75:
			n = int(op)
		case op >= 76 && op <= 78:
			w := 1 << (op - 76)
			if i+w > len(s) {
				return false
			}
			for j := 0; j < w; j++ {
				n |= int(s[i+j]) << (8 * j)
			}
			i += w
		}
		i += n
		if i > len(s) {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{
		ID: "C10",
		Assumptions: []string{
			"signature types are the twelve combinations of all/none/single, anyone-can-pay and fork id",
			"the last code separator of a script is taken to be the last one executed, as the network does for straight-line scripts",
			"scripts with incomplete pushes cannot be executed; for them only absence of crashes is required",
		},
		Scenarios: func(thorough bool) []*Scenario {
			scripts := digestScripts()
			counts := []int{1, 2, 3}
			outs := []int{0, 1, 2, 3}
			if thorough {
				counts = append(counts, 4)
				outs = append(outs, 4)
			}
			smallLen := 4
			if thorough {
				smallLen = 5
			}
			alphabet := []byte{0x00, 0x01, 0x02, 0x4c, 0x4d, 0x4e, 0x51, 0x4f, 0xab, 0x61, 0x6a, 0xac, 0xff}
			return []*Scenario{{
				Name: "shapes", Depth: 4,
				Bounds: "all signature types x input counts x output counts x every index x script shapes x values x sequences x versions x lock times",
				Body: func(x *X) {
					ht := Pick(x, "type", stdTypes)
					nIn := Pick(x, "inputs", counts)
					nOut := Pick(x, "outputs", outs)
					script := Pick(x, "script", scripts)
					index := x.Choose("index", nIn)
					value := Pick(x, "value", digestValues)
					seq := Pick(x, "seq", []uint32{0xffffffff, 0, 0x80000001})
					lt := Pick(x, "locktime", []uint32{0, 0xffffffff, 500000001})
					v := Pick(x, "version", []int32{1, 2, -1, 0x01020304})
					checkDigest(x, digestTx(nIn, nOut, seq, lt, v), index, script, value, ht)
				},
			}, {
				Name: "wide", Depth: 4,
				Bounds: "all signature types x input and output counts and script lengths on both sides of every length prefix boundary",
				Body: func(x *X) {
					ht := Pick(x, "type", stdTypes)
					shape := Pick(x, "shape", [][2]int{{252, 1}, {253, 1}, {254, 3}, {1, 252}, {1, 253}, {2, 254}, {2, 2}})
					script := Pick(x, "script", []bitcoin.Script{p2pkh(0), plainScript(65535), plainScript(65536), plainScript(65537),
						cat([]byte{0xab}, plainScript(65535)), cat([]byte{0xab}, plainScript(65536))})
					if len(script) > 100 && shape != [2]int{2, 2} {
						return
					}
					index := Pick(x, "index", []int{0, shape[0] / 2, shape[0] - 1})
					checkDigest(x, digestTx(shape[0], shape[1], 5, 6, 1), index, script, 1<<40, ht)
				},
			}, {
				Name: "short scripts", Depth: 3,
				Bounds: fmt.Sprintf("every script of up to %d bytes over 13 byte values (pushes of each form, separator, small numbers, undefined)", smallLen),
				Body: func(x *X) {
					n := x.Choose("length", smallLen+1)
					var s bitcoin.Script
					for i := 0; i < n; i++ {
						s = append(s, Pick(x, "byte", alphabet))
					}
					tx := digestTx(2, 1, 7, 0, 1)
					for _, ht := range []uint32{0x41, 0xc3} {
						if !wellFormed(s) {
							x.Op()
							h, err := txbuilder.SignatureHash(tx, 1, s, 5, txbuilder.SigHashType(ht), &txbuilder.SigHashCache{})
							if err == nil && h == nil {
								x.Failf("no digest and no error for %x", []byte(s))
							}
							x.Outcome("incomplete script")
							continue
						}
						checkDigest(x, tx, 1, s, 5, ht)
						x.Outcome("digest")
					}
				},
			}, {
				Name:   "no such input",
				Bounds: "every signature type, 0 to 3 inputs, positions at and past the end",
				Body: func(x *X) {
					ht := txbuilder.SigHashType(Pick(x, "type", stdTypes))
					n := x.Choose("inputs", 4)
					index := n + x.Choose("past", 3)
					tx := digestTx(n, 2, 5, 0, 1)
					x.Op()
					if h, err := txbuilder.SignatureHash(tx, index, p2pkh(0), 5, ht, &txbuilder.SigHashCache{}); err == nil {
						x.Failf("digest %s given for input %d of %d", h, index, n)
					}
					if _, err := txbuilder.SignaturePreimage(tx, index, p2pkh(0), 5, ht, &txbuilder.SigHashCache{}); err == nil {
						x.Failf("preimage given for input %d of %d", index, n)
					}
					if _, err := txbuilder.SignatureHashPreimageBytes(tx, index, p2pkh(0), 5, ht, &txbuilder.SigHashCache{}); err == nil {
						x.Failf("preimage given for input %d of %d", index, n)
					}
					for _, k := range keys[:1] {
						if _, err := txbuilder.InputSignature(k, tx, index, p2pkh(0), 5, ht, &txbuilder.SigHashCache{}); err == nil {
							x.Failf("signature given for input %d of %d", index, n)
						}
					}
					x.State(hashOf(n, index, uint64(ht)))
				},
			}}
		},
	})

	register(&Check{
		ID:          "C11",
		Assumptions: []string{"after a change of outputs only the outputs part or the whole cache is cleared; after any other change the whole cache is cleared, as documented"},
		Scenarios: func(thorough bool) []*Scenario {
			depth := 5
			if thorough {
				depth = 6
			}
			types := []uint32{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}
			return []*Scenario{{
				Name: "sequences", Depth: 2,
				Bounds: fmt.Sprintf("all sequences of %d steps over 18 digest and 3 part requests and 11 changes with their clears, merged on equal transaction and cache", depth),
				Body: func(x *X) {
					tx := digestTx(3, 2, 9, 0, 1)
					cache := &txbuilder.SigHashCache{}
					for step := 0; step < depth; step++ {
						op := x.Choose("op", 18+11+3)
						if op < 18 {
							index, ht := op/6, types[op%6]
							if index >= len(tx.TxIn) {
								continue
							}
							script, value := p2pkh(index), uint64(index*77)
							before := serialize(tx)
							x.Op()
							x.Logf("digest input %d type %02x", index, ht)
							want := refPreimage(tx, index, script, value, ht)
							var got []byte
							var err error
							if step%2 == 0 {
								var h *bitcoin.Hash32
								h, err = txbuilder.SignatureHash(tx, index, script, value, txbuilder.SigHashType(ht), cache)
								if err == nil {
									got = h[:]
								}
								want = dsha(want)
							} else {
								got, err = txbuilder.SignaturePreimage(tx, index, script, value, txbuilder.SigHashType(ht), cache)
							}
							if err != nil {
								x.Failf("digest refused: %s", err)
							}
							if !bytes.Equal(got, want) {
								x.Failf("through the cache: %x, fresh: %x", got, want)
							}
							if !bytes.Equal(before, serialize(tx)) {
								x.Failf("computing a digest changed the transaction")
							}
						} else if op >= 18+11 {
							x.Op()
							pre := refPreimage(tx, 0, nil, 0, 0x41)
							var got, want []byte
							switch op - 18 - 11 {
							case 0:
								got, want = cache.HashPrevOuts(tx), pre[4:36]
							case 1:
								got, want = cache.HashSequence(tx), pre[36:68]
							case 2:
								got, want = cache.HashOutputs(tx), pre[len(pre)-40:len(pre)-8]
							}
							if !bytes.Equal(got, want) {
								x.Failf("part %d through the cache: %x, fresh: %x", op-18-11, got, want)
							}
						} else {
							x.Op()
							switch op - 18 {
							case 0:
								cache.Clear()
							case 1:
								cache.ClearOutputs()
							case 2:
								tx.TxOut[0].Value++
								cache.ClearOutputs()
							case 3:
								tx.TxOut[0].Value += 5
								cache.Clear()
							case 4:
								tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: 3, LockingScript: p2pk(0)})
								cache.ClearOutputs()
							case 5:
								tx.TxOut = tx.TxOut[:1]
								cache.ClearOutputs()
							case 6:
								tx.TxIn[1].Sequence--
								cache.Clear()
							case 7:
								tx.TxIn[0].PreviousOutPoint.Index++
								cache.Clear()
							case 8:
								if len(tx.TxIn) > 2 {
									tx.TxIn = tx.TxIn[:2]
								} else {
									tx.TxIn = digestTx(3, 0, 9, 0, 1).TxIn
								}
								cache.Clear()
							case 9:
								tx.TxOut[0].LockingScript = p2pk(3)
								cache.ClearOutputs()
							case 10:
								tx.LockTime++
								tx.Version++
								cache.Clear()
							}
							x.Logf("change %d", op-18)
						}
						h := hashOf(serialize(tx), deepHash(cache), step&1)
						x.State(h)
						x.Prune(h, depth-step)
					}
				},
			}}
		},
	})
}
