package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// canSign tells whether the listed keys unlock the script; false for kinds that cannot be signed.
func (l lock) canSign(have []int) bool {
	n := 0
	for _, k := range l.Keys {
		for _, h := range have {
			if h == k {
				n++
				break
			}
		}
	}
	return l.Required > 0 && n >= l.Required
}

func (l lock) signable() bool { return l.Required > 0 }

func keysOf(list []int) []bitcoin.Key {
	r := make([]bitcoin.Key, len(list))
	for i, k := range list {
		r[i] = keys[k]
	}
	return r
}

var ownKeyList []bitcoin.Key

// ownKeys are 600 keys besides the numbered ones.
func ownKeys() []bitcoin.Key {
	for i := len(ownKeyList); i < 600; i++ {
		var n [32]byte
		for j := range n {
			n[j] = byte(i*29 + j*7)
		}
		n[0], n[1], n[2] = 100, byte(i), byte(i>>8)
		k, err := bitcoin.KeyFromNumber(n[:], bitcoin.MainNet)
		if err != nil {
			panic(err)
		}
		ownKeyList = append(ownKeyList, k)
	}
	return ownKeyList
}

func keyIndexes(x *X, list []bitcoin.Key) []int {
	var r []int
	for _, k := range list {
		found := -1
		for i := range keys {
			if keys[i].Equal(k) {
				found = i
			}
		}
		if found < 0 {
			x.Failf("a key was reported that is not one of those given")
		}
		r = append(r, found)
	}
	sort.Ints(r)
	return r
}

// signers are the keys whose signatures appear in an unlocking script, by position of the script.
func signers(tx *wire.MsgTx, index int, l lock, value uint64) []int {
	var r []int
	items := pushes(tx.TxIn[index].UnlockingScript)
	for _, k := range l.Keys {
		if k < 0 {
			continue
		}
		for _, p := range items {
			if len(p) >= 9 && p[0] == 0x30 && checkSig(p, pubs[k], l.Script, tx, index, value) == nil {
				r = append(r, k)
				break
			}
		}
	}
	sort.Ints(r)
	return r
}

func uniq(l []int) []int {
	sort.Ints(l)
	var r []int
	for i, v := range l {
		if i == 0 || l[i-1] != v {
			r = append(r, v)
		}
	}
	return r
}

// pushes lists the data pushed by a script.
func pushes(s []byte) [][]byte {
	var r [][]byte
	for i := 0; i < len(s); {
		op := int(s[i])
		i++
		n := 0
		switch {
		case op <= 75:
			n = op
		case op == 76 && i < len(s):
			n = int(s[i])
			i++
		case op == 77 && i+1 < len(s):
			n = int(s[i]) | int(s[i+1])<<8
			i += 2
		}
		if i+n > len(s) {
			return r
		}
		if n > 0 {
			r = append(r, s[i:i+n])
		}
		i += n
	}
	return r
}

// judgeSigned requires that the listed inputs are unlocked in the transaction as it is now.
func judgeSigned(x *X, tx *txbuilder.TxBuilder, which []int) {
	mustSignAll = true
	defer func() { mustSignAll = false }()
	for _, i := range which {
		if err := refUnlocks(tx.MsgTx, i, tx.Inputs[i].LockingScript, tx.Inputs[i].Value); err != nil {
			x.Failf("input %d is not unlocked: %s (unlocking script %x)\n%s", i, err, []byte(tx.MsgTx.TxIn[i].UnlockingScript),
				mustSnap(x, tx))
		}
	}
}

func allInputs(tx *txbuilder.TxBuilder) []int {
	var r []int
	for i := range tx.MsgTx.TxIn {
		r = append(r, i)
	}
	return r
}

func signKinds() []lock {
	return []lock{lockPKH(0), lockPKH(1), lockPK(0), lockPK(2), lockMulti(1, 0, 1), lockMulti(2, 0, 1, 2), lockMulti(3, 0, 1, 2),
		lockMulti(2, 3, 3, 1), lockMulti(2, 2, 0)}
}

var badKinds = []lock{
	{Name: "plain", Script: plainScript(22), Unlock: -1},
	{Name: "return", Script: opReturn(30), Unlock: -1},
	{Name: "empty", Script: nil, Unlock: -1},
	{Name: "sh", Script: cat([]byte{0xa9, 20}, make([]byte, 20), []byte{0x87}), Unlock: -1},
	{Name: "long pkh", Script: cat(p2pkhZero(), []byte{0x61}), Unlock: -1},
}

func p2pkhZero() bitcoin.Script {
	return cat([]byte{0x76, 0xa9, 20}, make([]byte, 20), []byte{0x88, 0xac})
}

// signTx builds a transaction spending the kinds with plenty of change.
func signTx(kinds []lock, outs int) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(0.5, 0.25)
	for i, k := range kinds {
		if err := tx.AddInputUTXO(utxoOf(outpointHash(i+1), uint32(i), 1000000+uint64(i)<<33, k.Script, fmt.Sprint("in", i))); err != nil {
			panic("a valid start was refused: " + err.Error())
		}
	}
	for i := 0; i < outs; i++ {
		if err := tx.AddOutput(p2pkh(5), uint64(2000+i), false, false); err != nil {
			panic("a valid start was refused: " + err.Error())
		}
	}
	if err := tx.SetChangeLockingScript(p2pkh(6), "change"); err != nil {
		panic("a valid start was refused: " + err.Error())
	}
	return tx
}

// keyLists are all orders of all subsets of the first n keys.
func keyLists(n int) [][]int {
	var r [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		r = append(r, append([]int{}, cur...))
		for k := 0; k < n; k++ {
			used := false
			for _, c := range cur {
				used = used || c == k
			}
			if !used {
				rec(append(cur, k))
			}
		}
	}
	rec(nil)
	return r
}

type signResult struct {
	err   error
	used  []int
	final snap
}

func signClass(err error) string {
	switch {
	case err == nil:
		return "complete"
	case is(err, txbuilder.ErrMissingPrivateKey):
		return "missing key"
	case is(err, txbuilder.ErrWrongScriptTemplate):
		return "wrong kind"
	case is(err, txbuilder.ErrInsufficientValue):
		return "insufficient"
	}
	return "error: " + err.Error()
}

// doSign signs a fresh transaction and judges the result by itself.
func doSign(x *X, kinds []lock, list []int, only bool, outs int) signResult {
	tx := signTx(kinds, outs)
	x.Op()
	var used []bitcoin.Key
	var err error
	ks := keysOf(list)
	if only {
		used, err = tx.SignOnly(ks)
	} else {
		used, err = tx.Sign(ks)
	}
	for i, k := range keysOf(list) {
		if !ks[i].Equal(k) {
			x.Failf("the caller's key list was changed")
		}
	}
	want := "complete"
	var signed []int
	for i, k := range kinds {
		if !k.signable() {
			want = "wrong kind"
			break
		}
		if k.canSign(list) {
			signed = append(signed, i)
		} else {
			want = "missing key"
		}
	}
	if got := signClass(err); got != want {
		x.Failf("signing %s with keys %v gave %q, should be %q", lockNames(kinds), list, got, want)
	}
	res := signResult{err: err, final: mustSnap(x, tx)}
	if want == "wrong kind" {
		return res
	}
	judgeSigned(x, tx, signed)
	var appear []int
	for i, k := range kinds {
		if len(tx.MsgTx.TxIn[i].UnlockingScript) == 0 {
			continue
		}
		if !k.canSign(list) {
			x.Failf("input %d (%s) got an unlocking script without its keys", i, k.Name)
		}
		appear = append(appear, signers(tx.MsgTx, i, k, tx.Inputs[i].Value)...)
	}
	got := keyIndexes(x, used)
	if len(got) != len(uniq(got)) {
		x.Failf("keys reported as used %v are not each there once (%s with %v)", got, lockNames(kinds), list)
	}
	if fmt.Sprint(got) != fmt.Sprint(uniq(appear)) {
		x.Failf("keys reported as used are %v, but %v signed (%s with %v)", got, uniq(appear), lockNames(kinds), list)
	}
	res.used = got
	return res
}

func lockNames(l []lock) string {
	r := ""
	for _, k := range l {
		r += k.Name + " "
	}
	return r
}

// lengthPatterns are signature lengths by call number.
var lengthPatterns = [][]int{{72}, {71}, {70, 72, 71}, {72, 71}, {71, 72, 72, 70}, {50, 72}, {72, 50}}

func pattern(p []int) func() int {
	i := -1
	return func() int {
		i++
		return p[i%len(p)]
	}
}

func init() {
	register(&Check{
		ID: "C02",
		Assumptions: []string{
			"signatures are symbolic in all but the last scenario: they determine key and digest, so a wrong one is always noticed",
		},
		Scenarios: func(thorough bool) []*Scenario {
			kinds := signKinds()
			all := append(append([]lock{}, kinds...), badKinds...)
			lists := keyLists(4)
			ref := map[string]signResult{}
			body := func(x *X, n int) {
				var ks []lock
				for i := 0; i < n; i++ {
					ks = append(ks, Pick(x, "kind", all))
				}
				list := Pick(x, "keys", lists)
				only := x.Bool("without fee")
				// padding: an unrelated key or a repeated one, at either end
				switch x.Choose("padding", 5) {
				case 1:
					list = append([]int{7}, list...)
				case 2:
					list = append(append([]int{}, list...), 7)
				case 3:
					if len(list) > 0 {
						list = append(append([]int{}, list...), list[0])
					}
				case 4:
					if len(list) > 0 {
						list = append([]int{7, list[len(list)-1]}, list...)
					}
				}
				withSymbolic(nil, func() {
					res := doSign(x, ks, list, only, 1)
					base := uniq(append([]int{}, list...))
					if len(base) > 0 && base[len(base)-1] == 7 {
						base = base[:len(base)-1]
					}
					id := fmt.Sprint(lockNames(ks), base, only)
					b, ok := ref[id]
					if !ok {
						b = doSign(x, ks, base, only, 1)
						ref[id] = b
					}
					if signClass(b.err) != signClass(res.err) {
						x.Failf("keys %v give %q but %v give %q", list, signClass(res.err), base, signClass(b.err))
					}
					if d := res.final.diff(b.final); d != "" && signClass(res.err) != "wrong kind" {
						x.Failf("keys %v and %v give different transactions: %s", list, base, d)
					}
					if fmt.Sprint(b.used) != fmt.Sprint(res.used) {
						x.Failf("keys %v and %v report different keys used: %v %v", list, base, res.used, b.used)
					}
					x.Outcome(signClass(res.err))
					x.State(hashOf(res.final.hash(), signClass(res.err)))
				})
			}
			three := func(x *X) {
				ks := []lock{Pick(x, "kind", kinds), Pick(x, "kind", kinds), Pick(x, "kind", kinds)}
				var list []int
				for k := 0; k < 4; k++ {
					if x.Bool("key") {
						list = append(list, k)
					}
				}
				withSymbolic(nil, func() {
					res := doSign(x, ks, list, x.Bool("without fee"), 1)
					x.Outcome(signClass(res.err))
					x.State(hashOf(res.final.hash(), signClass(res.err)))
				})
			}
			return []*Scenario{{
				Name: "one input", Depth: 2,
				Bounds: fmt.Sprintf("%d script kinds, %d ordered key lists, 5 paddings, both signing methods", len(all), len(lists)),
				Body:   func(x *X) { body(x, 1) },
			}, {
				Name: "two inputs", Depth: 2,
				Bounds: fmt.Sprintf("pairs of %d script kinds, %d ordered key lists, 5 paddings, both signing methods", len(all), len(lists)),
				Body:   func(x *X) { body(x, 2) },
			}, {
				Name: "three inputs", Depth: 3, ThoroughOnly: true,
				Bounds: "triples of kinds, every subset of the keys",
				Body:   three,
			}, {
				Name: "large thresholds", Depth: 3,
				Bounds: "thresholds of 2 and 3 out of 20 and 140 with keys at every choice of positions from the ends and the middle",
				Body: func(x *X) {
					total := Pick(x, "total", []int{20, 140})
					req := 2 + x.Choose("required", 2)
					at := map[int]int{}
					n := 0
					for _, p := range []int{0, 1, total / 2, total - 2, total - 1} {
						if k := x.Choose("key", 4); k > 0 {
							at[p] = k - 1
							n++
						}
					}
					l := manyPKH(req, total, at)
					var list []int
					for k := 0; k < 3; k++ {
						if !x.Bool("without key") {
							list = append(list, k)
						}
					}
					withSymbolic(nil, func() {
						res := doSign(x, []lock{l}, list, true, 1)
						x.Outcome(signClass(res.err))
						x.State(hashOf(res.final.hash(), l.Name))
					})
				},
			}, {
				Name: "nearly the key", Depth: 2,
				Bounds: "single keys, key hashes and thresholds with any single bit of a key or hash changed, among other inputs, both methods and the signing of one input",
				Body: func(x *X) {
					k := Pick(x, "kind", []lock{lockPKH(0), lockPK(0), lockMulti(1, 0), lockMulti(2, 0, 1), lockMulti(2, 1, 0, 2)})
					what := pkhs[0]
					if bytes.Contains(k.Script, pubs[0]) {
						what = pubs[0]
					}
					bit := x.Choose("bit", 8*len(what))
					s := append(bitcoin.Script{}, k.Script...)
					s[bytes.Index(s, what)+bit/8] ^= 1 << (bit % 8)
					near := lock{Name: "nearly " + k.Name, Script: s, Required: k.Required}
					for _, i := range k.Keys {
						if i == 0 {
							i = -1
						}
						near.Keys = append(near.Keys, i)
					}
					if len(what) == 33 && bit/8 == 0 && bit > 0 {
						return // not a public key
					}
					kinds := []lock{near}
					if x.Bool("another") {
						kinds = []lock{lockPKH(1), near, lockPK(0)}
					}
					withSymbolic(nil, func() {
						list := Pick(x, "keys", [][]int{{0}, {0, 1, 2}, {2, 1, 0}, {0, 1}})
						switch x.Choose("method", 3) {
						case 0:
							doSign(x, kinds, list, false, 1)
						case 1:
							doSign(x, kinds, list, true, 1)
						case 2:
							tx := signTx(kinds, 1)
							at := len(kinds) / 2
							x.Op()
							if tx.SignP2PKHInput(at, keys[0], &txbuilder.SigHashCache{}) == nil || tx.InputIsSigned(at) {
								x.Failf("input %d (%s) was signed with a key that is not its own", at, near.Name)
							}
						}
						x.State(hashOf(string(s), len(kinds), list))
					})
				},
			}, {
				Name: "many keys", Depth: 3,
				Bounds: "1 to 260 inputs each of a key of its own, or two for each key, single keys or key hashes, the keys in order or reversed, all or all but one there, preceded or followed by 0 to " +
					"300 unrelated keys or given twice, both methods",
				Body: func(x *X) {
					n := Pick(x, "inputs", []int{1, 2, 8, 9, 17, 33, 100, 260})
					missing := Pick(x, "missing", []int{-1, 0, n / 2, n - 1})
					pad := Pick(x, "padding", []int{0, 1, 30, 300, -1})
					before, reverse := x.Bool("before"), x.Bool("reverse")
					own, others := ownKeys()[:n], ownKeys()[300:]
					var kinds []lock
					var given []bitcoin.Key
					for i, k := range own {
						pub := k.PublicKey().Bytes()
						if (i+n)%3 == 0 {
							kinds = append(kinds, lock{Script: cat([]byte{33}, pub, []byte{0xac})})
						} else {
							kinds = append(kinds, lock{Script: cat([]byte{0x76, 0xa9, 20}, hash160(pub), []byte{0x88, 0xac})})
						}
						if i == missing {
							continue
						}
						if reverse {
							given = append([]bitcoin.Key{k}, given...)
						} else {
							given = append(given, k)
						}
					}
					list := append([]bitcoin.Key{}, given...)
					extra := given
					if pad >= 0 {
						extra = others[:pad]
					}
					if before {
						list = append(append([]bitcoin.Key{}, extra...), list...)
					} else {
						list = append(list, extra...)
					}
					if x.Bool("again") {
						kinds = append(kinds, kinds...)
					}
					withSymbolic(nil, func() {
						tx := signTx(kinds, 1)
						x.Op()
						var used []bitcoin.Key
						var err error
						if x.Bool("without fee") {
							used, err = tx.SignOnly(list)
						} else {
							used, err = tx.Sign(list)
						}
						want := "complete"
						var signed []int
						for i := range kinds {
							if i%n != missing {
								signed = append(signed, i)
							} else if want = "missing key"; len(tx.MsgTx.TxIn[i].UnlockingScript) > 0 {
								x.Failf("input %d got an unlocking script without its key", i)
							}
						}
						if got := signClass(err); got != want {
							x.Failf("signing %d inputs with %d keys gave %q, should be %q", n, len(list), got, want)
						}
						judgeSigned(x, tx, signed)
						seen := map[string]int{}
						for _, k := range used {
							seen[string(k.Number())]++
						}
						for _, k := range given {
							if seen[string(k.Number())] != 1 {
								x.Failf("a key that signed is reported %d times", seen[string(k.Number())])
							}
						}
						if len(used) != len(given) {
							x.Failf("%d keys are reported as used, should be %d", len(used), len(given))
						}
						x.Outcome(want)
						x.State(mustSnap(x, tx).hash())
					})
				},
			}, {
				Name: "real signatures", Depth: 2,
				Bounds: "pairs of script kinds, every subset of the keys, both methods",
				Body: func(x *X) {
					ks := []lock{Pick(x, "kind", kinds), Pick(x, "kind", kinds)}
					var list []int
					for k := 0; k < 4; k++ {
						if x.Bool("key") {
							list = append(list, k)
						}
					}
					res := doSign(x, ks, list, x.Bool("without fee"), 1)
					x.Outcome(signClass(res.err))
					x.State(hashOf(res.final.hash(), signClass(res.err)))
				},
			}}
		},
	})

	register(&Check{
		ID: "C01",
		Assumptions: []string{
			"symbolic signatures determine key and digest; the scenarios with real signatures use the elliptic curve",
			"public keys are compressed",
		},
		Scenarios: func(thorough bool) []*Scenario {
			kinds := signKinds()
			depth := 4
			if thorough {
				depth = 5
			}
			return []*Scenario{{
				Name: "mixtures", Depth: 3,
				Bounds: "up to three inputs of every kind, every signature length pattern, one or two outputs, both methods",
				Body: func(x *X) {
					n := 1 + x.Choose("inputs", 3)
					var ks []lock
					for i := 0; i < n; i++ {
						ks = append(ks, Pick(x, "kind", kinds))
					}
					only := x.Bool("without fee")
					p := Pick(x, "lengths", lengthPatterns)
					outs := 1
					if n < 3 {
						outs = x.Choose("outputs", 3)
					}
					withSymbolic(pattern(p), func() {
						tx := signTx(ks, outs)
						signAndJudge(x, tx, only, keys)
						x.State(mustSnap(x, tx).hash())
					})
				},
			}, {
				Name: "signers", Depth: 3,
				Bounds: "every threshold of 1 to 4 signers in every rotation, alone or before or after a single key, with every subset of the keys, " +
					"both methods and signature length patterns",
				Body: func(x *X) {
					total := 1 + x.Choose("signers", 4)
					required := 1 + x.Choose("required", total)
					turn := x.Choose("rotation", total)
					var order []int
					for i := 0; i < total; i++ {
						order = append(order, (i+turn)%total)
					}
					ks := []lock{lockMulti(required, order...)}
					switch x.Choose("beside", 3) {
					case 1:
						ks = append(ks, lockPKH(0))
					case 2:
						ks = append([]lock{lockPK(1)}, ks...)
					}
					var list []int
					for k := 0; k < 4; k++ {
						if x.Bool("key") {
							list = append(list, k)
						}
					}
					only := x.Bool("without fee")
					withSymbolic(pattern(Pick(x, "lengths", lengthPatterns)), func() {
						tx := signTx(ks, 1)
						x.Op()
						var err error
						if only {
							_, err = tx.SignOnly(keysOf(list))
						} else {
							_, err = tx.Sign(keysOf(list))
						}
						judgeSet(x, tx, list, allInputs(tx), err)
						x.Outcome(signClass(err))
						x.State(mustSnap(x, tx).hash())
					})
				},
			}, {
				Name: "parts", Depth: 3,
				Bounds: "unlocking scripts built one by one for every kind, with every signature type, and for every choice of as many signers as " +
					"required of thresholds of 1 to 4, real signatures",
				Body: func(x *X) {
					types := []txbuilder.SigHashType{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}
					total := x.Choose("signers", 5)
					l := lockPKH(1)
					var sign []bool
					if total > 0 {
						required := 1 + x.Choose("required", total)
						n := 0
						var order []int
						for i := 0; i < total; i++ {
							order = append(order, (i+1)%4)
							s := x.Bool("signs")
							sign = append(sign, s)
							if s {
								n++
							}
						}
						if n != required {
							return
						}
						l = lockMulti(required, order...)
					} else if x.Bool("bare key") {
						l = lockPK(1)
					}
					tx := signTx([]lock{lockPKH(0), l}, x.Choose("outputs", 3))
					t := Pick(x, "type", types)
					cache := &txbuilder.SigHashCache{}
					x.Op()
					var script []byte
					var err error
					switch {
					case total > 0:
						var ps, ss [][]byte
						for i, k := range l.Keys {
							ps = append(ps, pubs[k])
							var sig []byte
							if sign[i] {
								if sig, err = txbuilder.InputSignature(keys[k], tx.MsgTx, 1, l.Script, tx.Inputs[1].Value, t, cache); err != nil {
									x.Failf("signing: %s", err)
								}
							}
							ss = append(ss, sig)
						}
						for _, n := range []int{-1, 1} { // a signature missing or to spare
							more := append(append([][]byte{}, ss...), nil)
							if s, err := txbuilder.P2MultiPKHUnlockingScript(uint16(l.Required), ps, more[:len(ss)+n]); err == nil {
								x.Failf("an unlocking script %x was built from %d keys and %d signatures", s, len(ps), len(ss)+n)
							}
						}
						script, err = txbuilder.P2MultiPKHUnlockingScript(uint16(l.Required), ps, ss)
					case l.Script.IsP2PK():
						script, err = txbuilder.P2PKUnlockingScript(keys[1], tx.MsgTx, 1, l.Script, tx.Inputs[1].Value, t, cache)
					default:
						script, err = txbuilder.P2PKHUnlockingScript(keys[1], tx.MsgTx, 1, l.Script, tx.Inputs[1].Value, t, cache)
					}
					if err != nil {
						x.Failf("building the unlocking script of %s: %s", l.Name, err)
					}
					tx.MsgTx.TxIn[1].UnlockingScript = script
					if err := refUnlocks(tx.MsgTx, 1, l.Script, tx.Inputs[1].Value); err != nil {
						x.Failf("the unlocking script of %s of type %x does not unlock it: %s", l.Name, uint32(t), err)
					}
					for _, p := range pushes(script) {
						if len(p) > 60 && p[0] == 0x30 && uint32(p[len(p)-1]) != uint32(t) {
							x.Failf("signature type %x instead of %x", p[len(p)-1], uint32(t))
						}
					}
					x.Outcome(l.Name)
					x.State(hashOf(l.Name, uint32(t), fmt.Sprint(sign), len(tx.MsgTx.TxOut)))
				},
			}, {
				Name: "fields", Depth: 3,
				Bounds: "every combination of version, lock time, sequences and values at their extremes, both methods, real signatures",
				Body: func(x *X) {
					ks := []lock{lockPKH(0), lockPK(1), lockMulti(2, 0, 1, 2)}
					tx := signTx(ks, 1)
					tx.MsgTx.Version = Pick(x, "version", []int32{1, 2, -1})
					tx.MsgTx.LockTime = Pick(x, "lock time", []uint32{0, 500000000, 0xffffffff})
					tx.MsgTx.TxIn[1].Sequence = Pick(x, "sequence", []uint32{0, 1, 0xfffffffe, 0xffffffff})
					tx.Inputs[2].Value = Pick(x, "value", []uint64{0, 1 << 31, 1<<32 + 1, 1<<53 + 1, 2100000000000000})
					signAndJudge(x, tx, x.Bool("without fee"), keys)
					x.State(mustSnap(x, tx).hash())
				},
			}, {
				Name:   "counts",
				Bounds: "1, 2, 3, 10, 252, 253 and 254 inputs of each kind and mixed; up to 253 outputs; both methods",
				Body: func(x *X) {
					n := Pick(x, "inputs", []int{1, 2, 3, 10, 252, 253, 254})
					m := Pick(x, "outputs", []int{0, 1, 2, 251, 252, 253})
					mode := x.Choose("kind", len(kinds)+1)
					if n > 10 && mode > 2 && mode < len(kinds) && !x.Thorough {
						return
					}
					ks := make([]lock, n)
					for i := range ks {
						if mode < len(kinds) {
							ks[i] = kinds[mode]
						} else {
							ks[i] = kinds[i%len(kinds)]
						}
					}
					withSymbolic(pattern([]int{72, 71, 72, 70}), func() {
						tx := signTx(ks, m)
						signAndJudge(x, tx, x.Bool("without fee"), keys)
						x.State(mustSnap(x, tx).hash())
					})
				},
			}, {
				Name: "histories", Depth: 3,
				Bounds: fmt.Sprintf("every sequence of %d operations out of signing by each method and key set, editing inputs and outputs, "+
					"copying and changing fields, from two transactions", depth),
				Body: func(x *X) {
					p := Pick(x, "lengths", [][]int{{72}, {70, 72, 71}})
					withSymbolic(pattern(p), func() { signHistory(x, depth) })
				},
			}, {
				Name: "real signatures", Depth: 2,
				Bounds: "pairs of kinds with real signatures, both methods, signed twice with an edit in between",
				Body: func(x *X) {
					tx := signTx([]lock{Pick(x, "kind", kinds), Pick(x, "kind", kinds)}, 1)
					only := x.Bool("without fee")
					signAndJudge(x, tx, only, keys)
					if err := tx.SubtractValueFromOutput(0, 1); err != nil {
						x.Failf("subtracting value: %s", err)
					}
					if only {
						for _, in := range tx.MsgTx.TxIn {
							in.UnlockingScript = nil
						}
					}
					signAndJudge(x, tx, only, keys)
					x.State(mustSnap(x, tx).hash())
				},
			}}
		},
	})

	register(&Check{
		ID: "C29",
		Assumptions: []string{
			"the keys of a threshold input are together in one party's list, since partial threshold signatures are not kept",
		},
		Scenarios: func(thorough bool) []*Scenario {
			kinds := signKinds()
			nIn := 2
			if thorough {
				nIn = 3
			}
			return []*Scenario{{
				Name: "parties", Depth: 3,
				Bounds: fmt.Sprintf("%d inputs of every kind, every assignment of the four keys to two parties or both, both orders and a repeat", nIn),
				Body: func(x *X) {
					var ks []lock
					for i := 0; i < nIn; i++ {
						ks = append(ks, Pick(x, "kind", kinds))
					}
					var a, b []int
					for k := 0; k < 4; k++ {
						c := x.Choose("held by", 3)
						if c != 1 {
							a = append(a, k)
						}
						if c != 0 {
							b = append(b, k)
						}
					}
					if x.Bool("swap") {
						a, b = b, a
					}
					withSymbolic(nil, func() { signParties(x, ks, [][]int{a, b, a}) })
				},
			}, {
				Name: "three parties", Depth: 3,
				Bounds: "two inputs, every assignment of the keys to three parties, every order",
				Body: func(x *X) {
					ks := []lock{Pick(x, "kind", kinds), Pick(x, "kind", kinds)}
					p := make([][]int, 3)
					for k := 0; k < 4; k++ {
						c := x.Choose("held by", 3)
						p[c] = append(p[c], k)
					}
					withSymbolic(nil, func() { signParties(x, ks, p) })
				},
			}, {
				Name: "many", Depth: 2,
				Bounds: "1 to 300 inputs that run through all kinds from each kind on, every assignment of the four keys to two parties, and one input chosen at " +
					"either end or in the middle",
				Body: func(x *X) {
					n := Pick(x, "inputs", []int{1, 5, 10, 17, 100, 252, 253, 300})
					first := x.Choose("first", len(kinds))
					var ks []lock
					for i := 0; i < n; i++ {
						ks = append(ks, kinds[(i+first)%len(kinds)])
					}
					p := make([][]int, 2)
					for k := 0; k < 4; k++ {
						c := x.Choose("held by", 2)
						p[c] = append(p[c], k)
					}
					withSymbolic(nil, func() { signParties(x, ks, p) })
				},
			}, {
				Name: "already signed", Depth: 3,
				Bounds: "three inputs, each unsigned (in both forms that has), with foreign data or signed, every subset of keys",
				Body: func(x *X) {
					ks := []lock{Pick(x, "kind", kinds), Pick(x, "kind", kinds[:6]), lockPKH(0)}
					withSymbolic(nil, func() {
						tx := signTx(ks, 1)
						for i := range ks {
							switch x.Choose("state", 4) {
							case 3:
								tx.MsgTx.TxIn[i].UnlockingScript = bitcoin.Script{}
							case 1:
								tx.MsgTx.TxIn[i].UnlockingScript = bitcoin.Script{0x51}
							case 2:
								tx.MsgTx.TxIn[i].UnlockingScript = payload(120, 3)
							}
						}
						before := mustSnap(x, tx)
						var list []int
						for k := 0; k < 4; k++ {
							if x.Bool("key") {
								list = append(list, k)
							}
						}
						signOnlyStep(x, tx, list, before)
					})
				},
			}, {
				Name: "fields", Depth: 4,
				Bounds: "two inputs, every combination of version, lock time, sequences at their extremes, outputs of less than, as much as, and more than the inputs, " +
					"plain, remainder, dust and of no amount, with all, some or no keys, and one chosen input",
				Body: func(x *X) {
					tx := signTx([]lock{lockPKH(0), Pick(x, "kind", []lock{lockPK(1), lockMulti(2, 1, 2, 3)})}, 1)
					setFields(x, tx)
					fee, in := tx.EstimatedFee(), tx.InputValue()
					v := Pick(x, "amount", []uint64{0, 1, in - fee - 2000, in - fee - 1999, in - 2000, in, in + 5})
					tx.MsgTx.AddTxOut(wire.NewTxOut(v, p2pkh(4)))
					tx.Outputs = append(tx.Outputs, &txbuilder.OutputSupplement{IsRemainder: x.Bool("remainder"), IsDust: x.Bool("dust")})
					withSymbolic(nil, func() {
						if x.Bool("chosen") {
							before := mustSnap(x, tx)
							x.Op()
							if err := tx.SignP2PKHInput(0, keys[0], &txbuilder.SigHashCache{}); err != nil {
								x.Failf("signing the first input: %s", err)
							}
							after := mustSnap(x, tx)
							before.Ins[0].Unlock = after.Ins[0].Unlock
							if d := after.diff(before); d != "" {
								x.Failf("more than the chosen unlocking script changed: %s", d)
							}
							judgeSigned(x, tx, []int{0})
						}
						signOnlyStep(x, tx, Pick(x, "keys", [][]int{{0, 1, 2, 3}, {0}, {}}), mustSnap(x, tx))
					})
				},
			}, {
				Name: "chosen input", Depth: 3,
				Bounds: "every pair of kinds including unsupported ones, every chosen position up to one past the end, every key, shared cache",
				Body: func(x *X) {
					all := append(append([]lock{}, kinds...), badKinds...)
					ks := []lock{Pick(x, "kind", all), Pick(x, "kind", all)}
					withSymbolic(nil, func() {
						tx := signTx(ks, 1)
						cache := &txbuilder.SigHashCache{}
						for step := 0; step < 2; step++ {
							i := x.Choose("input", 3)
							k := x.Choose("key", 4)
							before := mustSnap(x, tx)
							x.Op()
							err := tx.SignP2PKHInput(i, keys[k], cache)
							after := mustSnap(x, tx)
							ok := i < 2 && bytes.Equal(ks[i].Script, p2pkh(k))
							if (err == nil) != ok {
								x.Failf("signing input %d of %s with key %d: %v", i, lockNames(ks), k, err)
							}
							if i < 2 && !ok {
								pkh := len(ks[i].Keys) == 1 && ks[i].Script.IsP2PKH()
								if pkh && !is(err, txbuilder.ErrWrongPrivateKey) {
									x.Failf("wrong key reported as %v", err)
								}
								if !pkh && (is(err, txbuilder.ErrWrongPrivateKey) || is(err, txbuilder.ErrMissingPrivateKey)) {
									x.Failf("wrong kind reported as %v", err)
								}
							}
							if ok {
								judgeSigned(x, tx, []int{i})
								before.Ins[i].Unlock = after.Ins[i].Unlock
							}
							if d := after.diff(before); d != "" {
								x.Failf("more than the chosen unlocking script changed: %s", d)
							}
							x.Outcome("ok %v", ok)
							x.State(after.hash())
						}
					})
				},
			}}
		},
	})
}

// signAndJudge signs with all keys and judges everything.
func signAndJudge(x *X, tx *txbuilder.TxBuilder, only bool, ks []bitcoin.Key) {
	x.Op()
	var err error
	var mine []int
	if only {
		for i, in := range tx.MsgTx.TxIn {
			if len(in.UnlockingScript) == 0 {
				mine = append(mine, i)
			}
		}
		_, err = tx.SignOnly(ks)
	} else {
		mine = allInputs(tx)
		_, err = tx.Sign(ks)
	}
	if err != nil {
		x.Failf("signing failed: %s\n%s", err, mustSnap(x, tx))
	}
	judgeSigned(x, tx, mine)
}

// signOnlyStep signs without fee and checks that only unsigned inputs whose keys are there change.
func signOnlyStep(x *X, tx *txbuilder.TxBuilder, list []int, before snap) snap {
	x.Op()
	_, err := tx.SignOnly(keysOf(list))
	after := mustSnap(x, tx)
	missing := false
	var mine []int
	for i := range before.Ins {
		if before.Ins[i].Unlock != "" {
			continue
		}
		l, ok := lockOf(before.Ins[i].Script)
		if ok && l.canSign(list) {
			mine = append(mine, i)
			before.Ins[i].Unlock = after.Ins[i].Unlock
		} else {
			missing = true
		}
	}
	if missing != is(err, txbuilder.ErrMissingPrivateKey) || !missing && err != nil {
		x.Failf("signing with keys %v gave %v (missing key %v)", list, err, missing)
	}
	if d := after.diff(before); d != "" {
		x.Failf("more than unsigned inputs changed: %s", d)
	}
	judgeSigned(x, tx, mine)
	x.State(after.hash())
	x.Outcome(signClass(err))
	return after
}

func signParties(x *X, ks []lock, parties [][]int) {
	tx := signTx(ks, 1)
	first := mustSnap(x, tx)
	s := first
	can := make([]bool, len(ks))
	for _, p := range parties {
		// a copy of the list of inputs, since the step edits it
		b := s
		b.Ins = append([]inSnap{}, s.Ins...)
		s = signOnlyStep(x, tx, p, b)
		for i := range ks {
			can[i] = can[i] || ks[i].canSign(p)
		}
	}
	var done []int
	for i := range ks {
		if can[i] {
			done = append(done, i)
		} else if s.Ins[i].Unlock != "" {
			x.Failf("input %d was signed although no party holds its keys", i)
		}
	}
	judgeSigned(x, tx, done)
	// the same as one party would have given, for inputs with one key
	if len(done) == len(ks) {
		one := signTx(ks, 1)
		if _, err := one.SignOnly(keys); err != nil {
			x.Failf("signing with all keys: %s", err)
		}
		o := mustSnap(x, one)
		for i := range ks {
			if len(ks[i].Keys) > 1 {
				o.Ins[i].Unlock = s.Ins[i].Unlock
			}
		}
		if d := s.diff(o); d != "" {
			x.Failf("signing by several parties gives another transaction: %s", d)
		}
	}
}

// signHistory explores sequences of edits and signatures.
func signHistory(x *X, depth int) {
	kinds := []lock{lockPKH(0), lockMulti(2, 0, 1, 2), lockPK(1), lockPKH(3)}
	tx := signTx(kinds[:1+x.Choose("start", 3)], 1)
	cache := &txbuilder.SigHashCache{}
	next := 10
	for step := 0; step < depth; step++ {
		x.Prune(hashOf(deepHash(tx), fmt.Sprint(next)), depth-step)
		sets := [][]int{{0, 1, 2, 3}, {0, 1, 2}, {3, 1}}
		op := x.Choose("op", 12)
		if step == depth-1 {
			op = op % 6 // only a signature matters last
		}
		switch {
		case op < 3: // with fee
			set := sets[op]
			x.Op()
			_, err := tx.Sign(keysOf(set))
			judgeSet(x, tx, set, allInputs(tx), err)
		case op < 5: // without fee
			set := sets[(op-3)*2]
			var un []int
			for i, in := range tx.MsgTx.TxIn {
				if len(in.UnlockingScript) == 0 {
					un = append(un, i)
				}
			}
			x.Op()
			_, err := tx.SignOnly(keysOf(set))
			judgeSet(x, tx, set, un, err)
		case op == 5: // one input, the cache cleared as documented
			cache.Clear()
			x.Op()
			if err := tx.SignP2PKHInput(0, keys[0], cache); err == nil {
				judgeSigned(x, tx, []int{0})
			}
		case op == 6:
			next++
			_ = tx.AddInputUTXO(utxoOf(outpointHash(next), 1, 50000, kinds[next%4].Script, ""))
		case op == 7:
			next++
			_ = tx.InsertInput(0, utxoOf(outpointHash(next), 0, 60000, kinds[next%4].Script, ""))
		case op == 8:
			_ = tx.RemoveInput(0)
		case op == 9:
			_ = tx.AddOutput(p2pk(5), 700, false, false)
		case op == 10:
			c := tx.Copy()
			tx = &c
			tx.MsgTx.LockTime++
		case op == 11:
			if len(tx.MsgTx.TxIn) > 0 {
				tx.MsgTx.TxIn[len(tx.MsgTx.TxIn)-1].UnlockingScript = nil
			}
			_ = tx.UpdateOutput(0, p2pk(4))
		}
		x.State(mustSnap(x, tx).hash())
	}
}

// judgeSet judges the inputs a signature operation was responsible for.
func judgeSet(x *X, tx *txbuilder.TxBuilder, set, mine []int, err error) {
	c := signClass(err)
	x.Outcome(c)
	if c == "insufficient" {
		return
	}
	if c != "complete" && c != "missing key" {
		x.Failf("signing failed: %s", err)
	}
	var can []int
	for _, i := range mine {
		l, _ := lockOf(string(tx.Inputs[i].LockingScript))
		if l.canSign(set) {
			can = append(can, i)
		} else if c == "complete" {
			x.Failf("signing reported complete without the keys for input %d", i)
		}
	}
	judgeSigned(x, tx, can)
}
