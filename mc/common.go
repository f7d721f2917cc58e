package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"reflect"

	"github.com/pkg/errors"
	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/bitcoin_interpreter/check_signature_preimage"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

var (
	keys  = makeKeys()
	pubs  = makePubs()
	pkhs  = makePKHs()
	hashA = hash32(0xa1)
	hashB = hash32(0xb2)
)

func hash32(b byte) bitcoin.Hash32 {
	var h bitcoin.Hash32
	for i := range h {
		h[i] = b + byte(i)
	}
	return h
}

func makeKeys() []bitcoin.Key {
	var r []bitcoin.Key
	for i := 1; i <= 8; i++ {
		var n [32]byte
		for j := range n {
			n[j] = byte(i*37 + j*11)
		}
		n[0] = byte(i)
		k, err := bitcoin.KeyFromNumber(n[:], bitcoin.MainNet)
		if err != nil {
			panic(err)
		}
		r = append(r, k)
	}
	return r
}

func makePubs() [][]byte {
	var r [][]byte
	for _, k := range keys {
		r = append(r, k.PublicKey().Bytes())
	}
	return r
}

func makePKHs() [][]byte {
	var r [][]byte
	for _, p := range pubs {
		r = append(r, hash160(p))
	}
	return r
}

func p2pkh(k int) bitcoin.Script {
	s := bitcoin.Script{0x76, 0xa9, 20}
	s = append(s, pkhs[k]...)
	return append(s, 0x88, 0xac)
}

func p2pk(k int) bitcoin.Script {
	s := bitcoin.Script{33}
	s = append(s, pubs[k]...)
	return append(s, 0xac)
}

func multi(required int, ks ...int) bitcoin.Script {
	s := bitcoin.Script{0x00, 0x6b}
	for _, k := range ks {
		s = append(s, 0x63, 0x76, 0xa9, 20)
		s = append(s, pkhs[k]...)
		s = append(s, 0x88, 0xad, 0x6c, 0x8b, 0x6b, 0x68)
	}
	if required <= 16 {
		s = append(s, byte(0x50+required))
	} else {
		s = append(s, 1, byte(required))
	}
	return append(s, 0x6c, 0xa1)
}

// opReturn is an unspendable script of exactly n bytes (n >= 2).
func opReturn(n int) bitcoin.Script {
	s := make(bitcoin.Script, n)
	s[0], s[1] = 0x00, 0x6a
	for i := 2; i < n; i++ {
		s[i] = 0x61
	}
	return s
}

// plainScript is a spendable looking script of exactly n bytes of a kind the library does not know.
func plainScript(n int) bitcoin.Script {
	s := make(bitcoin.Script, n)
	for i := range s {
		s[i] = 0x61
	}
	if n > 0 {
		s[n-1] = 0x51
	}
	return s
}

func addrOf(s bitcoin.Script) bitcoin.RawAddress {
	ra, err := bitcoin.RawAddressFromLockingScript(s)
	if err != nil {
		panic(fmt.Sprintf("harness: address: %s", err))
	}
	return ra
}

func cause(err error) error {
	if err == nil {
		return nil
	}
	return errors.Cause(err)
}

func is(err, target error) bool { return cause(err) == target }

func cloneBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// ---- snapshots ----

type inSnap struct {
	Hash     bitcoin.Hash32
	Index    uint32
	Unlock   string
	Sequence uint32
	Script   string
	Value    uint64
	KeyID    string
}

type outSnap struct {
	Value  uint64
	Script string
	Rem    bool
	Dust   bool
	KeyID  string
}

type snap struct {
	Version, LockTime uint32
	Ins               []inSnap
	Outs              []outSnap
	Change            string
	ChangeKeyID       string
	FeeRate, DustRate float32
	SendMax           bool
}

// takeSnap copies everything observable. misaligned is set if the parallel lists disagree.
func takeSnap(tx *txbuilder.TxBuilder) (s snap, misaligned string) {
	s.Version = uint32(tx.MsgTx.Version)
	s.LockTime = tx.MsgTx.LockTime
	s.Change = string(tx.ChangeScript)
	s.ChangeKeyID = tx.ChangeKeyID
	s.FeeRate, s.DustRate = tx.FeeRate, tx.DustFeeRate
	s.SendMax = tx.SendMax
	if len(tx.Inputs) != len(tx.MsgTx.TxIn) {
		misaligned = fmt.Sprintf("%d inputs but data for %d", len(tx.MsgTx.TxIn), len(tx.Inputs))
		return
	}
	if len(tx.Outputs) != len(tx.MsgTx.TxOut) {
		misaligned = fmt.Sprintf("%d outputs but data for %d", len(tx.MsgTx.TxOut), len(tx.Outputs))
		return
	}
	for i, in := range tx.MsgTx.TxIn {
		if in == nil || tx.Inputs[i] == nil {
			misaligned = fmt.Sprintf("input %d is nil", i)
			return
		}
		s.Ins = append(s.Ins, inSnap{in.PreviousOutPoint.Hash, in.PreviousOutPoint.Index,
			string(in.UnlockingScript), in.Sequence, string(tx.Inputs[i].LockingScript),
			tx.Inputs[i].Value, tx.Inputs[i].KeyID})
	}
	for i, o := range tx.MsgTx.TxOut {
		if o == nil || tx.Outputs[i] == nil {
			misaligned = fmt.Sprintf("output %d is nil", i)
			return
		}
		s.Outs = append(s.Outs, outSnap{o.Value, string(o.LockingScript), tx.Outputs[i].IsRemainder,
			tx.Outputs[i].IsDust, tx.Outputs[i].KeyID})
	}
	return
}

func mustSnap(x *X, tx *txbuilder.TxBuilder) snap {
	s, bad := takeSnap(tx)
	if bad != "" {
		x.Failf("inputs or outputs are out of step with their data: %s", bad)
	}
	return s
}

func (s snap) String() string {
	r := fmt.Sprintf("version %d locktime %d fee rate %v dust rate %v sendmax %v change %x (%s)", s.Version, s.LockTime,
		s.FeeRate, s.DustRate, s.SendMax, s.Change, s.ChangeKeyID)
	for i, in := range s.Ins {
		r += fmt.Sprintf("\n in%d %x..:%d value %d script %s key %q seq %x unlock %d bytes", i, in.Hash[:3], in.Index, in.Value,
			short(in.Script), in.KeyID, in.Sequence, len(in.Unlock))
	}
	for i, o := range s.Outs {
		r += fmt.Sprintf("\n out%d value %d script %s rem %v dust %v key %q", i, o.Value, short(o.Script), o.Rem, o.Dust, o.KeyID)
	}
	return r
}

func short(s string) string {
	if len(s) > 12 {
		return fmt.Sprintf("%x..(%d)", s[:12], len(s))
	}
	return fmt.Sprintf("%x", s)
}

// diff is empty if equal.
func (s snap) diff(o snap) string {
	if !sameList(s.Ins, o.Ins) || !sameList(s.Outs, o.Outs) || s.Version != o.Version ||
		s.LockTime != o.LockTime || s.Change != o.Change || s.ChangeKeyID != o.ChangeKeyID ||
		s.FeeRate != o.FeeRate || s.DustRate != o.DustRate || s.SendMax != o.SendMax {
		return fmt.Sprintf("have:\n%s\nwant:\n%s", s, o)
	}
	return ""
}

func sameList[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s snap) hash() uint64 {
	h := fnv.New64a()
	w := func(b string) {
		h.Write(varint(uint64(len(b))))
		h.Write([]byte(b))
	}
	n := func(v uint64) { h.Write(le64(v)) }
	n(uint64(s.Version))
	n(uint64(s.LockTime))
	w(s.Change)
	w(s.ChangeKeyID)
	n(uint64(math.Float32bits(s.FeeRate)))
	n(uint64(math.Float32bits(s.DustRate)))
	if s.SendMax {
		n(1)
	}
	n(uint64(len(s.Ins)))
	for _, in := range s.Ins {
		h.Write(in.Hash[:])
		n(uint64(in.Index))
		w(in.Unlock)
		n(uint64(in.Sequence))
		w(in.Script)
		n(in.Value)
		w(in.KeyID)
	}
	for _, o := range s.Outs {
		n(o.Value)
		w(o.Script)
		w(o.KeyID)
		f := uint64(0)
		if o.Rem {
			f |= 1
		}
		if o.Dust {
			f |= 2
		}
		n(f)
	}
	return h.Sum64()
}

func hashOf(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch t := p.(type) {
		case []byte:
			h.Write(varint(uint64(len(t))))
			h.Write(t)
		case string:
			h.Write(varint(uint64(len(t))))
			h.Write([]byte(t))
		case uint64:
			h.Write(le64(t))
		case int:
			h.Write(le64(uint64(t)))
		default:
			fmt.Fprintf(h, "%v|", p)
		}
	}
	return h.Sum64()
}

// deepHash covers every field reachable from the builder, exported or not, so that states are
// never merged because of something only the implementation can see.
func deepHash(v interface{}) uint64 {
	h := fnv.New64a()
	var b [8]byte
	put := func(u uint64) {
		binary.LittleEndian.PutUint64(b[:], u)
		h.Write(b[:])
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				put(0)
				return
			}
			put(1)
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			put(uint64(v.Len()))
			if v.Type().Elem().Kind() == reflect.Uint8 {
				h.Write(v.Bytes())
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.String:
			put(uint64(v.Len()))
			h.Write([]byte(v.String()))
		case reflect.Bool:
			if v.Bool() {
				put(1)
			} else {
				put(0)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			put(uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			put(v.Uint())
		case reflect.Float32, reflect.Float64:
			put(math.Float64bits(v.Float()))
		case reflect.Map:
			put(uint64(v.Len()))
		default:
			put(uint64(v.Kind()))
		}
	}
	walk(reflect.ValueOf(v))
	return h.Sum64()
}

// ---- first principles sizes ----

// refUnlockSize is the worst case unlocking script size: 73 byte signature pushes, 33 byte keys.
func refUnlockSize(kind string, required, total int) int {
	switch kind {
	case "pk":
		return 74
	case "pkh":
		return 108
	case "multi":
		return required*109 + (total - required)
	}
	panic("harness: kind")
}

func refInputSize(unlock int) int  { return 40 + varintSize(uint64(unlock)) + unlock }
func refOutputSize(script int) int { return 8 + varintSize(uint64(script)) + script }

// lock is a locking script with what is needed to judge it.
type lock struct {
	Name     string
	Script   bitcoin.Script
	Unlock   int   // worst case unlocking size, -1 if not a kind the library can size
	Keys     []int // key indexes, in script order
	Required int
}

func lockPKH(k int) lock {
	return lock{fmt.Sprintf("pkh%d", k), p2pkh(k), refUnlockSize("pkh", 0, 0), []int{k}, 1}
}
func lockPK(k int) lock {
	return lock{fmt.Sprintf("pk%d", k), p2pk(k), refUnlockSize("pk", 0, 0), []int{k}, 1}
}
func lockMulti(required int, ks ...int) lock {
	return lock{fmt.Sprintf("multi%dof%d%v", required, len(ks), ks), multi(required, ks...),
		refUnlockSize("multi", required, len(ks)), ks, required}
}

func (l lock) inputSize() int { return refInputSize(l.Unlock) }

func utxoOf(h bitcoin.Hash32, index uint32, value uint64, s bitcoin.Script, key string) bitcoin.UTXO {
	return bitcoin.UTXO{Hash: h, Index: index, Value: value, LockingScript: append(bitcoin.Script{}, s...), KeyID: key}
}

func outpointHash(i int) bitcoin.Hash32 {
	var h bitcoin.Hash32
	binary.LittleEndian.PutUint64(h[:], uint64(i)*0x9e3779b97f4a7c15+1)
	h[31] = byte(i)
	return h
}

// inputTotal and outputTotal are sums over the raw data.
func inputTotal(s snap) uint64 {
	t := uint64(0)
	for _, in := range s.Ins {
		t += in.Value
	}
	return t
}

func outputTotal(s snap) uint64 {
	t := uint64(0)
	for _, o := range s.Outs {
		t += o.Value
	}
	return t
}

var agentLocks = map[string]lock{}

// lockAgent is an agent transfer output: sized by the library but not signed by it. The two branch
// bytes and the preimage part are added to what unlocks the agent's own script.
func lockAgent(agent lock) lock {
	s, err := agent_bitcoin_transfer.CreateScript(agent.Script, p2pkh(5), p2pkh(6), 1000, p2pkh(7), 700000)
	if err != nil {
		panic("harness: " + err.Error())
	}
	l := lock{Name: "agent(" + agent.Name + ")", Script: s, Unlock: check_signature_preimage.UnlockingSize + agent.Unlock + 2}
	agentLocks[string(s)] = l
	return l
}

// lockOf recognises the scripts used by the harness.
func lockOf(script string) (lock, bool) {
	b := []byte(script)
	if l, ok := agentLocks[script]; ok {
		return l, true
	}
	if len(b) == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 20 && b[23] == 0x88 && b[24] == 0xac {
		for k := range pkhs {
			if bytes.Equal(pkhs[k], b[3:23]) {
				return lockPKH(k), true
			}
		}
		return lock{Name: "pkh?", Script: b, Unlock: 108}, true
	}
	if len(b) == 35 && b[0] == 33 && b[34] == 0xac {
		for k := range pubs {
			if bytes.Equal(pubs[k], b[1:34]) {
				return lockPK(k), true
			}
		}
		return lock{Name: "pk?", Script: b, Unlock: 74}, true
	}
	if len(b) > 5 && b[0] == 0 && b[1] == 0x6b {
		i := 2
		var ks []int
		for i < len(b) && b[i] == 0x63 {
			found := -1
			for k := range pkhs {
				if bytes.Equal(pkhs[k], b[i+4:i+24]) {
					found = k
				}
			}
			ks = append(ks, found)
			i += 30
		}
		if len(ks) > 0 && i < len(b) {
			req := 0
			if b[i] == 1 {
				req = int(b[i+1])
			} else if b[i] == 2 {
				req = int(b[i+1]) | int(b[i+2])<<8
			} else if b[i] >= 0x51 && b[i] <= 0x60 {
				req = int(b[i] - 0x50)
			}
			if req > 0 {
				return lock{fmt.Sprintf("multi%dof%d", req, len(ks)), b, refUnlockSize("multi", req, len(ks)), ks, req}, true
			}
		}
	}
	return lock{}, false
}

// refEstimate is the worst case size of the finished transaction. Inputs of a kind the library does
// not know count as a key-hash input.
func refEstimate(s snap) int {
	n := 8 + varintSize(uint64(len(s.Ins))) + varintSize(uint64(len(s.Outs)))
	for _, in := range s.Ins {
		if l, ok := lockOf(in.Script); ok {
			n += refInputSize(l.Unlock)
		} else {
			n += refInputSize(108)
		}
	}
	for _, o := range s.Outs {
		n += refOutputSize(len(o.Script))
	}
	return n
}

// refCost is the fee for creating and the fee for later spending an output with the script.
func refCost(script string, rate float32) (uint64, uint64) {
	out := ratFee(uint64(refOutputSize(len(script))), float64(rate))
	if l, ok := lockOf(script); ok {
		return out, ratFee(uint64(refInputSize(l.Unlock)), float64(rate))
	}
	return out, 0
}

// refDusts are the acceptable dust limits: three times the rate times the size and a standard input,
// rounded down, with the product either exact or in single precision.
func refDusts(outputSize int, rate float32) [2]uint64 {
	exact := new(big.Rat).SetFloat64(float64(rate))
	exact.Mul(exact, new(big.Rat).SetInt64(int64(outputSize+148)*3))
	floor := func(r *big.Rat) uint64 {
		q := new(big.Int).Quo(r.Num(), r.Denom()).Uint64()
		if q < 1 {
			return 1
		}
		return q
	}
	f, _ := exact.Float32()
	return [2]uint64{floor(exact), floor(new(big.Rat).SetFloat64(float64(f)))}
}

func isDust(got uint64, outputSize int, rate float32) bool {
	d := refDusts(outputSize, rate)
	return got == d[0] || got == d[1]
}

// ratFeeDown is the largest whole number not above size*rate.
func ratFeeDown(size uint64, rate float64) uint64 {
	p := new(big.Rat).SetFloat64(rate)
	p.Mul(p, new(big.Rat).SetUint64(size))
	return new(big.Int).Quo(p.Num(), p.Denom()).Uint64()
}

// manyPKH is a threshold script over total key hashes of which only those of the listed keys (at the
// listed positions) are known.
func manyPKH(required, total int, at map[int]int) lock {
	s := bitcoin.Script{0x00, 0x6b}
	ks := make([]int, total)
	for i := 0; i < total; i++ {
		h := make([]byte, 20)
		h[0], h[1], h[19] = byte(i), 0xee, byte(total)
		ks[i] = -1
		if k, ok := at[i]; ok {
			h = pkhs[k]
			ks[i] = k
		}
		s = append(s, 0x63, 0x76, 0xa9, 20)
		s = append(s, h...)
		s = append(s, 0x88, 0xad, 0x6c, 0x8b, 0x6b, 0x68)
	}
	switch {
	case required <= 16:
		s = append(s, byte(0x50+required))
	case required <= 127:
		s = append(s, 1, byte(required))
	default:
		s = append(s, 2, byte(required), byte(required>>8))
	}
	s = append(s, 0x6c, 0xa1)
	return lock{fmt.Sprintf("multi%dof%d", required, total), s, refUnlockSize("multi", required, total), ks, required}
}
