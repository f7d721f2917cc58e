package main

// Independent judgement of digests, signatures and scripts. Nothing here calls the code under test
// or the key library's own digest, signing or script functions.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"golang.org/x/crypto/ripemd160"
)

func dsha(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

func hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	r := ripemd160.New()
	r.Write(h[:])
	return r.Sum(nil)
}

func le32(v uint32) []byte {
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], v)
	return b[:]
}

func le64(v uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return b[:]
}

func varint(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return []byte{0xfd, byte(n), byte(n >> 8)}
	case n <= 0xffffffff:
		return append([]byte{0xfe}, le32(uint32(n))...)
	}
	return append([]byte{0xff}, le64(n)...)
}

func varintSize(n uint64) int { return len(varint(n)) }

func outBytes(o *wire.TxOut) []byte {
	b := le64(o.Value)
	b = append(b, varint(uint64(len(o.LockingScript)))...)
	return append(b, o.LockingScript...)
}

// scriptCode returns the bytes after the last code separator, walking the raw bytes.
func scriptCode(script []byte) []byte {
	start := 0
	for i := 0; i < len(script); {
		op := script[i]
		i++
		n := 0
		switch {
		case op >= 1 && op <= 75:
			n = int(op)
		case op == 76:
			if i+1 > len(script) {
				return script[start:]
			}
			n = int(script[i])
			i++
		case op == 77:
			if i+2 > len(script) {
				return script[start:]
			}
			n = int(binary.LittleEndian.Uint16(script[i:]))
			i += 2
		case op == 78:
			if i+4 > len(script) {
				return script[start:]
			}
			n = int(binary.LittleEndian.Uint32(script[i:]))
			i += 4
		case op == 0xab:
			start = i
		}
		i += n
	}
	if start > len(script) {
		start = len(script)
	}
	return script[start:]
}

// refPreimage is the fork-id digest preimage (BIP 143 layout) for one input.
func refPreimage(tx *wire.MsgTx, index int, script []byte, value uint64, hashType uint32) []byte {
	zero := make([]byte, 32)
	base := hashType & 0x1f
	acp := hashType&0x80 != 0

	prevouts, sequences, outputs := zero, zero, zero
	if !acp {
		var b []byte
		for _, in := range tx.TxIn {
			b = append(b, in.PreviousOutPoint.Hash[:]...)
			b = append(b, le32(in.PreviousOutPoint.Index)...)
		}
		prevouts = dsha(b)
	}
	if !acp && base != 2 && base != 3 {
		var b []byte
		for _, in := range tx.TxIn {
			b = append(b, le32(in.Sequence)...)
		}
		sequences = dsha(b)
	}
	if base != 2 && base != 3 {
		var b []byte
		for _, o := range tx.TxOut {
			b = append(b, outBytes(o)...)
		}
		outputs = dsha(b)
	} else if base == 3 && index < len(tx.TxOut) {
		outputs = dsha(outBytes(tx.TxOut[index]))
	}

	in := tx.TxIn[index]
	code := scriptCode(script)
	r := le32(uint32(tx.Version))
	r = append(r, prevouts...)
	r = append(r, sequences...)
	r = append(r, in.PreviousOutPoint.Hash[:]...)
	r = append(r, le32(in.PreviousOutPoint.Index)...)
	r = append(r, varint(uint64(len(code)))...)
	r = append(r, code...)
	r = append(r, le64(value)...)
	r = append(r, le32(in.Sequence)...)
	r = append(r, outputs...)
	r = append(r, le32(tx.LockTime)...)
	return append(r, le32(hashType|0x40)...)
}

// checkSig judges one signature (with its type byte) against a compressed public key.
func checkSig(sig, pub, script []byte, tx *wire.MsgTx, index int, value uint64) error {
	if len(sig) < 9 {
		return errors.New("signature too short")
	}
	ht := uint32(sig[len(sig)-1])
	if ht&0x40 == 0 {
		return errors.New("no fork id in signature type")
	}
	if b := ht & 0x1f; b < 1 || b > 3 {
		return errors.New("undefined signature type")
	}
	der := sig[:len(sig)-1]
	r, s, err := parseDER(der)
	if err != nil {
		return err
	}
	n := btcec.S256().N
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(n) >= 0 {
		return errors.New("r or s out of range")
	}
	if s.Cmp(new(big.Int).Rsh(n, 1)) > 0 {
		return errors.New("s is high")
	}
	if len(pub) != 33 {
		return errors.New("public key is not compressed")
	}
	if ht != 0x41 && mustSignAll {
		return errors.New("signature does not commit to the whole transaction")
	}
	digest := dsha(refPreimage(tx, index, script, value, ht))
	if symbolic {
		if want := symbolicSig(pub, digest, len(sig)); !bytes.Equal(want.Bytes(), der) {
			return errors.New("signature does not match key and digest")
		}
		return nil
	}
	pk, err := btcec.ParsePubKey(pub, btcec.S256())
	if err != nil {
		return err
	}
	if !(&btcec.Signature{R: r, S: s}).Verify(digest, pk) {
		return errors.New("signature does not verify")
	}
	return nil
}

// Symbolic signatures stand for real ones where many are needed: the encoding is well formed, its
// length can be chosen, and it determines the key and the digest, so that a wrong key, digest or
// transaction is noticed as surely as with a real signature.
var symbolic, mustSignAll bool

func symbolicSig(pub, digest []byte, n int) bitcoin.Signature {
	lr := n - 7 - 32
	if lr < 1 {
		lr = 1
	}
	var s bitcoin.Signature
	r := make([]byte, 32)
	copy(r, digest)
	r[0] = 1
	if lr == 33 {
		r[0] = 0x80
	} else {
		r = r[:lr]
	}
	s.R.SetBytes(r)
	b := make([]byte, 32)
	copy(b, hash160(pub))
	copy(b[20:], digest[20:])
	b[0] = 1
	if n-7-lr < 32 {
		b = b[:n-7-lr]
	}
	s.S.SetBytes(b)
	return s
}

func pubOf(k bitcoin.Key) []byte {
	for i := range keys {
		if keys[i].Equal(k) {
			return pubs[i]
		}
	}
	return k.PublicKey().Bytes()
}

// withSymbolic runs f with symbolic signatures of the lengths given by next (nil: all 72).
func withSymbolic(next func() int, f func()) {
	symbolic = true
	bitcoin.VerifSign = func(k bitcoin.Key, h bitcoin.Hash32) (bitcoin.Signature, error) {
		n := 72
		if next != nil {
			n = next()
		}
		return symbolicSig(pubOf(k), h[:], n), nil
	}
	defer func() { bitcoin.VerifSign, symbolic = nil, false }()
	f()
}

// parseDER is a strict parser of signature encodings.
func parseDER(b []byte) (*big.Int, *big.Int, error) {
	bad := errors.New("bad signature encoding")
	if len(b) < 8 || len(b) > 72 || b[0] != 0x30 || int(b[1]) != len(b)-2 || b[2] != 2 {
		return nil, nil, bad
	}
	lr := int(b[3])
	if 5+lr >= len(b) || lr == 0 {
		return nil, nil, bad
	}
	ls := int(b[5+lr])
	if lr+ls+6 != len(b) || ls == 0 || b[4+lr] != 2 {
		return nil, nil, bad
	}
	rb, sb := b[4:4+lr], b[6+lr:]
	for _, v := range [][]byte{rb, sb} {
		if v[0]&0x80 != 0 || (len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			return nil, nil, bad
		}
	}
	return new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb), nil
}

func truthy(b []byte) bool {
	for i, v := range b {
		if v != 0 {
			return !(i == len(b)-1 && v == 0x80)
		}
	}
	return false
}

func num(b []byte) int64 {
	if len(b) == 0 || len(b) > 4 {
		return 0
	}
	var r int64
	for i, v := range b {
		r |= int64(v) << (8 * i)
	}
	if b[len(b)-1]&0x80 != 0 {
		r &^= int64(0x80) << (8 * (len(b) - 1))
		return -r
	}
	return r
}

func numBytes(n int64) []byte {
	if n == 0 {
		return nil
	}
	neg := n < 0
	if neg {
		n = -n
	}
	var b []byte
	for n > 0 {
		b = append(b, byte(n))
		n >>= 8
	}
	if b[len(b)-1]&0x80 != 0 {
		b = append(b, 0)
	}
	if neg {
		b[len(b)-1] |= 0x80
	}
	return b
}

type scriptVM struct {
	stack, alt [][]byte
	conds      []bool
}

func (m *scriptVM) pop() []byte {
	if len(m.stack) == 0 {
		panic(errors.New("stack empty"))
	}
	v := m.stack[len(m.stack)-1]
	m.stack = m.stack[:len(m.stack)-1]
	return v
}
func (m *scriptVM) push(b []byte) { m.stack = append(m.stack, b) }

func (m *scriptVM) run(script []byte, pushOnly bool, tx *wire.MsgTx, index int, value uint64) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	for i := 0; i < len(script); {
		op := script[i]
		i++
		live := true
		for _, c := range m.conds {
			live = live && c
		}
		var data []byte
		isPush := false
		n := -1
		switch {
		case op <= 75:
			n = int(op)
		case op == 76:
			n = int(script[i])
			i++
			if n <= 75 {
				return errors.New("push is not minimal")
			}
		case op == 77:
			n = int(binary.LittleEndian.Uint16(script[i:]))
			i += 2
			if n <= 255 {
				return errors.New("push is not minimal")
			}
		}
		if n >= 0 {
			data = script[i : i+n]
			i += n
			isPush = true
		}
		if op >= 0x51 && op <= 0x60 {
			data = []byte{op - 0x50}
			isPush = true
		}
		if isPush {
			if live {
				m.push(data)
			}
			continue
		}
		if pushOnly {
			return errors.New("unlocking script is not push only")
		}
		if op == 0x63 || op == 0x64 { // IF NOTIF
			c := false
			if live {
				c = truthy(m.pop()) == (op == 0x63)
			}
			m.conds = append(m.conds, c)
			continue
		}
		if op == 0x67 { // ELSE
			m.conds[len(m.conds)-1] = !m.conds[len(m.conds)-1]
			continue
		}
		if op == 0x68 { // ENDIF
			m.conds = m.conds[:len(m.conds)-1]
			continue
		}
		if !live {
			continue
		}
		switch op {
		case 0x6b: // TOALTSTACK
			m.alt = append(m.alt, m.pop())
		case 0x6c: // FROMALTSTACK
			m.push(m.alt[len(m.alt)-1])
			m.alt = m.alt[:len(m.alt)-1]
		case 0x69: // VERIFY
			if !truthy(m.pop()) {
				return errors.New("verify")
			}
		case 0x75: // DROP
			m.pop()
		case 0x76: // DUP
			v := m.pop()
			m.push(v)
			m.push(v)
		case 0x87, 0x88: // EQUAL EQUALVERIFY
			eq := bytes.Equal(m.pop(), m.pop())
			if op == 0x88 {
				if !eq {
					return errors.New("equalverify")
				}
			} else if eq {
				m.push([]byte{1})
			} else {
				m.push(nil)
			}
		case 0x8b: // 1ADD
			m.push(numBytes(num(m.pop()) + 1))
		case 0xa1: // LESSTHANOREQUAL
			b, a := num(m.pop()), num(m.pop())
			if a <= b {
				m.push([]byte{1})
			} else {
				m.push(nil)
			}
		case 0xa9: // HASH160
			m.push(hash160(m.pop()))
		case 0xab: // CODESEPARATOR
		case 0xac, 0xad: // CHECKSIG CHECKSIGVERIFY
			pub, sig := m.pop(), m.pop()
			if len(sig) == 0 {
				if op == 0xad {
					return errors.New("checksigverify")
				}
				m.push(nil)
				continue
			}
			if err := checkSig(sig, pub, script, tx, index, value); err != nil {
				return err
			}
			if op == 0xac {
				m.push([]byte{1})
			}
		default:
			return fmt.Errorf("operation %02x not modelled", op)
		}
	}
	return nil
}

// refUnlocks decides whether the input's unlocking script satisfies the locking script.
func refUnlocks(tx *wire.MsgTx, index int, locking []byte, value uint64) error {
	unlocking := tx.TxIn[index].UnlockingScript
	if len(unlocking) == 0 {
		return errors.New("no unlocking script")
	}
	m := &scriptVM{}
	if err := m.run(unlocking, true, tx, index, value); err != nil {
		return fmt.Errorf("unlocking script: %s", err)
	}
	if err := m.run(locking, false, tx, index, value); err != nil {
		return fmt.Errorf("locking script: %s", err)
	}
	if len(m.conds) != 0 {
		return errors.New("unbalanced conditional")
	}
	if len(m.stack) != 1 || !truthy(m.stack[0]) {
		return fmt.Errorf("script leaves %d items", len(m.stack))
	}
	return nil
}

// serialize is the wire format, written out independently.
func serialize(tx *wire.MsgTx) []byte {
	r := le32(uint32(tx.Version))
	r = append(r, varint(uint64(len(tx.TxIn)))...)
	for _, in := range tx.TxIn {
		r = append(r, in.PreviousOutPoint.Hash[:]...)
		r = append(r, le32(in.PreviousOutPoint.Index)...)
		r = append(r, varint(uint64(len(in.UnlockingScript)))...)
		r = append(r, in.UnlockingScript...)
		r = append(r, le32(in.Sequence)...)
	}
	r = append(r, varint(uint64(len(tx.TxOut)))...)
	for _, o := range tx.TxOut {
		r = append(r, outBytes(o)...)
	}
	return append(r, le32(tx.LockTime)...)
}

// sizeOf is len(serialize(tx)) without building the bytes.
func sizeOf(tx *wire.MsgTx) int {
	n := 8 + varintSize(uint64(len(tx.TxIn))) + varintSize(uint64(len(tx.TxOut)))
	for _, in := range tx.TxIn {
		n += 40 + varintSize(uint64(len(in.UnlockingScript))) + len(in.UnlockingScript)
	}
	for _, o := range tx.TxOut {
		n += 8 + varintSize(uint64(len(o.LockingScript))) + len(o.LockingScript)
	}
	return n
}

// ratFee is the smallest whole number not below size*rate, by exact arithmetic on the float64 product
// of the rate as the library takes it.
func ratFee(size uint64, rate float64) uint64 {
	k := feeKey{size, rate}
	if v, ok := feeMemo[k]; ok {
		return v
	}
	v := ratFeeExact(size, rate)
	if len(feeMemo) < 1<<20 {
		feeMemo[k] = v
	}
	return v
}

type feeKey struct {
	size uint64
	rate float64
}

var feeMemo = map[feeKey]uint64{}

func ratFeeExact(size uint64, rate float64) uint64 {
	p := new(big.Rat).SetFloat64(rate)
	p.Mul(p, new(big.Rat).SetUint64(size))
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(p.Num(), p.Denom(), m)
	if m.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	return q.Uint64()
}
