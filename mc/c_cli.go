package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

// ---- running the command ----

// tool is the built command, kept running so that it calls main once per request. When it exits, it
// is started again for the next request.
type tool struct {
	sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var theTool tool

type ran struct {
	out      string
	requests []string
	exit     int // -1 if main returned
}

func (t *tool) run(args []string, env map[string]string) ran {
	t.Lock()
	defer t.Unlock()
	if t.cmd == nil {
		self, err := os.Executable()
		must(err)
		t.cmd = exec.Command(filepath.Join(filepath.Dir(self), "tool"))
		t.cmd.Env = []string{"VERIF_SERVE=1"}
		r, w, err := os.Pipe()
		must(err)
		t.cmd.Stdout, t.cmd.Stderr = w, w
		t.in, err = t.cmd.StdinPipe()
		must(err)
		if err := t.cmd.Start(); err != nil {
			panic("harness: cannot start the command: " + err.Error())
		}
		w.Close()
		t.out = bufio.NewReaderSize(r, 1<<16)
	}
	b, err := json.Marshal(map[string]interface{}{"Args": args, "Env": env})
	must(err)
	if _, err := t.in.Write(append(b, '\n')); err != nil {
		panic("harness: cannot ask the command: " + err.Error())
	}
	res := ran{exit: -1}
	var buf strings.Builder
	for {
		l, err := t.out.ReadString('\n')
		if l == "verif-end\n" {
			break
		}
		if strings.HasPrefix(l, "verif-request ") {
			res.requests = append(res.requests, strings.TrimSpace(l[14:]))
		} else {
			buf.WriteString(l)
		}
		if err != nil {
			t.in.Close()
			t.cmd.Wait()
			res.exit = t.cmd.ProcessState.ExitCode()
			t.cmd = nil
			break
		}
	}
	res.out = buf.String()
	return res
}

// ---- the world ----

// answer is what the server says to one request.
type answer struct {
	name   string
	status int
	kind   string
	body   func(good string) string
}

func (a answer) good() bool { return a.name == "good" }

func fixed(s string) func(string) string { return func(string) string { return s } }

var goodAnswer = answer{"good", 200, "ok", func(g string) string { return g }}

// badAnswers are the failures of a lookup.
func badAnswers(list bool) []answer {
	same := func(g string) string { return g }
	l := []answer{
		{"refused", 0, "refuse", same},
		{"reset", 200, "reset", func(g string) string { return g[:len(g)/2] }},
		{"reset at end", 200, "reset", same},
		{"not found", 404, "ok", same},
		{"server error", 500, "ok", same},
		{"too many", 429, "ok", fixed("slow down")},
		{"redirect", 302, "ok", same},
		{"multiple", 300, "ok", same},
		{"error reset", 500, "reset", same},
		{"empty", 200, "ok", fixed("")},
		{"html", 200, "ok", fixed("<html>busy</html>")},
		{"cut", 200, "ok", func(g string) string { return g[:len(g)-2] }},
		{"cut half", 200, "ok", func(g string) string { return g[:len(g)/4*2] }},
		{"odd", 200, "ok", func(g string) string { return g[:len(g)-1] }},
		{"garbage first", 200, "ok", func(g string) string { return "zz" + g }},
	}
	if list {
		return append(l, answer{"object", 200, "ok", fixed("{}")}, answer{"negative", 200, "ok", fixed(`[{"tx_pos":0,"tx_hash":"` +
			hashString(outpointHash(1)) + `","value":-1}]`)}, answer{"text value", 200, "ok", fixed(`[{"tx_pos":0,"tx_hash":"` +
			hashString(outpointHash(1)) + `","value":"5000"}]`)}, answer{"bad hash", 200, "ok",
			fixed(`[{"tx_pos":0,"tx_hash":"12","value":5000}]`)}, answer{"big index", 200, "ok", fixed(`[{"tx_pos":4294967296,"tx_hash":"` +
			hashString(outpointHash(1)) + `","value":5000}]`)})
	}
	return append(l, answer{"other transaction", 200, "ok", func(g string) string {
		o := parentTx(7)
		return hex.EncodeToString(serialize(o))
	}}, answer{"changed value", 200, "ok", func(g string) string {
		b, _ := hex.DecodeString(g)
		i := len(b) - 4 - 1
		b[i-25-1] ^= 1 // somewhere in the last output
		return hex.EncodeToString(b)
	}}, answer{"other lock time", 200, "ok", func(g string) string { return g[:len(g)-2] + "77" }},
		answer{"very many inputs", 200, "ok", fixed("01000000ffffffffffffffffff")},
		answer{"long script", 200, "ok", fixed("0100000001" + strings.Repeat("11", 36) + "feffffff00")},
		answer{"json", 200, "ok", fixed(`{"hex":"00"}`)})
}

// parentTx is a transaction on the server.
func parentTx(p int) *wire.MsgTx {
	tx := wire.NewMsgTx(1)
	tx.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: outpointHash(800 + p), Index: uint32(p)}, bitcoin.Script{0x51}))
	add := func(v uint64, s bitcoin.Script) { tx.AddTxOut(wire.NewTxOut(v, s)) }
	switch p {
	case 0:
		add(100000, p2pkh(0))
		add(5000, p2pkh(1))
		add(7000, p2pk(0))
		add(600, p2pkh(0))
	case 1:
		add(250, p2pkh(0))
		add(3, p2pkh(0))
		add(0, opReturn(20))
		add(2000000000000000, p2pkh(0))
	default:
		add(1234, p2pkh(0))
	}
	return tx
}

type spend struct {
	hash  bitcoin.Hash32
	index uint32
	value uint64
	lock  bitcoin.Script
}

func (s spend) arg() string { return fmt.Sprintf("%s:%d", hashString(s.hash), s.index) }

// spends are all outputs on the server.
func spends() []spend {
	var l []spend
	for p := 0; p < 2; p++ {
		tx := parentTx(p)
		for i, o := range tx.TxOut {
			l = append(l, spend{*tx.TxHash(), uint32(i), o.Value, o.LockingScript})
		}
	}
	return l
}

func txURL(net string, h bitcoin.Hash32) string {
	return "https://api.whatsonchain.com/v1/bsv/" + net + "/tx/" + hashString(h) + "/hex"
}

func listURL(net string, s bitcoin.Script) string {
	return "https://api.whatsonchain.com/v1/bsv/" + net + "/script/" + hashString(bitcoin.Hash32(sha256.Sum256(s))) + "/unspent"
}

func fixture(url string, a answer, good string) string {
	return fmt.Sprintf("GET %s %d %s %s\n", url, a.status, a.kind, strconv.Quote(a.body(good)))
}

type setting struct {
	fee, dust string
	net       string // mainnet, testnet or empty
}

func (c setting) env(http string) map[string]string {
	e := map[string]string{"VERIF_HTTP": http + "\n-"}
	if c.fee != "" {
		e["FEE_RATE"] = c.fee
	}
	if c.dust != "" {
		e["DUST_FEE_RATE"] = c.dust
	}
	if c.net != "" {
		e["NETWORK"] = c.net
	}
	return e
}

func (c setting) rates() (float32, float32) {
	f, d := float32(0.05), float32(0)
	if c.fee != "" {
		v, _ := strconv.ParseFloat(c.fee, 32)
		f = float32(v)
	}
	if c.dust != "" {
		v, _ := strconv.ParseFloat(c.dust, 32)
		d = float32(v)
	}
	return f, d
}

func (c setting) url() string {
	if c.net == "" || c.net == "mainnet" {
		return "main"
	}
	return "test"
}

func (c setting) bnet() bitcoin.Network {
	if c.url() == "main" {
		return bitcoin.MainNet
	}
	return bitcoin.TestNet
}

// server answers for all parents on the network.
func server(net string) string {
	r := ""
	for p := 0; p < 2; p++ {
		tx := parentTx(p)
		r += fixture(txURL(net, *tx.TxHash()), goodAnswer, hex.EncodeToString(serialize(tx)))
	}
	return r
}

func wif(k int, net bitcoin.Network) string {
	n, err := bitcoin.KeyFromNumber(keys[k].Number(), net)
	must(err)
	return n.String()
}

func addressText(s bitcoin.Script, net bitcoin.Network) string {
	return bitcoin.NewAddressFromRawAddress(addrOf(s), net).String()
}

// ---- judging what was printed ----

type printed struct {
	tx    *wire.MsgTx
	ext   []byte
	spent []*wire.TxOut
}

var hexLine = regexp.MustCompile(`(?m)^(Tx|Extended Tx|Cumulative Extended Txs) Hex : ([0-9a-fA-F]*)$`)

// readPrinted reads the transactions printed, with their extended forms.
func readPrinted(x *X, r ran) (txs []printed, cumulative []byte) {
	for _, m := range hexLine.FindAllStringSubmatch(r.out, -1) {
		b, err := hex.DecodeString(m[2])
		if err != nil {
			x.Failf("printed %s", m[0])
		}
		switch m[1] {
		case "Tx":
			tx := &wire.MsgTx{}
			rd := bytes.NewReader(b)
			if err := tx.Deserialize(rd); err != nil || rd.Len() != 0 || !bytes.Equal(serialize(tx), b) {
				x.Failf("printed something else than a transaction: %s", m[0])
			}
			txs = append(txs, printed{tx: tx})
			if !strings.Contains(r.out, txid(tx)) {
				x.Failf("the identifier of the transaction is not printed:\n%s", r.out)
			}
		case "Extended Tx":
			if len(txs) == 0 {
				x.Failf("extended form without transaction")
			}
			txs[len(txs)-1].ext = b
		default:
			cumulative = b
		}
	}
	return
}

// extended is the reference for the extended form.
func extended(p printed) []byte {
	b := le32(uint32(p.tx.Version))
	b = append(b, 0, 0, 0, 0, 0, 0xef)
	b = append(b, varint(uint64(len(p.tx.TxIn)))...)
	for i, in := range p.tx.TxIn {
		b = append(b, in.PreviousOutPoint.Hash[:]...)
		b = append(b, le32(in.PreviousOutPoint.Index)...)
		b = append(b, varint(uint64(len(in.UnlockingScript)))...)
		b = append(b, in.UnlockingScript...)
		b = append(b, le32(in.Sequence)...)
		b = append(b, outBytes(p.spent[i])...)
	}
	b = append(b, varint(uint64(len(p.tx.TxOut)))...)
	for _, o := range p.tx.TxOut {
		b = append(b, outBytes(o)...)
	}
	return append(b, le32(p.tx.LockTime)...)
}

// judgePrinted checks one transaction: it spends exactly the outputs given, in any order, each validly
// signed, and pays the fee rate.
func judgePrinted(x *X, p *printed, asked []spend, own bitcoin.Script, cfg setting, isChange func(i int, o *wire.TxOut) bool) {
	tx := p.tx
	s := snap{Change: string(own)}
	s.FeeRate, s.DustRate = cfg.rates()
	if len(tx.TxIn) != len(asked) || len(tx.TxIn) == 0 {
		x.Failf("%d outputs to spend, the transaction spends %d", len(asked), len(tx.TxIn))
	}
	if len(tx.TxOut) == 0 {
		x.Failf("the transaction has no output")
	}
	seen := map[int]bool{}
	for i, in := range tx.TxIn {
		found := -1
		for j, a := range asked {
			if a.hash == in.PreviousOutPoint.Hash && a.index == in.PreviousOutPoint.Index && !seen[j] {
				found = j
			}
		}
		if found < 0 {
			x.Failf("spends %s %d, which was not asked for", in.PreviousOutPoint.Hash, in.PreviousOutPoint.Index)
		}
		seen[found] = true
		a := asked[found]
		if err := refUnlocks(tx, i, a.lock, a.value); err != nil {
			x.Failf("input %d is not validly signed: %s", i, err)
		}
		p.spent = append(p.spent, wire.NewTxOut(a.value, a.lock))
		s.Ins = append(s.Ins, inSnap{Script: string(a.lock), Value: a.value})
	}
	for i, o := range tx.TxOut {
		s.Outs = append(s.Outs, outSnap{Script: string(o.LockingScript), Value: o.Value, Rem: isChange(i, o)})
		if o.Value > 2100000000000000 {
			x.Failf("output %d is %d", i, o.Value)
		}
	}
	fee := feeOf(s)
	if min := int64(ratFee(uint64(sizeOf(tx)), float64(s.FeeRate))); fee < min {
		x.Failf("the fee is %d, should be at least %d", fee, min)
	}
	bound := int64(0)
	if !hasRem(s) {
		bound = changeBound(s)
		if d := int64(dustOf(string(own), s.DustRate)); d > bound {
			bound += d
		}
	}
	if fee > estFeeOf(s)+bound {
		x.Failf("the fee is %d, the finished transaction needs %d and %d may be kept", fee, estFeeOf(s), bound)
	}
	if p.ext != nil && !bytes.Equal(p.ext, extended(*p)) {
		x.Failf("the extended form is %x, should be %x", p.ext, extended(*p))
	}
	x.State(deepHash(tx.TxOut))
}

func noCrash(x *X, r ran) {
	x.Op()
	if r.exit != -1 && r.exit != 0 && r.exit != 1 || strings.Contains(r.out, "panic: ") {
		x.Failf("the command crashed (%d):\n%s", r.exit, r.out)
	}
}

// nothing requires that no transaction is printed.
func nothing(x *X, r ran, why string) {
	noCrash(x, r)
	if txs, c := readPrinted(x, r); len(txs) > 0 || c != nil {
		x.Failf("%s, yet a transaction is printed:\n%s", why, r.out)
	}
	x.Outcome("nothing")
}

// needs is the fee of spending the outputs into outputs with the scripts.
func needs(cfg setting, asked []spend, outs ...bitcoin.Script) (total, fee int64) {
	var s snap
	s.FeeRate, s.DustRate = cfg.rates()
	for _, a := range asked {
		s.Ins = append(s.Ins, inSnap{Script: string(a.lock), Value: a.value})
		total += int64(a.value)
	}
	for _, o := range outs {
		s.Outs = append(s.Outs, outSnap{Script: string(o)})
	}
	return total, estFeeOf(s)
}

// smallest is the least an output must hold to be accepted: its dust limit and its own fee.
func smallest(cfg setting, script bitcoin.Script) int64 {
	fee, dust := cfg.rates()
	d, f := dustOf(string(script), dust), ratFee(uint64(refOutputSize(len(script))), float64(fee))
	if f > d {
		d = f
	}
	return int64(d)
}

// spendableBy tells that every output asked for can be signed for by key 0 and appears once.
func spendableBy(asked []spend) bool {
	seen := map[string]bool{}
	for _, a := range asked {
		if seen[a.arg()] || !bytes.Equal(a.lock, p2pkh(0)) && !bytes.Equal(a.lock, p2pk(0)) {
			return false
		}
		seen[a.arg()] = true
	}
	return true
}

// judgeSend checks create_send.
func judgeSend(x *X, r ran, cfg setting, asked []spend, dest bitcoin.Script, amount int64) {
	noCrash(x, r)
	txs, _ := readPrinted(x, r)
	own := p2pkh(0)
	toSelf := bytes.Equal(dest, own)
	if len(txs) == 0 {
		x.Outcome("refused")
		total, fee := needs(cfg, asked, dest)
		d := smallest(cfg, dest)
		if toSelf {
			s := snap{Change: string(own)}
			s.FeeRate, s.DustRate = cfg.rates()
			amount = changeBound(s) + d
		}
		if spendableBy(asked) && amount >= d && amount > 0 && total >= amount+fee {
			x.Failf("%d can be sent with a fee of %d from %d, yet:\n%s", amount, fee, total, r.out)
		}
		return
	}
	if len(txs) != 1 {
		x.Failf("%d transactions printed", len(txs))
	}
	p := &txs[0]
	paid := 0
	judgePrinted(x, p, asked, own, cfg, func(i int, o *wire.TxOut) bool { return bytes.Equal(o.LockingScript, own) })
	for i, o := range p.tx.TxOut {
		switch {
		case !toSelf && bytes.Equal(o.LockingScript, dest) && int64(o.Value) == amount:
			paid++
		case bytes.Equal(o.LockingScript, own):
		default:
			x.Failf("output %d pays %d to %x", i, o.Value, []byte(o.LockingScript))
		}
	}
	if !toSelf && paid != 1 || len(p.tx.TxOut) > paid+1 {
		x.Failf("%d outputs, %d of them the payment", len(p.tx.TxOut), paid)
	}
	if p.ext == nil {
		x.Failf("no extended form printed")
	}
	x.Outcome("sent with %d outputs", len(p.tx.TxOut))
}

// judgeChain checks create_sends.
func judgeChain(x *X, r ran, cfg setting, asked []spend, count int) {
	noCrash(x, r)
	txs, cumulative := readPrinted(x, r)
	own := p2pkh(0)
	if len(txs) > count {
		x.Failf("%d transactions printed, asked for %d", len(txs), count)
	}
	rest := asked
	var all []byte
	for i := range txs {
		p := &txs[i]
		judgePrinted(x, p, rest, own, cfg, func(i int, o *wire.TxOut) bool { return true })
		if len(p.tx.TxOut) != 1 || !bytes.Equal(p.tx.TxOut[0].LockingScript, own) {
			x.Failf("transaction %d does not return everything to the key", i)
		}
		if p.ext == nil {
			x.Failf("no extended form printed")
		}
		all = append(all, p.ext...)
		rest = []spend{{*p.tx.TxHash(), 0, p.tx.TxOut[0].Value, own}}
	}
	x.Outcome("%d of %d", len(txs), count)
	if len(txs) == count {
		if !bytes.Equal(cumulative, all) {
			x.Failf("the extended forms together are %x, should be %x", cumulative, all)
		}
		return
	}
	if cumulative != nil {
		x.Failf("extended forms of an incomplete chain printed")
	}
	s := snap{Change: string(own)}
	s.FeeRate, s.DustRate = cfg.rates()
	total, fee := needs(cfg, rest, own)
	if spendableBy(rest) && total >= fee+changeBound(s)+smallest(cfg, own) {
		x.Failf("%d can be sent with a fee of %d, yet:\n%s", total, fee, r.out)
	}
}

// judgeConsolidate checks consolidate.
func judgeConsolidate(x *X, r ran, cfg setting, asked []spend, dest bitcoin.Script) {
	noCrash(x, r)
	txs, _ := readPrinted(x, r)
	if len(txs) == 0 {
		x.Outcome("refused")
		total, fee := needs(cfg, asked, dest)
		if len(asked) > 0 && spendableBy(asked) && total >= fee+smallest(cfg, dest) && total > fee {
			x.Failf("%d can be consolidated with a fee of %d, yet:\n%s", total, fee, r.out)
		}
		return
	}
	if len(txs) != 1 {
		x.Failf("%d transactions printed", len(txs))
	}
	judgePrinted(x, &txs[0], asked, dest, cfg, func(i int, o *wire.TxOut) bool { return true })
	if o := txs[0].tx.TxOut; len(o) != 1 || !bytes.Equal(o[0].LockingScript, dest) {
		x.Failf("does not pay everything to the recipient:\n%s", r.out)
	}
	x.Outcome("consolidated %d", len(asked))
}

// listing is the server's list of unspent outputs.
func listing(l []spend) string {
	r := []map[string]interface{}{}
	for i, s := range l {
		r = append(r, map[string]interface{}{"height": i, "tx_pos": s.index, "tx_hash": hashString(s.hash), "value": s.value})
	}
	b, _ := json.Marshal(r)
	return string(b)
}

var settings = []setting{{"", "", ""}, {"0.5", "", "testnet"}, {"0.05", "0.05", "mainnet"}, {"1.0", "0.25", ""}, {"0", "0", "testnet"}, {"0.05", "1.0", ""}}

func argsOf(l []spend) []string {
	var r []string
	for _, s := range l {
		r = append(r, s.arg())
	}
	return r
}

func around(vs ...int64) []int64 {
	var r []int64
	for _, v := range vs {
		for d := int64(-1); d <= 1; d++ {
			dup := false
			for _, o := range r {
				dup = dup || o == v+d
			}
			if v+d >= 0 && !dup {
				r = append(r, v+d)
			}
		}
	}
	return r
}

func init() {
	register(&Check{ID: "C23", Assumptions: []string{
		"the server's list of unspent outputs is truthful; a transaction it returns is not taken on trust",
		"the command is kept running and its main function called once per command line; it is started again whenever it exits",
	}, Scenarios: func(thorough bool) []*Scenario {
		maxOuts := depthOf(thorough, 2, 3)
		return []*Scenario{{
			Name: "sends", Depth: 3,
			Bounds: "one to two (thorough: three) of eight outputs in any order, also twice the same; own, other and public key destinations; every amount " +
				"within one of each threshold; six settings of rates and network",
			Body: func(x *X) {
				cfg := Pick(x, "setting", settings)
				pool := spends()
				var asked []spend
				for i := 0; i < 1+x.Choose("outpoints", maxOuts); i++ {
					asked = append(asked, Pick(x, "outpoint", pool))
				}
				dest := Pick(x, "to", []bitcoin.Script{p2pkh(3), p2pkh(0), p2pk(3)})
				total, one := needs(cfg, asked, dest)
				_, two := needs(cfg, asked, dest, p2pkh(0))
				s := snap{Change: string(p2pkh(0))}
				s.FeeRate, s.DustRate = cfg.rates()
				amounts := around(1, total-one, total-two, total-two-int64(dustOf(s.Change, s.DustRate)), total-one-changeBound(s), total)
				if dest[0] == 33 || x.Thorough && len(asked) == 3 {
					amounts = []int64{1, total - one, total - two, total + 1}
				}
				amount := Pick(x, "amount", amounts)
				if amount < 0 {
					return
				}
				args := append([]string{"create_send", wif(0, cfg.bnet()), addressText(dest, cfg.bnet()), fmt.Sprint(amount)}, argsOf(asked)...)
				judgeSend(x, theTool.run(args, cfg.env(server(cfg.url()))), cfg, asked, dest, amount)
			},
		}, {
			Name: "chains", Depth: 3,
			Bounds: "chains of one to six transactions from one or two of eight outputs, six settings",
			Body: func(x *X) {
				cfg := Pick(x, "setting", settings)
				pool := spends()
				var asked []spend
				for i := 0; i < 1+x.Choose("outpoints", 2); i++ {
					asked = append(asked, Pick(x, "outpoint", pool))
				}
				count := Pick(x, "count", []int{1, 2, 3, 6})
				args := append([]string{"create_sends", fmt.Sprint(count), wif(0, cfg.bnet())}, argsOf(asked)...)
				judgeChain(x, theTool.run(args, cfg.env(server(cfg.url()))), cfg, asked, count)
			},
		}, {
			Name: "chain ends", Depth: 1,
			Bounds: "every value of the spent output from 0 to 400 at the default rates and to 1200 at rate 0.5",
			Body: func(x *X) {
				cfg := settings[0]
				v := x.Choose("value", 1600)
				if v >= 400 {
					cfg, v = settings[1], v-400
				}
				tx := wire.NewMsgTx(1)
				tx.AddTxOut(wire.NewTxOut(uint64(v), p2pkh(0)))
				asked := []spend{{*tx.TxHash(), 0, uint64(v), p2pkh(0)}}
				count := 1 + x.Choose("count", 3)
				args := append([]string{"create_sends", fmt.Sprint(count), wif(0, cfg.bnet())}, argsOf(asked)...)
				f := fixture(txURL(cfg.url(), *tx.TxHash()), goodAnswer, hex.EncodeToString(serialize(tx)))
				judgeChain(x, theTool.run(args, cfg.env(f)), cfg, asked, count)
			},
		}, {
			Name: "consolidations", Depth: 3,
			Bounds: "lists of up to three outputs of seven values, also repeated; seven ways of naming the recipient; six settings",
			Body: func(x *X) {
				cfg := Pick(x, "setting", settings)
				n := x.Choose("listed", 4)
				var l []spend
				for i := 0; i < n; i++ {
					v := Pick(x, "value", []uint64{1, 9, 60, 546, 1000, 100000000, 500000000000000})
					o := spend{outpointHash(i), uint32(i * 3), v, p2pkh(0)}
					if i == 2 && x.Bool("repeated") {
						o = l[0]
					}
					l = append(l, o)
				}
				dest := p2pkh(3)
				var to []string
				k := 7
				if n == 3 && !x.Thorough {
					k = 1
				}
				switch x.Choose("recipient", k) {
				case 0:
					to = []string{addressText(dest, cfg.bnet())}
				case 1:
					to = strings.Fields(dest.String())
				case 2:
					to = []string{dest.String()}
				case 3:
					to = []string{bitcoin.BIP0276Encode(cfg.bnet(), bitcoin.BIP0276_ScriptPrefix, dest)}
				case 4:
					dest = p2pkh(0)
					to = []string{addressText(dest, cfg.bnet())}
				case 5:
					dest = p2pk(3)
					to = strings.Fields(dest.String())
				case 6:
					dest = multi(2, 3, 4, 5)
					to = []string{bitcoin.BIP0276Encode(cfg.bnet(), bitcoin.BIP0276_ScriptPrefix, dest)}
				}
				f := fixture(listURL(cfg.url(), p2pkh(0)), goodAnswer, listing(l))
				r := theTool.run(append([]string{"consolidate", wif(0, cfg.bnet())}, to...), cfg.env(f))
				dup := n == 3 && l[2].hash == l[0].hash
				if dup || n == 0 {
					nothing(x, r, "a repeated or empty list")
					return
				}
				judgeConsolidate(x, r, cfg, l, dest)
			},
		}, {
			Name: "many", Depth: 1,
			Bounds: "consolidations of 4 to 300 listed outputs in two orders; sends of 4 to 120 outputs of one transaction; chains of 7 to 40 transactions",
			Body: func(x *X) {
				cfg := Pick(x, "setting", settings)
				switch x.Choose("command", 3) {
				case 0:
					n := Pick(x, "listed", []int{4, 5, 9, 10, 11, 16, 50, 100, 101, 252, 253, 254, 300})
					var l []spend
					for i := 0; i < n; i++ {
						l = append(l, spend{outpointHash(i), uint32(i), uint64(1000 + i*7%13), p2pkh(0)})
					}
					if x.Bool("same transaction") {
						for i := range l {
							l[i].hash = outpointHash(7)
						}
					}
					dest := p2pkh(3)
					f := fixture(listURL(cfg.url(), p2pkh(0)), goodAnswer, listing(l))
					r := theTool.run([]string{"consolidate", wif(0, cfg.bnet()), addressText(dest, cfg.bnet())}, cfg.env(f))
					judgeConsolidate(x, r, cfg, l, dest)
				case 1:
					n := Pick(x, "outpoints", []int{4, 5, 9, 10, 17, 33, 120})
					tx := wire.NewMsgTx(1)
					for i := 0; i < n; i++ {
						tx.AddTxOut(wire.NewTxOut(uint64(2000+i), p2pkh(0)))
					}
					var l []spend
					for i := 0; i < n; i++ {
						k := i
						if i%2 == 1 {
							k = n - 1 - i/2
						} else {
							k = i / 2
						}
						l = append(l, spend{*tx.TxHash(), uint32(k), tx.TxOut[k].Value, p2pkh(0)})
					}
					amount := Pick(x, "amount", []int64{1000, int64(n) * 1000, int64(n)*2000 - int64(n)*150 - 200})
					dest := p2pkh(3)
					f := fixture(txURL(cfg.url(), *tx.TxHash()), goodAnswer, hex.EncodeToString(serialize(tx)))
					args := append([]string{"create_send", wif(0, cfg.bnet()), addressText(dest, cfg.bnet()), fmt.Sprint(amount)}, argsOf(l)...)
					judgeSend(x, theTool.run(args, cfg.env(f)), cfg, l, dest, amount)
				case 2:
					count := Pick(x, "count", []int{7, 9, 10, 11, 25, 40})
					tx := wire.NewMsgTx(1)
					tx.AddTxOut(wire.NewTxOut(Pick(x, "value", []uint64{3000, 10000, 100000000}), p2pkh(0)))
					asked := []spend{{*tx.TxHash(), 0, tx.TxOut[0].Value, p2pkh(0)}}
					args := append([]string{"create_sends", fmt.Sprint(count), wif(0, cfg.bnet())}, argsOf(asked)...)
					f := fixture(txURL(cfg.url(), *tx.TxHash()), goodAnswer, hex.EncodeToString(serialize(tx)))
					judgeChain(x, theTool.run(args, cfg.env(f)), cfg, asked, count)
				}
			},
		}, {
			Name: "failing lookups", Depth: 2,
			Bounds: "one to three outputs of three transactions: every combination of a good answer and each failing answer at each lookup, for sends and " +
				"chains; every failing answer for consolidation",
			Body: func(x *X) {
				cfg := Pick(x, "setting", settings[:2])
				if x.Choose("command", 3) == 2 {
					a := Pick(x, "answer", badAnswers(true))
					f := fixture(listURL(cfg.url(), p2pkh(0)), a, listing([]spend{{outpointHash(1), 0, 5000, p2pkh(0)}}))
					nothing(x, theTool.run([]string{"consolidate", wif(0, cfg.bnet()), addressText(p2pkh(3), cfg.bnet())}, cfg.env(f)), a.name)
					return
				}
				chain := x.Bool("chain")
				n := 1 + x.Choose("lookups", depthOf(x.Thorough, 2, 3))
				f := ""
				good := true
				why := ""
				var asked []spend
				for i := 0; i < n; i++ {
					tx := parentTx([]int{0, 2, 1}[i])
					if i == 1 {
						tx.LockTime = 5
					}
					a := goodAnswer
					if k := x.Choose("answer", 1+len(badAnswers(false))); k > 0 {
						a = badAnswers(false)[k-1]
						good = false
						why += a.name + " "
					}
					f += fixture(txURL(cfg.url(), *tx.TxHash()), a, hex.EncodeToString(serialize(tx)))
					asked = append(asked, spend{*tx.TxHash(), 0, tx.TxOut[0].Value, tx.TxOut[0].LockingScript})
				}
				args := append([]string{"create_send", wif(0, cfg.bnet()), addressText(p2pkh(3), cfg.bnet()), "900"}, argsOf(asked)...)
				if chain {
					args = append([]string{"create_sends", "2", wif(0, cfg.bnet())}, argsOf(asked)...)
				}
				r := theTool.run(args, cfg.env(f))
				switch {
				case !good:
					nothing(x, r, why)
				case chain:
					judgeChain(x, r, cfg, asked, 2)
				default:
					judgeSend(x, r, cfg, asked, p2pkh(3), 900)
				}
			},
		}, {
			Name: "answers cut short", Depth: 1,
			Bounds: "a transaction or list cut at every byte, and every byte of the transaction changed in two ways",
			Body: func(x *X) {
				cfg := settings[0]
				tx := parentTx(0)
				h := hex.EncodeToString(serialize(tx))
				l := listing([]spend{{outpointHash(1), 0, 5000, p2pkh(0)}, {outpointHash(2), 1, 6000, p2pkh(0)}})
				switch x.Choose("kind", 3) {
				case 0:
					f := fixture(txURL("main", *tx.TxHash()), goodAnswer, h[:x.Choose("length", len(h))])
					nothing(x, theTool.run([]string{"create_send", wif(0, bitcoin.MainNet), addressText(p2pkh(3), bitcoin.MainNet), "900",
						hashString(*tx.TxHash()) + ":0"}, cfg.env(f)), "cut")
				case 1:
					f := fixture(listURL("main", p2pkh(0)), goodAnswer, l[:x.Choose("length", len(l))])
					nothing(x, theTool.run([]string{"consolidate", wif(0, bitcoin.MainNet), addressText(p2pkh(3), bitcoin.MainNet)}, cfg.env(f)), "cut")
				case 2:
					b := serialize(tx)
					b[x.Choose("byte", len(b))] ^= byte(1 + 127*x.Choose("bit", 2))
					f := fixture(txURL("main", *tx.TxHash()), goodAnswer, hex.EncodeToString(b))
					nothing(x, theTool.run([]string{"create_sends", "1", wif(0, bitcoin.MainNet), hashString(*tx.TxHash()) + ":0"}, cfg.env(f)),
						"a changed transaction")
				}
			},
		}, {
			Name: "invalid arguments", Depth: 2,
			Bounds: "each command with every argument replaced by each of its malformed forms, alone and in pairs, left out, and the command line cut short; " +
				"invalid settings",
			Body: func(x *X) {
				cfg := settings[0]
				w, a := wif(0, bitcoin.MainNet), addressText(p2pkh(3), bitcoin.MainNet)
				sp := spends()[0]
				o := sp.arg()
				badKeys := []string{"", "x", w[:len(w)-1], w + "1", w[1:], strings.ToLower(w), a, "6" + w[1:]}
				badAddrs := []string{"", "x", a[:len(a)-1], a + "1", strings.ToUpper(a), w, "0", "1" + a}
				badAmounts := []string{"", "x", "-1", "-900", "-100000", "-99999999", "1.5", "0x10", "1e3", "99999999999999999999", "9223372036854775807",
					"-9223372036854775808", "18446744073709551615", "999999999", "900 ", "9,00"}
				badCounts := []string{"", "x", "-1", "0", "1.5", "-9223372036854775808", "99999999999999999999"}
				badOuts := []string{"", ":", "x:0", o[:len(o)-2], o[:64] + ":", o[:64] + ":x", o[:64] + ":-1", o[:64] + ":4294967296", o[:64] + ":-4294967296", o[:64] + ":4",
					o[:64] + ":4294967295", o[1:], "0" + o, o + ":0", o[:64] + "0", strings.Repeat("0", 64) + ":0", o[:63] + "g:0",
					o[:64] + ":18446744073709551616", "a" + o[1:]}
				var args []string
				var bad [][]string
				switch x.Choose("command", 3) {
				case 0:
					args = []string{"create_send", w, a, "900", o}
					bad = [][]string{nil, badKeys, badAddrs, badAmounts, badOuts}
				case 1:
					args = []string{"create_sends", "2", w, o}
					bad = [][]string{nil, badCounts, badKeys, badOuts}
				case 2:
					args = []string{"consolidate", w, a}
					b := bitcoin.BIP0276Encode(bitcoin.MainNet, bitcoin.BIP0276_ScriptPrefix, p2pkh(3))
					badTo := []string{"", " ", "x", a[:len(a)-1], a + "1", strings.ToUpper(a), w, "1" + a, addressText(p2pkh(3), bitcoin.TestNet),
						b[:len(b)-1], b + "0", bitcoin.BIP0276Encode(bitcoin.TestNet, bitcoin.BIP0276_ScriptPrefix, p2pkh(3)),
						bitcoin.BIP0276Encode(bitcoin.MainNet, "bitcoin-template", p2pkh(3)), "OP_DUP OP_NOPE", "0xabc"}
					bad = [][]string{{"", "Consolidate", "send"}, badKeys, badTo}
				}
				f := server("main") + fixture(listURL("main", p2pkh(0)), goodAnswer, listing([]spend{{outpointHash(1), 0, 5000, p2pkh(0)}}))
				switch x.Choose("kind", 4) {
				case 0:
					i := x.Choose("position", len(args))
					if bad[i] == nil {
						return
					}
					args[i] = Pick(x, "form", bad[i])
					if j := x.Choose("second", len(args)); j > i && bad[j] != nil {
						args[j] = Pick(x, "form", bad[j])
					}
					if args[0] != "consolidate" && x.Bool("extra outpoint") {
						args = append(args, spends()[2].arg())
					}
				case 1:
					args = args[:x.Choose("length", len(args))]
				case 2:
					i := 1 + x.Choose("left out", len(args)-1)
					args = append(append([]string{}, args[:i]...), args[i+1:]...)
				case 3:
					cfg = Pick(x, "setting", []setting{{"x", "", ""}, {"", "x", ""}, {"", "", "moon"}, {"0.5.5", "", ""}})
				}
				nothing(x, theTool.run(args, cfg.env(f)), fmt.Sprintf("invalid arguments %q", args))
			},
		}, {
			Name: "settings", Depth: 1,
			Bounds: "rates and network from the environment, from a file, or both; requests go to the network configured",
			Body: func(x *X) {
				cfg := Pick(x, "setting", settings)
				env := cfg.env(server(cfg.url()))
				if x.Bool("file") {
					f, err := os.CreateTemp("", "verif-settings")
					must(err)
					defer os.Remove(f.Name())
					fr, dr := cfg.rates()
					n := "mainnet"
					if cfg.url() == "test" {
						n = "testnet"
					}
					fmt.Fprintf(f, `{"fee_rate":%v,"dust_fee_rate":%v,"Network":"%s"}`, fr, dr, n)
					f.Close()
					delete(env, "FEE_RATE")
					delete(env, "DUST_FEE_RATE")
					delete(env, "NETWORK")
					if x.Bool("both") {
						env["FEE_RATE"] = "0.75"
						env["NETWORK"] = "testnet"
					}
					env["CONFIG_FILE"] = f.Name()
				}
				asked := []spend{spends()[0], spends()[2]}
				args := append([]string{"create_send", wif(0, cfg.bnet()), addressText(p2pkh(3), cfg.bnet()), "900"}, argsOf(asked)...)
				r := theTool.run(args, env)
				for _, q := range r.requests {
					if !strings.HasPrefix(q, "GET https://api.whatsonchain.com/v1/bsv/"+cfg.url()+"/") {
						x.Failf("asked %s", q)
					}
				}
				judgeSend(x, r, cfg, asked, p2pkh(3), 900)
			},
		}}
	}})
}
