package main

import (
	"bytes"
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// ---- scheduler ----

// thread is one of the goroutines of a schedule. Only one runs at a time; it gives way when it has
// passed as many scheduling points as the schedule says.
type thread struct {
	id      int
	gid     string
	points  int
	stopAt  int
	draws   int
	sigs    int
	resume  chan struct{}
	end     chan struct{}
	done    bool
	waiting bool // for a lock
	panic   interface{}
	stack   string
	result  string
}

type event struct {
	t    *thread
	done bool
}

type scheduler struct {
	current *thread
	events  chan event
	threads []*thread
	locks   atomic.Bool // a thread was seen waiting for a lock
	dead    bool
}

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

// me is the thread that is executing. A thread that got its lock runs on beside the current one until
// its next point.
//
//go:norace
func (s *scheduler) me() *thread {
	if s.locks.Load() {
		g := goid()
		for _, t := range s.threads {
			if t.gid == g {
				return t
			}
		}
	}
	return s.current
}

//go:norace
func (s *scheduler) point() {
	t := s.me()
	if t == nil {
		return
	}
	t.points++
	if t.points == t.stopAt || t != s.current {
		hideSync()
		s.events <- event{t, false}
		<-t.resume
		showSync()
	}
}

//go:norace
func (s *scheduler) handle(e event) {
	e.t.done, e.t.waiting = e.done, false
}

// run lets the thread run until it has passed n more points (n < 0: to its end) or waits for a lock.
//
//go:norace
func (s *scheduler) run(t *thread, n int) {
	if t.done || t.waiting || n == 0 {
		return
	}
	s.current = t
	t.stopAt = -1
	if n > 0 {
		t.stopAt = t.points + n
	}
	hideSync()
	defer showSync()
	t.resume <- struct{}{}
	for {
		select {
		case e := <-s.events:
			s.handle(e)
			if e.t == t {
				return
			}
			continue
		default:
		}
		timer := time.NewTimer(20 * time.Millisecond)
		select {
		case e := <-s.events:
			timer.Stop()
			s.handle(e)
			if e.t == t {
				return
			}
		case <-timer.C:
			if blocked(t.gid) {
				s.locks.Store(true)
				t.waiting = true
				return
			}
		}
	}
}

// wake waits for a thread that was waiting for a lock.
func (s *scheduler) wake() bool {
	hideSync()
	defer showSync()
	select {
	case e := <-s.events:
		s.handle(e)
		return true
	case <-time.After(3 * time.Second):
		return false
	}
}

// blocked tells that a goroutine waits for a lock.
func blocked(gid string) bool {
	b := make([]byte, 1<<18)
	for _, g := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		if strings.HasPrefix(g, "goroutine "+gid+" ") {
			head := strings.SplitN(g, "\n", 2)[0]
			return strings.Contains(head, "sync.") || strings.Contains(head, "semacquire") ||
				(strings.Contains(head, "chan ") && !strings.Contains(g, "main.(*scheduler).point"))
		}
	}
	return false
}

// install makes draws, signature lengths and points those of the thread that is executing.
func (s *scheduler) install(f func()) {
	hook := func() { s.point() }
	draw := func(n int64) int64 {
		t := s.me()
		t.draws++
		v := int64(t.draws*7 + 3 + t.id*5)
		if n < 0 {
			n = -n
		}
		if n == 0 {
			return v << 40
		}
		return v % n
	}
	txbuilder.VerifPoint, fees.VerifPoint = hook, hook
	rand.VerifChoose, randv2.VerifChoose = draw, draw
	defer func() {
		txbuilder.VerifPoint, fees.VerifPoint = nil, nil
		rand.VerifChoose, randv2.VerifChoose = nil, nil
	}()
	withSymbolic(func() int {
		t := s.me()
		t.sigs++
		return []int{72, 71, 70}[(t.sigs+t.id)%3]
	}, f)
}

type prog struct {
	id int
	f  func() string
}

// interleave runs the programs under a schedule: the first runs for cuts[0] points, the next for
// cuts[1], and so on in turn; then each runs to its end in turn. atSwitch is called at every switch.
func interleave(progs []prog, first int, cuts []int, atSwitch func()) *scheduler {
	s := &scheduler{events: make(chan event)}
	start := func(p prog) {
		t := &thread{id: p.id, resume: make(chan struct{}), end: make(chan struct{})}
		s.threads = append(s.threads, t)
		ready := make(chan struct{})
		go func() {
			defer func() {
				if r := recover(); r != nil {
					t.panic, t.stack = r, trimStack(string(debug.Stack()))
				}
				close(t.end)
				hideSync()
				s.events <- event{t, true}
			}()
			t.gid = goid()
			close(ready)
			hideSync()
			<-t.resume
			showSync()
			t.result = p.f()
		}()
		<-ready
	}
	s.install(func() {
		for _, p := range progs {
			start(p)
		}
		at := first
		for _, n := range cuts {
			s.run(s.threads[at], n)
			atSwitch()
			at = (at + 1) % len(progs)
		}
		for {
			left, moved := false, false
			for i := range s.threads {
				t := s.threads[(at+i)%len(s.threads)]
				if !t.done && !t.waiting {
					s.run(t, -1)
					moved = true
				}
				left = left || !t.done
			}
			if !left {
				break
			}
			if !moved && !s.wake() {
				s.dead = true
				return
			}
		}
		for _, t := range s.threads {
			<-t.end
		}
	})
	return s
}

// ---- operations on builders that share their arguments ----

// shared is what both builders are given.
type shared struct {
	keys    []bitcoin.Key
	utxos   []bitcoin.UTXO
	scripts []bitcoin.Script
	addrs   []txbuilder.AddressKeyID
	parents []*wire.MsgTx
	agent   bitcoin.Script
	data    bitcoin.Script // embedded data
}

// spare gives a slice room beyond its end, so that an append to it would be noticed.
func spare[T any](l []T) []T {
	r := make([]T, len(l), len(l)+3)
	copy(r, l)
	return r
}

func spareScript(s bitcoin.Script) bitcoin.Script { return bitcoin.Script(spare([]byte(s))) }

var agentScript = lockAgent(lockPKH(1)).Script

func newShared() *shared {
	w := &shared{keys: spare([]bitcoin.Key{keys[0], keys[4], keys[2], keys[1], keys[3]})} // in no order
	for i := 0; i < 4; i++ {
		w.scripts = append(w.scripts, spareScript([]bitcoin.Script{p2pkh(3), p2pk(4), p2pkh(5), multi(2, 0, 1, 2)}[i]))
		w.addrs = append(w.addrs, txbuilder.AddressKeyID{Address: addrOf(p2pkh(3 + i)), KeyID: fmt.Sprint("a", i)})
	}
	w.scripts, w.addrs = spare(w.scripts), spare(w.addrs)
	var ps []*wire.MsgTx
	for i := 0; i < 3; i++ {
		m := wire.NewMsgTx(1)
		h := outpointHash(40 + i)
		m.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, 0), nil))
		m.AddTxOut(wire.NewTxOut(uint64(4000+i), p2pkh(i)))
		m.AddTxOut(wire.NewTxOut(uint64(5000+i), p2pk(i)))
		ps = append(ps, m)
	}
	for i, v := range []uint64{700, 90000, 2500, 60000} {
		w.utxos = append(w.utxos, utxoOf(outpointHash(20+i), uint32(i), v, spareScript([]bitcoin.Script{p2pkh(0), p2pk(1), multi(2, 0, 1, 2), p2pkh(2)}[i]),
			fmt.Sprint("u", i)))
	}
	w.utxos = spare(w.utxos)
	for _, p := range ps {
		for _, o := range p.TxOut {
			o.LockingScript = spareScript(o.LockingScript)
		}
	}
	w.parents = spare(ps)
	w.agent, w.data = spareScript(agentScript), spareScript(payload(50, 3000))
	return w
}

// full hashes what both builders are given, with the room beyond the ends.
func (w *shared) full() uint64 {
	wide := func(l interface{}) interface{} {
		v := reflect.ValueOf(l)
		return v.Slice(0, v.Cap()).Interface()
	}
	h := []interface{}{deepHash(wide(w.keys)), deepHash(wide(w.addrs)), deepHash(wide(w.scripts)), deepHash(wide(w.utxos)), deepHash(wide(w.parents))}
	bs := func(b bitcoin.Script) { h = append(h, string(b[:cap(b)])) }
	bs(w.agent)
	bs(w.data)
	for _, s := range w.scripts {
		bs(s)
	}
	for _, u := range w.utxos {
		bs(u.LockingScript)
	}
	for _, p := range w.parents {
		for _, o := range p.TxOut {
			bs(o.LockingScript)
		}
	}
	return hashOf(h...)
}

type sharedOp struct {
	name string
	run  func(w *shared, id int, tx *txbuilder.TxBuilder) string
}

func say(v ...interface{}) string { return fmt.Sprintln(v...) }

func outputsText(l []*txbuilder.Output) string {
	var b strings.Builder
	for _, o := range l {
		fmt.Fprintf(&b, "%d %x %v %v %s\n", o.Value, []byte(o.LockingScript), o.Supplement.IsRemainder, o.Supplement.IsDust, o.Supplement.KeyID)
	}
	return b.String()
}

func keysText(l []bitcoin.Key) string {
	var b strings.Builder
	for _, k := range l {
		fmt.Fprintf(&b, "%x ", pubOf(k))
	}
	return b.String()
}

var sharedOps = []sharedOp{
	{"inputs", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		return say(tx.AddInputUTXO(w.utxos[id]), tx.InsertInput(0, w.utxos[2]), tx.AddInputUTXO(w.utxos[2]))
	}},
	{"outputs", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		return say(tx.AddOutput(w.scripts[0], uint64(3000+id), false, false), tx.AddDustOutput(w.addrs[id].Address, true),
			tx.SetChangeLockingScript(w.scripts[id], "c"))
	}},
	{"update", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		return say(tx.UpdateOutput(0, w.scripts[2]), tx.AddValueToOutput(0, uint64(id+5)), tx.InsertOutput(0, w.scripts[1], 4000, false, false),
			tx.RemoveOutput(1))
	}},
	{"fund", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		return say(tx.RemoveOutput(1), tx.AddValueToOutput(0, 30000), tx.SetChangeAddress(w.addrs[0].Address, "k"), tx.AddFunding(w.utxos))
	}},
	{"break change", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		return say(tx.RemoveOutput(1), tx.AddValueToOutput(0, 30000), tx.AddFundingBreakChange(w.utxos[1:], uint64(20000+id), w.addrs[:2+id]))
	}},
	{"break", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		o, err := txbuilder.BreakValue(uint64(50000+id), 10000, w.addrs[:2], 0.5, 0.5, id == 0, true)
		p, err2 := txbuilder.BreakValueLockingScripts(uint64(5000+id), 3000, w.scripts[:2], 0.5, 0.5, false, id == 1)
		return say(outputsText(o), err, outputsText(p), err2)
	}},
	{"quantity", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		q, err := txbuilder.BreakQuantity(uint64(1000+id), 100, 4)
		return say(q, err)
	}},
	{"shuffle", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		o, _ := txbuilder.BreakValueLockingScripts(uint64(20000+id), 10000, w.scripts[:3], 0.5, 0.5, false, false)
		tx.AddOutputs(o)
		tx.RandomizeOutputs()
		tx.RandomizeOutputsAfter(0)
		return ""
	}},
	{"sign", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		k, err := tx.Sign(w.keys)
		return say(keysText(k), err)
	}},
	{"sign only", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		k, err := tx.SignOnly(w.keys[id:])
		return say(keysText(k), err)
	}},
	{"fee", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		err := tx.CalculateFee()
		done, err2 := tx.AdjustFee(int64(10 + id))
		return say(err, done, err2, tx.EstimatedFee(), tx.EstimatedSize(), tx.ZeroizeFee())
	}},
	{"change", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		err := tx.RemoveOutput(1)
		err2 := tx.SetChangeLockingScript(w.scripts[id], "c")
		k, err3 := tx.Sign(w.keys)
		return say(err, err2, keysText(k), err3)
	}},
	{"maximum", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		return say(tx.AddMaxScriptOutput(w.scripts[id]), tx.AddFunding(w.utxos[:3]))
	}},
	{"rebuild", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		m := wire.NewMsgTx(1)
		m.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: *w.parents[id+1].TxHash(), Index: 1}, nil))
		m.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: *w.parents[0].TxHash(), Index: 0}, nil))
		m.AddTxOut(wire.NewTxOut(uint64(500+id), w.scripts[0]))
		b, err := txbuilder.NewTxBuilderFromWire(0.5, 0.25, m, w.parents)
		c, err2 := txbuilder.NewTxBuilderFromWireUTXOs(0.5, 0.25, m, w.utxos)
		_, err3 := b.SignOnly(w.keys)
		return say(err, err2, err3, deepHash(b), deepHash(c))
	}},
	{"report", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		return say(tx.String(bitcoin.MainNet), txbuilder.TxString(tx))
	}},
	{"copy", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		c := tx.Copy()
		err := c.AddInputUTXO(w.utxos[3])
		err2 := c.AddValueToOutput(0, 7)
		return say(err, err2, deepHash(&c))
	}},
	{"digest", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		var shc txbuilder.SigHashCache
		var r []interface{}
		for i := range tx.Inputs {
			b, err := txbuilder.SignatureHashPreimageBytes(tx.MsgTx, i, w.scripts[id], tx.Inputs[i].Value, txbuilder.SigHashAll|txbuilder.SigHashForkID, &shc)
			h, err2 := txbuilder.SignatureHash(tx.MsgTx, i, w.scripts[0], 5, txbuilder.SigHashSingle|txbuilder.SigHashForkID, &shc)
			r = append(r, fmt.Sprintf("%x %v %v %v", b, err, h, err2))
		}
		return say(r...)
	}},
	{"edit", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		return say(tx.AddPaymentOutput(w.addrs[id].Address, 5000, false), tx.SubtractValueFromOutput(0, 3), tx.SetOutputToDust(1),
			tx.AddInput(wire.OutPoint{Hash: w.utxos[1].Hash, Index: 1}, w.utxos[1].LockingScript, w.utxos[1].Value),
			tx.UpdateInputUTXO(0, w.utxos[3]), tx.RemoveInput(1), tx.AddMaxOutput(w.addrs[2].Address))
	}},
	{"single", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		var shc txbuilder.SigHashCache
		err := tx.SignP2PKHInput(0, w.keys[0], &shc)
		shc.Clear()
		a, err2 := tx.InputAddress(0)
		b, err3 := tx.OutputAddress(0)
		o, err4 := tx.InputOutput(0)
		return say(err, tx.InputIsSigned(0), tx.AllInputsAreSigned(), a, err2, b, err3, o, err4, tx.Fee(), tx.Remainder(), tx.TxID())
	}},
	{"other source", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		b, err := txbuilder.NewTxBuilderFromTransactionWithOutputs(0.5, 0.25, tx)
		b.Outputs[0].IsRemainder = true
		return say(err, b.CalculateFee(), deepHash(b))
	}},
	{"amounts", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		a, err := txbuilder.DustLimitForAddress(w.addrs[id].Address, 0.5)
		b, err2 := txbuilder.AddressOutputFee(w.addrs[id].Address, 0.5)
		c, d, err3 := txbuilder.OutputFeeAndDustForAddress(w.addrs[1].Address, 0.5, 0.5)
		e, err4 := txbuilder.UTXOFee(w.utxos[2+id], 0.5)
		f, err5 := fees.Fee(tx)
		g, h := fees.OutputFeeAndDustForLockingScript(w.scripts[id], 0.5, 0.5)
		return say(a, err, b, err2, c, d, err3, e, err4, f, err5, g, h, fees.DustLimitForLockingScript(w.scripts[1-id], 0.5),
			txbuilder.DustLimitForLockingScript(w.scripts[1-id], 0.5), txbuilder.LockingScriptOutputFee(w.scripts[0], 0.5),
			fees.OutputFeeForLockingScript(w.scripts[2], 0.5))
	}},
	{"embedded", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		b := embeddedTx([]embedded{{"known", w.utxos[id].LockingScript, 900, nil}, {"agent", w.agent, 5000, nil}, {"declared", nil, 0, w.data}}, 0.5)
		err := b.AddOutput(w.scripts[0], 700, true, false)
		s, err2 := fees.EstimateSize(b, refUnlocker{})
		v, err3 := fees.InputsValue(b)
		return say(err, s, err2, v, err3, b.EstimatedSize(), b.InputValue(), b.CalculateFee(), txbuilder.TxString(b), deepHash(b))
	}},
	{"fees", func(w *shared, id int, tx *txbuilder.TxBuilder) string {
		a, err := fees.EstimateFee(tx, refUnlocker{}, 0.5)
		b, err2 := fees.EstimateSize(tx, refUnlocker{})
		o, i, err3 := fees.OutputTotalCost(w.scripts[id], 0.5)
		return say(a, err, b, err2, o, i, err3)
	}},
}

// startShared is a builder with inputs and outputs of its own made from shared scripts.
func startShared(w *shared, id int) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(0.5, 0.25)
	must(tx.AddInputUTXO(bitcoin.UTXO{Hash: outpointHash(60 + id), Index: 1, Value: uint64(30000 + 100*id), LockingScript: w.utxos[0].LockingScript}))
	if id == 1 {
		must(tx.AddInputUTXO(bitcoin.UTXO{Hash: outpointHash(70), Index: 1, Value: 777, LockingScript: w.utxos[2].LockingScript}))
	}
	must(tx.AddOutput(w.scripts[0], uint64(9000+id), false, false))
	must(tx.AddOutput(w.scripts[1], uint64(6000+id), true, false))
	return tx
}

type side struct {
	result string
	points int
	state  uint64
	msg    []byte
}

func program(w *shared, id int, tx *txbuilder.TxBuilder, ops []int) prog {
	return prog{id, func() string {
		r := ""
		for _, o := range ops {
			r += sharedOps[o].run(w, id, tx)
		}
		return r
	}}
}

var alones = map[string]side{}

// alone is what a program does on its own.
func alone(x *X, id int, ops ...int) side {
	key := fmt.Sprint(id, ops)
	if r, ok := alones[key]; ok {
		return r
	}
	w := newShared()
	tx := startShared(w, id)
	before := w.full()
	t := interleave([]prog{program(w, id, tx, ops)}, 0, nil, func() {}).threads[0]
	name := ""
	for _, o := range ops {
		name += sharedOps[o].name + " "
	}
	if t.panic != nil {
		x.Failf("%son its own: panic: %v\n%s", name, t.panic, t.stack)
	}
	if w.full() != before {
		x.Failf("%schanged what it was given, which others may share", name)
	}
	if t.points == 0 {
		panic("harness: not instrumented")
	}
	r := side{t.result, t.points, deepHash(tx), serialize(tx.MsgTx)}
	alones[key] = r
	return r
}

func judgeShared(x *X, w *shared, before uint64, s *scheduler, txs []*txbuilder.TxBuilder, want []side) {
	if s.dead {
		x.Failf("the builders wait for each other for ever")
	}
	for i, t := range s.threads {
		if t.panic != nil {
			x.Failf("builder %d: panic: %v\n%s", i, t.panic, t.stack)
		}
		if t.result != want[i].result {
			x.Failf("builder %d returned\n%s\non its own\n%s", i, t.result, want[i].result)
		}
		if got := serialize(txs[i].MsgTx); !bytes.Equal(got, want[i].msg) {
			x.Failf("builder %d made\n%x\non its own\n%x", i, got, want[i].msg)
		}
		if deepHash(txs[i]) != want[i].state {
			x.Failf("builder %d differs from the one made on its own", i)
		}
	}
	if w.full() != before {
		x.Failf("what both were given was changed")
	}
}

// cold runs one operation of each of two builders, made in their own threads, in a new process whose
// package variables nothing has touched, and returns what is wrong.
func cold(a, b, first int) string {
	w := newShared()
	before := w.full()
	txs := make([]*txbuilder.TxBuilder, 2)
	ops := []int{a, b}
	var ps []prog
	for i := range ops {
		i := i
		ps = append(ps, prog{i, func() string {
			txs[i] = startShared(w, i)
			return sharedOps[ops[i]].run(w, i, txs[i])
		}})
	}
	races := raceCount()
	s := interleave(ps, first, []int{1 << 30}, func() {})
	if raceCount() != races {
		return "the builders use the same memory without an order: " + raceReport()
	}
	x := newReplay(nil)
	v, _, _ := runOnce(&Scenario{Body: func(x *X) {
		judgeShared(x, w, before, s, txs, []side{alone(x, 0, a), alone(x, 1, b)})
	}}, x)
	if v != nil {
		return v.msg
	}
	return ""
}

func init() {
	coldMain = func(arg string) {
		var a, b, first int
		fmt.Sscanf(arg, "%d,%d,%d", &a, &b, &first)
		fmt.Print("cold:", cold(a, b, first))
	}
}

// raceReport is the latest report of the race detector.
func raceReport() string {
	p := os.Getenv("MC_RACELOG")
	if p == "" {
		return "see standard error"
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	t := string(b)
	if i := strings.LastIndex(t, "WARNING: DATA RACE"); i >= 0 {
		t = t[i:]
	}
	if len(t) > 2500 {
		t = t[:2500]
	}
	return t
}

func schedScenarios(thorough bool) []*Scenario {
	switches := func(n int) func(x *X) {
		return func(x *X) {
			a := x.Choose("first builder", len(sharedOps))
			b := x.Choose("second builder", len(sharedOps))
			if n == 2 && b < a {
				return
			}
			want := []side{alone(x, 0, a), alone(x, 1, b)}
			if n == 2 && want[0].points*want[1].points > 20000 {
				return
			}
			first := x.Choose("starts", 2)
			cuts := []int{1 + x.Choose("points", want[first].points)}
			if n == 2 {
				cuts = append(cuts, 1+x.Choose("points of the other", want[1-first].points))
			}
			x.Logf("%s beside %s, builder %d first, switching after %v points", sharedOps[a].name, sharedOps[b].name, first, cuts)
			w := newShared()
			txs := []*txbuilder.TxBuilder{startShared(w, 0), startShared(w, 1)}
			before := w.full()
			s := interleave([]prog{program(w, 0, txs[0], []int{a}), program(w, 1, txs[1], []int{b})}, first, cuts, func() {
				x.Op()
				x.State(hashOf(a, b, deepHash(txs[0]), deepHash(txs[1])))
			})
			judgeShared(x, w, before, s, txs, want)
			x.Outcome("switches %d", len(cuts))
		}
	}
	return []*Scenario{
		{Name: "new processes", Depth: 2, Bin: "mc_race", Body: func(x *X) {
			a := x.Choose("first builder", len(sharedOps))
			b := x.Choose("second builder", len(sharedOps))
			if b < a && !x.Thorough {
				return
			}
			first := 0
			if x.Thorough {
				first = x.Choose("starts", 2)
			}
			x.Logf("%s beside %s, builder %d first, in a new process", sharedOps[a].name, sharedOps[b].name, first)
			self, err := os.Executable()
			if err != nil {
				panic("harness: " + err.Error())
			}
			cmd := exec.Command(self, "-cold", fmt.Sprintf("%d,%d,%d", a, b, first))
			cmd.Env = append(os.Environ(), "MC_RACELOG=", "GORACE=exitcode=0 atexit_sleep_ms=0")
			var out, stderr bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &stderr
			if err := cmd.Run(); err != nil || !strings.HasPrefix(out.String(), "cold:") {
				panic(fmt.Sprintf("harness: %v: %s", err, stderr.String()))
			}
			x.Op()
			if msg := strings.TrimPrefix(out.String(), "cold:"); msg != "" {
				e := stderr.String()
				if len(e) > 2500 {
					e = e[:2500]
				}
				x.Failf("%s %s", msg, e)
			}
			x.Outcome("no race")
		}, Bounds: "as races, each pair (unordered; thorough: ordered, both starting) in a process of its own, in which nothing ran before"},
		{Name: "races", Depth: 2, Bin: "mc_race", Body: func(x *X) {
			if !raceBuild {
				panic("harness: not a race build")
			}
			a := x.Choose("first builder", len(sharedOps))
			b := x.Choose("second builder", len(sharedOps))
			want := []side{alone(x, 0, a), alone(x, 1, b)}
			first := x.Choose("starts", 2)
			n := want[first].points
			if !x.Thorough {
				n = 1
			}
			cuts := []int{want[first].points - x.Choose("points left", n)}
			x.Logf("%s beside %s, builder %d first, switching after %v points", sharedOps[a].name, sharedOps[b].name, first, cuts)
			w := newShared()
			txs := []*txbuilder.TxBuilder{startShared(w, 0), startShared(w, 1)}
			before := w.full()
			races := raceCount()
			s := interleave([]prog{program(w, 0, txs[0], []int{a}), program(w, 1, txs[1], []int{b})}, first, cuts, x.Op)
			if raceCount() != races {
				x.Failf("the builders use the same memory without an order: %s", raceReport())
			}
			judgeShared(x, w, before, s, txs, want)
			x.State(hashOf(a, b, first, deepHash(txs[0]), deepHash(txs[1])))
			x.Outcome("no race")
		}, Bounds: "two builders, every ordered pair of operations, in both orders (thorough: every switching point), watched by the race detector with the scheduler's own synchronization hidden"},
		{Name: "one switch", Depth: 2, Body: switches(1),
			Bounds: fmt.Sprintf("two builders, every ordered pair of %d operations, every point at which the first can be stopped to let the other run to its end", len(sharedOps))},
		{Name: "histories", Depth: 4, Bounds: "two builders, two operations each, every order of the four", Body: func(x *X) {
			ops := []int{0, 1, 3, 4, 8, 10, 11}
			if x.Thorough {
				ops = nil
				for i := range sharedOps {
					ops = append(ops, i)
				}
			}
			var l [2][]int
			for i := range l {
				l[i] = []int{Pick(x, "operation", ops), Pick(x, "operation", ops)}
			}
			order := Pick(x, "order", [][]int{{0, 1, 0, 1}, {0, 1, 1, 0}, {1, 0, 0, 1}, {1, 0, 1, 0}, {0, 0, 1, 1}, {1, 1, 0, 0}})
			want := []side{alone(x, 0, l[0]...), alone(x, 1, l[1]...)}
			w := newShared()
			txs := []*txbuilder.TxBuilder{startShared(w, 0), startShared(w, 1)}
			before := w.full()
			s := &scheduler{threads: []*thread{{id: 0, stopAt: -1}, {id: 1, stopAt: -1}}}
			s.install(func() {
				var at [2]int
				for _, i := range order {
					s.current = s.threads[i]
					o := sharedOps[l[i][at[i]]]
					x.Logf("builder %d: %s", i, o.name)
					s.threads[i].result += o.run(w, i, txs[i])
					at[i]++
					x.Op()
					x.State(hashOf(deepHash(txs[0]), deepHash(txs[1])))
				}
			})
			judgeShared(x, w, before, s, txs, want)
			x.Outcome("order %v", order)
		}},
		{Name: "two switches", Depth: 3, Body: switches(2), ThoroughOnly: true,
			Bounds: "as one switch, for unordered pairs whose numbers of points multiply to at most 20000, with the other stopped at every point too and continued after the first ended"},
	}
}

func init() {
	register(&Check{ID: "C22", Level: "model_checking", Scenarios: schedScenarios,
		Trace: "every schedule is executed by the real code, with a scheduling point before each statement put in when compiling",
		Assumptions: []string{
			"switches happen between statements of the repository, not inside a statement or inside its dependencies",
			"memory is sequentially consistent",
		}})
}
