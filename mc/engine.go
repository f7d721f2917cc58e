package main

// The explorer. A scenario is a function that asks X for every choice it makes; the explorer runs
// it once for every vector of choices, depth first, so the set of executions is the complete tree
// within the bounds the scenario itself states. Work is split over processes (not goroutines) by
// hashing a short prefix of the vector, so that state global to the code under test stays private
// to one execution at a time.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type choice struct {
	v, n  int
	label string
}

// X is one execution of a scenario.
type X struct {
	Thorough bool

	prefix  []int
	choices []choice
	mu      sync.Mutex

	shard, shards, shardDepth int
	checkedShard              bool

	replay   bool
	log      []string
	ops      uint64
	outcomes []string

	st *stats
}

type stats struct {
	Cases       uint64
	Transitions uint64
	Pruned      uint64
	Outcomes    map[string]uint64
	states      map[uint64]struct{}
	visited     map[uint64]int
}

type skipShard struct{}
type pruned struct{}
type violation struct{ msg string }

// Choose returns a value in [0,n); the explorer tries all of them.
func (x *X) Choose(label string, n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness: Choose(%s,%d)", label, n))
	}
	i := len(x.choices)
	v := 0
	if i < len(x.prefix) {
		v = x.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("harness: replayed choice %d out of range at %s (%d >= %d)", i, label, v, n))
		}
	}
	x.mu.Lock()
	x.choices = append(x.choices, choice{v, n, label})
	x.mu.Unlock()
	if len(x.choices) == x.shardDepth {
		x.checkShard()
	}
	if x.replay {
		x.log = append(x.log, fmt.Sprintf("choice %s = %d of %d", label, v, n))
	}
	return v
}

func (x *X) checkShard() {
	x.checkedShard = true
	if x.shards <= 1 {
		return
	}
	h := fnv.New32a()
	for _, c := range x.choices {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], uint32(c.v)*2654435761+17)
		h.Write(b[:])
	}
	if int(h.Sum32()>>3)%x.shards != x.shard {
		panic(skipShard{})
	}
}

// Bool is a two-way choice.
func (x *X) Bool(label string) bool { return x.Choose(label, 2) == 1 }

// Pick chooses one element of a list.
func Pick[T any](x *X, label string, opts []T) T { return opts[x.Choose(label, len(opts))] }

// Op counts one transition: an operation performed on the implementation and checked.
func (x *X) Op() { x.ops++ }

// State records a state reached, for counting distinct ones.
func (x *X) State(h uint64) { x.st.states[h] = struct{}{} }

// Outcome tallies what happened, so evidence shows how varied the cases were.
func (x *X) Outcome(format string, args ...interface{}) {
	if len(args) == 0 {
		x.outcomes = append(x.outcomes, format)
		return
	}
	x.outcomes = append(x.outcomes, fmt.Sprintf(format, args...))
}

// Prune ends this execution if the state was already explored with at least as many steps left.
func (x *X) Prune(h uint64, remaining int) {
	if x.replay || len(x.choices) < len(x.prefix) {
		return // still on the way to the first new choice
	}
	if r, ok := x.st.visited[h]; ok && r >= remaining {
		x.st.Pruned++
		panic(pruned{})
	}
	x.st.visited[h] = remaining
}

// Logf adds a line to the trace that is shown for a violation.
func (x *X) Logf(format string, args ...interface{}) {
	if x.replay {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// Failf reports that the property is broken in this execution.
func (x *X) Failf(format string, args ...interface{}) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Scenario is one tree of executions.
type Scenario struct {
	Name   string
	Bounds string
	Depth  int // number of leading choices used to split work over processes
	Body   func(x *X)
	// After, if set, is called in each process when the tree is done (single process scenarios
	// only) to judge something about the set of executions.
	After        func(fail func(string))
	ThoroughOnly bool
	Single       bool   // do not split
	Bin          string // executable beside this one that runs it
}

// Check is everything that decides one property.
type Check struct {
	ID          string
	Level       string
	Scenarios   func(thorough bool) []*Scenario
	Assumptions []string
	Trace       string // how traces are validated
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type found struct {
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Message  string   `json:"message"`
	Repro    string   `json:"reproduced"`
	Log      []string `json:"log"`
}

type shardResult struct {
	Cases, Transitions, Pruned uint64
	Outcomes                   map[string]uint64
	Violations                 []found
	Samples                    []string
	Truncated                  bool
}

func runOnce(s *Scenario, x *X) (v *violation, skipped, prunedFlag bool) {
	defer func() {
		if r := recover(); r != nil {
			switch t := r.(type) {
			case skipShard:
				skipped = true
			case pruned:
				prunedFlag = true
			case violation:
				v = &t
			default:
				msg := fmt.Sprint(r)
				if strings.HasPrefix(msg, "harness:") {
					fmt.Fprintln(os.Stderr, msg)
					debug.PrintStack()
					os.Exit(2)
				}
				stack := string(debug.Stack())
				v = &violation{"panic: " + msg + "\n" + trimStack(stack)}
			}
		}
	}()
	s.Body(x)
	if len(x.choices) < x.shardDepth && !x.checkedShard {
		x.checkShard()
	}
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "tokenized") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var hangLimit = 150 * time.Second

func runShard(c *Check, s *Scenario, shard, shards int, deadline time.Time, statesPath string) shardResult {
	st := &stats{Outcomes: map[string]uint64{}, states: map[uint64]struct{}{}, visited: map[uint64]int{}}
	res := shardResult{Outcomes: st.Outcomes}

	var cur atomic.Pointer[X]
	var started atomic.Int64
	started.Store(time.Now().UnixNano())
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		t := time.NewTicker(2 * time.Second)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			x := cur.Load()
			if x == nil {
				continue
			}
			hung := time.Since(time.Unix(0, started.Load())) > hangLimit
			if hung || ms.HeapAlloc > 6<<30 {
				x.mu.Lock()
				what := "operation does not terminate (single case ran for over " + hangLimit.String() + ")"
				if !hung {
					what = "operation allocates without bound"
				}
				f := found{Scenario: s.Name, Message: what, Repro: "not rerun"}
				for _, ch := range x.choices {
					f.Choices = append(f.Choices, ch.v)
					f.Log = append(f.Log, fmt.Sprintf("choice %s = %d of %d", ch.label, ch.v, ch.n))
				}
				x.mu.Unlock()
				b, _ := json.Marshal(shardResult{Violations: []found{f}, Truncated: true,
					Outcomes: map[string]uint64{}})
				os.Stdout.Write(b)
				os.Exit(0)
			}
		}
	}()

	depth := s.Depth
	if depth == 0 {
		depth = 3
	}
	var prefix []int
	for n := 0; ; n++ {
		if n&63 == 0 && time.Now().After(deadline) {
			res.Truncated = true
			break
		}
		x := &X{Thorough: tierThorough, prefix: prefix, shard: shard, shards: shards, shardDepth: depth, st: st}
		started.Store(time.Now().UnixNano())
		cur.Store(x)
		v, skipped, _ := runOnce(s, x)
		if !skipped {
			st.Cases++
			st.Transitions += x.ops
			for _, o := range x.outcomes {
				st.Outcomes[o]++
			}
		}
		if v != nil {
			f := confirm(s, x, v)
			res.Violations = append(res.Violations, f)
			if len(res.Violations) >= 3 {
				res.Truncated = true
				break
			}
		}
		if !skipped && len(res.Samples) < 2 && (st.Cases == 1 || st.Cases == 97) {
			res.Samples = append(res.Samples, describe(s, x))
		}
		// next vector
		i := len(x.choices) - 1
		for i >= 0 && x.choices[i].v+1 >= x.choices[i].n {
			i--
		}
		if i < 0 {
			break
		}
		next := make([]int, i+1)
		for j := 0; j < i; j++ {
			next[j] = x.choices[j].v
		}
		next[i] = x.choices[i].v + 1
		prefix = next
	}
	if s.After != nil && !res.Truncated && len(res.Violations) == 0 {
		s.After(func(msg string) {
			res.Violations = append(res.Violations, found{Scenario: s.Name, Message: msg, Repro: "property of the whole set"})
		})
	}
	res.Cases, res.Transitions, res.Pruned = st.Cases, st.Transitions, st.Pruned

	f, err := os.Create(statesPath)
	if err == nil {
		buf := make([]byte, 0, len(st.states)*8)
		for h := range st.states {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		f.Write(buf)
		f.Close()
	}
	return res
}

func vector(x *X) []int {
	r := make([]int, len(x.choices))
	for i, c := range x.choices {
		r[i] = c.v
	}
	return r
}

func newReplay(vec []int) *X {
	st := &stats{Outcomes: map[string]uint64{}, states: map[uint64]struct{}{}, visited: map[uint64]int{}}
	return &X{Thorough: tierThorough, prefix: vec, shards: 1, replay: true, st: st, shardDepth: -1}
}

func describe(s *Scenario, x *X) string {
	r := newReplay(vector(x))
	runOnce(s, r)
	l := strings.Join(r.log, "; ")
	if len(l) > 1500 {
		l = l[:1500] + "..."
	}
	return s.Name + ": " + l
}

func confirm(s *Scenario, x *X, v *violation) found {
	vec := vector(x)
	same := 0
	var last *X
	for i := 0; i < 5; i++ {
		r := newReplay(vec)
		if v2, _, _ := runOnce(s, r); v2 != nil {
			same++
		}
		last = r
	}
	return found{Scenario: s.Name, Choices: vec, Message: v.msg,
		Repro: fmt.Sprintf("%d of 5 reruns in the same process", same), Log: last.log}
}

var tierThorough bool

// coldMain is what a process started for a single execution does.
var coldMain func(arg string)

func main() {
	id := flag.String("check", "", "property id")
	shardFlag := flag.String("shard", "", "internal: scenario,shard,shards,deadline,statesfile")
	replayFlag := flag.String("replay", "", "replay a violation file")
	only := flag.String("only", "", "only this scenario")
	verif := flag.String("verif", "/verif", "directory of the framework")
	list := flag.Bool("list", false, "list checks")
	bounds := flag.Bool("bounds", false, "list every scenario with its bounds")
	coldFlag := flag.String("cold", "", "internal: a single execution")
	flag.Parse()
	if *coldFlag != "" {
		coldMain(*coldFlag)
		return
	}
	tierThorough = os.Getenv("VERIF_TIER") == "thorough"
	debug.SetMaxStack(256 << 20)

	if *list || *bounds {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		if *bounds {
			for _, k := range ids {
				for _, s := range checks[k].Scenarios(tierThorough) {
					tier := ""
					if s.ThoroughOnly {
						tier = " (thorough)"
					}
					fmt.Printf("%s %s%s: %s\n", k, s.Name, tier, s.Bounds)
				}
			}
			return
		}
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *replayFlag != "" {
		doReplay(*replayFlag)
		return
	}
	c := checks[*id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check %q\n", *id)
		os.Exit(2)
	}
	if *shardFlag != "" {
		if pf := os.Getenv("MC_PROFILE"); pf != "" {
			f, _ := os.Create(pf)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		p := strings.Split(*shardFlag, ",")
		var s *Scenario
		for _, t := range c.Scenarios(tierThorough) {
			if t.Name == p[0] {
				s = t
			}
		}
		sh, _ := strconv.Atoi(p[1])
		shs, _ := strconv.Atoi(p[2])
		dl, _ := strconv.ParseInt(p[3], 10, 64)
		res := runShard(c, s, sh, shs, time.Unix(dl, 0), p[4])
		b, _ := json.Marshal(res)
		os.Stdout.Write(b)
		return
	}
	os.Exit(runCheck(c, *only, *verif))
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	found
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tierThorough = r.Tier == "thorough"
	c := checks[r.Property]
	for _, s := range c.Scenarios(tierThorough) {
		if s.Name != r.Scenario {
			continue
		}
		if self, _ := os.Executable(); s.Bin != "" && filepath.Base(self) != s.Bin {
			bin := filepath.Join(filepath.Dir(self), s.Bin)
			err := syscall.Exec(bin, append([]string{bin}, os.Args[1:]...), os.Environ())
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		x := newReplay(r.Choices)
		v, _, _ := runOnce(s, x)
		for _, l := range x.log {
			fmt.Println(l)
		}
		if v != nil {
			fmt.Println("FAILED:", v.msg)
			os.Exit(1)
		}
		fmt.Println("held")
		return
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	os.Exit(2)
}

func runCheck(c *Check, only, verif string) int {
	start := time.Now()
	budget := 600 * time.Second
	if tierThorough {
		budget = 780 * time.Second
	}
	deadline := start.Add(budget)
	tier := "quick"
	if tierThorough {
		tier = "thorough"
	}
	tmp, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	self, _ := os.Executable()
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 1 {
		workers = 1
	}

	total := shardResult{Outcomes: map[string]uint64{}}
	allStates := map[uint64]struct{}{}
	var violations []found
	var samples []interface{}
	perScenario := map[string]interface{}{}
	exhaustive := true
	for _, s := range c.Scenarios(tierThorough) {
		if only != "" && s.Name != only {
			continue
		}
		if s.ThoroughOnly && !tierThorough {
			continue
		}
		t0 := time.Now()
		n := workers
		if s.Single {
			n = 1
		}
		// more shards than workers evens out the load
		shards := n
		if n > 1 {
			shards = n * 4
		}
		results := make([]shardResult, shards)
		errs := make([]string, shards)
		var wg sync.WaitGroup
		sem := make(chan struct{}, n)
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				sp := filepath.Join(tmp, fmt.Sprintf("%s-%d", s.Name, i))
				bin := self
				if s.Bin != "" {
					bin = filepath.Join(filepath.Dir(self), s.Bin)
				}
				cmd := exec.Command(bin, "-check", c.ID, "-verif", verif, "-shard",
					fmt.Sprintf("%s,%d,%d,%d,%s", s.Name, i, shards, deadline.Unix(), sp))
				var out, stderr bytes.Buffer
				cmd.Stdout = &out
				cmd.Stderr = &stderr
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "MC_RACELOG="+filepath.Join(tmp, "race"),
					"GORACE=exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(tmp, "race"))
				err := cmd.Run()
				if err != nil || json.Unmarshal(out.Bytes(), &results[i]) != nil {
					e := stderr.String()
					if strings.Contains(e, "stack overflow") || strings.Contains(e, "stack exceeds") ||
						strings.Contains(e, "concurrent map") {
						if len(e) > 3000 {
							e = e[:3000]
						}
						results[i].Violations = append(results[i].Violations, found{Scenario: s.Name,
							Message: "process died: " + e, Repro: "not rerun"})
					} else {
						errs[i] = fmt.Sprintf("%v: %s", err, e)
					}
				}
			}(i)
		}
		wg.Wait()
		var sc shardResult
		sc.Outcomes = map[string]uint64{}
		scStates := 0
		for i := range results {
			if errs[i] != "" {
				fmt.Fprintf(os.Stderr, "check %s scenario %s shard %d failed: %s\n", c.ID, s.Name, i, errs[i])
				return 2
			}
			r := results[i]
			sc.Cases += r.Cases
			sc.Transitions += r.Transitions
			sc.Pruned += r.Pruned
			sc.Truncated = sc.Truncated || r.Truncated
			for k, v := range r.Outcomes {
				sc.Outcomes[k] += v
			}
			violations = append(violations, r.Violations...)
			if len(r.Samples) > 0 && len(sc.Samples) < 2 {
				sc.Samples = append(sc.Samples, r.Samples[len(r.Samples)-1])
			}
			b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("%s-%d", s.Name, i)))
			for j := 0; j+8 <= len(b); j += 8 {
				h := binary.LittleEndian.Uint64(b[j:])
				if _, ok := allStates[h]; !ok {
					allStates[h] = struct{}{}
					scStates++
				}
			}
			os.Remove(filepath.Join(tmp, fmt.Sprintf("%s-%d", s.Name, i)))
		}
		if sc.Truncated {
			exhaustive = false
		}
		total.Cases += sc.Cases
		total.Transitions += sc.Transitions
		total.Pruned += sc.Pruned
		for _, v := range sc.Samples {
			samples = append(samples, v)
		}
		outs := sc.Outcomes
		if len(outs) > 60 {
			outs = map[string]uint64{"(distinct outcomes)": uint64(len(outs))}
		}
		perScenario[s.Name] = map[string]interface{}{
			"bounds": s.Bounds, "executions": sc.Cases, "operations": sc.Transitions,
			"new_states": scStates, "pruned": sc.Pruned, "complete": !sc.Truncated,
			"outcomes": outs, "seconds": round(time.Since(t0).Seconds()),
		}
		fmt.Printf("%s %-28s executions=%d operations=%d new_states=%d pruned=%d outcomes=%d complete=%v %.1fs\n",
			c.ID, s.Name, sc.Cases, sc.Transitions, scStates, sc.Pruned, len(sc.Outcomes), !sc.Truncated,
			time.Since(t0).Seconds())
		if len(violations) > 0 {
			break
		}
	}

	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	trace := c.Trace
	if trace == "" {
		trace = "every explored execution ran the real implementation; each step's result was compared with the oracle"
	}
	cov := map[string]interface{}{
		"states": len(allStates), "transitions": total.Transitions,
		"traces_validated_against_impl": total.Cases - total.Pruned,
		"pruned_executions":             total.Pruned,
		"exhaustive":                    exhaustive && len(violations) == 0,
		"samples":                       samples,
		"scenarios":                     perScenario,
		"trace_validation":              trace,
	}
	if level == "fault_enumeration" || level == "exploration" {
		cov["evaluations"] = total.Cases
		cov["distinct_nontrivial"] = len(allStates)
		cov["rule"] = "a case is one vector of choices; non-trivial cases are counted by distinct observed result"
		delete(cov, "states")
		delete(cov, "transitions")
		delete(cov, "traces_validated_against_impl")
		cov["operations"] = total.Transitions
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": round(time.Since(start).Seconds()), "violations": len(violations),
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if len(violations) == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(verif, "replays"), 0755)
	for i, v := range violations {
		if i >= 3 {
			break
		}
		p := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", c.ID, i))
		b, _ := json.MarshalIndent(replayFile{c.ID, tier, v}, "", " ")
		os.WriteFile(p, b, 0644)
		msg := v.Message
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		fmt.Printf("%s (%s, %s): %s\n", c.ID, v.Scenario, v.Repro, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
	}
	return 1
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
