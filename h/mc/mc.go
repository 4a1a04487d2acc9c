// Package mc is a small stateless model checker: it drives a scenario
// through every combination of choices (depth-first over choice trails with
// prefix replay), with optional deviation bounding and visited-state pruning.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Name       string
	MaxDev     int // deviation budget for C.Dev
	ShardDepth int // number of leading choices used to split work among processes
	Run        func(c *C)
	Solo       bool          // run by exactly one shard, not split
	Hang       time.Duration // watchdog limit of one execution
	NoReplay   bool          // violations are trusted without deterministic replay (external detector)
}

// Prop is a property with its scenarios.
type Prop struct {
	ID          string
	Scenarios   func(tier string) []Scenario
	Assumptions []string
	Rule        string
	Bounds      func(tier string) string
	MemGB       int // address-space limit of a worker, 0 - default, <0 - none
	Workers     int
}

type choice struct {
	N   int  `json:"n"`
	V   int  `json:"v"`
	Dev bool `json:"d,omitempty"`
}

// Violation is a found counterexample.
type Violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Tier     string   `json:"tier"`
	Trail    []choice `json:"trail"`
	Msg      string   `json:"msg"`
	Log      []string `json:"log,omitempty"`
	NoReplay bool     `json:"noreplay,omitempty"`
	// worker of the check that has found the violation, set if the violation
	// depends on previous executions of the process
	Shard  int `json:"shard,omitempty"`
	NShard int `json:"nshard,omitempty"`
}

// Key identifies the failure independently of the trail found first.
func (v *Violation) Key() string {
	var m = v.Msg
	if i := strings.IndexByte(m, '\n'); i >= 0 {
		m = m[:i]
	}
	return v.Scenario + ": " + m
}

type pruneSig struct{}
type failSig struct{ msg string }
type divergeSig struct{ msg string }

// C is the context of one execution.
type C struct {
	e       *Engine
	pre     []choice
	trail   []choice
	devUsed int
	log     []string
	logging bool
	trans   int64
	inits   []func()
	owned   bool // shard ownership is already checked
	Scratch map[string]any
}

// Logging tells whether descriptive log is wanted in this execution.
func (c *C) Logging() bool { return c.logging }

// Logf appends a line to the description of this execution.
func (c *C) Logf(format string, args ...any) {
	if c.logging {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// Defer registers a cleanup that runs at the end of the execution.
func (c *C) Defer(f func()) { c.inits = append(c.inits, f) }

func (c *C) shardCheck() {
	if c.owned || c.e.NShard <= 1 || c.e.replay || c.e.sc.Solo {
		return
	}
	if len(c.trail) >= c.e.depth {
		c.owned = true
		if c.e.hashTrail(c.trail[:c.e.depth])%uint64(c.e.NShard) != uint64(c.e.Shard) {
			panic(pruneSig{})
		}
	}
}

func (e *Engine) hashTrail(t []choice) uint64 {
	var h = fnv.New64a()
	for _, ch := range t {
		h.Write([]byte{byte(ch.V), byte(ch.V >> 8), byte(ch.V >> 16)})
	}
	var x = h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return x
}

func (c *C) pick(n int, dev bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Choose(%d)", n))
	}
	var v int
	var i = len(c.trail)
	if i < len(c.pre) {
		if c.pre[i].N != n {
			panic(divergeSig{fmt.Sprintf("choice %d offers %d options, was %d", i, n, c.pre[i].N)})
		}
		v = c.pre[i].V
	}
	c.trail = append(c.trail, choice{n, v, dev})
	if dev && v != 0 {
		c.devUsed++
	}
	c.e.journal(c.trail)
	c.shardCheck()
	return v
}

// Choose returns a value in [0,n), all of them are explored.
func (c *C) Choose(n int) int {
	if n == 1 {
		return 0
	}
	return c.pick(n, false)
}

// Bool explores both values, false first.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Dev is as Choose, but values other than 0 spend the deviation budget.
func (c *C) Dev(n int) int {
	if n <= 1 || c.devUsed >= c.e.sc.MaxDev {
		return 0
	}
	return c.pick(n, true)
}

// DevLeft returns unspent deviation budget.
func (c *C) DevLeft() int { return c.e.sc.MaxDev - c.devUsed }

// Step counts a transition executed on the real implementation.
func (c *C) Step() { c.trans++ }

// Fail reports a violation and ends the execution.
func (c *C) Fail(format string, args ...any) {
	panic(failSig{fmt.Sprintf(format, args...)})
}

// Assert fails if the condition does not hold.
func (c *C) Assert(cond bool, format string, args ...any) {
	if !cond {
		panic(failSig{fmt.Sprintf(format, args...)})
	}
}

// NoErr fails on error.
func (c *C) NoErr(err error, what string) {
	if err != nil {
		panic(failSig{fmt.Sprintf("%s: unexpected error: %v", what, err)})
	}
}

// Stop ends the execution without a verdict.
func (c *C) Stop() { panic(pruneSig{}) }

func hash(parts []string) uint64 {
	var h = fnv.New64a()
	for _, s := range parts {
		h.Write([]byte(s))
		h.Write([]byte{0xff, 0})
	}
	return h.Sum64()
}

// State records a visited state.
func (c *C) State(parts ...string) {
	c.e.mark(hash(append(parts, c.e.sc.Name)))
}

func (e *Engine) mark(h uint64) {
	if len(e.states) < 6000000 {
		e.states[h] = struct{}{}
	}
}

// Prune records a visited state, and ends the execution if same state was
// already explored with at least same remaining depth. Must be given all
// that determines the future (implementation and model state).
func (c *C) Prune(remaining int, parts ...string) {
	var h = hash(append(parts, c.e.sc.Name))
	c.e.mark(h)
	if c.e.replay || len(c.trail) < len(c.pre) {
		return
	}
	if c.e.NShard > 1 && !c.owned && !c.e.sc.Solo {
		return // ownership of this subtree is not decided yet
	}
	if old, ok := c.e.seen[h]; ok && old >= remaining {
		c.e.Pruned++
		panic(pruneSig{})
	}
	if len(c.e.seen) < 6000000 {
		c.e.seen[h] = remaining
	}
}

// Outcome records an observed outcome, to see that executions are distinct.
func (c *C) Outcome(parts ...string) {
	if len(c.e.outcomes) < 3000000 {
		c.e.outcomes[hash(append(parts, c.e.sc.Name))] = struct{}{}
	}
}

// Engine explores scenarios of one property in one process.
type Engine struct {
	Prop     *Prop
	Tier     string
	Shard    int
	NShard   int
	Deadline time.Time
	Journal  func(sc int, trail []choice)
	Known    func(v *Violation) bool

	sc       *Scenario
	scIdx    int
	depth    int
	replay   bool
	states   map[uint64]struct{}
	seen     map[uint64]int
	outcomes map[uint64]struct{}
	started  atomic.Int64
	hang     atomic.Int64 // limit of execution time of current scenario

	Execs      int64
	Trans      int64
	Pruned     int64
	Diverged   int64
	Incomplete []string
	Done       []string
	Violations []*Violation
	Samples    []string
	MaxTrail   int
	PerScen    map[string]int64
	KnownHits  []*Violation
	knownHit   map[string]bool
}

func NewEngine(p *Prop, tier string) *Engine {
	return &Engine{Prop: p, Tier: tier, NShard: 1,
		states: map[uint64]struct{}{}, seen: map[uint64]int{}, outcomes: map[uint64]struct{}{},
		PerScen: map[string]int64{}, knownHit: map[string]bool{}}
}

func (e *Engine) journal(t []choice) {
	if e.Journal != nil {
		e.Journal(e.scIdx, t)
	}
}

// runOne executes scenario once with given prefix.
func (e *Engine) runOne(pre []choice, logging bool) (c *C, viol *Violation, pruned bool) {
	c = &C{e: e, pre: pre, logging: logging}
	e.journal(nil)
	e.hang.Store(int64(e.sc.Hang))
	e.started.Store(time.Now().UnixNano())
	var msg string
	var failed bool
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pruneSig:
					pruned = true
				case failSig:
					failed, msg = true, x.msg
				case divergeSig:
					e.Diverged++
					pruned = true
				default:
					failed = true
					msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
			}
		}()
		defer func() {
			for i := len(c.inits) - 1; i >= 0; i-- {
				c.inits[i]()
			}
		}()
		e.sc.Run(c)
	}()
	e.started.Store(0)
	if failed {
		viol = &Violation{Property: e.Prop.ID, Scenario: e.sc.Name, Tier: e.Tier,
			Trail: append([]choice{}, c.trail...), Msg: msg, NoReplay: e.sc.NoReplay}
		viol.Log = c.log
	}
	return
}

// owns tells whether this shard owns a short execution.
func (e *Engine) owns(t []choice) bool {
	if e.NShard <= 1 || e.sc.Solo {
		return true
	}
	if len(t) > e.depth {
		t = t[:e.depth]
	}
	return e.hashTrail(t)%uint64(e.NShard) == uint64(e.Shard)
}

// explore walks the whole choice tree of the scenario.
func (e *Engine) explore() {
	var pre []choice
	var n int64
	for {
		var c, viol, pruned = e.runOne(pre, false)
		n++
		if e.owns(c.trail) {
			e.Trans += c.trans
			if !pruned {
				e.Execs++
				e.PerScen[e.sc.Name]++
			}
			if len(c.trail) > e.MaxTrail {
				e.MaxTrail = len(c.trail)
			}
			if viol != nil {
				// run again to have a description
				if _, v2, _ := e.runOne(c.trail, true); v2 != nil && len(v2.Trail) == len(viol.Trail) {
					viol = v2
				}
				if e.Known != nil && e.Known(viol) {
					if !e.knownHit[viol.Key()] {
						e.knownHit[viol.Key()] = true
						e.KnownHits = append(e.KnownHits, viol)
					}
				} else {
					e.Violations = append(e.Violations, viol)
					return
				}
			}
			if !pruned && len(e.Samples) < 40 && (e.PerScen[e.sc.Name] == 3 || e.PerScen[e.sc.Name] == 57) {
				if c2, _, _ := e.runOne(c.trail, true); len(c2.log) > 0 {
					e.Samples = append(e.Samples, e.sc.Name+": "+strings.Join(c2.log, "; "))
				} else {
					e.Samples = append(e.Samples, e.sc.Name+": trail "+trailStr(c2.trail))
				}
			}
		}
		// next trail
		var t = c.trail
		for len(t) > 0 && t[len(t)-1].V+1 >= t[len(t)-1].N {
			t = t[:len(t)-1]
		}
		if len(t) == 0 {
			e.Done = append(e.Done, e.sc.Name)
			return
		}
		pre = append([]choice{}, t...)
		pre[len(pre)-1].V++
		if n%16 == 0 && time.Now().After(e.Deadline) {
			e.Incomplete = append(e.Incomplete, e.sc.Name)
			return
		}
	}
}

func trailStr(t []choice) string {
	var s []string
	for _, c := range t {
		s = append(s, fmt.Sprintf("%d/%d", c.V, c.N))
	}
	return strings.Join(s, " ")
}

// Run explores all the scenarios.
func (e *Engine) Run() {
	var scs = e.Prop.Scenarios(e.Tier)
	for i := range scs {
		e.sc, e.scIdx = &scs[i], i
		e.seen = map[uint64]int{}
		if e.sc.Solo && i%e.NShard != e.Shard {
			continue
		}
		if only := os.Getenv("VH_ONLY"); only != "" && !strings.Contains(e.sc.Name, only) {
			continue
		}
		if e.depth = e.sc.ShardDepth; e.depth == 0 {
			e.depth = 3
		}
		if time.Now().After(e.Deadline) {
			e.Incomplete = append(e.Incomplete, e.sc.Name)
			continue
		}
		var t0 = time.Now()
		e.explore()
		if os.Getenv("VH_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "  [%d] %s: %.2fs\n", e.Shard, e.sc.Name, time.Since(t0).Seconds())
		}
	}
}

// Replay runs one recorded trail.
func (e *Engine) Replay(scenario string, trail []choice) (*Violation, []string) {
	var scs = e.Prop.Scenarios(e.Tier)
	e.replay = true
	for i := range scs {
		if scs[i].Name == scenario {
			e.sc, e.scIdx = &scs[i], i
			if e.depth = e.sc.ShardDepth; e.depth == 0 {
				e.depth = 3
			}
			var c, v, _ = e.runOne(trail, true)
			return v, c.log
		}
	}
	return nil, []string{"scenario not found"}
}

// Busy returns how long the current execution goes on and its limit.
func (e *Engine) Busy() (time.Duration, time.Duration) {
	var s = e.started.Load()
	if s == 0 {
		return 0, time.Hour
	}
	var lim = 120 * time.Second
	if l := e.hang.Load(); l != 0 {
		lim = time.Duration(l)
	}
	return time.Duration(time.Now().UnixNano() - s), lim
}

// Current makes violation from outside of execution (watchdog).
func (e *Engine) Current(trail []choice, msg string) *Violation {
	return &Violation{Property: e.Prop.ID, Scenario: e.sc.Name, Tier: e.Tier, Trail: trail, Msg: msg}
}

// Result is what one worker reports.
type Result struct {
	Execs, Trans, Pruned, Diverged int64
	MaxTrail                       int
	Incomplete                     []string
	Done                           []string
	Violations                     []*Violation
	KnownHits                      []*Violation
	Samples                        []string
	PerScen                        map[string]int64
	Outcomes                       int
}

func (e *Engine) Result() *Result {
	return &Result{e.Execs, e.Trans, e.Pruned, e.Diverged, e.MaxTrail, e.Incomplete, e.Done, e.Violations, e.KnownHits, e.Samples, e.PerScen, len(e.outcomes)}
}

// Hashes returns sorted fingerprints of visited states and outcomes.
func (e *Engine) Hashes() (s, o []uint64) {
	for h := range e.states {
		s = append(s, h)
	}
	for h := range e.outcomes {
		o = append(o, h)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return
}

// Choice is exported name for the driver.
type Choice = choice

// ParseViolation reads replay file.
func ParseViolation(fpath string) (v *Violation, err error) {
	var b []byte
	if b, err = os.ReadFile(fpath); err != nil {
		return
	}
	v = &Violation{}
	err = json.Unmarshal(b, v)
	return
}
