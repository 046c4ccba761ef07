// Package verifharness drives the real mk-lr code under generated workloads and
// decides the properties of /verif/properties.jsonl with runtime monitors.
package verifharness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/cryptotest"
	"time"
)

// Prop is one property's workload: a fixed list of cases, each fully determined
// by (seed, property, case index).
type Prop struct {
	ID    string
	Rule  string
	Cases func(tier string) int
	Run   func(c *Ctx)
	// MinEvents: event counters which must be > 0 over the whole run, or the run
	// observed nothing and is inconclusive.
	MinEvents []string
}

var registry = map[string]*Prop{}

func Register(p *Prop) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

// Violation is a refuted property with what is needed to replay it.
type Violation struct {
	Prop   string   `json:"property"`
	Seed   uint64   `json:"seed"`
	Tier   string   `json:"tier"`
	Case   int      `json:"case"`
	Kind   string   `json:"kind"`
	Detail string   `json:"detail"`
	Trace  []string `json:"trace"`
}

// Partial is what one shard of a run observed.
type Partial struct {
	Prop        string             `json:"property"`
	CasesRun    int                `json:"cases_run"`
	CasesTotal  int                `json:"cases_total"`
	Evals       int                `json:"evals"`
	Events      map[string]int     `json:"events"`
	States      []string           `json:"states"`
	MaxRatio    map[string]float64 `json:"max_ratio"`
	Samples     []string           `json:"samples"`
	Violations  []Violation        `json:"violations"`
	Rule        string             `json:"rule"`
	MinEvents   []string           `json:"min_events"`
	Done        bool               `json:"done"`
	DistinctRaw int                `json:"distinct_raw"`
	// Prints: per case, fingerprints for run.py to compare across processes
	Prints map[string]map[string]Print `json:"prints,omitempty"`
}

// Ctx is the context of one case.
type Ctx struct {
	T    *testing.T
	Prop string
	// uniform: made-up components are uniformly random throughout
	uniform bool
	Seed    uint64
	Tier    string
	Case    int
	Total   int
	R       *rand.Rand

	mu    sync.Mutex
	trace []string
	run   *runState
}

type runState struct {
	mu     sync.Mutex
	part   Partial
	states map[string]struct{}
}

type violationPanic struct{ kind, detail string }

// Failf reports a violation of the property and abandons the case.
func (c *Ctx) Failf(kind, format string, args ...interface{}) {
	panic(violationPanic{kind, fmt.Sprintf(format, args...)})
}

// Check is Failf unless ok.
func (c *Ctx) Check(ok bool, kind, format string, args ...interface{}) {
	c.Eval()
	if !ok {
		c.Failf(kind, format, args...)
	}
}

// Logf appends to the case's trace, which is what a violation reports.
func (c *Ctx) Logf(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.trace) < 4000 {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

// Eval counts one evaluation of an oracle.
func (c *Ctx) Eval() {
	c.run.mu.Lock()
	c.run.part.Evals++
	c.run.mu.Unlock()
}

// Event counts one observed event.
func (c *Ctx) Event(name string) {
	c.run.mu.Lock()
	c.run.part.Events[name]++
	c.run.mu.Unlock()
}

// State records one distinct non-trivial state or situation.
func (c *Ctx) State(format string, args ...interface{}) {
	k := fmt.Sprintf(format, args...)
	c.run.mu.Lock()
	c.run.states[k] = struct{}{}
	c.run.mu.Unlock()
}

// Ratio records how close an observed error came to its bound.
func (c *Ctx) Ratio(name string, v float64) {
	c.run.mu.Lock()
	if v > c.run.part.MaxRatio[name] {
		c.run.part.MaxRatio[name] = v
	}
	c.run.mu.Unlock()
}

// Reseed makes crypto/rand (and so every sampler created from now on) a
// deterministic function of the seed and the label.
func (c *Ctx) Reseed(label string) {
	// The lock of the deterministic source orders goroutines, which hides races from
	// the detector: half of the concurrent cases (and with an even number of shards,
	// half of the processes) use the system's source.
	if c.Prop == "C24" && c.Case%2 == 1 {
		return
	}
	cryptotest.SetGlobalRandom(c.T, hash64(fmt.Sprintf("%d|%s", c.Seed, label)))
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	x := h.Sum64()
	x ^= x >> 31
	x *= 0x9e3779b97f4a7c15
	x ^= x >> 29
	return x
}

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return def
}

// hangLimit is how long one case may make no progress at all before it counts as
// hung; cases take well under a few seconds.
const hangLimit = 300 * time.Second

func runProperty(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	p := registry[id]
	if p == nil {
		fmt.Println("HARNESS-ERROR unknown property", id)
		os.Exit(3)
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	out := os.Getenv("VERIF_OUT")
	shard, nshard := envInt("VERIF_SHARD", 0), envInt("VERIF_NSHARD", 1)
	only := envInt("VERIF_CASE", -1)

	rs := &runState{states: map[string]struct{}{}}
	rs.part = Partial{Prop: id, Events: map[string]int{}, MaxRatio: map[string]float64{}, Rule: p.Rule, MinEvents: p.MinEvents}
	n := p.Cases(tier)
	rs.part.CasesTotal = n

	// watchdog: a case that never ends is reported, not waited for
	type beat struct {
		c  *Ctx
		at time.Time
	}
	var bmu sync.Mutex
	var cur beat
	go func() {
		for {
			time.Sleep(time.Second)
			bmu.Lock()
			b := cur
			bmu.Unlock()
			if b.c != nil && time.Since(b.at) > hangLimit {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				b.c.mu.Lock()
				tr := append([]string(nil), b.c.trace...)
				b.c.mu.Unlock()
				rs.mu.Lock()
				rs.part.Violations = append(rs.part.Violations, Violation{Prop: id, Seed: seed, Tier: tier, Case: b.c.Case, Kind: "hang", Detail: "no progress: the call does not terminate\n" + string(buf), Trace: tail(tr)})
				rs.flush(out, shard)
				os.Exit(4)
			}
		}
	}()

	for i := 0; i < n; i++ {
		if only >= 0 {
			if i != only && !(id == "C34" && i/nStreams == only/nStreams && i%nshard == shard) {
				continue
			}
		} else if i%nshard != shard {
			continue
		}
		c := &Ctx{T: t, Prop: id, Seed: seed, Tier: tier, Case: i, Total: n, run: rs}
		c.R = rand.New(rand.NewPCG(hash64(fmt.Sprintf("%d|%s|%d", seed, id, i)), 0x5eed))
		bmu.Lock()
		cur = beat{c, time.Now()}
		bmu.Unlock()
		if out != "" {
			fmt.Println("CASE", i)
		}
		v := runCase(p, c)
		bmu.Lock()
		cur = beat{}
		bmu.Unlock()
		rs.mu.Lock()
		rs.part.CasesRun++
		if len(rs.part.Samples) < 3 {
			rs.part.Samples = append(rs.part.Samples, fmt.Sprintf("case %d: %s", i, strings.Join(head(c.trace, 6), " ; ")))
		}
		if v != nil {
			rs.part.Violations = append(rs.part.Violations, *v)
		}
		nv := len(rs.part.Violations)
		rs.mu.Unlock()
		if nv >= 3 {
			break
		}
	}
	rs.mu.Lock()
	rs.part.Done = true
	rs.flush(out, shard)
	rs.mu.Unlock()
}

// flush writes the shard's observations; rs.mu is held.
func (rs *runState) flush(out string, shard int) {
	rs.part.States = rs.part.States[:0]
	for s := range rs.states {
		rs.part.States = append(rs.part.States, s)
	}
	sort.Strings(rs.part.States)
	if out == "" {
		b, _ := json.MarshalIndent(rs.part, "", " ")
		fmt.Println(string(b))
		return
	}
	b, err := json.Marshal(rs.part)
	if err == nil {
		err = os.WriteFile(filepath.Join(out, fmt.Sprintf("part%d.json", shard)), b, 0o644)
	}
	if err != nil {
		fmt.Println("HARNESS-ERROR", err)
		os.Exit(3)
	}
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s []string) []string {
	if len(s) > 60 {
		return s[len(s)-60:]
	}
	return s
}

func runCase(p *Prop, c *Ctx) (v *Violation) {
	defer func() {
		if e := recover(); e != nil {
			v = &Violation{Prop: c.Prop, Seed: c.Seed, Tier: c.Tier, Case: c.Case}
			c.mu.Lock()
			v.Trace = tail(c.trace)
			c.mu.Unlock()
			if vp, ok := e.(violationPanic); ok {
				v.Kind, v.Detail = vp.kind, vp.detail
			} else {
				v.Kind, v.Detail = "unexpected-panic", fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}
	}()
	c.Reseed(fmt.Sprintf("case|%s|%d", c.Prop, c.Case))
	p.Run(c)
	return nil
}

// catch runs f and returns what it panicked with, nil if it returned.
func catch(f func()) (res interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if vp, ok := e.(violationPanic); ok {
				panic(vp)
			}
			res = e
			if res == nil {
				res = "nil panic"
			}
		}
	}()
	f()
	return nil
}
