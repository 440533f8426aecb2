package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Prop is one monitored property: a workload (Run builds and executes one case) and its oracle.
type Prop struct {
	ID              string
	Rule            string         // how cases are made and what makes one non-trivial
	Quick, Thorough int            // number of cases
	Run             func(c *Case)  // one case
	Min             map[string]int // observations without which the run is inconclusive (quick tier)
	Serial          bool           // run in a single worker process
	Race            bool           // built with the race detector
	MaxCPU          float64        // CPU seconds one case may use before it counts as runaway
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.MaxCPU == 0 {
		p.MaxCPU = 100
	}
	props[p.ID] = p
}

// Violation is what an oracle reports.
type Violation struct {
	Property string            `json:"property"`
	Seed     uint64            `json:"seed"`
	Tier     string            `json:"tier"`
	Case     int               `json:"case"`
	Kind     string            `json:"kind"`
	Detail   string            `json:"detail"`
	Inputs   map[string]string `json:"inputs,omitempty"`
}

// Stats is what a worker observed.
type Stats struct {
	Cases   int            `json:"cases"`
	Slowest float64        `json:"slowest"`
	SlowIdx int            `json:"slow_idx"`
	Counts  map[string]int `json:"counts"`
	Sigs    []uint64       `json:"sigs"`
	Samples []string       `json:"samples"`
}

// Recorder collects observations; safe for concurrent use.
type Recorder struct {
	mu      sync.Mutex
	stats   Stats
	sigs    map[uint64]bool
	viols   []*Violation
	current atomic.Int64
}

func newRecorder() *Recorder {
	return &Recorder{stats: Stats{Counts: map[string]int{}}, sigs: map[uint64]bool{}}
}

// Case is one execution of the workload of a property.
// some is one of the counts, or, seldom, far more.
func (c *Case) some(counts ...int) int {
	if c.P(0.008) {
		c.many = true
		c.Count("very_many", 1)
		return c.Int(13, 45)
	}
	return pick(c, counts...)
}

type Case struct {
	Idx    int
	Seed   uint64
	Tier   string
	many   bool // the page holds very many of something
	R      *rand.Rand
	W      *Words
	prop   *Prop
	rec    *Recorder
	inputs map[string]string
	failed bool

	longList bool // the page has its long list already
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func newCase(p *Prop, rec *Recorder, seed uint64, tier string, idx int) *Case {
	r := rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+hash64(p.ID), uint64(idx)*0xD1B54A32D192ED03+17))
	c := &Case{Idx: idx, Seed: seed, Tier: tier, R: r, prop: p, rec: rec, inputs: map[string]string{}}
	c.W = newWords(r)
	return c
}

// Input attaches a part of the witness.
func (c *Case) Input(name, val string) {
	if len(val) > 400_000 {
		val = val[:400_000] + "…[truncated]"
	}
	c.inputs[name] = val
}

// Fail reports a violation; only the first of a case is kept.
func (c *Case) Fail(kind, format string, args ...any) {
	if c.failed {
		return
	}
	c.failed = true
	v := &Violation{Property: c.prop.ID, Seed: c.Seed, Tier: c.Tier, Case: c.Idx, Kind: kind,
		Detail: clip(fmt.Sprintf(format, args...), 6000), Inputs: map[string]string{}}
	for k, x := range c.inputs {
		v.Inputs[k] = x
	}
	c.rec.mu.Lock()
	c.rec.viols = append(c.rec.viols, v)
	c.rec.mu.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Count records n observations of kind key.
func (c *Case) Count(key string, n int) {
	c.rec.mu.Lock()
	c.rec.stats.Counts[key] += n
	c.rec.mu.Unlock()
}

// Distinct records the signature of a non-trivial observation.
func (c *Case) Distinct(parts ...any) {
	h := hash64(fmt.Sprint(parts...))
	c.rec.mu.Lock()
	if len(c.rec.sigs) < 2_000_000 {
		c.rec.sigs[h] = true
	}
	c.rec.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence.
func (c *Case) Sample(format string, args ...any) {
	c.rec.mu.Lock()
	if len(c.rec.stats.Samples) < 3 {
		c.rec.stats.Samples = append(c.rec.stats.Samples, fmt.Sprintf("case %d: ", c.Idx)+clip(fmt.Sprintf(format, args...), 700))
	}
	c.rec.mu.Unlock()
}

// runCase executes one case; a panic of the code under test is a violation (no outcome was delivered).
func runCase(p *Prop, rec *Recorder, seed uint64, tier string, idx int) (c *Case) {
	c = newCase(p, rec, seed, tier, idx)
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			kind := "panic"
			if !strings.Contains(st, "giulianopz/go-readability") {
				kind = "harness-panic"
			}
			c.Fail(kind, "panic: %v\n%s", e, st)
		}
		rec.mu.Lock()
		rec.stats.Cases++
		rec.mu.Unlock()
	}()
	p.Run(c)
	return c
}

func (r *Recorder) snapshot() *Stats {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := r.stats
	s.Sigs = s.Sigs[:0]
	for h := range r.sigs {
		s.Sigs = append(s.Sigs, h)
	}
	sort.Slice(s.Sigs, func(i, j int) bool { return s.Sigs[i] < s.Sigs[j] })
	return &s
}

// ---- random helpers

func (c *Case) Int(lo, hi int) int { return lo + c.R.IntN(hi-lo+1) }
func (c *Case) P(p float64) bool   { return c.R.Float64() < p }

func pick[T any](c *Case, xs ...T) T { return xs[c.R.IntN(len(xs))] }

func shuffle[T any](c *Case, xs []T) []T {
	c.R.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	return xs
}
