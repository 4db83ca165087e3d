// Package vk is the run-time monitoring kit shared by all the checks.
//
// A check is a deterministic list of cases. The parent process starts worker
// processes (shards) that execute the cases with the real code. Each worker
// notes the case it is about to execute, so that a crash (including a panic in
// a goroutine of the code under test, a fatal error of the Go runtime, and a
// case that never returns) is attributed to the case by the parent.
package vk

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime/debug"
	"sort"
	"sync"
)

// Check describes how a property is decided.
type Check struct {
	ID    string
	Level string
	// Rule describes how cases are made, and what makes one non-trivial.
	Rule        string
	Assumptions []string
	// N returns the number of cases.
	Quick, Thorough int
	// Case executes a case.
	Case func(c *Ctx)
	// Race is true if workers must be built with the race detector.
	Race bool
	// Arch is the architecture the workers are built for. "" is the one of the parent.
	Arch string
	// Shards is the number of worker processes. Default 6.
	Shards int
	// Serial cases are executed in one goroutine per worker, always.
	// MinCounters are the counters that must not be below the value.
	// A run below that observed too little and is not a pass.
	MinCounters map[string]int
	// HangIsViolation: termination is a part of all the properties here since
	// a case that takes a few milliseconds did not return for HangSec twice.
	HangSec int
	// MemLimit is RLIMIT_AS-like soft limit in MB (0: none)
	MemMB int
	// Init is called once in each worker.
	Init func(w *Worker)
}

// Worker is the state of a worker process.
type Worker struct {
	Check *Check
	Seed  int64
	Tier  string

	mu         sync.Mutex
	evals      int64
	hashes     map[uint64]struct{}
	counters   map[string]int64
	samples    []string
	violations []Violation
	inited     map[string]bool
}

// Violation is what a monitor reported.
type Violation struct {
	Case int    `json:"case"`
	Key  string `json:"key"`
	Msg  string `json:"msg"`
}

// Ctx is the context of a case.
type Ctx struct {
	W     *Worker
	Index int
	Rng   *rand.Rand
	viol  int
}

// Thorough returns whether the run is in the thorough tier.
func (c *Ctx) Thorough() bool { return c.W.Tier == "thorough" }

// Eval counts n evaluations of the oracle.
func (c *Ctx) Eval(n int) {
	c.W.mu.Lock()
	c.W.evals += int64(n)
	c.W.mu.Unlock()
}

// Distinct notes the signature of a non-trivial case.
func (c *Ctx) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	c.W.mu.Lock()
	c.W.hashes[h.Sum64()] = struct{}{}
	c.W.mu.Unlock()
}

// Count adds n to the counter.
func (c *Ctx) Count(name string, n int) {
	c.W.mu.Lock()
	c.W.counters[name] += int64(n)
	c.W.mu.Unlock()
}

// Max updates the maximum of the value.
func (c *Ctx) Max(name string, n int) {
	name = "max:" + name
	c.W.mu.Lock()
	if c.W.counters[name] < int64(n) {
		c.W.counters[name] = int64(n)
	}
	c.W.mu.Unlock()
}

// Sample notes an actual case.
func (c *Ctx) Sample(format string, a ...interface{}) {
	c.W.mu.Lock()
	if len(c.W.samples) < 4 {
		s := fmt.Sprintf("case %d: ", c.Index) + fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.W.samples = append(c.W.samples, s)
	}
	c.W.mu.Unlock()
}

// Fail reports a violation. key identifies what failed and does not contain
// anything specific to a run.
func (c *Ctx) Fail(key string, format string, a ...interface{}) {
	c.W.mu.Lock()
	defer c.W.mu.Unlock()
	c.viol++
	if len(c.W.violations) < 20 {
		msg := fmt.Sprintf(format, a...)
		if len(msg) > 8000 {
			msg = msg[:8000] + "..."
		}
		c.W.violations = append(c.W.violations, Violation{c.Index, key, msg})
	}
}

// Failed returns whether the case reported a violation.
func (c *Ctx) Failed() bool {
	c.W.mu.Lock()
	defer c.W.mu.Unlock()
	return c.viol > 0
}

// Guard calls f and turns a panic into a violation.
// It returns false if it panicked.
func (c *Ctx) Guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			c.Fail("panic", "%s: panic: %v\n%s", what, e, debug.Stack())
			ok = false
		}
	}()
	f()
	return true
}

// CaseSeed returns the seed of the random numbers for the case.
func CaseSeed(seed int64, id string, index int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, index)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

func sortedKeys(m map[string]int64) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
