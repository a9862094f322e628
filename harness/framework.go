package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// S is a byte string that survives JSON: it is written as a Go-quoted ASCII
// literal, so replay files are exact whatever the bytes are.
type S string

func (s S) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(s))) }
func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	if err != nil {
		return err
	}
	*s = S(u)
	return nil
}

// Ctx collects what a run covered.
type Ctx struct {
	classes map[string]int
}

func (c *Ctx) class(format string, args ...any) {
	if c != nil && c.classes != nil {
		if len(args) > 0 {
			format = fmt.Sprintf(format, args...)
		}
		c.classes[format]++
	}
}

// Part is one generator with its oracle. A property has one or more parts.
type part struct {
	prop, name string
	// cases per shard in the quick and in the thorough tier
	quick, thorough int
	run             func(r *runner, n int, seed uint64) *failure
	// fuzz decides the one case that a stream of draws leads to
	fuzz   func(t *rapid.T, begin, fail func(*failure))
	replay func(raw json.RawMessage) error
}

type failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error"`
	Seed     uint64          `json:"seed"`
	Case     json.RawMessage `json:"case"`
}

var parts []*part
var rules = map[string]string{}

// gen draws a case, check decides it, nontrivial says whether it counts as a
// non-trivial case. key identifies a case when counting distinct ones.
func register[T any](prop, name string, quick, thorough int,
	gen func(t *rapid.T) T, check func(c *Ctx, v T) error, nontrivial func(v T) bool) {
	p := &part{prop: prop, name: name, quick: quick, thorough: thorough}
	safe := func(c *Ctx, v T) (err error) {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("panic: %v\n%s", x, trimStack(debug.Stack()))
			}
		}()
		return check(c, v)
	}
	p.run = func(r *runner, n int, seed uint64) *failure {
		flag.Set("rapid.checks", fmt.Sprint(n))
		flag.Set("rapid.seed", fmt.Sprint(seed))
		var last *failure
		tb := &fakeTB{name: prop + "/" + name}
		func() {
			defer func() {
				if x := recover(); x != nil && x != errFailNow {
					panic(x)
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				if last == nil && r.late() {
					return
				}
				v := gen(t)
				r.begin(p, v)
				ctx := &r.ctx
				if last != nil {
					ctx = nil // shrinking: not part of what was explored
				}
				err := safe(ctx, v)
				r.end()
				if last == nil {
					r.count(prop+"/"+name, v, nontrivial(v))
				}
				if err != nil {
					raw, merr := json.Marshal(v)
					if merr != nil {
						panic(merr)
					}
					last = &failure{Property: prop, Part: name, Error: err.Error(), Seed: seed, Case: raw}
					t.Fatalf("%v", firstLine(err.Error()))
				}
			})
		}()
		if last == nil && tb.failed {
			panic("rapid failed without a failing case: " + tb.log.String()[:min(1500, tb.log.Len())])
		}
		return last
	}
	p.fuzz = func(t *rapid.T, begin, fail func(*failure)) {
		v := gen(t)
		f := func(msg string) *failure {
			raw, err := json.Marshal(v)
			if err != nil {
				panic(err)
			}
			return &failure{Property: prop, Part: name, Error: msg, Case: raw}
		}
		if begin != nil {
			begin(f("the process died while running this case"))
		}
		if err := safe(nil, v); err != nil {
			fail(f(err.Error()))
			t.Fatalf("%v", firstLine(err.Error()))
		}
	}
	p.replay = func(raw json.RawMessage) error {
		var v T
		if err := json.Unmarshal(raw, &v); err != nil {
			fmt.Fprintln(os.Stderr, "bad replay file:", err)
			os.Exit(2)
		}
		return safe(nil, v)
	}
	parts = append(parts, p)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// fakeTB lets rapid run outside of go test.
type fakeTB struct {
	name   string
	failed bool
	log    strings.Builder
}

var errFailNow = fmt.Errorf("FailNow")

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return f.name }
func (f *fakeTB) Logf(s string, a ...any)   { fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *fakeTB) Log(a ...any)              { fmt.Fprintln(&f.log, a...) }
func (f *fakeTB) Skipf(s string, a ...any)  { panic("skip") }
func (f *fakeTB) Skip(a ...any)             { panic("skip") }
func (f *fakeTB) SkipNow()                  { panic("skip") }
func (f *fakeTB) Errorf(s string, a ...any) { f.Logf(s, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)            { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Logf(s, a...); f.failed = true; panic(errFailNow) }
func (f *fakeTB) Fatal(a ...any)            { f.Log(a...); f.failed = true; panic(errFailNow) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(errFailNow) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// runner executes the parts of one property in one shard.
type runner struct {
	out       string // directory for results
	trace     string // when set, every case is written here before it is run
	ctx       Ctx
	evals     int
	perPart   map[string]int
	nontriv   map[uint64]struct{}
	samples   []sample
	start     atomic.Int64 // when the current case began, 0 if none runs
	mu        sync.Mutex
	curPart   *part
	curCase   any
	shardSeed uint64
	slowest   time.Duration
	deadline  time.Time // no new cases of the current part after it
}

// late says whether the time for the current part is used up, as when the code
// under test is slow, the machine is busy, or the inputs are large. What was
// left out shows in the number of cases.
func (r *runner) late() bool { return !r.deadline.IsZero() && time.Now().After(r.deadline) }

type sample struct {
	Part string          `json:"part"`
	Case json.RawMessage `json:"case"`
}

func newRunner(out string) *runner {
	return &runner{out: out, ctx: Ctx{classes: map[string]int{}}, perPart: map[string]int{}, nontriv: map[uint64]struct{}{}}
}

func (r *runner) begin(p *part, v any) {
	r.mu.Lock()
	r.curPart, r.curCase = p, v
	r.mu.Unlock()
	r.start.Store(time.Now().UnixNano())
	if r.trace != "" {
		writeFailure(r.trace, r.currentFailure("the process died while running this case"))
	}
}

func (r *runner) beginRaw(p *part, raw json.RawMessage) { r.begin(p, raw) }

func (r *runner) end() {
	r.slowest = max(r.slowest, time.Duration(time.Now().UnixNano()-r.start.Load()))
	r.start.Store(0)
}

func (r *runner) currentFailure(msg string) *failure {
	r.mu.Lock()
	defer r.mu.Unlock()
	raw, err := json.Marshal(r.curCase)
	if err != nil {
		raw = []byte(`null`)
	}
	return &failure{Property: r.curPart.prop, Part: r.curPart.name, Error: msg, Seed: r.shardSeed, Case: raw}
}

func (r *runner) count(name string, v any, nontrivial bool) {
	r.evals++
	r.perPart[name]++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(name))
	hashValue(h, v)
	k := h.Sum64()
	if _, ok := r.nontriv[k]; ok {
		return
	}
	r.nontriv[k] = struct{}{}
	// Samples: the first few of each part, small enough to read.
	if n := r.perPart["sample:"+name]; n < 2 {
		raw, _ := json.Marshal(v)
		if len(raw) < 1200 {
			r.samples = append(r.samples, sample{name, raw})
			r.perPart["sample:"+name]++
		}
	}
}

func hashValue(h interface{ Write([]byte) (int, error) }, v any) {
	if k, ok := v.(interface{ key() []byte }); ok {
		h.Write(k.key())
		return
	}
	raw, _ := json.Marshal(v)
	h.Write(raw)
}

// watch reports a case that does not come to an end, whether it spins or waits,
// or that eats memory out of all proportion: the inputs are small, so both
// bounds are orders of magnitude away from what a case takes. Time is counted
// in rounds of this loop, so a machine that is busy or suspended and lets
// nothing run does not trip it.
func (r *runner) watch(maxCase time.Duration, maxHeap uint64) {
	const tick = 200 * time.Millisecond
	var lastStart int64
	ticks := 0
	for {
		time.Sleep(tick)
		s := r.start.Load()
		if s == 0 || s != lastStart {
			lastStart, ticks = s, 0
			continue
		}
		ticks++
		if time.Duration(ticks)*tick > maxCase && r.start.Load() == s {
			r.die(fmt.Sprintf("the operation did not come to an end within %v", maxCase))
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > maxHeap && r.start.Load() == s {
			r.die(fmt.Sprintf("the operation holds %d bytes of memory", m.HeapAlloc))
		}
	}
}

func (r *runner) die(msg string) {
	f := r.currentFailure(msg)
	r.finish(f)
	os.Exit(1)
}

func writeFailure(path string, f *failure) {
	raw, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

type shardResult struct {
	Evaluations int            `json:"evaluations"`
	PerPart     map[string]int `json:"per_part"`
	Classes     map[string]int `json:"classes"`
	Samples     []sample       `json:"samples"`
	Failure     *failure       `json:"failure,omitempty"`
}

func (r *runner) finish(f *failure) {
	pp := map[string]int{}
	for k, v := range r.perPart {
		if !strings.HasPrefix(k, "sample:") {
			pp[k] = v
		}
	}
	res := shardResult{Evaluations: r.evals, PerPart: pp, Classes: r.ctx.classes, Samples: r.samples, Failure: f}
	raw, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	keys := make([]uint64, 0, len(r.nontriv))
	for k := range r.nontriv {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	bin := make([]byte, 8*len(keys))
	for i, k := range keys {
		binary.LittleEndian.PutUint64(bin[8*i:], k)
	}
	if err := os.WriteFile(filepath.Join(r.out, "keys.bin"), bin, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(r.out, "result.json"), raw, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func seedFor(seed, shard uint64, name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%s", seed, shard, name)
	s := mix64(h.Sum64())
	if s == 0 {
		s = 1
	}
	return s
}
