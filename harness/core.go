// Package main is the runtime-monitoring harness for savaki/kafka.  It uses only
// the exported API of the library: each check drives real code with generated
// workloads and lets a monitor judge the observed events.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run collects what one check observed.
type Run struct {
	ID         string
	Tier       string
	Seed       uint64
	out        string
	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	samples    []any
	nextSample int64
	counters   map[string]int64
	known      map[string]bool
	rule       string
	assume     []string
	extra      map[string]any
	done       atomic.Bool
	progress   atomic.Int64
	current    atomic.Value // string: what is being explored
}

type result struct {
	Status   string           `json:"status"` // ok, violation, error
	What     string           `json:"what,omitempty"`
	Detail   string           `json:"detail,omitempty"`
	Known    []string         `json:"known,omitempty"`
	Evals    int64            `json:"evaluations"`
	Distinct int              `json:"distinct_nontrivial"`
	Rule     string           `json:"rule"`
	Samples  []any            `json:"samples"`
	Counters map[string]int64 `json:"counters"`
	Extra    map[string]any   `json:"extra,omitempty"`
	Assume   []string         `json:"assumptions,omitempty"`
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a case count by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Rng derives an independent generator for a labelled case.
func (r *Run) Rng(label string, idx ...int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, r.ID, "|", label)
	for _, i := range idx {
		fmt.Fprint(h, "|", i)
	}
	return rand.New(rand.NewPCG(r.Seed, h.Sum64()))
}

// Case records one evaluated case; fingerprint identifies what was distinct about
// it, nontrivial whether it counts by the check's rule.
func (r *Run) Case(nontrivial bool, fingerprint uint64) {
	r.progress.Add(1)
	r.mu.Lock()
	r.evals++
	if nontrivial && len(r.distinct) < 4_000_000 {
		r.distinct[fingerprint] = struct{}{}
	}
	r.mu.Unlock()
}

// Count adds to a named event counter reported as evidence.
func (r *Run) Count(name string, n int64) {
	r.progress.Add(1)
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Max keeps the maximum of a measured quantity.
func (r *Run) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.counters[name] {
		r.counters[name] = n
	}
	r.mu.Unlock()
}

// Sample keeps an actual case written out.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Sampled keeps a case every time the number of evaluations passes a threshold.
func (r *Run) Sampled(v func() any) {
	r.mu.Lock()
	due := r.evals >= r.nextSample && len(r.samples) < 12
	if due {
		r.nextSample = r.evals*2 + 3
	}
	r.mu.Unlock()
	if due {
		r.Sample(v())
	}
}

func (r *Run) Doing(format string, args ...any) { r.current.Store(fmt.Sprintf(format, args...)) }

// Known reports a listed finding candidate; the driver decides whether it is listed.
func (r *Run) Known(s string) {
	r.mu.Lock()
	r.known[s] = true
	r.mu.Unlock()
}

func (r *Run) write(res result) {
	if !r.done.CompareAndSwap(false, true) {
		select {} // another goroutine is already ending the process
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	res.Evals = r.evals
	res.Distinct = len(r.distinct)
	res.Rule = r.rule
	res.Samples = r.samples
	res.Counters = r.counters
	res.Extra = r.extra
	res.Assume = r.assume
	for k := range r.known {
		res.Known = append(res.Known, k)
	}
	sort.Strings(res.Known)
	data, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(r.out, data, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// Violation ends the run: the property is broken.
func (r *Run) Violation(what string, format string, args ...any) {
	cur, _ := r.current.Load().(string)
	r.write(result{Status: "violation", What: what, Detail: fmt.Sprintf(format, args...) + "\ncontext: " + cur})
	os.Exit(1)
}

// Fail ends the run: the harness itself could not decide.
func (r *Run) Fail(format string, args ...any) {
	cur, _ := r.current.Load().(string)
	r.write(result{Status: "error", What: fmt.Sprintf(format, args...), Detail: cur})
	os.Exit(3)
}

// safely runs fn and returns the panic, if any, with the stack.
func safely(fn func()) (p any, stack string) {
	defer func() {
		if v := recover(); v != nil {
			p, stack = v, string(debug.Stack())
		}
	}()
	fn()
	return
}

// Parallel runs fn for 0..n-1 on all cores.
func (r *Run) Parallel(n int, fn func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				fn(i)
			}
		}()
	}
	wg.Wait()
}

func fp(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

func hx(b []byte) string {
	if len(b) > 600 {
		return hex.EncodeToString(b[:600]) + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func short(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 1500 {
		s = s[:1500] + fmt.Sprintf("... (%d chars)", len(s))
	}
	return s
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

var checks = map[string]func(*Run){}

func main() {
	id := flag.String("check", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	repo := flag.String("repo", "", "source of the library, for the generators' dictionary")
	list := flag.Bool("list", false, "list checks")
	flag.Parse()
	if *list {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	fn := checks[*id]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(3)
	}
	r := &Run{
		ID: *id, Tier: *tier, Seed: *seed, out: *out,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, known: map[string]bool{},
		extra: map[string]any{},
	}
	if *repo != "" {
		loadDictionary(*repo)
		r.extra["dictionary"] = len(dictInts) + len(dictStrs)
	}
	start := time.Now()
	if p, st := safely(func() { fn(r) }); p != nil {
		fmt.Fprintf(os.Stderr, "HARNESS PANIC %v\n%s\n", p, st)
		if firstFrameIsLibrary(st) {
			r.Violation("the library panicked", "%v\n%s", p, st)
		}
		r.Fail("harness panic: %v", p)
	}
	r.extra["check_s"] = time.Since(start).Seconds()
	r.write(result{Status: "ok"})
}

const libPath = "github.com/savaki/kafka"

// firstFrameIsLibrary reports whether the innermost frame outside the Go runtime
// and standard library, of a stack taken in a deferred function, is library code.
func firstFrameIsLibrary(stack string) bool {
	if i := strings.LastIndex(stack, "panic("); i >= 0 {
		stack = stack[i:]
	}
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, libPath) {
			return true
		}
		if strings.HasPrefix(line, "main.") || strings.HasPrefix(line, "verif/") {
			return false
		}
	}
	return false
}
