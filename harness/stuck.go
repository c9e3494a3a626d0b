package main

import (
	"math/rand/v2"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/harness/yield"
)

var minutesRe = regexp.MustCompile(`, \d+ minutes`)

// stacks returns the dump of all goroutines but the caller, and whether every one
// of them is blocked on something only another goroutine or the network can resolve.
func stacks() (string, bool) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	gs := strings.Split(minutesRe.ReplaceAllString(string(buf), ""), "\n\n")
	blocked := true
	var kept []string
	for i, g := range gs {
		if i == 0 || strings.Contains(g, "main.(*shuffler).run(") {
			continue // the caller, and pollers of the harness that wait for the library
		}
		kept = append(kept, g)
		head, _, _ := strings.Cut(g, "\n")
		a, b := strings.Index(head, "["), strings.Index(head, "]")
		if a < 0 || b < a {
			continue
		}
		state := head[a+1 : b]
		switch {
		case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"), strings.HasPrefix(state, "sync."),
			strings.HasPrefix(state, "semacquire"), strings.HasPrefix(state, "IO wait"):
		default:
			blocked = false
		}
	}
	return strings.Join(kept, "\n\n"), blocked
}

// await waits for done.  If instead nothing moves any more (every goroutine blocked,
// unchanged, over many samples), or far too long passes, that is a violation.
func (r *Run) await(done <-chan struct{}, what string, detail func() string) {
	t := time.NewTimer(timeScale * time.Second)
	select {
	case <-done:
		t.Stop()
		return
	case <-t.C:
	}
	last, same := "", 0
	began, ticks := time.Now(), 0
	lastProgress := r.progress.Load()
	for {
		t := time.NewTimer(timeScale * 100 * time.Millisecond)
		select {
		case <-done:
			t.Stop()
			return
		case <-t.C:
		}
		ticks++
		s, blocked := stacks()
		if blocked && s == last {
			same++
		} else {
			same = 0
		}
		last = s
		if p := r.progress.Load(); p != lastProgress {
			lastProgress, began, ticks, same = p, time.Now(), 0, 0
		}
		if same >= 40 {
			r.Violation(what, "every goroutine is blocked and nothing has changed for %d samples\n%s\n%s", same, detail(), clip(s, 12000))
		}
		if time.Since(began) > timeScale*150*time.Second && ticks > 900 {
			r.Violation(what, "not finished after %v and still not finishing\n%s\n%s", time.Since(began), detail(), clip(s, 12000))
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// awaitAll waits for a group of goroutines.
func (r *Run) awaitAll(wg *sync.WaitGroup, what string, detail func() string) {
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	r.await(done, what, detail)
}

// perturb picks a schedule perturbation profile for the next batch of executions.
func perturb(rng *rand.Rand) string {
	n := yield.Sites()
	if n == 0 {
		return "none"
	}
	switch rng.IntN(6) {
	case 0:
		yield.Set(0, 0, 1, -1, 0, 1)
		return "undisturbed"
	case 1:
		yield.Set(0.2, 0, 1, -1, 0, 1)
		return "gosched"
	case 2:
		yield.Set(0.1, 0.01, 30*time.Microsecond, -1, 0, 1)
		return "short sleeps"
	case 3:
		yield.Set(0.02, 0.002, 300*time.Microsecond, -1, 0, 1)
		return "long sleeps"
	default:
		hot := rng.IntN(n)
		if p := yield.Passed(); len(p) > 0 {
			hot = p[rng.IntN(len(p))]
		}
		yield.Set(0.02, 0, 1, hot, 0.5, 300*time.Microsecond)
		return "hot site"
	}
}

func calm() { yield.Set(0, 0, 1, -1, 0, 1) }

func (r *Run) yieldStats() {
	d, t := yield.Hit()
	r.mu.Lock()
	r.counters["perturbation_points"] = int64(yield.Sites())
	r.counters["perturbation_points_passed"] = int64(d)
	r.counters["perturbation_events"] = int64(t)
	r.mu.Unlock()
}
