// Package yield perturbs schedules at points injected into the library's source by
// the build overlay.  It deliberately uses no synchronisation that the race detector
// would take for ordering between the library's goroutines.
package yield

import (
	"math/rand/v2"
	"runtime"
	"time"
)

const maxSites = 4096

// profile in force; written only by Set while the library is quiet, read unsynchronised.
var (
	gosched  uint32 // probability of Gosched, of 1<<16
	sleep    uint32 // probability of a short sleep, of 1<<16
	maxSleep int64  // ns
	hot      int    // site that is delayed often, -1 none
	hotProb  uint32 // of 1<<16
	hotSleep int64
	hits     [maxSites]uint32
	sites    int
)

// Register reserves n sites and returns the first.
func Register(n int) int {
	first := sites
	sites += n
	return first
}

// Sites is the number of injected points.
func Sites() int { return sites }

// Set installs a profile.
//
//go:norace
func Set(goschedProb, sleepProb float64, maxS time.Duration, hotSite int, hotP float64, hotS time.Duration) {
	gosched = uint32(goschedProb * 65536)
	sleep = uint32(sleepProb * 65536)
	maxSleep = int64(maxS)
	hot = hotSite
	hotProb = uint32(hotP * 65536)
	hotSleep = int64(hotS)
}

// Hit counts the sites passed so far.
//
//go:norace
func Hit() (distinct int, total uint64) {
	for _, h := range hits {
		if h > 0 {
			distinct++
			total += uint64(h)
		}
	}
	return
}

// Passed lists the sites passed so far.
//
//go:norace
func Passed() (out []int) {
	for i, h := range hits {
		if h > 0 {
			out = append(out, i)
		}
	}
	return
}

// Counts returns how often each site has been passed.
//
//go:norace
func Counts() []uint32 { return append([]uint32{}, hits[:]...) }

// Point is called before every statement of the instrumented packages.
//
//go:norace
func Point(site int) {
	if site < maxSites {
		hits[site]++
	}
	if gosched|sleep|hotProb == 0 {
		return
	}
	x := rand.Uint32()
	if site == hot && x>>16 < hotProb {
		time.Sleep(time.Duration(1 + rand.Int64N(hotSleep)))
		return
	}
	x &= 0xffff
	if x < sleep {
		time.Sleep(time.Duration(1 + rand.Int64N(maxSleep)))
	} else if x < sleep+gosched {
		runtime.Gosched()
	}
}
