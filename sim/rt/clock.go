//go:build go1.25

package rt

import (
	"fmt"
	"sort"
	"time"
)

// The simulated clock.  Its base and zone are set by each case; it advances
// with the bubble's fake time, and jumps when the case says so.
var (
	clockBase  = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)
	clockStart time.Time
	clockJumps []int64 // nanoseconds to add at the k-th reading
	clockReads int
	clockOff   int64
	lastRead   time.Time
	ClockJumps int // fired
	readings   []time.Time
)

// SetClock sets the clock (wall time and zone) and the jumps: before the k-th
// reading the clock moves by jumps[k] nanoseconds (cyclically if loop).
func SetClock(base time.Time, jumps []int64) {
	clockBase = base
	clockStart = time.Now()
	clockJumps = jumps
	clockReads = 0
	clockOff = 0
	lastRead = base
	readings = nil
}

// Reads is the number of clock readings since SetClock.
func Reads() int { return clockReads }

// LastRead is what the latest reading returned.
func LastRead() time.Time { return lastRead }

//go:norace
func Now() time.Time {
	if clockStart.IsZero() {
		clockStart = time.Now()
	}
	if clockReads < len(clockJumps) && clockJumps[clockReads] != 0 {
		clockOff += clockJumps[clockReads]
		ClockJumps++
	}
	clockReads++
	lastRead = clockBase.Add(time.Since(clockStart) + time.Duration(clockOff))
	if len(readings) < 1000 {
		readings = append(readings, lastRead)
	}
	return lastRead
}

// Peek is the time a file gets that is written now; it is no reading of the clock.
func Peek() time.Time { return clockBase.Add(time.Duration(clockOff)) }

// Readings are the clock readings since SetClock.
func Readings() []time.Time { return readings }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// MapSeed decides the iteration order of maps; 0 is the canonical order.
var (
	MapSeed  uint64
	mapCount uint64
	MapIters int64
)

// SetMapSeed fixes the order of the following map iterations.
func SetMapSeed(x uint64) { MapSeed = x; mapCount = 0 }

// MapIt iterates a map in an order the simulator chooses.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter replaces range over a map.
//
//go:norace
func MapIter[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	it := &MapIt[K, V]{m: m}
	type ks struct {
		k K
		s string
	}
	var tmp []ks
	for k := range m { // read of the map: seen by the race detector in the caller's frame below
		tmp = append(tmp, ks{k, fmt.Sprintf("%T %v", k, k)})
	}
	sort.Slice(tmp, func(i, j int) bool { return tmp[i].s < tmp[j].s })
	if MapSeed != 0 && len(tmp) > 1 {
		r := NewRng(MapSeed ^ mapCount*0x9e3779b97f4a7c15)
		mapCount++
		MapIters++
		for i := len(tmp) - 1; i > 0; i-- {
			j := int(r.U64() % uint64(i+1))
			tmp[i], tmp[j] = tmp[j], tmp[i]
		}
	}
	for _, e := range tmp {
		it.keys = append(it.keys, e.k)
	}
	touch(m)
	return it, k, v
}

// touch reads the map where the race detector sees it.
func touch[K comparable, V any](m map[K]V) {
	for range m {
		break
	}
}

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		kk := it.keys[it.i]
		it.i++
		vv, ok := it.m[kk]
		if !ok {
			continue
		}
		if k != nil {
			*k = kk
		}
		if v != nil {
			*v = vv
		}
		return true
	}
	return false
}
