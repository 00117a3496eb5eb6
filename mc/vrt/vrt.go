// Package vrt is linked into an instrumented copy of the library: a scheduling point before every
// statement, a harness-chosen order for every range over a map.
//
// None of the scheduler's own state is visible to the race detector (every function that touches it
// is norace and the hand-over spins on plain variables), so that the schedule the scheduler imposes
// creates no happens-before edges between the threads of the library: under -race every pair of
// conflicting accesses that the library itself does not order is reported in every schedule.
package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
)

// Pre is one preemption: at the At-th scheduling point of the run, continue with thread To.
type Pre struct{ At, To int }

const maxThreads = 4

var (
	on      bool
	cur     int
	n       int
	done    [maxThreads]bool
	order   [maxThreads]int
	steps   int
	pre     [8]Pre
	npre    int
	next    int
	spin    int
	dead    bool
	points  int
	stretch int // points since the last switch
	who     [1 << 18]uint8
	ends    [maxThreads]int
)

// Points is the number of scheduling points passed since the start of the process.
//
//go:norace
func Points() int { return points }

// Sites is the set of numbered statements passed since it was last cleared.
type Sites [256]uint64

var sites Sites

// Passed returns the statements passed since the last call.
//
//go:norace
func Passed() Sites {
	s := sites
	sites = Sites{}
	return s
}

// P is a scheduling point, before the statement with this number.
//
//go:norace
func P(site int) {
	points++
	sites[(site>>6)&255] |= 1 << (site & 63)
	if !on {
		return
	}
	steps++
	spin = 0
	if steps < len(who) {
		who[steps] = uint8(cur)
	}
	if stretch++; stretch > 300000 { // it waits for another thread without saying so
		for i := 1; i < n; i++ {
			if to := (cur + i) % n; !done[to] {
				switchTo(to)
				break
			}
		}
	}
	for next < npre && pre[next].At <= steps {
		to := pre[next].To
		next++
		if to < n && !done[to] && to != cur {
			switchTo(to)
		}
	}
}

//go:norace
func switchTo(to int) {
	me := cur
	cur = to
	stretch = 0
	for cur != me {
		runtime.Gosched()
	}
}

// Block is called by a thread that waits for something another thread must do.
//
//go:norace
func Block() {
	if !on {
		runtime.Gosched()
		return
	}
	spin++
	if spin > 10000 {
		dead = true
		panic("vrt: all threads wait for each other")
	}
	for i := 1; i < n; i++ {
		if to := (cur + i) % n; !done[to] {
			switchTo(to)
			return
		}
	}
}

// Begin prepares a run of k threads; order says which unfinished thread continues when one ends.
//
//go:norace
func Begin(k int, ord []int, pres []Pre) {
	n, steps, next, npre, spin, dead = k, 0, 0, len(pres), 0, false
	for i := range done {
		done[i] = false
	}
	for i := 0; i < k; i++ {
		order[i] = ord[i]
	}
	for i := range pres {
		pre[i] = pres[i]
	}
	cur = order[0]
	on = true
}

// Enter waits until thread i is scheduled for the first time.
//
//go:norace
func Enter(i int) {
	for cur != i {
		runtime.Gosched()
	}
}

// Leave ends thread i and schedules the next unfinished one.
//
//go:norace
func Leave(i int) {
	done[i] = true
	ends[i] = steps
	stretch = 0
	for k := 0; k < n; k++ {
		if t := order[k]; !done[t] {
			cur = t
			return
		}
	}
	cur = -1
}

// Trace says which thread passed each scheduling point of the last run (from 1), and at which point
// each thread ended.
type Trace struct {
	Who  []uint8
	Ends []int
}

// End ends the run.
//
//go:norace
func End() Trace {
	on = false
	tr := Trace{Who: make([]uint8, 0, steps+1), Ends: make([]int, n)}
	for i := 0; i <= steps && i < len(who); i++ {
		tr.Who = append(tr.Who, who[i])
	}
	for i := range tr.Ends {
		tr.Ends[i] = ends[i]
	}
	return tr
}

// ---- map iteration ----

// Iter is a range over a map in an order of the harness's choosing.
type Iter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
	K, V interface{}
}

// Choice is one range over a map with N keys executed at Site.
type Choice struct {
	Site string
	N    int
}

var (
	// Chooser, if set, gives the order (a permutation of 0..n-1, nil for sorted) of the idx-th range.
	Chooser func(idx int, site string, n int) []int
	// Log collects the ranges executed while Chooser is set.
	Log []Choice
	mu  sync.Mutex
)

func Range(site string, m interface{}) *Iter {
	v := reflect.ValueOf(m)
	it := &Iter{m: v}
	if !v.IsValid() || v.Len() == 0 {
		return it
	}
	it.keys = v.MapKeys()
	if Chooser == nil {
		return it // the run time's order
	}
	mu.Lock()
	defer mu.Unlock()
	sortKeys(it.keys)
	if len(it.keys) > 1 {
		idx := len(Log)
		Log = append(Log, Choice{site, len(it.keys)})
		if p := Chooser(idx, site, len(it.keys)); p != nil {
			ks := make([]reflect.Value, len(it.keys))
			for i, j := range p {
				ks[i] = it.keys[j]
			}
			it.keys = ks
		}
	}
	return it
}

func sortKeys(ks []reflect.Value) {
	if ks[0].Kind() == reflect.String {
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		return
	}
	ss := make(map[int]string, len(ks))
	idx := make([]int, len(ks))
	for i, k := range ks {
		ss[i], idx[i] = fmt.Sprintf("%T %v", k.Interface(), k.Interface()), i
	}
	sort.SliceStable(idx, func(i, j int) bool { return ss[idx[i]] < ss[idx[j]] })
	c := append([]reflect.Value{}, ks...)
	for i, j := range idx {
		ks[i] = c[j]
	}
}

// Next moves to the next key that is still in the map.
func (it *Iter) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v := it.m.MapIndex(k)
		if !v.IsValid() {
			continue
		}
		it.K, it.V = k.Interface(), v.Interface()
		return true
	}
	return false
}
