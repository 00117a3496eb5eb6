// Package vsync stands in for package sync in the instrumented library: waiting hands over to another
// thread of the harness's scheduler instead of blocking the process.
package vsync

import (
	"sync"

	"verif.local/mc/vrt"
)

type (
	Map    = sync.Map
	Cond   = sync.Cond
	Locker = sync.Locker
)

// Pool hands out what was put back last, to whoever comes first: the most adversarial of the
// behaviours that sync.Pool allows.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	vrt.P(0)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
	vrt.P(0)
}

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	vrt.P(0)
	for !m.m.TryLock() {
		vrt.Block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); vrt.P(0) }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	vrt.P(0)
	for !m.m.TryLock() {
		vrt.Block()
	}
}
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }
func (m *RWMutex) Unlock()       { m.m.Unlock(); vrt.P(0) }
func (m *RWMutex) RLock() {
	vrt.P(0)
	for !m.m.TryRLock() {
		vrt.Block()
	}
}
func (m *RWMutex) TryRLock() bool       { return m.m.TryRLock() }
func (m *RWMutex) RUnlock()             { m.m.RUnlock(); vrt.P(0) }
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

type WaitGroup struct {
	m Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	neg := w.n < 0
	w.m.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		z := w.n == 0
		w.m.Unlock()
		if z {
			return
		}
		vrt.Block()
	}
}
