// Package sync is the simulated sync.
package sync

import (
	"fmt"

	"verif/sim/simrt"
)

type waitq struct{ q []*simrt.Task }

func (w *waitq) wait(what string) {
	w.q = append(w.q, simrt.CurTask())
	simrt.Block(what)
}

func (w *waitq) wakeAll() {
	q := w.q
	w.q = nil
	for _, t := range q {
		simrt.Ready(t)
	}
}

// Mutex is the simulated sync.Mutex.
type Mutex struct {
	epoch  int
	locked bool
	by     int
	w      waitq
}

func (m *Mutex) fresh() {
	if e := simrt.Epoch(); m.epoch != e {
		*m = Mutex{epoch: e}
	}
}

func (m *Mutex) Lock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	simrt.SyncPoint()
	for m.locked {
		if simrt.CurTask() == nil {
			panic("deadlock: mutex locked outside of a simulation")
		}
		simrt.Count("probe:mutex contended")
		m.w.wait("Mutex.Lock")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	m.fresh()
	simrt.SyncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.wakeAll()
	simrt.SyncPoint()
}

// RWMutex is the simulated sync.RWMutex. As the real one, a waiting writer
// blocks new readers.
type RWMutex struct {
	epoch   int
	writer  bool
	readers int
	wwait   int
	w       waitq
}

func (m *RWMutex) fresh() {
	if e := simrt.Epoch(); m.epoch != e {
		*m = RWMutex{epoch: e}
	}
}

func (m *RWMutex) Lock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	simrt.SyncPoint()
	m.wwait++
	for m.writer || m.readers > 0 {
		simrt.Count("probe:rwmutex contended")
		m.w.wait("RWMutex.Lock")
	}
	m.wwait--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	m.fresh()
	simrt.SyncPoint()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.w.wakeAll()
	simrt.SyncPoint()
}

func (m *RWMutex) RLock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	simrt.SyncPoint()
	for m.writer || m.wwait > 0 {
		simrt.Count("probe:rwmutex contended")
		m.w.wait("RWMutex.RLock")
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	m.fresh()
	simrt.SyncPoint()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.w.wakeAll()
	simrt.SyncPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is the simulated sync.WaitGroup.
type WaitGroup struct {
	epoch int
	n     int
	w     waitq
}

func (g *WaitGroup) fresh() {
	if e := simrt.Epoch(); g.epoch != e {
		*g = WaitGroup{epoch: e}
	}
}

func (g *WaitGroup) Add(d int) {
	if simrt.Killed() {
		return
	}
	g.fresh()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.wakeAll()
	}
	simrt.SyncPoint()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if simrt.Killed() {
		return
	}
	g.fresh()
	simrt.SyncPoint()
	for g.n > 0 {
		g.w.wait("WaitGroup.Wait")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() { defer g.Done(); f() })
}

// Once is the simulated sync.Once. It isn't reset between runs: a package
// level initialisation happens once per process, as in reality.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond is the simulated sync.Cond.
type Cond struct {
	L Locker
	w waitq
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.w.q = append(c.w.q, simrt.CurTask())
	me := simrt.CurTask()
	c.L.Unlock()
	// a signal may have come while unlocking
	for _, t := range c.w.q {
		if t == me {
			simrt.Block("Cond.Wait")
			break
		}
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.w.q) > 0 {
		t := c.w.q[0]
		c.w.q = c.w.q[1:]
		simrt.Ready(t)
	}
	simrt.SyncPoint()
}
func (c *Cond) Broadcast() { c.w.wakeAll(); simrt.SyncPoint() }

// Pool is the simulated sync.Pool: LIFO, and it may drop objects at any time.
type Pool struct {
	epoch int
	items []any
	New   func() any
}

func (p *Pool) fresh() {
	if e := simrt.Epoch(); p.epoch != e {
		p.epoch, p.items = e, nil
	}
}

func (p *Pool) Get() any {
	p.fresh()
	simrt.SyncPoint()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		if !simrt.PoolDrop() {
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil || simrt.Killed() {
		return
	}
	p.fresh()
	p.items = append(p.items, x)
	simrt.SyncPoint()
}

// Map is the simulated sync.Map, with a stable order.
type Map struct {
	epoch int
	m     map[any]any
	keys  []any
}

func (m *Map) init() {
	if m.m == nil {
		m.m = map[any]any{}
	}
	simrt.SyncPoint()
}
func (m *Map) Load(k any) (any, bool) { m.init(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Clear()                 { m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.init()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.m[k] = v
	m.keys = append(m.keys, k)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.init()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.init()
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) CompareAndSwap(k, old, nw any) bool {
	m.init()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = nw
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.init()
	if v, ok := m.m[k]; ok && v == old {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.init()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

var _ = fmt.Sprint
