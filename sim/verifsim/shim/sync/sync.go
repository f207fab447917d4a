// Package sync is the simulated counterpart of the standard package.
package sync

import (
	"runtime"
	real "sync"
	"unsafe"

	"verifsim/vsim"
)

// Locker is the standard interface.
type Locker = real.Locker

// Mutex is a simulated mutual exclusion lock.
type Mutex struct {
	locked bool
	q      vsim.WaitQ
}

//go:norace
func (m *Mutex) Lock() {
	if !vsim.Active() {
		m.locked = true
		return
	}
	vsim.SyncPoint()
	for m.locked {
		m.q.Wait()
	}
	m.locked = true
	vsim.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if vsim.Active() {
		vsim.SyncPoint()
	}
	if m.locked {
		return false
	}
	m.locked = true
	vsim.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !vsim.Active() {
		m.locked = false
		return
	}
	if !m.locked {
		vsim.Fatal("sync: unlock of unlocked mutex")
	}
	vsim.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	m.q.WakeOne()
	vsim.SyncPoint()
}

// RWMutex is a simulated reader/writer lock; a waiting writer blocks new readers.
type RWMutex struct {
	writer  bool
	waiting int
	readers int
	rq, wq  vsim.WaitQ
	rsync   byte
}

//go:norace
func (m *RWMutex) Lock() {
	if !vsim.Active() {
		m.writer = true
		return
	}
	vsim.SyncPoint()
	m.waiting++
	for m.writer || m.readers > 0 {
		m.wq.Wait()
	}
	m.waiting--
	m.writer = true
	vsim.RaceAcquire(unsafe.Pointer(m))
	vsim.RaceAcquire(unsafe.Pointer(&m.rsync))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsim.RaceAcquire(unsafe.Pointer(m))
	vsim.RaceAcquire(unsafe.Pointer(&m.rsync))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !vsim.Active() {
		m.writer = false
		return
	}
	if !m.writer {
		vsim.Fatal("sync: Unlock of unlocked RWMutex")
	}
	vsim.RaceRelease(unsafe.Pointer(m))
	m.writer = false
	m.rq.WakeAll()
	m.wq.WakeOne()
	vsim.SyncPoint()
}

//go:norace
func (m *RWMutex) RLock() {
	if !vsim.Active() {
		m.readers++
		return
	}
	vsim.SyncPoint()
	for m.writer || m.waiting > 0 {
		m.rq.Wait()
	}
	m.readers++
	vsim.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vsim.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !vsim.Active() {
		m.readers--
		return
	}
	if m.readers <= 0 {
		vsim.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	vsim.RaceRelease(unsafe.Pointer(&m.rsync))
	m.readers--
	if m.readers == 0 {
		m.wq.WakeOne()
		if m.waiting == 0 {
			m.rq.WakeAll()
		}
	}
	vsim.SyncPoint()
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n int64
	q vsim.WaitQ
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if !vsim.Active() {
		w.n += int64(d)
		return
	}
	vsim.SyncPoint()
	if d < 0 {
		vsim.RaceRelease(unsafe.Pointer(w))
	}
	w.n += int64(d)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !vsim.Active() {
		return
	}
	vsim.SyncPoint()
	for w.n > 0 {
		w.q.Wait()
	}
	vsim.RaceAcquire(unsafe.Pointer(w))
}

// Go runs f in a new goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Spawn(func() {
		defer w.Done()
		f()
	})
}

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is a simulated condition variable.
type Cond struct {
	L    Locker
	list *condWait
}

type condWait struct {
	woken bool
	q     vsim.WaitQ
	next  *condWait
}

// NewCond returns a condition variable with lock l.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	if !vsim.Active() {
		if vsim.Dying() {
			runtime.Goexit()
		}
		return
	}
	w := &condWait{}
	p := &c.list
	for *p != nil {
		p = &(*p).next
	}
	*p = w
	c.L.Unlock()
	for !w.woken {
		w.q.Wait()
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if !vsim.Active() {
		return
	}
	vsim.SyncPoint()
	n := int64(0)
	for w := c.list; w != nil; w = w.next {
		n++
	}
	if n == 0 {
		return
	}
	k := vsim.Draw(vsim.DrawWake, n)
	p := &c.list
	for ; k > 0; k-- {
		p = &(*p).next
	}
	w := *p
	*p = w.next
	w.woken = true
	w.q.WakeOne()
}

//go:norace
func (c *Cond) Broadcast() {
	if !vsim.Active() {
		return
	}
	vsim.SyncPoint()
	for w := c.list; w != nil; w = w.next {
		w.woken = true
		w.q.WakeOne()
	}
	c.list = nil
}

// Pool is a simulated sync.Pool that may forget items. The items are a list of nodes, newest
// first, because slice growth and copying are visible to the race detector.
type Pool struct {
	New   func() any
	first *pooled
	n     int
}

type pooled struct {
	v    any
	next *pooled
	sync byte
}

//go:norace
func (p *Pool) Get() any {
	if vsim.Active() {
		vsim.SyncPoint()
		if p.n > 0 {
			at := &p.first
			if d := vsim.Draw(vsim.DrawPool, 3); d == 1 {
				p.first, p.n = nil, 0
			} else if d == 2 { // the oldest
				for (*at).next != nil {
					at = &(*at).next
				}
			}
			if p.n > 0 {
				x := *at
				*at = x.next
				p.n--
				vsim.RaceAcquire(unsafe.Pointer(&x.sync))
				return x.v
			}
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil || !vsim.Active() {
		return
	}
	vsim.SyncPoint()
	if p.n < 1<<16 {
		e := &pooled{v: x, next: p.first}
		p.first = e
		p.n++
		vsim.RaceRelease(unsafe.Pointer(&e.sync))
	}
}

// Map is a simulated sync.Map.
type Map struct {
	mu Mutex
	m  map[any]any
}

func (m *Map) Load(key any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	return v, ok
}

func (m *Map) Store(key, value any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[key] = value
}

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok {
		return v, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[key] = value
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	delete(m.m, key)
	return v, ok
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[key] = value
	return v, ok
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok && v == old {
		m.m[key] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok && v == old {
		delete(m.m, key)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}

func (m *Map) Range(f func(key, value any) bool) {
	m.mu.Lock()
	keys := vsim.MapKeys(m.m)
	m.mu.Unlock()
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// OnceFunc is the standard helper.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is the standard helper.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is the standard helper.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}
