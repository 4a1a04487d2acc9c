package vsync

import (
	"sync"
)

// Locker is as sync.Locker.
type Locker = sync.Locker

// Mutex is as sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool
	tok  byte
}

func (m *Mutex) Lock() {
	var r = current()
	if r == nil {
		m.real.Lock()
		return
	}
	r.call(request{what: "Lock", sched: true,
		enabled: func() bool { return !m.held },
		do:      func() { m.held = true },
	})
	raceAcquire(&m.tok)
}

func (m *Mutex) TryLock() bool {
	var r = current()
	if r == nil {
		return m.real.TryLock()
	}
	var ok = new(bool)
	r.call(request{what: "TryLock", sched: true,
		do: func() { *ok = !m.held; m.held = true },
	})
	if readBool(ok) {
		raceAcquire(&m.tok)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	var r = current()
	if r == nil {
		m.real.Unlock()
		return
	}
	if r.aborted() {
		return
	}
	raceRelease(&m.tok)
	r.call(request{what: "Unlock", do: func() {
		if !m.held {
			r.Misuse = "unlock of unlocked mutex"
		}
		m.held = false
	}})
}

// RWMutex is as sync.RWMutex: writer that waits for the readers holds
// new readers.
type RWMutex struct {
	real    sync.RWMutex
	readers int
	writer  bool // some writer owns, or waits for the readers
	owned   bool
	waiters []*bool // readers that wait for the writer
	rtok    byte
	wtok    byte
}

func (m *RWMutex) Lock() {
	var r = current()
	if r == nil {
		m.real.Lock()
		return
	}
	r.call(request{what: "Lock", sched: true,
		enabled: func() bool { return !m.writer },
		do:      func() { m.writer = true },
	})
	r.call(request{what: "wait for readers",
		enabled: func() bool { return m.readers == 0 },
		do:      func() { m.owned = true },
	})
	raceAcquire(&m.rtok)
	raceAcquire(&m.wtok)
}

func (m *RWMutex) TryLock() bool {
	var r = current()
	if r == nil {
		return m.real.TryLock()
	}
	var ok = new(bool)
	r.call(request{what: "TryLock", sched: true, do: func() {
		if *ok = !m.writer && m.readers == 0; *ok {
			m.writer, m.owned = true, true
		}
	}})
	if readBool(ok) {
		raceAcquire(&m.rtok)
		raceAcquire(&m.wtok)
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	var r = current()
	if r == nil {
		m.real.Unlock()
		return
	}
	if r.aborted() {
		return
	}
	raceRelease(&m.rtok)
	r.call(request{what: "Unlock", do: func() {
		if !m.owned {
			r.Misuse = "unlock of unlocked mutex"
		}
		m.writer, m.owned = false, false
		for _, w := range m.waiters {
			*w = true
			m.readers++
		}
		m.waiters = nil
	}})
}

func (m *RWMutex) RLock() {
	var r = current()
	if r == nil {
		m.real.RLock()
		return
	}
	var granted = new(bool)
	// the first step is announcement of the reader
	r.call(request{what: "RLock", sched: true, do: func() {
		if m.writer {
			m.waiters = append(m.waiters, granted)
		} else {
			m.readers++
			*granted = true
		}
	}})
	r.call(request{what: "wait for writer",
		enabled: func() bool { return *granted },
	})
	raceAcquire(&m.rtok)
}

func (m *RWMutex) TryRLock() bool {
	var r = current()
	if r == nil {
		return m.real.TryRLock()
	}
	var ok = new(bool)
	r.call(request{what: "TryRLock", sched: true, do: func() {
		if *ok = !m.writer; *ok {
			m.readers++
		}
	}})
	if readBool(ok) {
		raceAcquire(&m.rtok)
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	var r = current()
	if r == nil {
		m.real.RUnlock()
		return
	}
	if r.aborted() {
		return
	}
	raceReleaseMerge(&m.wtok)
	r.call(request{what: "RUnlock", do: func() {
		if m.readers == 0 {
			r.Misuse = "unlock of unlocked mutex"
			return
		}
		m.readers--
	}})
}

type rlocker RWMutex

func (m *rlocker) Lock()   { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock() { (*RWMutex)(m).RUnlock() }

// RLocker is as the method of sync.RWMutex.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is as sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is as sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is as sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is as sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// WaitGroup is as sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
	tok  byte
}

func (w *WaitGroup) Add(n int) {
	var r = current()
	if r == nil {
		w.real.Add(n)
		return
	}
	raceReleaseMerge(&w.tok)
	r.call(request{what: "Add", do: func() {
		if w.n += n; w.n < 0 {
			r.Misuse = "negative WaitGroup counter"
		}
	}})
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	var r = current()
	if r == nil {
		w.real.Wait()
		return
	}
	r.call(request{what: "Wait", sched: true, enabled: func() bool { return w.n == 0 }})
	raceAcquire(&w.tok)
}

// Cond is as sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
	wait []*bool
	tok  byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	var r = current()
	if r == nil {
		c.real.Wait()
		return
	}
	var woken = new(bool)
	r.call(request{what: "Wait", do: func() { c.wait = append(c.wait, woken) }})
	c.L.Unlock()
	r.call(request{what: "Wait for signal", sched: true, enabled: func() bool { return *woken }})
	raceAcquire(&c.tok)
	c.L.Lock()
}

func (c *Cond) Signal() {
	var r = current()
	if r == nil {
		c.real.Signal()
		return
	}
	raceReleaseMerge(&c.tok)
	r.call(request{what: "Signal", do: func() {
		if len(c.wait) > 0 {
			*c.wait[0] = true
			c.wait = c.wait[1:]
		}
	}})
}

func (c *Cond) Broadcast() {
	var r = current()
	if r == nil {
		c.real.Broadcast()
		return
	}
	raceReleaseMerge(&c.tok)
	r.call(request{what: "Broadcast", do: func() {
		for _, w := range c.wait {
			*w = true
		}
		c.wait = nil
	}})
}

// Pool is as sync.Pool that never keeps.
type Pool struct {
	New func() any
}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {}

// Map is as sync.Map.
type Map struct {
	mu  Mutex
	m   map[any]any
	seq []any
}

func (m *Map) Load(key any) (v any, ok bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok = m.m[key]
	return
}

func (m *Map) set(key, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.seq = append(m.seq, key)
	}
	m.m[key] = v
}

func (m *Map) del(key any) {
	if _, ok := m.m[key]; ok {
		delete(m.m, key)
		for i, k := range m.seq {
			if k == key {
				m.seq = append(m.seq[:i:i], m.seq[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(key, v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.set(key, v)
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.seq = nil, nil
}

func (m *Map) LoadOrStore(key, v any) (actual any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if actual, loaded = m.m[key]; loaded {
		return
	}
	m.set(key, v)
	return v, false
}

func (m *Map) LoadAndDelete(key any) (v any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, loaded = m.m[key]
	m.del(key)
	return
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, v any) (prev any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	prev, loaded = m.m[key]
	m.set(key, v)
	return
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.set(key, new)
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.del(key)
	return true
}

func (m *Map) Range(f func(key, value any) bool) {
	m.mu.Lock()
	var seq = append([]any{}, m.seq...)
	m.mu.Unlock()
	for _, k := range seq {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
