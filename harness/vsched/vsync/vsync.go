// Package vsync stands in for package sync under the scheduler.
package vsync

import (
	"sync"

	"verif/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

func off() bool { return vsched.Active() == nil }

// Mutex stands in for sync.Mutex.
type Mutex struct {
	o      *vsched.Obj
	locked bool
	real   sync.Mutex
}

func (m *Mutex) get() *vsched.Obj {
	if !vsched.Fresh(m.o) {
		m.locked = false
	}
	return vsched.Get(&m.o)
}

// Lock locks.
func (m *Mutex) Lock() {
	if off() {
		m.real.Lock()
		return
	}
	o := m.get()
	vsched.Do("lock", o, false, func() bool { return !m.locked }, 0)
	m.locked = true
	vsched.Active().Acquire(o)
}

// TryLock locks if it can.
func (m *Mutex) TryLock() bool {
	if off() {
		return m.real.TryLock()
	}
	o := m.get()
	vsched.Do("trylock", o, false, nil, 0)
	if m.locked {
		return false
	}
	m.locked = true
	vsched.Active().Acquire(o)
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if off() {
		m.real.Unlock()
		return
	}
	o := m.get()
	vsched.Do("unlock", o, false, nil, 0)
	if vsched.Dead() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	vsched.Active().Release(o)
}

// RWMutex stands in for sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	o       *vsched.Obj
	writer  bool
	readers int
	waiting int
	real    sync.RWMutex
}

func (m *RWMutex) get() *vsched.Obj {
	if !vsched.Fresh(m.o) {
		m.writer, m.readers, m.waiting = false, 0, 0
	}
	return vsched.Get(&m.o)
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if off() {
		m.real.Lock()
		return
	}
	o := m.get()
	if m.writer || m.readers > 0 {
		vsched.Do("lock (queue)", o, false, nil, 0)
		m.waiting++
		vsched.Do("lock", o, false, func() bool { return !m.writer && m.readers == 0 }, 0)
		m.waiting--
	} else {
		vsched.Do("lock", o, false, nil, 0)
		if m.writer || m.readers > 0 {
			m.waiting++
			vsched.Do("lock", o, false, func() bool { return !m.writer && m.readers == 0 }, 0)
			m.waiting--
		}
	}
	m.writer = true
	vsched.Active().AcquireAll(o)
}

// TryLock locks if it can.
func (m *RWMutex) TryLock() bool {
	if off() {
		return m.real.TryLock()
	}
	o := m.get()
	vsched.Do("trylock", o, false, nil, 0)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsched.Active().AcquireAll(o)
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if off() {
		m.real.Unlock()
		return
	}
	o := m.get()
	vsched.Do("unlock", o, false, nil, 0)
	if vsched.Dead() {
		m.writer = false
		return
	}
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	vsched.Active().Release(o)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if off() {
		m.real.RLock()
		return
	}
	o := m.get()
	vsched.Do("rlock", o, false, func() bool { return !m.writer && m.waiting == 0 }, 0)
	m.readers++
	vsched.Active().Acquire(o)
}

// TryRLock locks if it can.
func (m *RWMutex) TryRLock() bool {
	if off() {
		return m.real.TryRLock()
	}
	o := m.get()
	vsched.Do("tryrlock", o, false, nil, 0)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vsched.Active().Acquire(o)
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if off() {
		m.real.RUnlock()
		return
	}
	o := m.get()
	vsched.Do("runlock", o, false, nil, 0)
	if vsched.Dead() {
		m.readers = 0
		return
	}
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vsched.Active().ReleaseRead(o)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the reading side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	o    *vsched.Obj
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) get() *vsched.Obj {
	if !vsched.Fresh(w.o) {
		w.n = 0
	}
	return vsched.Get(&w.o)
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	if off() {
		w.real.Add(d)
		return
	}
	o := w.get()
	vsched.Do("waitgroup add", o, false, nil, 0)
	if vsched.Dead() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsched.Active().Release(o)
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits.
func (w *WaitGroup) Wait() {
	if off() {
		w.real.Wait()
		return
	}
	o := w.get()
	vsched.Do("wait", o, true, func() bool { return w.n == 0 }, 0)
	vsched.Active().Acquire(o)
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	o    *vsched.Obj
	done bool
}

// Do calls f the first time.
func (c *Once) Do(f func()) {
	if off() {
		if !c.done {
			c.done = true
			f()
		}
		return
	}
	c.m.Lock()
	defer c.m.Unlock()
	if !c.done {
		defer func() { c.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond stands in for sync.Cond.
type Cond struct {
	L Locker
	o *vsched.Obj
	w []*bool
}

// NewCond makes one.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	o := vsched.Get(&c.o)
	woken := new(bool)
	vsched.Do("cond enqueue", o, false, nil, 0)
	c.w = append(c.w, woken)
	c.L.Unlock()
	vsched.Do("cond wait", o, false, func() bool { return *woken }, 0)
	vsched.Active().Acquire(o)
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	if off() {
		return
	}
	o := vsched.Get(&c.o)
	vsched.Do("cond signal", o, false, nil, 0)
	for len(c.w) > 0 && n != 0 {
		*c.w[0] = true
		c.w = c.w[1:]
		n--
	}
	vsched.Active().Release(o)
}

// Signal wakes one.
func (c *Cond) Signal() { c.wake(1) }

// Broadcast wakes all.
func (c *Cond) Broadcast() { c.wake(-1) }

// Pool stands in for sync.Pool: it gives back the last value put.
type Pool struct {
	New func() interface{}
	o   *vsched.Obj
	l   []interface{}
}

// Get takes a value.
func (p *Pool) Get() interface{} {
	if !off() {
		if !vsched.Fresh(p.o) {
			p.l = nil
		}
		o := vsched.Get(&p.o)
		vsched.Do("pool get", o, false, nil, 0)
		vsched.Active().Acquire(o)
	}
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives one back.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	if !off() {
		if !vsched.Fresh(p.o) {
			p.l = nil
		}
		o := vsched.Get(&p.o)
		vsched.Do("pool put", o, false, nil, 0)
		vsched.Active().Release(o)
	}
	p.l = append(p.l, v)
}

// Map stands in for sync.Map.
type Map struct {
	o *vsched.Obj
	k []interface{}
	m map[interface{}]interface{}
}

func (m *Map) op(what string, read bool) {
	if off() {
		if m.m == nil {
			m.m = map[interface{}]interface{}{}
		}
		return
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	o := vsched.Get(&m.o)
	vsched.Do(what, o, read, nil, 0)
	vsched.Active().Acquire(o)
	if !read {
		vsched.Active().Release(o)
	}
}

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.op("map load", true)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) set(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i, x := range m.k {
		if x == k {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			break
		}
	}
}

// Store stores.
func (m *Map) Store(k, v interface{}) { m.op("map store", false); m.set(k, v) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.op("map loadorstore", false)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.op("map loadanddelete", false)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

// Delete deletes.
func (m *Map) Delete(k interface{}) { m.op("map delete", false); m.del(k) }

// Swap swaps.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.op("map swap", false)
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.op("map cas", false)
	if x, ok := m.m[k]; ok && x == old {
		m.set(k, new)
		return true
	}
	return false
}

// CompareAndDelete compares and deletes.
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.op("map cad", false)
	if x, ok := m.m[k]; ok && x == old {
		m.del(k)
		return true
	}
	return false
}

// Clear removes everything.
func (m *Map) Clear() {
	m.op("map clear", false)
	m.m, m.k = map[interface{}]interface{}{}, nil
}

// Range walks through the map.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.op("map range", true)
	for _, k := range append([]interface{}(nil), m.k...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
