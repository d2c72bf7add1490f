// Package vsync stands in for package sync inside the simulator.
package vsync

import (
	"sync"
	"unsafe"

	"spagosim/vsim"
)

type Locker = sync.Locker

type Mutex struct{ l vsim.Lock }

func (m *Mutex) Lock()         { m.l.Lock("mutex lock") }
func (m *Mutex) Unlock()       { m.l.Unlock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }

type RWMutex struct{ l vsim.RWLock }

func (m *RWMutex) Lock()          { m.l.Lock() }
func (m *RWMutex) Unlock()        { m.l.Unlock() }
func (m *RWMutex) TryLock() bool  { return m.l.TryLock() }
func (m *RWMutex) RLock()         { m.l.RLock() }
func (m *RWMutex) RUnlock()       { m.l.RUnlock() }
func (m *RWMutex) TryRLock() bool { return m.l.TryRLock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ g vsim.Group }

func (w *WaitGroup) Add(d int) { w.g.Add(d) }
func (w *WaitGroup) Done()     { w.g.Add(-1) }
func (w *WaitGroup) Wait()     { w.g.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct{ s vsim.OnceState }

func (o *Once) Do(f func()) {
	if !o.s.Enter() {
		return
	}
	defer o.s.Leave()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L Locker
	w vsim.WaitList
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.w.Wait(c.L.Unlock)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.w.Wake(1) }
func (c *Cond) Broadcast() { c.w.Wake(-1) }

// Pool keeps every item until taken; which one is taken, or whether the pool
// pretends to have been emptied by the collector, is the simulator's choice.
type Pool struct {
	New   func() any
	items []any
	epoch uint32
	hb    byte
}

// fresh empties a pool that outlives the run that filled it.
func (p *Pool) fresh() {
	if e := vsim.Epoch(); p.epoch != e {
		p.epoch, p.items = e, nil
	}
}

func (p *Pool) Get() any {
	vsim.SyncOp("pool.get", unsafe.Pointer(p))
	p.fresh()
	if n := len(p.items); n > 0 {
		k := vsim.Choose("pool", n+1)
		if k < n {
			i := n - 1 - k
			v := p.items[i]
			out := make([]any, 0, n-1)
			for j, x := range p.items {
				if j != i {
					out = append(out, x)
				}
			}
			p.items = out
			vsim.RaceAcquire(unsafe.Pointer(&p.hb))
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	vsim.SyncOp("pool.put", unsafe.Pointer(p))
	p.fresh()
	vsim.RaceReleaseMerge(unsafe.Pointer(&p.hb))
	p.items = append(p.items, v)
	vsim.AfterOp() // what is done with v from here on is not always visible
}

// Map is a sync.Map whose operations are atomic steps and whose order of
// iteration is the order of insertion, rotated by the simulator's choice.
type Map struct {
	e  []mapEntry
	hb byte
}

type mapEntry struct{ k, v any }

func (m *Map) acq(kind string) {
	vsim.SyncOp(kind, unsafe.Pointer(m))
	vsim.RaceAcquire(unsafe.Pointer(&m.hb))
}
func (m *Map) rel() { vsim.RaceReleaseMerge(unsafe.Pointer(&m.hb)) }
func (m *Map) find(k any) int {
	for i := range m.e {
		if m.e[i].k == k {
			return i
		}
	}
	return -1
}
func (m *Map) del(i int) {
	out := make([]mapEntry, 0, len(m.e))
	for j, x := range m.e {
		if j != i {
			out = append(out, x)
		}
	}
	m.e = out
}
func (m *Map) Load(k any) (any, bool) {
	m.acq("map.load")
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	return nil, false
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.acq("map.store")
	defer vsim.AfterOp()
	defer m.rel()
	if i := m.find(k); i >= 0 {
		o := m.e[i].v
		m.e[i].v = v
		return o, true
	}
	m.e = append(m.e, mapEntry{k, v})
	return nil, false
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.acq("map.loadorstore")
	defer vsim.AfterOp()
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	m.rel()
	m.e = append(m.e, mapEntry{k, v})
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.acq("map.delete")
	defer vsim.AfterOp()
	if i := m.find(k); i >= 0 {
		o := m.e[i].v
		m.rel()
		m.del(i)
		return o, true
	}
	return nil, false
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Clear() {
	m.acq("map.clear")
	m.rel()
	m.e = nil
}
func (m *Map) CompareAndSwap(k, old, nw any) bool {
	m.acq("map.cas")
	if i := m.find(k); i >= 0 && m.e[i].v == old {
		m.rel()
		m.e[i].v = nw
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.acq("map.cad")
	if i := m.find(k); i >= 0 && m.e[i].v == old {
		m.rel()
		m.del(i)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.acq("map.range")
	n := len(m.e)
	keys := make([]any, 0, n)
	for _, x := range m.e {
		keys = append(keys, x.k)
	}
	off := vsim.Choose("sync.Map order", n)
	for i := range keys {
		k := keys[(i+off)%n]
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
