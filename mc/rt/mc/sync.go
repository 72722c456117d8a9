package mc

import (
	"fmt"
	"sort"
	"unsafe"
)

// Mutex is the controlled sync.Mutex.
type Mutex struct {
	ex     *Exec
	locked bool
	o      Obj
}

func (m *Mutex) fix() {
	if m.ex != x {
		*m = Mutex{ex: x}
	}
}

func fatal(msg string) {
	// runtime.throw: not recoverable
	if x.cur.proc != nil {
		x.cur.proc.Panic = "fatal error: " + msg
		x.die(x.cur.proc)
	}
	x.setFail("panic", "fatal error: "+msg)
	x.abortAll()
	x.park(x.cur)
}

func (m *Mutex) Lock() {
	if !live() || dying() {
		return
	}
	m.fix()
	g := x.point(opLock, "", func() bool { return !m.locked })
	m.locked = true
	x.touch(opLock, &m.o)
	x.race.acquire(g, &m.o)
}

func (m *Mutex) TryLock() bool {
	if !live() || dying() {
		return true
	}
	m.fix()
	g := x.point(opLock, "try", nil)
	x.touch(opLock, &m.o)
	if m.locked {
		return false
	}
	m.locked = true
	x.race.acquire(g, &m.o)
	return true
}

func (m *Mutex) Unlock() {
	if !live() || dying() {
		return
	}
	m.fix()
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	x.race.release(x.cur, &m.o)
	x.touchC(opUnlock, &m.o)
	m.locked = false
}

// RWMutex is the controlled sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	ex      *Exec
	writer  bool
	waiting bool
	readers int
	o       Obj // released by writers
	ro      Obj // released by readers
}

func (m *RWMutex) fix() {
	if m.ex != x {
		*m = RWMutex{ex: x}
	}
}

func (m *RWMutex) Lock() {
	if !live() || dying() {
		return
	}
	m.fix()
	g := x.point(opWAnnounce, "", func() bool { return !m.writer && !m.waiting })
	x.touch(opWAnnounce, &m.o)
	if m.readers > 0 {
		m.waiting = true
		x.point(opLock, "", func() bool { return m.readers == 0 })
		x.touch(opLock, &m.o)
		m.waiting = false
	}
	m.writer = true
	x.race.acquire(g, &m.o)
	x.race.acquire(g, &m.ro)
}

func (m *RWMutex) TryLock() bool {
	if !live() || dying() {
		return true
	}
	m.fix()
	g := x.point(opLock, "try", nil)
	x.touch(opLock, &m.o)
	if m.writer || m.waiting || m.readers > 0 {
		return false
	}
	m.writer = true
	x.race.acquire(g, &m.o)
	x.race.acquire(g, &m.ro)
	return true
}

func (m *RWMutex) Unlock() {
	if !live() || dying() {
		return
	}
	m.fix()
	if !m.writer {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	x.race.release(x.cur, &m.o)
	x.touchC(opUnlock, &m.o)
	m.writer = false
}

func (m *RWMutex) RLock() {
	if !live() || dying() {
		return
	}
	m.fix()
	g := x.point(opRLock, "", func() bool { return !m.writer && !m.waiting })
	m.readers++
	x.touchR(opRLock, &m.o)
	x.race.acquire(g, &m.o)
}

func (m *RWMutex) TryRLock() bool {
	if !live() || dying() {
		return true
	}
	m.fix()
	g := x.point(opRLock, "try", nil)
	x.touch(opRLock, &m.o)
	if m.writer || m.waiting {
		return false
	}
	m.readers++
	x.race.acquire(g, &m.o)
	return true
}

func (m *RWMutex) RUnlock() {
	if !live() || dying() {
		return
	}
	m.fix()
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	x.race.release(x.cur, &m.ro)
	x.touchC(opRUnlock, &m.o)
	m.readers--
}

// WaitGroup is the controlled sync.WaitGroup.
type WaitGroup struct {
	ex *Exec
	n  int
	o  Obj
}

func (w *WaitGroup) fix() {
	if w.ex != x {
		*w = WaitGroup{ex: x}
	}
}

func (w *WaitGroup) Add(d int) {
	if !live() || dying() {
		return
	}
	w.fix()
	if d > 0 {
		x.point(opWGAdd, fmt.Sprint(d), nil)
	}
	x.race.release(x.cur, &w.o)
	x.touchC(opWGAdd, &w.o)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !live() || dying() {
		return
	}
	w.fix()
	g := x.point(opWGWait, "", func() bool { return w.n == 0 })
	x.touchR(opWGWait, &w.o)
	// learn which Add and Done calls came first
	x.mixData(w.o.hash)
	x.race.acquire(g, &w.o)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("waitgroup", func() {
		defer w.Done()
		f()
	})
}

// Once is the controlled sync.Once.
type Once struct {
	ex      *Exec
	done    bool
	running bool
	o       Obj
}

func (o *Once) Do(f func()) {
	if !live() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if dying() {
		return
	}
	if o.ex != x {
		*o = Once{ex: x}
	}
	g := x.point(opOnce, "", func() bool { return !o.running })
	if o.done {
		x.touchR(opOnce, &o.o)
		x.race.acquire(g, &o.o)
		return
	}
	x.touch(opOnce, &o.o)
	o.running = true
	defer func() {
		if !dying() {
			x.race.release(x.cur, &o.o)
			x.touch(opOnce, &o.o)
		}
		o.done, o.running = true, false
	}()
	f()
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond is the controlled sync.Cond.
type Cond struct {
	L     Locker
	queue []*bool
	o     Obj
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if !live() || dying() {
		return
	}
	sig := false
	c.queue = append(c.queue, &sig)
	x.touch(opCond, &c.o)
	c.L.Unlock()
	g := x.point(opCond, "wait", func() bool { return sig })
	x.touch(opCond, &c.o)
	x.race.acquire(g, &c.o)
	c.L.Lock()
}

func (c *Cond) Signal() { c.wake(1) }

func (c *Cond) Broadcast() { c.wake(1 << 30) }

func (c *Cond) wake(n int) {
	if !live() || dying() {
		return
	}
	x.point(opCond, "signal", nil)
	x.touch(opCond, &c.o)
	x.race.release(x.cur, &c.o)
	for i := 0; i < n && len(c.queue) > 0; i++ {
		*c.queue[0] = true
		c.queue = c.queue[1:]
	}
}

// SyncMap is the controlled sync.Map: every method is one atomic step on the whole map.
type SyncMap struct {
	ex *Exec
	m  map[any]any
	o  Obj
}

func (m *SyncMap) step(write bool) {
	if m.m == nil || (x != nil && m.ex != nil && m.ex != x) {
		m.m = map[any]any{}
		m.o = Obj{}
	}
	if !live() || dying() {
		return
	}
	m.ex = x
	g := x.point(opAtomic, "sync.Map", nil)
	if write {
		x.race.acquire(g, &m.o)
		x.touch(opAtomic, &m.o)
		x.race.release(g, &m.o)
	} else {
		x.touchR(opAtomic, &m.o)
		x.race.acquire(g, &m.o)
	}
}

func (m *SyncMap) Load(k any) (any, bool) { m.step(false); v, ok := m.m[k]; return v, ok }
func (m *SyncMap) Store(k, v any)         { m.step(true); m.m[k] = v }
func (m *SyncMap) LoadOrStore(k, v any) (any, bool) {
	m.step(true)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *SyncMap) LoadAndDelete(k any) (any, bool) {
	m.step(true)
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *SyncMap) Delete(k any) { m.step(true); delete(m.m, k) }
func (m *SyncMap) Swap(k, v any) (any, bool) {
	m.step(true)
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *SyncMap) CompareAndSwap(k, old, new any) bool {
	m.step(true)
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *SyncMap) CompareAndDelete(k, old any) bool {
	m.step(true)
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *SyncMap) Clear() { m.step(true); m.m = map[any]any{} }
func (m *SyncMap) Range(f func(k, v any) bool) {
	m.step(false)
	var ks []any
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		m.step(false)
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// Pool is the controlled sync.Pool; it hands out what was put last.
type Pool struct {
	New   func() any
	ex    *Exec
	items []any
	o     Obj
}

func (p *Pool) step() *G {
	if p.ex != x {
		p.ex, p.items, p.o = x, nil, Obj{}
	}
	if !live() || dying() {
		return nil
	}
	g := x.point(opAtomic, "sync.Pool", nil)
	x.touch(opAtomic, &p.o)
	return g
}

func (p *Pool) Get() any {
	g := p.step()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		if g != nil {
			x.race.acquire(g, &p.o)
		}
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	g := p.step()
	if v == nil {
		return
	}
	if g != nil {
		x.race.release(g, &p.o)
	}
	p.items = append(p.items, v)
}

// Atomic performs f as one atomic step on the variable at p. kind: 0 load, 1 store, 2 read-modify-write.
func Atomic(p unsafe.Pointer, size uintptr, kind int, site string, f func()) {
	if !live() || dying() {
		f()
		return
	}
	x.atomicStep(p, size, kind, site, x.objFor(uintptr(p), "atomic"))
	x.objKeep[p] = true
	f()
	if kind != 0 {
		x.race.release(x.cur, x.objFor(uintptr(p), "atomic"))
	}
}

func (x *Exec) atomicStep(p unsafe.Pointer, size uintptr, kind int, site string, o *Obj) {
	g := x.point(opAtomic, site, nil)
	if kind == 0 {
		x.touchR(opAtomic, o)
	} else {
		x.touch(opAtomic, o)
	}
	if kind != 1 {
		x.race.acquire(g, o)
	}
	if raceOn() {
		accRange2(p, size, kind != 0, site, true)
	}
}
