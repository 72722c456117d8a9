package mc

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Channels keep their Go type; the real channel only serves as identity and capacity, contents live here.
type chanState struct {
	Obj
	cap    int
	buf    []chanElem
	closed bool
	slots  []Obj // happens-before per buffer slot
	sendN  int
	recvN  int
}

type chanElem struct{ v any }

type selCase struct {
	ch   *chanState // nil: nil channel
	send bool
	v    any
	ok   bool
}

func chanPtr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (x *Exec) chanState(id any, capn int) *chanState {
	s := x.chans[id]
	if s == nil {
		s = &chanState{cap: capn}
		n := capn
		if n == 0 {
			n = 1
		}
		if n > 4096 {
			n = 4096
		}
		s.slots = make([]Obj, n)
		x.chans[id] = s
	}
	return s
}

// Ch is a view of a channel.
type Ch[T any] struct {
	s  *chanState
	id chan T
}

// ChanOf views a bidirectional channel; ChanS and ChanR the directional ones.
func ChanOf[C ~chan T, T any](c C) Ch[T] { return mkCh[T](chanPtr(c), cap(c), any((chan T)(c))) }
func ChanS[C ~chan<- T, T any](c C) Ch[T] {
	var z chan T
	p := chanPtr(c)
	*(*unsafe.Pointer)(unsafe.Pointer(&z)) = p
	return mkCh[T](p, cap(c), any(z))
}
func ChanR[C ~<-chan T, T any](c C) Ch[T] {
	var z chan T
	p := chanPtr(c)
	*(*unsafe.Pointer)(unsafe.Pointer(&z)) = p
	return mkCh[T](p, cap(c), any(z))
}

func mkCh[T any](p unsafe.Pointer, n int, id any) Ch[T] {
	if p == nil || x == nil {
		return Ch[T]{}
	}
	return Ch[T]{s: x.chanState(id, n)}
}

// partner returns the oldest goroutine waiting to do the opposite operation on s.
func (x *Exec) partner(s *chanState, wantSend bool, self *G) (*G, int) {
	var best *G
	bi := -1
	for _, g := range x.alive {
		if g == self || g.dead || g.op.done || g.op.cases == nil || (g.proc != nil && g.proc.doomed) {
			continue
		}
		for i, c := range g.op.cases {
			if c.ch == s && c.send == wantSend {
				if best == nil || g.op.seq < best.op.seq {
					best, bi = g, i
				}
				break
			}
		}
	}
	return best, bi
}

func (x *Exec) caseReady(c *selCase, self *G) bool {
	s := c.ch
	if s == nil {
		return false
	}
	if c.send {
		if s.closed || len(s.buf) < s.cap {
			return true
		}
		if s.cap == 0 {
			p, _ := x.partner(s, false, self)
			return p != nil
		}
		return false
	}
	if s.closed || len(s.buf) > 0 {
		return true
	}
	if s.cap == 0 {
		p, _ := x.partner(s, true, self)
		return p != nil
	}
	return false
}

// perform executes a ready case on behalf of the current goroutine.
func (x *Exec) perform(c *selCase, g *G, k opKind) {
	s := c.ch
	if c.send {
		if s.closed {
			x.touch(k, &s.Obj)
			panic("send on closed channel")
		}
		if s.cap == 0 {
			p, i := x.partner(s, false, g)
			pc := p.op.cases[i]
			pc.v, pc.ok = c.v, true
			x.rendezvous(g, p, i, k, s)
			return
		}
		x.touch(k, &s.Obj)
		slot := &s.slots[s.sendN%len(s.slots)]
		s.sendN++
		x.race.acquire(g, slot)
		x.race.release(g, slot)
		s.buf = append(s.buf, chanElem{c.v})
		return
	}
	if len(s.buf) > 0 {
		x.touch(k, &s.Obj)
		c.v, c.ok = s.buf[0].v, true
		s.buf = s.buf[1:]
		slot := &s.slots[s.recvN%len(s.slots)]
		s.recvN++
		x.race.acquire(g, slot)
		x.race.release(g, slot)
		return
	}
	if s.cap == 0 && !s.closed {
		p, i := x.partner(s, true, g)
		c.v, c.ok = p.op.cases[i].v, true
		x.rendezvous(g, p, i, k, s)
		return
	}
	// closed and drained
	x.touch(k, &s.Obj)
	x.race.acquire(g, &s.Obj)
	c.v, c.ok = nil, false
}

func (x *Exec) rendezvous(g, p *G, i int, k opKind, s *chanState) {
	p.op.done, p.op.doneIdx = true, i
	h := mix(mix(g.hash, p.hash), mix(s.hash, uint64(k)))
	x.setHash(g, mix(h, 1))
	x.setHash(p, mix(h, 2))
	s.hash = mix(h, 3)
	if x.race.locs != nil {
		gv := append(VC(nil), g.vc...)
		g.vc.join(p.vc)
		p.vc.join(gv)
		g.vc.set(g.seq, g.vc.get(g.seq)+1)
		p.vc.set(p.seq, p.vc.get(p.seq)+1)
	}
}

// chanOp runs a blocking (or, with def, non-blocking) operation over cases; -1: default.
func (x *Exec) chanOp(k opKind, note string, cases []*selCase, def bool) int {
	g := x.cur
	g.op = pendingOp{kind: k, note: note, cases: cases}
	if def {
		g.op.cases = nil // never a partner while it polls
		g.op.enabled = nil
	} else {
		g.op.enabled = func() bool {
			for _, c := range cases {
				if x.caseReady(c, g) {
					return true
				}
			}
			return false
		}
	}
	x.pass(g)
	if g.op.done {
		return g.op.doneIdx
	}
	g.op.cases = nil
	var ready []int
	for i, c := range cases {
		if x.caseReady(c, g) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !def {
			panic("mc: select chosen though not ready")
		}
		var os []*Obj
		for _, c := range cases {
			if c.ch != nil {
				os = append(os, &c.ch.Obj)
			}
		}
		x.touch(k, os...)
		return -1
	}
	p := 0
	if len(ready) > 1 && !x.frozen && x.cfg.Budget[ClsSched] != 0 {
		p = x.choose(ClsSched, len(ready), false, x.key(g, true, 9))
		if x.killing {
			x.park(g)
		}
		x.mixData(uint64(p) + 31)
	}
	i := ready[p]
	x.perform(cases[i], g, k)
	return i
}

func (c Ch[T]) Send(v T) {
	if !live() {
		return
	}
	if dying() {
		x.exitNow()
	}
	x.chanOp(opSend, "", []*selCase{{ch: c.s, send: true, v: v}}, false)
}

func (c Ch[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

func (c Ch[T]) Recv2() (T, bool) {
	var z T
	if !live() {
		return z, false
	}
	if dying() {
		x.exitNow()
	}
	sc := &selCase{ch: c.s}
	x.chanOp(opRecv, "", []*selCase{sc}, false)
	if sc.v != nil {
		z = sc.v.(T)
	}
	return z, sc.ok
}

func (c Ch[T]) Close() {
	if !live() || dying() {
		return
	}
	g := x.point(opClose, "", nil)
	if c.s == nil {
		panic("close of nil channel")
	}
	if c.s.closed {
		panic("close of closed channel")
	}
	x.touch(opClose, &c.s.Obj)
	x.race.release(g, &c.s.Obj)
	c.s.closed = true
}

func (c Ch[T]) Len() int {
	if !live() || c.s == nil {
		return 0
	}
	if !dying() {
		x.point(opLen, "", nil)
		x.touch(opLen, &c.s.Obj)
	}
	return len(c.s.buf)
}

// It declares the variables of a range loop over c; Next receives into v (nil: drops the value).
func (c Ch[T]) It() (Ch[T], T) { var z T; return c, z }

func (c Ch[T]) Next(v *T) bool {
	w, ok := c.Recv2()
	if ok && v != nil {
		*v = w
	}
	return ok
}

// RecvCase and SendCase build select cases.
func (c Ch[T]) RecvCase() *selCase    { return &selCase{ch: c.s} }
func (c Ch[T]) SendCase(v T) *selCase { return &selCase{ch: c.s, send: true, v: v} }

// Sel is the outcome of a select.
type Sel struct {
	Index int
	cases []*selCase
}

// Select performs a select statement; Index is -1 for the default clause.
func Select(def bool, cases ...*selCase) Sel {
	if !live() {
		return Sel{Index: -1, cases: cases}
	}
	if dying() {
		x.exitNow()
	}
	return Sel{x.chanOp(opSelect, "", cases, def), cases}
}

func (c Ch[T]) Val(s Sel) T {
	var z T
	if v := s.cases[s.Index].v; v != nil {
		z = v.(T)
	}
	return z
}

func (c Ch[T]) Val2(s Sel) (T, bool) { return c.Val(s), s.cases[s.Index].ok }

// Keys returns the keys of m in the order in which this execution walks it.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortKeys(ks)
	if !live() || x.cur.kill || len(ks) < 2 {
		return ks
	}
	if x.cfg.Budget[ClsMap] != 0 && !x.frozen {
		n := 2
		perm := len(ks) <= x.cfg.MapPerm
		if perm {
			n = 1
			for i := 2; i <= len(ks); i++ {
				n *= i
			}
		}
		p := x.choose(ClsMap, n, false, x.key(x.cur, true, 13))
		if x.killing {
			x.park(x.cur)
		}
		if p != 0 {
			if perm {
				ks = permute(ks, p)
			} else {
				for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
	}
	return ks
}

func permute[K any](ks []K, p int) []K {
	rest := append([]K(nil), ks...)
	var out []K
	for n := len(ks); n > 0; n-- {
		f := 1
		for i := 2; i < n; i++ {
			f *= i
		}
		i := p / f
		p %= f
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return out
}

// MapIter walks a map; keys removed meanwhile are skipped, keys added meanwhile are not visited.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	ks   []K
	site string
}

// MapIt declares the variables of a range loop over m.
func MapIt[M ~map[K]V, K comparable, V any](m M, site string) (it *MapIter[K, V], k K, v V) {
	MR(m, site)
	return &MapIter[K, V]{m, Keys(m), site}, k, v
}

// MapIt1 declares only the iterator.
func MapIt1[M ~map[K]V, K comparable, V any](m M, site string) *MapIter[K, V] {
	it, _, _ := MapIt(m, site)
	return it
}

// MapItK declares the iterator and the key, MapItV the iterator and the value.
func MapItK[M ~map[K]V, K comparable, V any](m M, site string) (*MapIter[K, V], K) {
	it, k, _ := MapIt(m, site)
	return it, k
}

func MapItV[M ~map[K]V, K comparable, V any](m M, site string) (*MapIter[K, V], V) {
	it, _, v := MapIt(m, site)
	return it, v
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.ks) > 0 {
		q := it.ks[0]
		it.ks = it.ks[1:]
		MR(it.m, it.site)
		w, ok := it.m[q]
		if !ok {
			continue
		}
		if k != nil {
			*k = q
		}
		if v != nil {
			*v = w
		}
		return true
	}
	return false
}

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch s := any(ks).(type) {
	case []string:
		sort.Strings(s)
		return
	case []int:
		sort.Ints(s)
		return
	}
	rv := reflect.ValueOf(ks)
	switch rv.Type().Elem().Kind() {
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return rv.Index(i).String() < rv.Index(j).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return rv.Index(i).Int() < rv.Index(j).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(ks, func(i, j int) bool { return rv.Index(i).Uint() < rv.Index(j).Uint() })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
}
