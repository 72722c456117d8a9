package mc

import (
	"fmt"
	"unsafe"
)

// VC is a vector clock indexed by goroutine number.
type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) set(i int, c uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = c
}

func (v *VC) join(o VC) {
	for i, c := range o {
		if c > v.get(i) {
			v.set(i, c)
		}
	}
}

type access struct {
	g    int
	c    uint32
	site string
	atom bool
}

type loc struct {
	keep unsafe.Pointer // keeps the object alive so that its address is not reused
	w    access
	wset bool
	r    []access
}

type raceState struct {
	on   bool
	locs map[uintptr]*loc
}

func (r *raceState) init() {
	r.on = true
	r.locs = map[uintptr]*loc{}
}

func (r *raceState) fork(parent, g *G) {
	if parent != nil {
		g.vc = append(VC(nil), parent.vc...)
		parent.vc.set(parent.seq, parent.vc.get(parent.seq)+1)
	}
	g.vc.set(g.seq, g.vc.get(g.seq)+1)
}

// acquire: everything released on o happens before what g does next.
func (r *raceState) acquire(g *G, o *Obj) {
	if r.locs != nil {
		g.vc.join(o.vc)
	}
}

// release: what g did so far happens before later acquires of o.
func (r *raceState) release(g *G, o *Obj) {
	if r.locs != nil {
		o.vc.join(g.vc)
		g.vc.set(g.seq, g.vc.get(g.seq)+1)
	}
}

func (r *raceState) loc(a uintptr, p unsafe.Pointer) *loc {
	l := r.locs[a]
	if l == nil {
		l = &loc{keep: p}
		r.locs[a] = l
	}
	return l
}

func (r *raceState) report(g *G, kind, site, okind string, o access) {
	r.on = false
	x.setFail("race", fmt.Sprintf("data race: %s at %s by %s and earlier %s at %s by %s", kind, site, g.name, okind, o.site, x.gs[o.g].name))
	x.tracef("RACE %s", x.fail.Msg)
	x.abortAll()
	x.park(g)
}

func (r *raceState) read(p unsafe.Pointer, off uintptr, site string, atom bool) {
	g := x.cur
	l := r.loc(uintptr(p)+off, p)
	if l.wset && l.w.g != g.seq && !(atom && l.w.atom) && l.w.c > g.vc.get(l.w.g) {
		r.report(g, "read", site, "write", l.w)
		return
	}
	c := g.vc.get(g.seq)
	for i := range l.r {
		if l.r[i].g == g.seq {
			l.r[i].c, l.r[i].site, l.r[i].atom = c, site, atom && l.r[i].atom
			return
		}
	}
	l.r = append(l.r, access{g.seq, c, site, atom})
}

func (r *raceState) write(p unsafe.Pointer, off uintptr, site string, atom bool) {
	g := x.cur
	l := r.loc(uintptr(p)+off, p)
	if l.wset && l.w.g != g.seq && !(atom && l.w.atom) && l.w.c > g.vc.get(l.w.g) {
		r.report(g, "write", site, "write", l.w)
		return
	}
	for _, a := range l.r {
		if a.g != g.seq && !(atom && a.atom) && a.c > g.vc.get(a.g) {
			r.report(g, "write", site, "read", a)
			return
		}
	}
	l.w = access{g.seq, g.vc.get(g.seq), site, atom}
	l.wset = true
	l.r = l.r[:0]
}

func raceOn() bool { return x != nil && x.race.on && x.cur != nil && !x.cur.kill && !x.killing }

func accRange(p unsafe.Pointer, size uintptr, w bool, site string) {
	accRange2(p, size, w, site, false)
}

func accRange2(p unsafe.Pointer, size uintptr, w bool, site string, atom bool) {
	if p == nil || size == 0 {
		return
	}
	n := (size + 7) / 8
	if n > 8 {
		n = 8
	}
	// words are addressed by their aligned address, so that a field and the struct around it meet
	base := uintptr(p) &^ 7
	first := base - uintptr(p) // 0 or negative (wraps)
	for i := uintptr(0); i < n; i++ {
		off := first + i*8
		// sub-word fields sharing a word are told apart by their exact address
		if size < 8 {
			off = 0
		}
		if w {
			x.race.write(p, off, site, atom)
		} else {
			x.race.read(p, off, site, atom)
		}
	}
}

// FR records a read of *p.
func FR[T any](p *T, site string) *T {
	if x != nil && x.race.on && raceOn() {
		accRange(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	}
	return p
}

// FW records a write of *p.
func FW[T any](p *T, site string) *T {
	if x != nil && x.race.on && raceOn() {
		accRange(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
	return p
}

// W records a write of *p as a statement.
func W[T any](p *T, site string) { FW(p, site) }

// R records a read of *p as a statement.
func R[T any](p *T, site string) { FR(p, site) }

// MR records a read of the map m.
func MR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if x != nil && x.race.on && m != nil && raceOn() {
		accRange(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 8, false, site)
	}
	return m
}

// MW records a write of the map m.
func MW[M ~map[K]V, K comparable, V any](m M, site string) M {
	if x != nil && x.race.on && m != nil && raceOn() {
		accRange(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 8, true, site)
	}
	return m
}

// SR records a read of the elements of s (of the first ones, if there are many).
func SR[S ~[]E, E any](s S, site string) S {
	if x != nil && x.race.on && raceOn() {
		for i := range s {
			if i == 32 {
				break
			}
			accRange(unsafe.Pointer(&s[i]), unsafe.Sizeof(s[i]), false, site)
		}
	}
	return s
}

// MWs records a write of the map m as a statement.
func MWs[M ~map[K]V, K comparable, V any](m M, site string) { MW(m, site) }

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// UUIDOf and UUIDErr generate unique ids.
func UUIDOf[T ~[16]byte]() T           { return T(UID16()) }
func UUIDErr[T ~[16]byte]() (T, error) { return T(UID16()), nil }
