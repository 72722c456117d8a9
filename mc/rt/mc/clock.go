package mc

import "runtime"

// timer is a pending event of the virtual clock.
type timer struct {
	handle bool // made by NewTimer

	at     int64
	seq    uint64
	proc   *Proc
	period int64
	fire   func(x *Exec) // runs on the scheduler, must not block
	obj    *Obj
	dead   bool
}

func (x *Exec) exitNow() { runtime.Goexit() }

// nextTimer returns the due time of the earliest live timer, or -1.
func (x *Exec) nextTimer() int64 {
	t := x.earliest()
	if t == nil {
		return -1
	}
	return t.at
}

func (x *Exec) earliest() *timer {
	var best *timer
	n := 0
	for _, t := range x.timers {
		if t.dead || (t.proc != nil && t.proc.doomed) {
			continue
		}
		x.timers[n] = t
		n++
		if best == nil || t.at < best.at || (t.at == best.at && t.seq < best.seq) {
			best = t
		}
	}
	for i := n; i < len(x.timers); i++ {
		x.timers[i] = nil
	}
	x.timers = x.timers[:n]
	return best
}

// advance lets time pass until the next timers are due and fires all that are due then.
func (x *Exec) advance() {
	x.steps++
	at := x.earliest().at
	if at < x.now {
		at = x.now
	}
	for t := x.earliest(); t != nil && t.at <= at; t = x.earliest() {
		x.now = at
		x.fireTimer(t)
	}
	if x.steps > x.cfg.MaxSteps {
		x.capped = true
		x.setFail("livelock", "execution did not end within the step limit (the clock keeps running)")
		x.abortAll()
	}
}

func (x *Exec) fireTimer(t *timer) {
	x.clockH = mix(x.clockH, t.seqHash())
	if t.period > 0 {
		t.at += t.period
	} else {
		t.dead = true
	}
	if x.tracing {
		save := x.cur
		x.cur = &G{name: "clock"}
		x.tracef("timer fires")
		x.cur = save
	}
	t.fire(x)
	if t.obj != nil {
		t.obj.hash = mix(t.obj.hash, mix(uint64(x.now), t.seqHash()))
	}
}

// seqHash identifies a timer independently of the order in which timers of different goroutines were made.
func (t *timer) seqHash() uint64 {
	if t.obj != nil {
		return t.obj.hash
	}
	return 5
}

// newTimer registers a timer owned by the current process. obj is what firing it touches.
func (x *Exec) newTimer(at, period int64, o *Obj, fire func(*Exec)) *timer {
	x.tseq++
	t := &timer{at: at, seq: x.tseq, period: period, fire: fire, obj: o}
	if x.cur != nil {
		t.proc = x.cur.proc
		if o.hash == 0 {
			o.hash = mix(x.cur.hash, 0x71)
		}
	}
	x.timers = append(x.timers, t)
	return t
}

// Timer is the handle the time shim works with.
type Timer struct {
	t    *timer
	c    *chanState
	f    func()
	exec *Exec
	obj  *Obj
}

// NewTimer arms a timer after d ns (period>0: ticker). It sends mk(now) on the channel identified by id, or, with f, runs
// f in a goroutine of its own.
func NewTimer[T any](ch chan T, d, period int64, f func(), mk func(now int64) T) *Timer {
	if !live() || dying() {
		return &Timer{}
	}
	if d < 0 {
		d = 0
	}
	h := &Timer{exec: x, f: f}
	proc := x.cur.proc
	if f == nil {
		h.c = ChanOf(ch).s
		h.obj = &h.c.Obj
	} else {
		h.obj = &Obj{name: "afterfunc"}
	}
	x.mixData(0x7100 + uint64(d))
	parentUID, parentVC := x.cur.uid, append(VC(nil), x.cur.vc...)
	x.cur.nchild++
	uid := mix(parentUID, x.cur.nchild)
	n := uint64(0)
	fire := func(x *Exec) {
		if f != nil {
			n++
			g := &G{seq: len(x.gs), name: "afterfunc", proc: proc, wake: make(chan struct{}, 1), uid: mix(uid, n)}
			x.gs = append(x.gs, g)
			x.alive = append(x.alive, g)
			x.setHashInit(g, h.obj.hash)
			if proc != nil {
				proc.gs = append(proc.gs, g)
			}
			if x.cfg.Race {
				g.vc = append(VC(nil), parentVC...)
				g.vc.join(h.obj.vc)
				g.vc.set(g.seq, 1)
			}
			x.start(g, f, nil)
			return
		}
		if len(h.c.buf) < h.c.cap {
			h.c.buf = append(h.c.buf, chanElem{mk(x.now)})
			h.c.sendN++
		}
	}
	h.t = x.newTimer(x.now+d, period, h.obj, fire)
	h.t.handle = true
	return h
}

func (x *Exec) setHashInit(g *G, h uint64) {
	g.hash = h
	x.stateH += mix(g.uid, h)
}

// Stop disarms the timer and reports whether it was armed. drain: drop an undelivered value (Go 1.23 semantics are not
// used by a go 1.19 module, so values stay).
func (h *Timer) Stop() bool {
	if !live() || dying() || h.t == nil || h.exec != x {
		return false
	}
	x.point(opTimer, "stop", nil)
	x.touch(opTimer, h.obj)
	was := !h.t.dead
	h.t.dead = true
	return was
}

// Reset re-arms it.
func (h *Timer) Reset(d int64) bool {
	if !live() || dying() || h.t == nil || h.exec != x {
		return false
	}
	x.point(opTimer, "reset", nil)
	x.touch(opTimer, h.obj)
	x.mixData(uint64(d))
	was := !h.t.dead
	h.t.dead = true
	per := int64(0)
	if h.t.period > 0 {
		per = d
	}
	h.t = x.newTimer(x.now+d, per, h.obj, h.t.fire)
	h.t.handle = true
	return was
}

// Sleep blocks the current goroutine for d ns of virtual time.
func Sleep(d int64) {
	if !live() {
		return
	}
	if dying() {
		x.exitNow()
	}
	g := x.cur
	if d <= 0 {
		Yield()
		return
	}
	x.mixData(0x5100 + uint64(d))
	until := x.now + d
	o := &Obj{}
	fired := false
	x.newTimer(until, 0, o, func(*Exec) { fired = true })
	x.point(opSleep, "", func() bool { return fired })
	_ = g
	x.touch(opSleep, o)
	x.mixData(uint64(x.now))
}

// ReadClock is the virtual time; reading it is recorded in the caller's history.
func ReadClock() int64 {
	if !live() {
		return 0
	}
	x.mixData(uint64(x.now) + 3)
	return x.now
}

// Yield lets others run.
func Yield() {
	if !live() || dying() {
		return
	}
	x.cur.yield = true
	x.point(opYield, "", nil)
	x.mixData(0x99)
}

// Live, Dying: for shims.
func Live() bool  { return live() }
func Dying() bool { return live() && dying() }

// ExitNow ends the current goroutine (it is being killed).
func ExitNow() { runtime.Goexit() }
