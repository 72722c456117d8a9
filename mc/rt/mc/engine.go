// Package mc is the controlled runtime under which the instrumented copy of the code under test runs.
// Exactly one goroutine of an execution runs at a time; before every visible operation the running goroutine
// asks the scheduler which goroutine goes on. Every nondeterministic decision is a choice of the explorer.
package mc

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"unsafe"
)

// Class is the kind of a choice; each has its own deviation budget.
type Class uint8

const (
	ClsSched Class = iota // which goroutine runs, which select case is taken
	ClsCrash              // the process dies here
	ClsTimer              // the clock advances although somebody could run
	ClsMap                // iteration order of a map
	ClsData               // harness-level enumeration, never bounded
	ClsFault              // a file operation fails
	NClass
)

var className = [...]string{"sched", "crash", "timer", "map", "data", "fault"}

func (c Class) String() string { return className[c] }

// Config says what one scenario explores.
type Config struct {
	Budget     [NClass]int // deviations allowed per class; <0: unlimited
	FreeSwitch bool        // choosing among several runnable goroutines when the running one blocked is free
	Race       bool        // data race detection
	Torn       int         // number of torn-write variants at a crash point
	MaxSteps   int
	MaxTime    int64 // virtual ns after which an execution counts as not ending
	NumCPU     int
	NoPrune    bool
	RealGzip   bool // use the compression level the code asks for
	// TimerSpan: early clock advances are offered only while now < TimerSpan ns (0: always, when budgeted)
	TimerSpan int64
	// CrashFilter restricts injected crashes to the process with this ordinal (0: any)
	MapPerm int // largest map whose iteration order is permuted fully (else ascending/descending)
}

type point struct {
	cls    Class
	n      int
	pick   int
	used   [NClass]int // before this choice
	free   bool        // alternatives cost nothing
	pruned bool
}

type opKind uint8

const (
	opStart opKind = iota
	opLock
	opUnlock
	opRLock
	opRUnlock
	opWAnnounce
	opSend
	opRecv
	opClose
	opSelect
	opWGAdd
	opWGWait
	opSleep
	opAtomic
	opFS
	opTime
	opWaitProc
	opYield
	opEvent
	opOnce
	opCond
	opTimer
	opCrash
	opLen
	opPark
)

var kindName = [...]string{"start", "lock", "unlock", "rlock", "runlock", "lock-wait", "send", "recv", "close", "select", "wg.add", "wg.wait", "sleep", "atomic", "fs", "time", "wait-proc", "yield", "event", "once", "cond", "timer", "crash", "len", "park"}

// Obj is anything visible operations conflict on.
type Obj struct {
	hash uint64
	rsum uint64 // reads since the last write, as an unordered sum
	vc   VC
	name string
}

type pendingOp struct {
	kind    opKind
	enabled func() bool // nil: always
	note    string
	// channel rendezvous
	cases   []*selCase
	done    bool
	doneIdx int
	seq     uint64
}

// G is a goroutine of the execution.
type G struct {
	seq    int
	uid    uint64
	nchild uint64
	name   string
	proc   *Proc
	wake   chan struct{}
	op     pendingOp
	dead   bool
	kill   bool
	hash   uint64
	vc     VC
	run    int // consecutive steps
	sleepT int64
	yield  bool
}

// Proc is a simulated operating-system process: a group of goroutines that die together. The file system survives it.
type Proc struct {
	ID       int
	Name     string
	gs       []*G
	doomed   bool
	mainDone bool
	Crashed  bool   // injected crash
	Panic    string // uncaught panic
	Fatal    string // log.Fatal or os.Exit
	handler  any
}

func (p *Proc) ended() bool { return p.doomed || p.mainDone }

// Failure describes a violated oracle.
type Failure struct {
	Kind string
	Msg  string
}

type failSentinel struct{}

// Exec is one execution.
type Exec struct {
	cfg     *Config
	prefix  []uint8
	points  []point
	used    [NClass]int
	gs      []*G
	alive   []*G // those of gs that have not ended, in order
	cur     *G
	now     int64
	timers  []*timer
	tseq    uint64
	FS      *FS
	done    chan struct{}
	steps   int
	stateH  uint64
	clockH  uint64
	fail    *Failure
	pruned  bool
	capped  bool
	trace   []string
	tracing bool
	visit   func(x *Exec, key uint64) bool // true: prune
	onState func(h uint64)
	chans   map[any]*chanState
	objs    map[any]*Obj
	objKeep map[unsafe.Pointer]bool
	opseq   uint64
	killing bool
	deadG   chan *G
	procs   []*Proc
	race    raceState
	uuidN   int
	known   map[string]int
	crashes int
	notes   []string
	Outcome string
	randN   uint64
	diverge string
	crashOn bool
	faultOn int // 1: operations that change something may fail, 2: reading ones as well
	faults  int
	frozen  bool
}

var x *Exec // the execution being run; nil outside

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	a *= 0xc4ceb9fe1a85ec53
	a ^= a >> 29
	return a
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

var resets []func()

// RegisterReset is called by instrumented packages: f re-initialises their package-level variables.
func RegisterReset(f func()) { resets = append(resets, f) }

var vars []any

// RegisterVars is called by the packages of the module: pointers to their package-level variables.
func RegisterVars(v ...any) { vars = append(vars, v...) }

// Vars returns pointers to all package-level variables of the module.
func Vars() []any { return vars }

// live reports whether instrumented operations are under the engine's control.
func live() bool { return x != nil && x.cur != nil }

// dying reports that the current goroutine is being killed: operations become no-ops.
func dying() bool { return x.cur.kill || x.killing || (x.cur.proc != nil && x.cur.proc.doomed) }

func (x *Exec) setHash(g *G, h uint64) {
	x.stateH -= mix(g.uid, g.hash)
	g.hash = h
	x.stateH += mix(g.uid, h)
}

// touch records that the current goroutine performed a writing operation on the objects.
func (x *Exec) touch(k opKind, os ...*Obj) {
	g := x.cur
	h := mix(g.hash, uint64(k)+1)
	for _, o := range os {
		h = mix(h, o.hash+o.rsum)
	}
	x.setHash(g, h)
	for i, o := range os {
		o.hash = mix(h, uint64(i))
		o.rsum = 0
	}
}

// touchR records an operation that does not change the objects; such operations commute with each other.
func (x *Exec) touchR(k opKind, os ...*Obj) {
	g := x.cur
	h := mix(g.hash, uint64(k)+1)
	for _, o := range os {
		h = mix(h, o.hash)
	}
	x.setHash(g, h)
	for i, o := range os {
		o.rsum += mix(h, uint64(i))
	}
}

// touchC records an operation that changes the objects commutatively and learns nothing from them.
func (x *Exec) touchC(k opKind, os ...*Obj) {
	g := x.cur
	h := mix(g.hash, uint64(k)+1)
	x.setHash(g, h)
	for i, o := range os {
		o.rsum += mix(h, uint64(i))
	}
}

func (x *Exec) mixData(v uint64) { x.setHash(x.cur, mix(x.cur.hash, v)) }

func (x *Exec) objFor(k any, name string) *Obj {
	o := x.objs[k]
	if o == nil {
		o = &Obj{name: name}
		x.objs[k] = o
	}
	return o
}

func (x *Exec) tracef(f string, a ...any) {
	if x.tracing {
		x.trace = append(x.trace, fmt.Sprintf("%5d t=%-8s %-12s ", x.steps, fmt.Sprintf("%.3fs", float64(x.now)/1e9), x.cur.name)+fmt.Sprintf(f, a...))
	}
}

// choose resolves one nondeterministic choice. canonical alternative is 0.
func (x *Exec) choose(cls Class, n int, free bool, stateKey uint64) int {
	if n <= 1 {
		return 0
	}
	i := len(x.points)
	pick := 0
	pt := point{cls: cls, n: n, used: x.used, free: free}
	if i < len(x.prefix) {
		pick = int(x.prefix[i])
		if pick >= n {
			x.diverge = fmt.Sprintf("choice %d: %d of %d (%s)", i, pick, n, cls)
			pick = 0
		}
	} else if x.visit != nil && stateKey != 0 {
		if x.visit(x, stateKey) {
			pt.pruned = true
			pt.pick = 0
			x.points = append(x.points, pt)
			x.pruned = true
			x.abortAll()
			return 0 // not reached by a live goroutine
		}
	}
	pt.pick = pick
	x.points = append(x.points, pt)
	if cls != ClsSched && cls != ClsTimer {
		x.mixData(uint64(pick) + uint64(cls)<<8 + 11)
	}
	if pick != 0 && !free {
		x.used[cls]++
	}
	return pick
}

func (x *Exec) budgetLeft(cls Class) bool {
	return x.cfg.Budget[cls] < 0 || x.used[cls] < x.cfg.Budget[cls]
}

// inReplay: alternatives must be offered while the prefix is being replayed, whatever the budget.
func (x *Exec) inReplay() bool { return len(x.points) < len(x.prefix) }

func (x *Exec) enabledG(g *G) bool {
	if g.dead || (g.proc != nil && g.proc.doomed) {
		return false
	}
	if g.op.done {
		return true
	}
	return g.op.enabled == nil || g.op.enabled()
}

// schedule picks the goroutine that goes on after g announced its next operation (or ended).
func (x *Exec) schedule(g *G) *G {
	for {
		var en []*G
		gEn := false
		if g != nil && !g.dead && x.enabledG(g) {
			gEn = true
		}
		// without choices to make, the first enabled one is enough
		one := (x.frozen || x.cfg.Budget[ClsSched] == 0) && (x.frozen || x.cfg.Budget[ClsTimer] == 0 || len(x.timers) == 0)
		if gEn && !g.yield && g.run < 3000 {
			if one {
				return g
			}
			en = append(en, g)
		}
		n := len(x.alive)
		start := 0
		if g != nil {
			start = sort.Search(n, func(i int) bool { return x.alive[i].seq > g.seq })
		}
		for k := 0; k < n; k++ {
			h := x.alive[(start+k)%n]
			if h != g && x.enabledG(h) {
				if one {
					return h
				}
				en = append(en, h)
			}
		}
		yielded := false
		if gEn && (len(en) == 0 || en[0] != g) {
			en = append(en, g)
			yielded = true
		}
		canTick := x.nextTimer() >= 0
		if len(en) == 0 {
			if canTick {
				x.advance()
				continue
			}
			x.deadlock()
			return nil
		}
		if yielded && len(en) == 1 && canTick && (g.yield || g.run >= 3000) {
			// a lone spinner: let time pass
			x.advance()
			g.run = 0
			continue
		}
		opts := len(en)
		tick := false
		if canTick && !x.frozen && x.cfg.Budget[ClsTimer] != 0 && (x.cfg.TimerSpan == 0 || x.now < x.cfg.TimerSpan) {
			tick = true
		}
		// the timer alternative is a choice of its own, asked first
		if tick {
			key := x.key(g, gEn, 7)
			if x.choose(ClsTimer, 2, false, key) == 1 {
				if x.killing {
					return nil
				}
				x.advance()
				continue
			}
			if x.killing {
				return nil
			}
		}
		p := 0
		if opts > 1 && !x.frozen && x.cfg.Budget[ClsSched] != 0 {
			free := x.cfg.FreeSwitch && !(gEn && en[0] == g)
			p = x.choose(ClsSched, opts, free, x.key(g, gEn, 3))
			if x.killing {
				return nil
			}
		}
		return en[p]
	}
}

func (x *Exec) key(g *G, gEn bool, salt uint64) uint64 {
	k := mix(x.stateH, uint64(x.now))
	k = mix(k, salt)
	k = mix(k, x.clockH)
	if g != nil {
		k = mix(k, g.uid)
		if gEn {
			k = mix(k, 1)
		}
		// the pending operation is determined by the goroutine's history
	}
	if k == 0 {
		k = 1
	}
	return k
}

func (x *Exec) deadlock() {
	var b strings.Builder
	for _, g := range x.gs {
		if !g.dead && (g.proc == nil || !g.proc.doomed) {
			fmt.Fprintf(&b, "\n  %s blocked at %s %s", g.name, kindName[g.op.kind], g.op.note)
		}
	}
	x.setFail("deadlock", "no goroutine can run and no timer is pending:"+b.String())
	x.abortAll()
}

func (x *Exec) setFail(kind, msg string) {
	if x.fail == nil {
		x.fail = &Failure{kind, msg}
	}
}

// abortAll ends the execution: the controller kills every goroutine.
func (x *Exec) abortAll() { x.killing = true }

// signal hands the ended execution to the controller. Last thing the running goroutine does.
func (x *Exec) signal() { close(x.done) }

// point announces the next operation of the current goroutine and returns when it may be performed.
func (x *Exec) point(k opKind, note string, enabled func() bool) *G {
	g := x.cur
	g.op = pendingOp{kind: k, enabled: enabled, note: note}
	x.pass(g)
	return g
}

func (x *Exec) pass(g *G) {
	x.opseq++
	atomic.AddUint64(&Progress, 1)
	g.op.seq = x.opseq
	x.steps++
	if x.steps > x.cfg.MaxSteps {
		x.capped = true
		x.setFail("livelock", fmt.Sprintf("execution did not end within %d steps; running %s at %s %s", x.cfg.MaxSteps, g.name, kindName[g.op.kind], g.op.note))
		x.abortAll()
		x.park(g)
	}
	if x.cfg.MaxTime > 0 && x.now > x.cfg.MaxTime {
		x.setFail("livelock", fmt.Sprintf("execution did not end within %ds of virtual time; running %s at %s %s", x.cfg.MaxTime/1e9, g.name, kindName[g.op.kind], g.op.note))
		x.abortAll()
		x.park(g)
	}
	if x.onState != nil {
		x.onState(mix(x.stateH, uint64(x.now)))
	}
	next := x.schedule(g)
	if x.killing {
		x.park(g)
	}
	if next != g {
		next.run = 0
		x.cur = next
		next.wake <- struct{}{}
		<-g.wake
		if g.kill {
			runtime.Goexit()
		}
	} else {
		g.run++
	}
	g.yield = false
	x.mixData(uint64(g.op.kind) + 0x7700) // every step changes the state
	x.tracef("%s %s", kindName[g.op.kind], g.op.note)
}

// park waits to be killed.
func (x *Exec) park(g *G) {
	x.signal()
	<-g.wake
	runtime.Goexit()
}

func (x *Exec) newG(name string, proc *Proc, parent *G) *G {
	g := &G{seq: len(x.gs), name: name, proc: proc, wake: make(chan struct{}, 1)}
	if parent != nil {
		parent.nchild++
		g.uid = mix(parent.uid, parent.nchild)
		g.hash = mix(parent.hash, 0x51ed)
	} else {
		g.uid = mix(0xabcdef, uint64(len(x.gs)))
	}
	x.gs = append(x.gs, g)
	x.alive = append(x.alive, g)
	x.stateH += mix(g.uid, g.hash)
	if proc != nil {
		proc.gs = append(proc.gs, g)
	}
	if x.cfg.Race {
		x.race.fork(parent, g)
	}
	return g
}

func (x *Exec) start(g *G, f func(), onEnd func()) {
	g.op = pendingOp{kind: opStart}
	go func() {
		<-g.wake
		normal := false
		defer func() {
			r := recover()
			if r != nil && !g.kill {
				if _, ok := r.(failSentinel); !ok {
					msg := fmt.Sprintf("panic: %v", r)
					st := trimStack(string(debug.Stack()))
					if g.proc == nil {
						x.setFail("panic", msg+"\n"+st)
						x.abortAll()
					} else {
						g.proc.Panic = msg + "\n" + st
						x.doom(g.proc)
					}
					x.tracef("PANIC %v", r)
				}
			}
			_ = normal
			x.exitG(g, onEnd)
		}()
		if g.kill {
			return
		}
		x.tracef("start")
		x.mixData(0x7601)
		f()
		normal = true
	}()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "/zzmc/mc") || strings.Contains(l, "zzmc/mc.") || strings.HasPrefix(l, "goroutine ") || strings.Contains(l, "runtime/debug") || strings.Contains(l, "/src/runtime/") {
			continue
		}
		if strings.HasPrefix(l, "\t") {
			l = "    " + strings.TrimSpace(l)
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (x *Exec) exitG(g *G, onEnd func()) {
	g.dead = true
	for i, h := range x.alive {
		if h == g {
			x.alive = append(x.alive[:i], x.alive[i+1:]...)
			break
		}
	}
	if g.kill {
		x.deadG <- g
		return
	}
	g.wake = nil // the controller does not wait for g
	x.setHash(g, mix(g.hash, 0xdead))
	if !x.killing && onEnd != nil {
		onEnd()
	}
	if g.seq == 0 {
		x.abortAll()
	}
	if x.killing {
		x.signal()
		return
	}
	next := x.schedule(g)
	if x.killing || next == nil {
		x.signal()
		return
	}
	next.run = 0
	x.cur = next
	next.wake <- struct{}{}
}

func (x *Exec) doom(p *Proc) {
	p.doomed = true
	x.clockH = mix(x.clockH, uint64(p.ID)+77)
}

// die ends the current goroutine together with its process.
func (x *Exec) die(p *Proc) {
	x.doom(p)
	runtime.Goexit()
}

// runOnce performs one execution of body following prefix.
func runOnce(cfg *Config, prefix []uint8, body func(), opt func(*Exec)) *Exec {
	e := &Exec{cfg: cfg, prefix: prefix, done: make(chan struct{}), deadG: make(chan *G),
		chans: map[any]*chanState{}, objs: map[any]*Obj{}, objKeep: map[unsafe.Pointer]bool{}, known: map[string]int{}}
	e.FS = newFS(e)
	if opt != nil {
		opt(e)
	}
	if e.cfg.Race {
		e.race.init()
	}
	x = e
	g := e.newG("harness", nil, nil)
	e.cur = g
	e.start(g, func() {
		raceSave := e.race.on
		e.race.on = false
		for _, f := range resets {
			f()
		}
		e.race.on = raceSave && e.cfg.Race
		body()
	}, nil)
	atomic.AddUint64(&Progress, 1)
	g.wake <- struct{}{}
	<-e.done
	// kill what is left, one goroutine at a time
	for i := 0; i < len(e.gs); i++ {
		g := e.gs[i]
		if g.wake == nil {
			continue
		}
		g.kill = true
		e.cur = g
		g.wake <- struct{}{}
		<-e.deadG
	}
	x = nil
	gzipRecycle()
	return e
}

// ---- harness API ----

// Failf reports a violated oracle and ends the execution.
func Failf(kind, format string, a ...any) {
	if x == nil || x.cur == nil {
		panic("mc.Failf outside an execution: " + fmt.Sprintf(format, a...))
	}
	if x.cur.kill {
		runtime.Goexit()
	}
	x.setFail(kind, fmt.Sprintf(format, a...))
	x.tracef("FAIL %s: %s", kind, x.fail.Msg)
	x.abortAll()
	x.park(x.cur)
}

// Known reports that a listed finding showed up.
func Known(key string) { x.known[key]++ }

// Choose enumerates 0..n-1 in the harness.
func Choose(n int) int {
	p := x.choose(ClsData, n, true, 0)
	return p
}

// Note adds a line to the description of this execution.
func Note(f string, a ...any) {
	if len(x.notes) < 400 {
		x.notes = append(x.notes, fmt.Sprintf(f, a...))
	}
	x.tracef("# "+f, a...)
}

// Outcome classifies the execution for coverage statistics.
func Outcome(s string) { x.Outcome = s }

// Now is the virtual time in ns.
func Now() int64 { return x.now }

// Event is a visible operation on a global history object: it fixes real-time order.
func Event() {
	if dying() {
		return
	}
	x.point(opEvent, "", nil)
	x.touch(opEvent, x.objFor("history", "history"))
}

// Go starts a goroutine of the current process.
func Go(site string, f func()) {
	if !live() {
		return // package initialisation: restarted by the reset
	}
	if dying() {
		return
	}
	g := x.cur
	x.mixData(0x60)
	ng := x.newG(fmt.Sprintf("g%d@%s", len(x.gs), site), g.proc, g)
	x.start(ng, f, nil)
	x.point(opYield, "go "+site, nil)
}

// GoNamed starts a named goroutine in the current process.
func GoNamed(name string, f func()) {
	g := x.cur
	x.mixData(0x61)
	ng := x.newG(name, g.proc, g)
	x.start(ng, f, nil)
}

// StartProc starts a process whose main goroutine runs f.
func StartProc(name string, f func()) *Proc {
	p := &Proc{ID: len(x.procs) + 1, Name: name}
	x.procs = append(x.procs, p)
	g := x.newG(name, p, x.cur)
	x.start(g, f, func() { p.mainDone = true })
	return p
}

// Wait waits until the main goroutine of p has returned or p died, then terminates p.
func (p *Proc) Wait() *Proc {
	if dying() {
		return p
	}
	x.point(opWaitProc, p.Name, p.ended)
	x.touch(opWaitProc, x.objFor(p, p.Name))
	// whatever the process did is over: later accesses of the harness do not race with it
	if x.cfg.Race {
		for _, g := range p.gs {
			x.cur.vc.join(g.vc)
		}
	}
	for _, g := range p.gs {
		x.mixData(g.hash)
	}
	if !p.doomed {
		x.doom(p)
	}
	return p
}

// Kill ends the process at once.
func (p *Proc) Kill() { x.doom(p) }

// Run is StartProc followed by Wait.
func Run(name string, f func()) *Proc { return StartProc(name, f).Wait() }

// Bad returns a description if the process ended for another reason than returning or an injected crash.
func (p *Proc) Bad() string {
	if p.Panic != "" {
		return "process " + p.Name + " died: " + p.Panic
	}
	if p.Fatal != "" {
		return "process " + p.Name + " exited: " + p.Fatal
	}
	return ""
}

// SetRace switches race detection within an execution.
func SetRace(on bool) { x.race.on = on && x.cfg.Race }

// SetCrash enables or disables injected crashes from here on.
func SetCrash(on bool) { x.crashOn = on }

// SetFault selects which file operations may fail from here on: 0 none, 1 those that change something, 2 all.
func SetFault(n int) { x.faultOn = n }

// Faults is the number of file operations that failed by choice.
func Faults() int { return x.faults }

// FreezeSched suspends (true) or resumes the exploration of schedules and timers.
func FreezeSched(on bool) { x.frozen = on }

// Join waits until f holds; f is evaluated by the scheduler.
func Join(note string, f func() bool) {
	if dying() {
		return
	}
	x.point(opPark, note, f)
	x.touch(opPark, x.objFor("history", "history"))
}

// Tasks runs the functions as goroutines of the current process and waits for all.
func Tasks(names []string, fs ...func()) {
	left := len(fs)
	o := x.objFor(&left, "tasks")
	for i, f := range fs {
		f := f
		GoNamed(names[i], func() {
			f()
			if !dying() {
				x.race.release(x.cur, o)
				x.touchC(opWGAdd, o)
			}
			left--
		})
	}
	x.point(opPark, "join tasks", func() bool { return left == 0 })
	x.touch(opPark, o)
	x.race.acquire(x.cur, o)
}

func sortedStrings(m map[string]int) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func debugf(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
