package mc

import (
	"os"
	"runtime"
)

// NullFile is a file that swallows what is written.
func NullFile(name string) *File {
	return &File{name: name, n: &node{}, flag: os.O_RDWR, null: true}
}

// Exit ends the calling process.
func Exit(why string, clean bool) {
	if x == nil {
		panic("exit outside an execution: " + why)
	}
	if dying() {
		runtime.Goexit()
	}
	p := x.cur.proc
	if p == nil {
		x.setFail("exit", why)
		x.abortAll()
		x.park(x.cur)
	}
	x.tracef("EXIT %s", why)
	if clean {
		p.mainDone = true
	} else {
		p.Fatal = why + "\n" + trimStack(stack())
	}
	x.die(p)
}

func stack() string {
	b := make([]byte, 16384)
	return string(b[:runtime.Stack(b, false)])
}

// Pid is the number of the current process.
func Pid() int {
	if x != nil && x.cur != nil && x.cur.proc != nil {
		return 100 + x.cur.proc.ID
	}
	return 1
}

// NumG counts the live goroutines of the current process.
func NumG() int {
	if !live() {
		return 1
	}
	n := 0
	for _, g := range x.gs {
		if !g.dead && g.proc == x.cur.proc {
			n++
		}
	}
	return n
}

// NumTimers counts the timers and tickers of the current process that are neither over nor stopped.
func NumTimers() int {
	if !live() {
		return 0
	}
	n := 0
	for _, t := range x.timers {
		if !t.dead && t.handle && t.proc == x.cur.proc {
			n++
		}
	}
	return n
}

// Serve publishes an HTTP handler to the harness and blocks for ever.
func Serve(h any) {
	if !live() || dying() {
		ExitNow()
	}
	p := x.cur.proc
	p.handler = h
	x.touch(opEvent, x.objFor(p, p.Name))
	x.race.release(x.cur, x.objFor(p, p.Name))
	x.point(opPark, "serving", func() bool { return false })
}

// Handler waits until the process serves (or died) and returns its handler (nil if it died).
func (p *Proc) Handler() any {
	Join("wait for server", func() bool { return p.handler != nil || p.doomed || p.mainDone })
	return p.handler
}

// GoIn starts a goroutine that belongs to process p and runs f; f's panics kill p unless f recovers.
func GoIn(p *Proc, name string, f func(), onEnd func()) {
	g := x.cur
	x.mixData(0x62)
	ng := x.newG(name, p, g)
	x.race.acquire(ng, x.objFor(p, p.Name)) // the server was set up before it accepts
	x.start(ng, f, onEnd)
}

// Doomed reports that the process is gone.
func (p *Proc) Doomed() bool { return p.doomed }

// RealCompression: see the gzip shim.
func RealCompression() bool { return x == nil || x.cfg.RealGzip }
