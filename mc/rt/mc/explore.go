package mc

import (
	"fmt"
	"sort"
	"time"
)

// Scenario is a closed program to explore.
type Scenario struct {
	Name string
	Cfg  Config
	Body func()
	// Stop after this many executions (0: no limit); the result is then not exhaustive.
	MaxExecs int
}

// Result is what an exploration covered and found.
type Result struct {
	Name       string
	Execs      int // complete executions
	Pruned     int // executions cut at an already explored state
	Steps      int64
	Points     int64
	States     int
	StatesCap  bool
	MaxSteps   int
	MaxPoints  int
	Exhaustive bool // everything within the budgets was explored
	Left       int  // unexplored alternatives when stopped
	LowBound   int  // every execution with at most this many deviations was explored
	Budget     string
	Wall       float64
	Fails      []Found
	Known      map[string]int
	Outcomes   map[string]int
	Samples    []string
	Diverged   string
	Crashes    int64
}

// Found is a violation.
type Found struct {
	Kind  string
	Msg   string
	Picks []uint8
	Notes []string
}

type item struct {
	par  *item
	at   int32
	pick uint8
}

func (it *item) prefix() []uint8 {
	if it == nil {
		return nil
	}
	p := make([]uint8, it.at+1)
	for q := it; q != nil; q = q.par {
		p[q.at] = q.pick
	}
	return p
}

type usedVec [NClass]uint8

func (u usedVec) le(v usedVec) bool {
	for i := range u {
		if u[i] > v[i] {
			return false
		}
	}
	return true
}

// hset is an open-addressing set of hashes.
type hset struct {
	t   []uint64
	n   int
	cap bool
}

const hsetMax = 1 << 25

func (s *hset) add(h uint64) {
	if h == 0 {
		h = 1
	}
	if len(s.t) == 0 {
		s.t = make([]uint64, 1<<12)
	}
	if s.n*2 >= len(s.t) {
		if len(s.t) >= hsetMax {
			s.cap = true
			return
		}
		o := s.t
		s.t = make([]uint64, 2*len(o))
		for _, v := range o {
			if v != 0 {
				s.put(v)
			}
		}
	}
	if s.put(h) {
		s.n++
	}
}

func (s *hset) put(h uint64) bool {
	m := uint64(len(s.t) - 1)
	i := mix(h, 17) & m
	for s.t[i] != 0 {
		if s.t[i] == h {
			return false
		}
		i = (i + 1) & m
	}
	s.t[i] = h
	return true
}

// OnRun, if set, is told the choices each execution begins with.
var OnRun func(prefix []uint8)

// Progress counts executed steps and executions; Stuck describes the execution in progress (racy, for a watchdog).
var Progress uint64

// Stuck returns the choices made so far by the execution in progress.
func Stuck() (picks []uint8, where string) {
	e := x
	if e == nil {
		return nil, "between executions"
	}
	for _, p := range e.points {
		picks = append(picks, uint8(p.pick))
	}
	if e.cur != nil {
		where = e.cur.name + " after " + kindName[e.cur.op.kind] + " " + e.cur.op.note
	}
	return trimPicks(picks), where
}

const visitedMax = 12_000_000

// Explore runs every execution of sc within the budgets, fewest deviations first.
// keepGoing: collect up to this many distinct violations before stopping.
func Explore(sc Scenario, deadline time.Time, maxFails int) *Result {
	cfg := sc.Cfg
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 3600e9
	}
	t0 := time.Now()
	res := &Result{Name: sc.Name, Known: map[string]int{}, Outcomes: map[string]int{}}
	for c := Class(0); c < NClass; c++ {
		if cfg.Budget[c] != 0 {
			if cfg.Budget[c] < 0 {
				res.Budget += fmt.Sprintf("%s=all ", c)
			} else {
				res.Budget += fmt.Sprintf("%s<=%d ", c, cfg.Budget[c])
			}
		}
	}
	if cfg.Budget[ClsSched] != 0 && cfg.FreeSwitch {
		res.Budget += "free-switch "
	}
	var states hset
	visited := map[uint64][]usedVec{}
	var curUsed usedVec
	visit := func(x *Exec, key uint64) bool {
		for i := range curUsed {
			curUsed[i] = uint8(x.used[i])
		}
		vs := visited[key]
		for _, v := range vs {
			if v.le(curUsed) {
				return true
			}
		}
		if len(visited) < visitedMax {
			n := 0
			for _, v := range vs {
				if !curUsed.le(v) {
					vs[n] = v
					n++
				}
			}
			visited[key] = append(vs[:n], curUsed)
		}
		return false
	}
	type bucket []*item
	buckets := []bucket{{nil}}
	pend := 1
	fails := map[string]bool{}
	opt := func(x *Exec) {
		if !cfg.NoPrune {
			x.visit = visit
		}
		x.onState = states.add
	}
	level := 0
	stopped := false
	for {
		for level < len(buckets) && len(buckets[level]) == 0 {
			level++
		}
		if level >= len(buckets) {
			break
		}
		if res.Execs&15 == 0 && time.Now().After(deadline) {
			stopped = true
			break
		}
		if sc.MaxExecs > 0 && res.Execs >= sc.MaxExecs {
			stopped = true
			break
		}
		b := buckets[level]
		it := b[len(b)-1]
		buckets[level] = b[:len(b)-1]
		pend--
		pre := it.prefix()
		if OnRun != nil {
			OnRun(pre)
		}
		x := runOnce(&cfg, pre, sc.Body, opt)
		res.Steps += int64(x.steps)
		res.Points += int64(len(x.points))
		if x.steps > res.MaxSteps {
			res.MaxSteps = x.steps
		}
		if len(x.points) > res.MaxPoints {
			res.MaxPoints = len(x.points)
		}
		res.Crashes += int64(x.crashes)
		if x.diverge != "" && res.Diverged == "" {
			res.Diverged = x.diverge
		}
		if x.pruned {
			res.Pruned++
		} else {
			res.Execs++
			h := uint64(77) // the state the execution ends in
			for _, g := range x.gs {
				h = mix(h, g.hash)
			}
			for i := range x.points {
				if x.points[i].cls == ClsData || x.points[i].cls == ClsMap {
					h = mix(mix(h, uint64(i)), uint64(x.points[i].pick))
				}
			}
			states.add(h)
			for k, v := range x.known {
				res.Known[k] += v
			}
			if x.Outcome != "" {
				res.Outcomes[x.Outcome]++
			}
			if x.fail != nil {
				sig := x.fail.Kind + "|" + shortMsg(x.fail.Msg)
				if !fails[sig] {
					fails[sig] = true
					picks := make([]uint8, len(x.points))
					for i, p := range x.points {
						picks[i] = uint8(p.pick)
					}
					res.Fails = append(res.Fails, Found{x.fail.Kind, x.fail.Msg, trimPicks(picks), append([]string(nil), x.notes...)})
					if len(res.Fails) >= maxFails {
						stopped = true
						break
					}
				}
			} else if len(res.Samples) < 3 && (res.Execs == 1 || len(x.notes) > 0 && res.Execs%37 == 0) {
				res.Samples = append(res.Samples, sampleText(x))
			}
		}
		// expand
		start := len(pre)
		for i := len(x.points) - 1; i >= start; i-- {
			p := &x.points[i]
			if p.pruned || p.n < 2 {
				continue
			}
			if !p.free && cfg.Budget[p.cls] >= 0 && p.used[p.cls] >= cfg.Budget[p.cls] {
				continue
			}
			tot := 0
			for c := 0; c < int(NClass); c++ {
				if Class(c) != ClsData {
					tot += p.used[c]
				}
			}
			if !p.free {
				tot++
			}
			for len(buckets) <= tot {
				buckets = append(buckets, nil)
			}
			for k := p.n - 1; k >= 1; k-- {
				buckets[tot] = append(buckets[tot], &item{it, int32(i), uint8(k)})
				pend++
			}
			if tot < level {
				level = tot
			}
		}
		if pend > 60_000_000 {
			stopped = true
			break
		}
	}
	res.States = states.n
	res.StatesCap = states.cap
	res.Left = pend
	res.Exhaustive = !stopped
	res.LowBound = -1
	if stopped {
		res.LowBound = level - 1
	}
	res.Wall = time.Since(t0).Seconds()
	return res
}

func trimPicks(p []uint8) []uint8 {
	n := len(p)
	for n > 0 && p[n-1] == 0 {
		n--
	}
	return p[:n]
}

func shortMsg(s string) string {
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func sampleText(x *Exec) string {
	s := ""
	for i, n := range x.notes {
		if i > 12 {
			break
		}
		s += n + "; "
	}
	dev := ""
	for i, p := range x.points {
		if p.pick != 0 {
			dev += fmt.Sprintf(" %s@%d=%d/%d", p.cls, i, p.pick, p.n)
		}
	}
	if dev == "" {
		dev = " none"
	}
	return fmt.Sprintf("%ssteps=%d choices=%d t=%.0fs deviations:%s", s, x.steps, len(x.points), float64(x.now)/1e9, dev)
}

// Replay runs one execution and returns its failure (nil: none) and trace.
func Replay(sc Scenario, picks []uint8, trace bool) (*Failure, []string, string) {
	cfg := sc.Cfg
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 3600e9
	}
	x := runOnce(&cfg, picks, sc.Body, func(x *Exec) { x.tracing = trace })
	return x.fail, x.trace, x.diverge
}

// Keys2 sorts the keys of a counter map.
func Keys2(m map[string]int) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
