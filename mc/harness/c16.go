package zzharness

import (
	"fmt"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C16", Scns: c16,
		Rule: "Both buffered maps: all sequences of put, get and pauses (to just before, to, and beyond a refresh) up to the stated depth against a reference with deadlines; and all interleavings (within the bounds) of writers, readers, the map's own writer goroutine and its timer around a refresh, with race detection."}
}

type bufMap interface {
	Get(string) (*int, bool)
	Put(string, int)
}

func mkBuf(kind string) bufMap {
	if kind == "rcu" {
		return cache.NewCacheRCU[int]()
	}
	return cache.NewSyncMap[int]()
}

const refresh = 3 * time.Second

// bufRef checks what a reader may see: values are numbered per key in put order.
type bufRef struct {
	puts map[string][]int64 // time of put i+1 of the key
	ret  map[string][]int64 // time at which it had returned
	seen map[string]map[string]int
	held []held2
}

func newBufRef() *bufRef {
	return &bufRef{map[string][]int64{}, map[string][]int64{}, map[string]map[string]int{}, nil}
}

// look checks one read. The value of a key is its put number.
func (r *bufRef) look(reader string, m bufMap, key string) {
	before := mc.Now()
	must := 0 // newest put that has to be visible
	for i, t := range r.ret[key] {
		if before-t > int64(refresh) {
			must = i + 1
		}
	}
	p, ok := m.Get(key)
	v := 0
	if ok {
		if p == nil {
			mc.Failf("bufmap", "Get(%q) reports a hit without a value", key)
		}
		mc.R(p, "reader")
		v = *p
		r.held = append(r.held, held2{p, v, key})
		if v < 1 || v > len(r.puts[key]) {
			mc.Failf("bufmap", "Get(%q) = %d, which was never put (%d puts)", key, v, len(r.puts[key]))
		}
	}
	if v < must {
		mc.Failf("bufmap", "Get(%q) at %.3fs sees put %d, but put %d had returned at %.3fs", key, float64(before)/1e9, v, must, float64(r.ret[key][must-1])/1e9)
	}
	s := r.seen[reader]
	if s == nil {
		s = map[string]int{}
		r.seen[reader] = s
	}
	if v < s[key] {
		mc.Failf("bufmap", "reader %s: Get(%q) went back from put %d to put %d", reader, key, s[key], v)
	}
	s[key] = v
}

func (r *bufRef) put(m bufMap, key string) {
	r.puts[key] = append(r.puts[key], mc.Now())
	n := len(r.puts[key])
	m.Put(key, n)
	for len(r.ret[key]) < n {
		r.ret[key] = append(r.ret[key], mc.Now())
	}
}

func (r *bufRef) end() {
	for _, h := range r.held {
		if *h.p != h.want {
			mc.Failf("bufmap", "a value returned earlier for %q changed from %d to %d", h.key, h.want, *h.p)
		}
	}
}

func c16() []mc.Scenario {
	var out []mc.Scenario
	for _, kind := range []string{"rcu", "sync"} {
		kind := kind
		depth := pick(6, 8)
		// operations: put a, put b, get both, three pauses
		for first := 0; first < 6; first++ {
			first := first
			out = append(out, mc.Scenario{Name: fmt.Sprintf("%s seq first=%d depth=%d", kind, first, depth), Body: func() {
				m := mkBuf(kind)
				r := newBufRef()
				for i := 0; i < depth; i++ {
					o := first
					if i > 0 {
						o = mc.Choose(6)
					}
					switch o {
					case 0:
						r.put(m, "a")
					case 1:
						r.put(m, "b")
					case 2:
						r.look("r", m, "a")
						r.look("r", m, "b")
						r.look("r", m, "none")
					case 3:
						secs(1)
					case 4:
						secs(2)
					case 5:
						secs(3.001)
					}
				}
				secs(3.001)
				r.look("r", m, "a")
				r.look("r", m, "b")
				secs(9)
				r.look("r", m, "a")
				r.look("r", m, "b")
				r.end()
			}})
		}
		// many puts between refreshes: nobody blocks
		out = append(out, mc.Scenario{Name: kind + " flood", Body: func() {
			m := mkBuf(kind)
			r := newBufRef()
			n := []int{999, 1000, 1001, 2500}[mc.Choose(4)]
			keys := []int{1, 7, 3000}[mc.Choose(3)]
			for i := 0; i < n; i++ {
				r.put(m, fmt.Sprint("k", i%keys))
			}
			secs(3.001)
			for i := 0; i < keys && i < n; i++ {
				r.look("r", m, fmt.Sprint("k", i))
			}
			secs(6.001)
			for i := 0; i < keys && i < n; i++ {
				r.look("r", m, fmt.Sprint("k", i))
			}
			r.end()
		}})
		// the same keys again and again, in several rounds, each with a refresh between
		out = append(out, mc.Scenario{Name: kind + " rounds", Body: func() {
			m := mkBuf(kind)
			r := newBufRef()
			keys := []int{2, 65, 130, 300, 1200}[mc.Choose(5)]
			back := mc.Choose(2) == 1
			rest := []float64{0, 1.5, 3.001}[mc.Choose(3)]
			for round := 0; round < 4; round++ {
				for i := 0; i < keys; i++ {
					k := i
					if back && round%2 == 1 {
						k = keys - 1 - i
					}
					r.put(m, fmt.Sprint("k", k))
					if round == 2 && i%2 == 0 {
						r.put(m, fmt.Sprint("k", k))
					}
				}
				secs(rest)
				for i := 0; i < keys; i++ {
					r.look("r", m, fmt.Sprint("k", i))
				}
			}
			secs(6.001)
			for i := 0; i < keys; i++ {
				r.look("r", m, fmt.Sprint("k", i))
			}
			r.end()
		}})
		// the writer takes puts while the buffer is (nearly) full
		for _, two := range []bool{false, true} {
			two := two
			cfg := mc.Config{FreeSwitch: !two || Thorough}
			cfg.Budget[mc.ClsSched] = 1
			out = append(out, mc.Scenario{Name: fmt.Sprintf("%s full two=%v", kind, two), Cfg: cfg, Body: func() {
				mc.FreezeSched(true)
				m := mkBuf(kind)
				r := newBufRef()
				for i := 0; i < 998; i++ {
					r.put(m, "a")
				}
				mc.FreezeSched(false)
				fs := []func(){func() {
					for i := 0; i < 5; i++ {
						r.put(m, "a")
					}
				}}
				ns := []string{"putter"}
				if two {
					ns = append(ns, "putter2")
					fs = append(fs, func() { r.put(m, "b"); r.put(m, "b") })
				}
				mc.Tasks(ns, fs...)
				mc.FreezeSched(true)
				secs(3.001)
				r.look("r", m, "a")
				r.look("r", m, "b")
				secs(3.001)
				r.look("r", m, "a")
				r.look("r", m, "b")
				r.end()
			}})
		}
		// interleavings around a refresh
		type cfgT struct {
			name  string
			timer int
			body  func(m bufMap, r *bufRef)
		}
		tasks := func(fs ...func()) {
			var names []string
			for i := range fs {
				names = append(names, fmt.Sprintf("task%d", i))
			}
			mc.Tasks(names, fs...)
		}
		progs := []cfgT{
			{"put|get", 0, func(m bufMap, r *bufRef) {
				r.put(m, "a")
				secs(2.9)
				tasks(func() { secs(0.1); r.put(m, "a") }, func() { secs(0.1); r.look("x", m, "a"); r.look("x", m, "a") })
				secs(3.1)
				r.look("m", m, "a")
			}},
			{"put|put", 0, func(m bufMap, r *bufRef) {
				secs(3)
				tasks(func() { r.put(m, "a"); r.put(m, "a") }, func() { r.put(m, "b"); r.look("x", m, "b") })
				secs(3.1)
				r.look("m", m, "a")
				r.look("m", m, "b")
				secs(3)
				r.look("m", m, "a")
				r.look("m", m, "b")
			}},
			{"get|get", 0, func(m bufMap, r *bufRef) {
				r.put(m, "a")
				r.put(m, "b")
				secs(3)
				tasks(func() { r.look("x", m, "a"); r.look("x", m, "b"); r.look("x", m, "a") }, func() { r.look("y", m, "b"); r.look("y", m, "a") })
				secs(3.1)
				r.look("m", m, "a")
				r.look("m", m, "b")
			}},
			{"update at refresh", 0, func(m bufMap, r *bufRef) {
				r.put(m, "a")
				secs(6)
				tasks(func() { r.put(m, "a"); r.look("x", m, "a") }, func() { r.look("y", m, "a"); r.put(m, "b") })
				secs(3.1)
				r.look("m", m, "a")
				r.look("m", m, "b")
			}},
			{"early clock", pick(2, 3), func(m bufMap, r *bufRef) {
				tasks(func() { r.put(m, "a"); r.put(m, "b"); r.put(m, "a") }, func() { r.look2("y", m, "a"); r.look2("y", m, "a") })
				mc.FreezeSched(true)
				secs(6.2)
				r.look("m", m, "a")
				r.look("m", m, "b")
			}},
		}
		for _, p := range progs {
			p := p
			cfg := mc.Config{Race: true, FreeSwitch: true}
			cfg.Budget[mc.ClsSched] = pick(4, -1)
			cfg.Budget[mc.ClsTimer] = p.timer
			if p.timer > 0 {
				cfg.Budget[mc.ClsSched] = pick(2, 3)
			}
			out = append(out, mc.Scenario{Name: kind + " " + p.name, Cfg: cfg, Body: func() {
				m := mkBuf(kind)
				r := newBufRef()
				p.body(m, r)
				r.end()
			}})
		}
	}
	return out
}

// look2 is look without the deadline.
func (r *bufRef) look2(reader string, m bufMap, key string) {
	save := r.ret[key]
	r.ret[key] = nil
	r.look(reader, m, key)
	if len(r.ret[key]) < len(save) {
		r.ret[key] = save
	}
}
