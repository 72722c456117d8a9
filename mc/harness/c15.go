package zzharness

import (
	"fmt"

	"github.com/sira-serverless-ir-arch/goirlib/cache"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C15", Scns: c15,
		Rule: "All sequences of put/get over 3-4 keys up to the stated depth, for every capacity from -1 to 4, against a reference recency list, reading every pointer ever returned again at the end; and all interleavings (within the preemption bound) of 2-3 goroutines with puts and gets, with race detection and a search for a sequential order that explains each history."}
}

// refLRU is the reference.
type refLRU struct {
	cap  int
	keys []string // most recent first
	val  map[string]int
}

func (l *refLRU) clone() *refLRU {
	n := &refLRU{cap: l.cap, keys: append([]string(nil), l.keys...), val: map[string]int{}}
	for k, v := range l.val {
		n.val[k] = v
	}
	return n
}

func (l *refLRU) front(k string) {
	for i, q := range l.keys {
		if q == k {
			copy(l.keys[1:], l.keys[:i])
			l.keys[0] = k
			return
		}
	}
	l.keys = append([]string{k}, l.keys...)
}

func (l *refLRU) get(k string) (int, bool) {
	v, ok := l.val[k]
	if ok {
		l.front(k)
	}
	return v, ok
}

func (l *refLRU) put(k string, v int) {
	if l.cap <= 0 {
		return
	}
	l.front(k)
	l.val[k] = v
	if len(l.keys) > l.cap {
		last := l.keys[len(l.keys)-1]
		l.keys = l.keys[:len(l.keys)-1]
		delete(l.val, last)
	}
}

type heldInt struct {
	p    *int
	want int
	key  string
}

func c15() []mc.Scenario {
	var out []mc.Scenario
	keys := []string{"", "a", "b", "c"}
	for _, c := range []int{-1, 0, 1, 2, 3} {
		nk := 3
		if c >= 3 {
			nk = 4
		}
		depth := pick(6, 8)
		if c == 3 {
			depth = pick(6, 7)
		}
		for first := 0; first < 2*nk; first++ {
			c, nk, depth, first := c, nk, depth, first
			out = append(out, mc.Scenario{Name: fmt.Sprintf("seq cap=%d first=%d depth=%d", c, first, depth), Cfg: mc.Config{}, Body: func() {
				l := cache.NewLRUCache[int](c)
				ref := &refLRU{cap: c, val: map[string]int{}}
				var held []heldInt
				for i := 0; i < depth; i++ {
					o := first
					if i > 0 {
						o = mc.Choose(2 * nk)
					}
					k := keys[o%nk]
					if o >= nk {
						l.Put(k, i+1)
						ref.put(k, i+1)
						continue
					}
					p, ok := l.Get(k)
					w, wok := ref.get(k)
					if ok != wok || ok && *p != w {
						mc.Failf("lru", "after %d operations Get(%q) = %s, want %s", i, k, ptr(p, ok), val(w, wok))
					}
					if ok {
						held = append(held, heldInt{p, w, k})
					}
				}
				n := 0
				for _, k := range keys {
					p, ok := l.Get(k)
					w, wok := ref.get(k)
					if ok {
						n++
					}
					if ok != wok || ok && *p != w {
						mc.Failf("lru", "at the end Get(%q) = %s, want %s", k, ptr(p, ok), val(w, wok))
					}
				}
				if n > c && c >= 0 {
					mc.Failf("lru", "%d entries with capacity %d", n, c)
				}
				for _, h := range held {
					if *h.p != h.want {
						mc.Failf("lru", "the value returned earlier for %q changed from %d to %d", h.key, h.want, *h.p)
					}
				}
			}})
		}
	}
	// larger capacities: one long pattern per capacity
	caps := []int{100, 127, 128, 129, 255, 256, 257, 1000}
	for c := 4; c <= 70; c++ {
		caps = append(caps, c)
	}
	for _, c := range caps {
		c := c
		out = append(out, mc.Scenario{Name: fmt.Sprintf("scan cap=%d", c), Body: func() {
			stride := 1 + mc.Choose(4)
			n := c + mc.Choose(4)
			l := cache.NewLRUCache[int](c)
			ref := &refLRU{cap: c, val: map[string]int{}}
			for i := 0; i < 4*c; i++ {
				k := fmt.Sprint((i * stride) % n)
				if i%3 == 2 {
					k = fmt.Sprint(i % n)
					p, ok := l.Get(k)
					w, wok := ref.get(k)
					if ok != wok || ok && *p != w {
						mc.Failf("lru", "step %d: Get(%q) = %s, want %s", i, k, ptr(p, ok), val(w, wok))
					}
					continue
				}
				l.Put(k, i)
				ref.put(k, i)
			}
			for i := 0; i < n; i++ {
				k := fmt.Sprint(i)
				p, ok := l.Get(k)
				w, wok := ref.get(k)
				if ok != wok || ok && *p != w {
					mc.Failf("lru", "at the end Get(%q) = %s, want %s", k, ptr(p, ok), val(w, wok))
				}
			}
		}})
	}
	// concurrency
	type prog []string // "p:k" or "g:k"
	progs := []struct {
		cap  int
		pre  []string
		task []prog
	}{
		{2, []string{"p:a", "p:b"}, []prog{{"g:a"}, {"g:b"}}},
		{2, []string{"p:a", "p:b"}, []prog{{"g:a", "g:b"}, {"g:b", "g:a"}}},
		{2, []string{"p:a", "p:b"}, []prog{{"g:a"}, {"p:c"}}},
		{1, []string{"p:a"}, []prog{{"g:a", "g:b"}, {"p:b"}}},
		{2, []string{"p:a", "p:b"}, []prog{{"p:c"}, {"p:d"}}},
		{2, []string{"p:a"}, []prog{{"p:b", "g:a"}, {"p:c", "g:b"}}},
		{2, []string{"p:a"}, []prog{{"p:a", "g:a"}, {"p:a", "g:a"}}},
		{1, nil, []prog{{"p:a", "g:a"}, {"p:a", "g:a"}}},
		{0, nil, []prog{{"p:a", "g:a"}, {"p:a", "g:a"}}},
		{2, []string{"p:a", "p:b"}, []prog{{"g:a"}, {"g:b"}, {"p:c"}}},
		{2, []string{"p:a", "p:b"}, []prog{{"g:a", "p:c"}, {"g:b", "p:d"}, {"g:a"}}},
		{3, []string{"p:a", "p:b", "p:c"}, []prog{{"g:a", "g:c"}, {"g:b", "g:a"}, {"g:c"}}},
	}
	if Thorough {
		progs = append(progs, progs[:0:0]...)
		ops := []string{"p:a", "p:b", "g:a", "g:b"}
		for _, c := range []int{1, 2} {
			for a := 0; a < 16; a++ {
				for b := a; b < 16; b++ {
					progs = append(progs, struct {
						cap  int
						pre  []string
						task []prog
					}{c, []string{"p:a"}, []prog{{ops[a/4], ops[a%4]}, {ops[b/4], ops[b%4], "p:c"}}})
				}
			}
		}
	}
	for pi, p := range progs {
		pi, p := pi, p
		cfg := mc.Config{Race: true, FreeSwitch: true}
		cfg.Budget[mc.ClsSched] = -1
		if len(p.task) > 2 {
			cfg.Budget[mc.ClsSched] = pick(4, -1)
		}
		out = append(out, mc.Scenario{Name: fmt.Sprintf("conc %d cap=%d %v %v", pi, p.cap, p.pre, p.task), Cfg: cfg, Body: func() {
			l := cache.NewLRUCache[int](p.cap)
			ref := &refLRU{cap: p.cap, val: map[string]int{}}
			for i, o := range p.pre {
				l.Put(o[2:], i+1)
				ref.put(o[2:], i+1)
			}
			h := &lruHist{}
			var fs []func()
			var names []string
			for t, pr := range p.task {
				t, pr := t, pr
				names = append(names, fmt.Sprintf("task%d", t))
				fs = append(fs, func() {
					for i, o := range pr {
						h.do(l, o[0], o[2:], 100*(t+1)+i)
					}
				})
			}
			mc.Tasks(names, fs...)
			for _, k := range []string{"a", "b", "c", "d"} {
				h.do(l, 'g', k, 0)
			}
			for _, x := range h.held {
				if *x.p != x.want {
					mc.Failf("lru", "the value returned earlier for %q changed from %d to %d", x.key, x.want, *x.p)
				}
			}
			if m := h.linear(ref); m != "" {
				mc.Failf("linearizability", "%s", m)
			}
		}})
	}
	return out
}

func ptr(p *int, ok bool) string {
	if !ok || p == nil {
		return "miss"
	}
	return fmt.Sprint(*p)
}

func val(v int, ok bool) string {
	if !ok {
		return "miss"
	}
	return fmt.Sprint(v)
}

type lruOp struct {
	kind      byte
	key       string
	v         int
	ok        bool
	call, ret int
}

type lruHist struct {
	ops  []*lruOp
	held []heldInt
	t    int
}

func (h *lruHist) do(l *cache.LRUCache[int], kind byte, key string, v int) {
	o := &lruOp{kind: kind, key: key, v: v}
	mc.Event()
	h.t++
	o.call = h.t
	h.ops = append(h.ops, o)
	if kind == 'p' {
		l.Put(key, v)
	} else {
		p, ok := l.Get(key)
		o.ok = ok
		if ok {
			mc.R(p, "reader")
			o.v = *p
			h.held = append(h.held, heldInt{p, *p, key})
		}
	}
	mc.Event()
	h.t++
	o.ret = h.t
}

func (h *lruHist) linear(init *refLRU) string {
	n := len(h.ops)
	used := make([]bool, n)
	var rec func(k int, r *refLRU) bool
	rec = func(k int, r *refLRU) bool {
		if k == n {
			return true
		}
		for i, o := range h.ops {
			if used[i] {
				continue
			}
			ok := true
			for j, p := range h.ops {
				if !used[j] && j != i && p.ret < o.call {
					ok = false
				}
			}
			if !ok {
				continue
			}
			nr := r.clone()
			if o.kind == 'p' {
				nr.put(o.key, o.v)
			} else if v, ok := nr.get(o.key); ok != o.ok || ok && v != o.v {
				continue
			}
			used[i] = true
			if rec(k+1, nr) {
				return true
			}
			used[i] = false
		}
		return false
	}
	if rec(0, init) {
		return ""
	}
	s := "no sequential order explains"
	for _, o := range h.ops {
		s += fmt.Sprintf(" [%d-%d %c:%s %s]", o.call, o.ret, o.kind, o.key, val(o.v, o.kind == 'p' || o.ok))
	}
	return s
}
