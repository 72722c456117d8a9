package zzharness

import (
	"fmt"

	"zzmc/mc"
)

// mapHist is a history of puts and gets on a map that behaves atomically.
type mapHist struct {
	ops  []*lruOp2
	held []held2
	t    int
}

type held2 struct {
	p    *int
	want int
	key  string
}

type lruOp2 struct {
	kind      byte
	key       string
	v         int
	ok        bool
	call, ret int
}

func (h *mapHist) begin(kind byte, key string) *lruOp2 {
	o := &lruOp2{kind: kind, key: key}
	mc.Event()
	h.t++
	o.call = h.t
	h.ops = append(h.ops, o)
	return o
}

func (h *mapHist) end(o *lruOp2) {
	mc.Event()
	h.t++
	o.ret = h.t
}

func (h *mapHist) put(key string, v int, f func(int)) {
	o := h.begin('p', key)
	o.v = v
	f(v)
	h.end(o)
}

func (h *mapHist) get(key string, f func() (*int, bool)) {
	o := h.begin('g', key)
	p, ok := f()
	o.ok = ok
	if ok {
		if p == nil {
			mc.Failf("map", "Get(%q) reports a hit without a value", key)
		}
		mc.R(p, "reader")
		o.v = *p
		h.held = append(h.held, held2{p, *p, key})
	}
	h.end(o)
}

func (h *mapHist) finish(init map[string]int) {
	for _, x := range h.held {
		if *x.p != x.want {
			mc.Failf("map", "the value returned earlier for %q changed from %d to %d", x.key, x.want, *x.p)
		}
	}
	n := len(h.ops)
	used := make([]bool, n)
	var rec func(k int, r map[string]int) bool
	rec = func(k int, r map[string]int) bool {
		if k == n {
			return true
		}
		for i, o := range h.ops {
			if used[i] {
				continue
			}
			ok := true
			for j, p := range h.ops {
				if !used[j] && j != i && p.ret < o.call {
					ok = false
				}
			}
			if !ok {
				continue
			}
			nr := r
			if o.kind == 'p' {
				nr = map[string]int{}
				for k, v := range r {
					nr[k] = v
				}
				nr[o.key] = o.v
			} else if v, ok := nr[o.key]; ok != o.ok || ok && v != o.v {
				continue
			}
			used[i] = true
			if rec(k+1, nr) {
				return true
			}
			used[i] = false
		}
		return false
	}
	if rec(0, init) {
		return
	}
	s := "no sequential order explains"
	for _, o := range h.ops {
		v := "miss"
		if o.kind == 'p' || o.ok {
			v = fmt.Sprint(o.v)
		}
		s += fmt.Sprintf(" [%d-%d %c:%s %s]", o.call, o.ret, o.kind, o.key, v)
	}
	mc.Failf("linearizability", "%s", s)
}
