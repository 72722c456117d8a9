package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/cache"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C17", Scns: c17,
		Rule: "Every number of shards up to the bound with every key over a small alphabet up to length 3 plus awkward keys; all set/get sequences over colliding keys up to the stated depth against a map; all interleavings of 2-3 goroutines on one shard and through the shard map, with race detection and a search for a sequential order."}
}

func c17keys() []string {
	ks := []string{""}
	al := []string{"a", "b", "Z", "0", "\x00", "\xff", "é"}
	for _, x := range al {
		ks = append(ks, x)
		for _, y := range al {
			ks = append(ks, x+y)
			for _, z := range al {
				ks = append(ks, x+y+z)
			}
		}
	}
	for i := 0; i < 200; i++ {
		ks = append(ks, fmt.Sprintf("term%d", i))
	}
	// pairs with equal CRC-32 or FNV-1a hashes among them
	ks = append(ks, strings.Repeat("x", 5000), "日本語", " ", "\n", "plumless", "buckeroo", "costarring", "liquid", "declinate", "macallums")
	seen := map[string]bool{}
	n := 0
	for _, k := range ks {
		if !seen[k] {
			seen[k] = true
			ks[n] = k
			n++
		}
	}
	return ks[:n]
}

func c17() []mc.Scenario {
	var out []mc.Scenario
	keys := c17keys()
	max := pick(130, 700)
	for lo := 1; lo <= max; lo += 16 {
		lo := lo
		out = append(out, mc.Scenario{Name: fmt.Sprintf("shards %d-%d", lo, lo+15), Body: func() {
			n := lo + mc.Choose(16)
			c17fixed(n, keys)
		}})
	}
	out = append(out, mc.Scenario{Name: "many shards", Body: func() {
		ns := []int{997, 1000, 1024, 4096, 65536}
		c17fixed(ns[mc.Choose(len(ns))], keys)
	}})
	// sequences on a shard map
	ks := []string{"a", "b", "", "term7"}
	depth := pick(5, 6)
	for first := 0; first < 8; first++ {
		for _, n := range []int{1, 2, 3} {
			first, n := first, n
			out = append(out, mc.Scenario{Name: fmt.Sprintf("seq shards=%d first=%d depth=%d", n, first, depth), Body: func() {
				s := cache.NewShardMap[string](n)
				ref := map[string]string{}
				type held struct {
					p *string
					w string
				}
				var hs []held
				for i := 0; i < depth; i++ {
					o := first
					if i > 0 {
						o = mc.Choose(8)
					}
					k := ks[o%4]
					l, ok := s.Get(k)
					if !ok || l == nil {
						mc.Failf("shard", "no shard for %q of %d", k, n)
					}
					if o >= 4 {
						v := fmt.Sprintf("%s/%d", k, i)
						l.Set(k, v)
						ref[k] = v
					}
					for _, q := range ks {
						lq, _ := s.Get(q)
						p, ok := lq.Get(q)
						w, wok := ref[q]
						if ok != wok || ok && *p != w {
							mc.Failf("shard", "after %d operations Get(%q) = %v, want %q %v", i+1, q, ok, w, wok)
						}
						if ok {
							hs = append(hs, held{p, w})
						}
					}
				}
				for _, h := range hs {
					if *h.p != h.w {
						mc.Failf("shard", "a value returned earlier changed from %q to %q", h.w, *h.p)
					}
				}
			}})
		}
	}
	// concurrency
	progs := [][][]string{
		{{"s:a"}, {"g:a"}},
		{{"s:a"}, {"s:a"}, {"g:a"}},
		{{"s:a", "g:b"}, {"s:b", "g:a"}},
		{{"s:a", "s:a"}, {"g:a", "g:a"}},
		{{"s:a"}, {"s:b"}},
		{{"s:a", "g:a"}, {"s:a", "g:a"}},
		{{"g:a", "g:b"}, {"s:a", "s:b"}, {"g:b", "g:a"}},
	}
	if Thorough {
		progs = append(progs, [][]string{{"s:a", "g:b", "s:b"}, {"g:a", "s:b", "g:a"}, {"s:a", "g:a"}}, [][]string{{"s:a"}, {"s:b"}, {"g:a", "g:b"}, {"g:b", "g:a"}})
	}
	for pi, p := range progs {
		for _, n := range []int{0, 1, 4} {
			pi, p, n := pi, p, n
			cfg := mc.Config{Race: true, FreeSwitch: true}
			cfg.Budget[mc.ClsSched] = -1
			if len(p) > 2 {
				cfg.Budget[mc.ClsSched] = pick(3, -1)
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("conc %d shards=%d %v", pi, n, p), Cfg: cfg, Body: func() {
				var get func(k string) *cache.LocalMap[int]
				if n == 0 {
					l := cache.NewLocalMap[int]()
					get = func(string) *cache.LocalMap[int] { return l }
				} else {
					s := cache.NewShardMap[int](n)
					get = func(k string) *cache.LocalMap[int] {
						l, ok := s.Get(k)
						if !ok || l == nil {
							mc.Failf("shard", "no shard for %q of %d", k, n)
						}
						return l
					}
				}
				h := &mapHist{}
				var fs []func()
				var names []string
				for t, pr := range p {
					t, pr := t, pr
					names = append(names, fmt.Sprintf("task%d", t))
					fs = append(fs, func() {
						for i, o := range pr {
							k := o[2:]
							if o[0] == 's' {
								h.put(k, 100*(t+1)+i, func(v int) { get(k).Set(k, v) })
							} else {
								h.get(k, func() (*int, bool) { return get(k).Get(k) })
							}
						}
					})
				}
				mc.Tasks(names, fs...)
				for _, k := range []string{"a", "b"} {
					k := k
					h.get(k, func() (*int, bool) { return get(k).Get(k) })
				}
				h.finish(map[string]int{})
			}})
		}
	}
	return out
}

func c17fixed(n int, keys []string) {
	s := cache.NewShardMap[string](n)
	at := map[string]*cache.LocalMap[string]{}
	distinct := map[*cache.LocalMap[string]]bool{}
	for round := 0; round < 2; round++ {
		for _, k := range keys {
			l, ok := s.Get(k)
			if !ok || l == nil {
				mc.Failf("shard", "no shard for %q of %d", k, n)
			}
			if at[k] == nil {
				at[k] = l
				distinct[l] = true
			} else if at[k] != l {
				mc.Failf("shard", "key %q changed its shard (of %d)", k, n)
			}
		}
	}
	if len(distinct) > n {
		mc.Failf("shard", "%d shards in use of %d", len(distinct), n)
	}
	for _, k := range keys {
		if _, ok := at[k].Get(k); ok {
			mc.Failf("shard", "%q present before it was set", k)
		}
		at[k].Set(k, k+"!")
	}
	for _, k := range keys {
		l, _ := s.Get(k)
		p, ok := l.Get(k)
		if !ok || *p != k+"!" {
			mc.Failf("shard", "value of %q with %d shards: %v", k, n, ok)
		}
	}
}
