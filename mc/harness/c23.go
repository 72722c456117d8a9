package zzharness

// uses: c18.go

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C23", Scns: c23,
		Rule: "All sequences up to the stated length of operations on two stores (both in memory, one on disk, both on disk in different folders, with names that extend each other) that hold different content under the same ids, fields and terms: saves, pauses around the flush and merge instants, searches through engines of their own; each store's answers are those of its own history, running and reopened in either order. All interleavings within a bound of work on two stores, two caches of each kind, two engines and two analyses, with race detection. Every pair of operation sequences on two caches of the same kind."}
}

var c23u = Univ{[]string{"t", "u", "none"}, []string{"a", "b", "c", "d", "none"}, []string{"d0", "d1", "d2", "none"}}

type c23inst struct {
	name, dir string // no dir: in memory
	capacity  int
	st        storage.Storage
	sr        search.Search
	r         *Ref
}

func (x *c23inst) open() {
	if x.dir == "" {
		if x.st == nil {
			x.st = storage.NewMemory()
		}
	} else {
		st, err := storage.NewDiskStore(x.dir, x.capacity)
		if err != nil {
			mc.Failf("open", "NewDiskStore(%q): %v", x.dir, err)
		}
		x.st = st
	}
	_, x.sr = indexOf(x.st)
}

func (x *c23inst) ask(when string) {
	if m := x.r.diffStore(x.st, c23u, false); m != "" {
		mc.Failf("instances", "store %s, %s: %s", x.name, when, m)
	}
	q := []model.Query{sub("t", 1, "a", "c"), sub("u", 2, "b")}
	if m := diffSearch(x.sr.Search(q), x.r.search(q)); m != "" {
		mc.Failf("instances", "search in store %s, %s: %s", x.name, when, m)
	}
}

func (x *c23inst) save(id, field, words string) {
	f := fld(field, words)
	x.r.save(id, f)
	x.st.SaveOrUpdate(id, f)
}

func c23() []mc.Scenario {
	var out []mc.Scenario
	pairs := [][2]c23inst{
		{{name: "A"}, {name: "B"}},
		{{name: "A"}, {name: "B", dir: "/w/store", capacity: 9}},
		{{name: "A", dir: "/w/store", capacity: 9}, {name: "B", dir: "/w/store2", capacity: 9}},
		{{name: "A", dir: "/w/store_temp", capacity: 0}, {name: "B", dir: "/w/store", capacity: 1}},
		{{name: "A", dir: "store/", capacity: 1}, {name: "B", dir: "/w/x/store", capacity: 0}},
	}
	ops := []string{"A d0 t a", "A d0 u b b", "A d1 t a c", "B d0 t b", "B d0 u a", "B d1 t c c", "B d2 t d", "p 6", "p 14"}
	for i, pair := range pairs {
		for first := range ops {
			pair, first := pair, first
			length := pick(4, 5)
			if i == 0 {
				length = pick(5, 6)
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("stores %d %q length=%d", i, ops[first], length), Body: func() {
				x := pair
				x[0].r, x[1].r = newRef(), newRef()
				mc.MkdirAll("/w/x", 0755)
				inProc("first", func() {
					x[0].open()
					x[1].open()
					for k := 0; k < length; k++ {
						op := ops[first]
						if k > 0 {
							op = ops[mc.Choose(len(ops))]
						}
						p := strings.SplitN(op, " ", 4)
						if p[0] == "p" {
							n := 0.0
							fmt.Sscanf(p[1], "%g", &n)
							secs(n)
						} else {
							x[p[0][0]-'A'].save(p[1], p[2], p[3])
						}
						if k == length-1 || k == 2 {
							x[0].ask(fmt.Sprint("after step ", k))
							x[1].ask(fmt.Sprint("after step ", k))
						}
					}
					if pair[0].dir+pair[1].dir != "" {
						secs(idle)
						x[0].ask("idle")
						x[1].ask("idle")
					}
				})
				if pair[1].dir == "" {
					return
				}
				inProc("second", func() {
					x[1].open()
					x[0].open()
					x[0].ask("reopened")
					x[1].ask("reopened")
				})
			}})
		}
	}
	// the same folder name below two roots, ids that look like paths into the other store
	for i, id := range []string{"d0", "../store2/docs/d0", "store2", "../../store2/t/index"} {
		id := id
		out = append(out, mc.Scenario{Name: fmt.Sprintf("crossing %d", i), Body: func() {
			u := c23u
			if id != "d0" {
				u.ids = append([]string{id}, u.ids...)
			}
			a := c23inst{name: "A", dir: "/w/store", capacity: mc.Choose(2), r: newRef()}
			b := c23inst{name: "B", dir: "/w/store2", capacity: 1, r: newRef()}
			inProc("first", func() {
				a.open()
				b.open()
				a.save(id, "t", "a b")
				b.save("d0", "t", "c")
				a.save("d0", "u", "d")
				b.save(id, "u", "a")
				secs(idle)
			})
			inProc("second", func() {
				a.open()
				b.open()
				for _, x := range []c23inst{a, b} {
					if m := x.r.diffStore(x.st, u, false); m != "" {
						mc.Failf("instances", "store %s with id %q: %s", x.name, id, m)
					}
				}
			})
		}})
	}
	// at once
	at := func(name string, free bool, lvl int, body func()) {
		cfg := mc.Config{Race: true, NumCPU: 1, FreeSwitch: free}
		cfg.Budget[mc.ClsSched] = lvl
		if Thorough {
			cfg.Budget[mc.ClsSched]++
		}
		out = append(out, mc.Scenario{Name: "at once: " + name, Cfg: cfg, Body: body})
	}
	for i, pair := range pairs {
		for j, work := range [][2][]string{
			{{"d0 t a"}, {"d0 t b"}},
			{{"d0 t a", "d0 t a b"}, {"d0 t b c", "d0 t b"}},
			{{"d0 t a", "?"}, {"d0 t b", "?"}},
			{{"?"}, {"d2 t d", "d0 u a"}},
			{{"?"}, {"?"}},
		} {
			pair, work, j := pair, work, j
			lvl := 2
			if i > 0 || j >= 2 {
				lvl = 1
			}
			at(fmt.Sprintf("stores %d %v", i, work), i < 2 && j < 2, lvl, func() {
				mc.FreezeSched(true)
				x := pair
				x[0].r, x[1].r = newRef(), newRef()
				mc.MkdirAll("/w/x", 0755)
				inProc("first", func() {
					x[0].open()
					x[1].open()
					x[0].save("d1", "t", "a c")
					x[1].save("d1", "t", "c c")
					if i > 0 {
						secs(12.999999999)
					}
					mc.FreezeSched(false)
					task := func(k int) func() {
						return func() {
							for _, op := range work[k] {
								if op == "?" {
									q := []model.Query{sub("t", 1, "a", "b")}
									if m := diffSearch(x[k].sr.Search(q), x[k].r.search(q)); m != "" {
										mc.Failf("instances", "search in store %s: %s", x[k].name, m)
									}
									continue
								}
								p := strings.SplitN(op, " ", 3)
								x[k].save(p[0], p[1], p[2])
							}
						}
					}
					mc.Tasks([]string{"A", "B"}, task(0), task(1))
					mc.FreezeSched(true)
					x[0].ask("after all")
					x[1].ask("after all")
				})
			})
		}
	}
	at("analyses of two languages", true, 2, func() {
		p, q := newPipeline(language.English), newPipeline(language.English)
		mc.Tasks([]string{"A", "B"}, func() { analysed(p, "The running dogs", language.English) }, func() { analysed(q, "cats of dogs", language.English) })
	})
	for i, ts := range [][2]string{{"The dogs de", "the cães DE"}, {"a o casas", "a o casas"}} {
		ts := ts
		at(fmt.Sprint("an English and a Portuguese analysis ", i), true, 2, func() {
			p, q := newPipeline(language.English), newPipeline(language.Portuguese)
			mc.Tasks([]string{"A", "B"}, func() { analysed(p, ts[0], language.English) }, func() { analysed(q, ts[1], language.Portuguese) })
			mc.FreezeSched(true)
			analysed(p, ts[1], language.English)
			analysed(q, ts[0], language.Portuguese)
		})
	}
	at("LRU caches", true, 2, func() {
		c23caches(func() c23cache { return c23lru{cache.NewLRUCache[int](2)} }, true)
	})
	at("sharded maps", true, 2, func() {
		c23caches(func() c23cache { return c23shard{cache.NewShardMap[int](2)} }, true)
	})
	at("local maps", true, 2, func() {
		c23caches(func() c23cache { return c23local{cache.NewLocalMap[int]()} }, true)
	})
	at("SyncMaps", true, 1, func() {
		c23caches(func() c23cache { return c23sync{cache.NewSyncMap[int]()} }, true)
	})
	at("RCU maps", true, 1, func() {
		c23caches(func() c23cache { return c23rcu{cache.NewCacheRCU[int]()} }, true)
	})
	for name, mkc := range map[string]func() c23cache{
		"LRU":   func() c23cache { return c23lru{cache.NewLRUCache[int](9)} },
		"shard": func() c23cache { return c23shard{cache.NewShardMap[int](2)} },
		"local": func() c23cache { return c23local{cache.NewLocalMap[int]()} },
		"sync":  func() c23cache { return c23sync{cache.NewSyncMap[int]()} },
		"rcu":   func() c23cache { return c23rcu{cache.NewCacheRCU[int]()} },
	} {
		mkc := mkc
		out = append(out, mc.Scenario{Name: "sequences on two caches: " + name, Body: func() { c23caches(mkc, false) }})
	}
	out = append(out, mc.Scenario{Name: "sets", Body: func() {
		sets := []*model.Set{model.NewSet(), model.NewSet()}
		refs := []map[string]bool{{}, {}}
		for k := 0; k < pick(4, 5); k++ {
			i, v := mc.Choose(2), []string{"x", ""}[mc.Choose(2)]
			switch mc.Choose(2) {
			case 0:
				sets[i].Add(v)
				refs[i][v] = true
			case 1:
				sets[i].Remove(v)
				delete(refs[i], v)
			}
			for i, s := range sets {
				if !sameSet(s.GetData(), refs[i]) || s.Size() != len(refs[i]) || s.Contains("x") != refs[i]["x"] || s.Contains("") != refs[i][""] {
					mc.Failf("instances", "set %d: %v, size %d, want %v", i, s.GetData(), s.Size(), refs[i])
				}
			}
		}
	}})
	return out
}

type c23cache interface {
	put(k string, v int)
	get(k string) (int, bool)
	settle()
}
type c23lru struct{ c *cache.LRUCache[int] }
type c23shard struct{ c *cache.Shard[int] }
type c23local struct{ c *cache.LocalMap[int] }
type c23sync struct{ c *cache.SyncMap[int] }
type c23rcu struct{ c *cache.RCU[int] }

func val(p *int, ok bool) (int, bool) {
	if !ok || p == nil {
		return 0, false
	}
	return *p, true
}
func (c c23lru) put(k string, v int)      { c.c.Put(k, v) }
func (c c23lru) get(k string) (int, bool) { return val(c.c.Get(k)) }
func (c c23lru) settle()                  {}
func (c c23shard) put(k string, v int) {
	if m, ok := c.c.Get(k); ok {
		m.Set(k, v)
	}
}
func (c c23shard) get(k string) (int, bool) {
	if m, ok := c.c.Get(k); ok {
		return val(m.Get(k))
	}
	return 0, false
}
func (c c23shard) settle()                  {}
func (c c23local) put(k string, v int)      { c.c.Set(k, v) }
func (c c23local) get(k string) (int, bool) { return val(c.c.Get(k)) }
func (c c23local) settle()                  {}
func (c c23sync) put(k string, v int)       { c.c.Put(k, v) }
func (c c23sync) get(k string) (int, bool)  { return val(c.c.Get(k)) }
func (c c23sync) settle()                   { secs(7) }
func (c c23rcu) put(k string, v int)        { c.c.Put(k, v) }
func (c c23rcu) get(k string) (int, bool)   { return val(c.c.Get(k)) }
func (c c23rcu) settle()                    { secs(7) }

// c23caches uses two caches, at once or in every order, and compares each with what was put into it.
func c23caches(mk func() c23cache, atOnce bool) {
	mc.FreezeSched(true)
	c := [2]c23cache{mk(), mk()}
	want := [2]map[string]int{{}, {}}
	keys := []string{"a", "b"}
	if atOnce {
		mc.FreezeSched(false)
		task := func(i int) func() {
			return func() {
				for j, k := range keys {
					c[i].put(k, 10*i+j+1)
					want[i][k] = 10*i + j + 1
				}
				c[i].settle()
				for _, k := range keys {
					if v, ok := c[i].get(k); !ok || v != want[i][k] {
						mc.Failf("instances", "cache %d has %v %v under %q, want %d", i, v, ok, k, want[i][k])
					}
				}
			}
		}
		mc.Tasks([]string{"A", "B"}, task(0), task(1))
		mc.FreezeSched(true)
	} else {
		for n := 1; n <= pick(5, 6); n++ {
			i, k := mc.Choose(2), keys[mc.Choose(2)]
			c[i].put(k, n)
			want[i][k] = n
			if mc.Choose(2) == 1 {
				c[1].settle()
			}
		}
		c[0].settle()
	}
	for i := range c {
		for _, k := range keys {
			v, ok := c[i].get(k)
			if w, wok := want[i][k]; ok != wok || v != w {
				mc.Failf("instances", "cache %d has %v %v under %q, want %d %v", i, v, ok, k, w, wok)
			}
		}
	}
}
