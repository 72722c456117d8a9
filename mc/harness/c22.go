package zzharness

// needs: main
// uses: c18.go c20.go

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C22", Scns: c22,
		Rule: "Searches, analyses, cache operations, saves, safe replacements of files and HTTP requests, one after the other and at once, under all schedules within the stated number of deviations: after a pause the process has no more goroutines and pending timers than after the same work was done before. All sequences up to the stated length of saves (new documents, new fields, fields again), pauses and reopenings of a disk store: after an idle period each of its folders holds as many files as that of a store in which the final documents were saved just once, and at most half as much again in bytes. Rounds of saving the same documents: no growth in files, bytes or goroutines from round to round; nor in the memory that the objects and the package-level variables hold."}
}

// c22settle lets everything that is under way finish and counts the goroutines.
func c22settle() int {
	secs(45)
	return mc.NumG() + mc.NumTimers()
}

// c22steady does the work a few times, then once more with its schedule explored, and compares.
func c22steady(what string, work func()) {
	mc.FreezeSched(true)
	for i := 0; i < 3; i++ {
		work()
	}
	before := c22settle()
	mc.FreezeSched(false)
	work()
	mc.FreezeSched(true)
	work()
	if after := c22settle(); after > before {
		mc.Failf("goroutines", "%s leaves goroutines or timers behind: %d before, %d afterwards", what, before, after)
	}
}

func c22() []mc.Scenario {
	var out []mc.Scenario
	scn := func(name string, lvl, cpus int, body func()) {
		cfg := mc.Config{NumCPU: cpus, MaxSteps: 8000000, MaxTime: 40000e9}
		cfg.Budget[mc.ClsSched] = lvl
		if Thorough && lvl > 0 {
			cfg.Budget[mc.ClsSched]++
		}
		out = append(out, mc.Scenario{Name: name, Cfg: cfg, Body: body})
	}
	one := func(q ...model.Query) [][]model.Query { return [][]model.Query{q} }
	// searches
	docs := []string{"a", "a b", "b", "a c", "c b a", "a", "b b"}
	for i, k := range []struct {
		kind string
		cpus int
		n    int
		qs   [][]model.Query
		lvl  int
	}{
		{"mem", 1, 3, one(), 2},
		{"mem", 1, 3, one(sub("t", 1)), 2},
		{"mem", 1, 0, one(sub("t", 1, "a")), 2},
		{"mem", 1, 3, one(sub("t", 1, "x")), 2},
		{"mem", 1, 3, one(sub("none", 1, "a", "b", "c")), 2},
		{"mem", 1, 3, one(sub("t", 1, "a", "b")), 2},
		{"mem", 2, 7, one(sub("t", 1, "a", "b", "c")), 2},
		{"mem", 1, 7, one(sub("t", 1, "a", "a", "b", "c", "x", "y")), 1},
		{"mem", 1, 3, one(sub("t", 1, "a"), sub("t", 2, "b"), sub("u", 1, "a"), sub("t", 1)), 1},
		{"mem", 1, 3, [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "b", "a")}}, 1},
		{"disk0", 1, 3, one(sub("t", 1, "a", "b")), 1},
		{"disk1", 1, 7, one(sub("t", 1, "a")), 1},
		{"disk9", 2, 3, [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "a", "b")}}, 1},
	} {
		k := k
		scn(fmt.Sprintf("search %d %s cpus=%d docs=%d %v", i, k.kind, k.cpus, k.n, k.qs), k.lvl, k.cpus, func() {
			mc.FreezeSched(true)
			fill := func(st storage.Storage) *Ref {
				r := newRef()
				for i, d := range docs[:k.n] {
					f := fld("t", d)
					r.save(fmt.Sprint("d", i), f)
					st.SaveOrUpdate(fmt.Sprint("d", i), f)
				}
				return r
			}
			run := func(st storage.Storage, r *Ref) {
				_, sr := indexOf(st)
				c22steady("searching", func() {
					var names []string
					var fs []func()
					for i, q := range k.qs {
						q := q
						names = append(names, fmt.Sprint("search", i))
						fs = append(fs, func() { sr.Search(q) })
					}
					mc.Tasks(names, fs...)
				})
			}
			if k.kind == "mem" {
				st := mk(k.kind)
				run(st, fill(st))
				return
			}
			inProc("first", func() {
				fill(mk(k.kind))
				secs(idle)
			})
			inProc("second", func() { run(mk(k.kind), nil) })
		})
	}
	// many terms and hits
	for _, kind := range []string{"mem", "disk1"} {
		for _, n := range []int{1, 4, 5, 6, 17, 65, 130, 1100} {
			kind, n := kind, n
			if n > 1000 && kind != "mem" {
				continue
			}
			scn(fmt.Sprintf("large searches %s %d", kind, n), 0, 1+n%4, func() {
				body := func() {
					st := mk(kind)
					var words []string
					for i := 0; i < n; i++ {
						w := fmt.Sprint("w", i)
						words = append(words, w)
						st.SaveOrUpdate(fmt.Sprint("d", i), fld("t", w+" all"))
					}
					_, sr := indexOf(st)
					c22steady("searching", func() {
						sr.Search([]model.Query{sub("t", 1, append(words, "all", "none")...), sub("t", 2, "all"), sub("u", 1, words...)})
						sr.Search([]model.Query{sub("t", 1, "all"), sub("t", 2, "all"), sub("t", 1, "all"), sub("t", 3, "all", "none"), sub("t", 1, "all")})
					})
				}
				if kind == "mem" {
					body()
				} else {
					inProc("store", body)
				}
			})
		}
	}
	// analysis
	for _, text := range []string{"", "a", "the", "cats", "running dogs", "the cats' running dogs' 12 ''", strings.Repeat("jumping over the lazy dogs ", 30)} {
		text := text
		lvl := 1
		if len(text) > 100 {
			lvl = 0
		}
		scn(fmt.Sprintf("analysis of %.40q", text), lvl, 2, func() {
			c22steady("analysing", func() { newPipeline(language.English).run(text) })
		})
	}
	// caches
	scn("caches", 1, 1, func() {
		lru := cache.NewLRUCache[int](2)
		sm := cache.NewSyncMap[int]()
		rcu := cache.NewCacheRCU[int]()
		sh := cache.NewShardMap[int](3)
		c22steady("using the caches", func() {
			mc.Tasks([]string{"a", "b"}, func() {
				for _, k := range []string{"a", "b", "c"} {
					lru.Put(k, 1)
					sm.Put(k, 1)
					rcu.Put(k, 1)
					if m, ok := sh.Get(k); ok {
						m.Set(k, 1)
					}
				}
			}, func() {
				for _, k := range []string{"a", "b"} {
					lru.Get(k)
					sm.Get(k)
					rcu.Get(k)
					if m, ok := sh.Get(k); ok {
						m.Get(k)
					}
				}
			})
		})
	})
	// files
	for _, n := range []int{0, 1, 5000} {
		n := n
		scn(fmt.Sprintf("replacing a file of %d bytes", n), 1, 1, func() {
			mc.MkdirAll("/w/d", 0755)
			c22steady("replacing a file", func() { file.SecureSaveFile("/w/d", "f", make([]byte, n)) })
			if t := mc.Tree("/w/d"); len(t) != 1 {
				mc.Failf("files", "replacing one file leaves %d files", len(t))
			}
		})
	}
	// saves
	for _, kind := range []string{"mem", "disk0", "disk1", "disk9"} {
		for i, saves := range [][]string{{"d0 t a b"}, {"d0 t a", "d1 t a b"}, {"d0 t a", "d0 u b"}} {
			kind, saves := kind, saves
			scn(fmt.Sprintf("saving %s %d", kind, i), 1, 1, func() {
				body := func() {
					mc.FreezeSched(true)
					st := mk(kind)
					c22steady("saving", func() {
						var names []string
						var fs []func()
						for i, s := range saves {
							p := strings.SplitN(s, " ", 3)
							f := fld(p[1], p[2])
							names = append(names, fmt.Sprint("save", i))
							fs = append(fs, func() { st.SaveOrUpdate(p[0], f) })
						}
						mc.Tasks(names, fs...)
					})
				}
				if kind == "mem" {
					body()
				} else {
					inProc("store", body)
				}
			})
		}
	}
	// requests
	for i, tasks := range [][]string{{"g fox"}, {"g fox", "g dog lazy"}, {"g"}, {"p {"}, {`p {"title":"x"}`}, {"p " + c20body("d2", "fox", "dog")}, {"p " + c20body("d2", "fox", ""), "g fox"}} {
		tasks := tasks
		scn(fmt.Sprintf("requests %d", i), 1, 1, func() {
			mc.FreezeSched(true)
			s := c20start(newRef())
			s.post(c20body("d0", "fox dog", "lazy"))
			s.post(c20body("d1", "fox", "fox fox dog"))
			count := func() int {
				secs(45)
				n := 0
				done := false
				mc.GoIn(s.p, "count", func() { n = mc.NumG() + mc.NumTimers() }, func() { done = true })
				mc.Join("count", func() bool { return done || s.p.Doomed() })
				s.alive()
				return n
			}
			work := func() {
				ended := 0
				for k, op := range tasks {
					op := op
					mc.GoIn(s.p, fmt.Sprint("request", k), func() {
						var r c20resp
						if op[0] == 'p' {
							s.send("POST", "/nir", op[2:], &r)
						} else {
							s.send("GET", c20target(strings.TrimPrefix(op[1:], " ")), "", &r)
						}
						if r.fail != "" {
							mc.Failf("request", "%s: %s", op, r.fail)
						}
					}, func() { ended++ })
				}
				mc.Join("requests", func() bool { return ended == len(tasks) || s.p.Doomed() })
				s.alive()
			}
			work()
			work()
			before := count()
			mc.FreezeSched(false)
			work()
			mc.FreezeSched(true)
			work()
			if after := count(); after > before {
				mc.Failf("goroutines", "requests %q leave goroutines or timers behind: %d before, %d afterwards", tasks, before, after)
			}
		})
	}
	// package-level variables
	scn("memory of the packages: requests", 0, 1, func() {
		s := c20start(newRef())
		s.post(c20body("d0", "fox dog", "lazy"))
		c22held("requests", mc.Vars(), 10, func(i int) {
			ended := false
			mc.GoIn(s.p, "request", func() {
				var r c20resp
				s.send("POST", "/nir", c20body("d0", "fox dog", "lazy"), &r)
				s.send("POST", "/nir", "{", &r)
				s.send("POST", "/nir", c20body("", "fox", ""), &r)
				s.send("GET", c20target(fmt.Sprint("fox word", i)), "", &r)
				s.send("GET", c20target(fmt.Sprint("none", i)), "", &r)
				if r.fail != "" {
					mc.Failf("request", "%s", r.fail)
				}
			}, func() { ended = true })
			mc.Join("requests", func() bool { return ended || s.p.Doomed() })
			s.alive()
		})
	})
	for _, kind := range []string{"mem", "disk1"} {
		kind := kind
		scn("memory of the packages: "+kind, 0, 1, func() {
			work := func() {
				p, q := newPipeline(language.English), newPipeline(language.Portuguese)
				c22held("analyses", mc.Vars(), 40, func(i int) {
					p.run(fmt.Sprint("The runnings of word", i))
					q.run(fmt.Sprint("A palavra", i))
					metric.TermFrequency([]string{fmt.Sprint("w", i)})
					field.GetID(field.Flatten(field.StringToObject(fmt.Sprintf(`{"Id":%d,"k%d":{"v":1}}`, i, i))))
				})
				st := mk(kind)
				ix, sr := indexOf(st)
				ix.IndexDocument("d0", model.NormalizedDocument{Fields: []model.Field{fld("t", "a b")}})
				c22held("searches", mc.Vars(), 40, func(i int) {
					sr.Search([]model.Query{sub("t", 1+float64(i), "a", fmt.Sprint("none", i)), sub(fmt.Sprint("none", i), 1, "x")})
				})
				c22held("saving the same documents", mc.Vars(), 40, func(i int) {
					ix.IndexDocument("d0", model.NormalizedDocument{Fields: []model.Field{fld("t", fmt.Sprint("x", i%2))}})
					st.SaveOrUpdate("d0", fld("t", "a b"))
					secs(3)
				})
			}
			if kind == "mem" {
				work()
			} else {
				inProc("p", work)
			}
		})
	}
	// memory
	scn("memory of the caches", 0, 1, func() {
		for capacity := -1; capacity <= 4; capacity++ {
			lru := cache.NewLRUCache[[]int](capacity)
			c22held(fmt.Sprintf("a cache of capacity %d", capacity), lru, 64, func(i int) {
				k := fmt.Sprintf("key %08d", i)
				lru.Put(k, make([]int, 100))
				lru.Get(k)
				lru.Get("none")
				lru.Put("same", make([]int, 100))
			})
		}
		sm := cache.NewSyncMap[[]int]()
		rcu := cache.NewCacheRCU[[]int]()
		sh := cache.NewShardMap[[]int](3)
		set := model.NewSet()
		c22held("a set", set, 64, func(i int) { set.Add("same"); set.Add(fmt.Sprint(i % 3)) })
		c22held("the SyncMap", sm, 64, func(i int) { sm.Put(fmt.Sprint(i%3), make([]int, 100)); sm.Get(fmt.Sprint(i)); secs(4) })
		c22held("the RCU map", rcu, 64, func(i int) { rcu.Put(fmt.Sprint(i%3), make([]int, 100)); rcu.Get(fmt.Sprint(i)); secs(4) })
		c22held("the sharded map", sh, 64, func(i int) {
			if m, ok := sh.Get(fmt.Sprint(i)); ok {
				m.Get(fmt.Sprint(i))
			}
			if m, ok := sh.Get(fmt.Sprint(i % 3)); ok {
				m.Set(fmt.Sprint(i%3), make([]int, 100))
			}
		})
	})
	for _, kind := range []string{"mem", "disk0", "disk1", "disk9", "disk-1"} {
		kind := kind
		scn("memory of a store "+kind, 0, 1, func() {
			body := func() {
				st := mk(kind)
				ix, sr := indexOf(st)
				long := ""
				for i := 0; i < 40; i++ {
					long += fmt.Sprintf(" word%d", i)
				}
				for i := 0; i < 12; i++ {
					st.SaveOrUpdate(fmt.Sprint("d", i), fld("t", long))
				}
				secs(31)
				c22held("saving the same document", st, 40, func(i int) { st.SaveOrUpdate("d0", fld("t", long)) })
				c22held("saving the same documents with pauses", st, 40, func(i int) {
					st.SaveOrUpdate(fmt.Sprint("d", i%4), fld("t", long))
					secs(3)
				})
				c22held("saving alternating contents", st, 40, func(i int) {
					st.SaveOrUpdate("d1", fld("t", fmt.Sprint("x", i%2)))
				})
				c22held("reading", st, 40, func(i int) {
					st.GetFields([]string{"d1", "d2", "none", fmt.Sprint("none", i)}, "t")
					st.GetFields([]string{"d0"}, fmt.Sprint("none", i))
					st.GetDocuments("t", fmt.Sprint("none", i))
					st.GetDocuments(fmt.Sprint("none", i), "x")
					st.GetIndex(fmt.Sprint("none", i))
					st.GetFieldSize(fmt.Sprint("none", i))
					st.GetFieldLength(fmt.Sprint("none", i))
					st.GetNumberFieldTerm("t", []string{fmt.Sprint("none", i)})
					st.GetNumberFieldTerm(fmt.Sprint("none", i), []string{"x"})
				})
				c22held("searching", []any{ix, sr}, 40, func(i int) {
					sr.Search([]model.Query{sub("t", 1, "word1", fmt.Sprint("none", i)), sub(fmt.Sprint("none", i), 1, "x")})
				})
				c22held("indexing the same document", []any{ix, sr}, 40, func(i int) {
					ix.IndexDocument("d3", model.NormalizedDocument{Fields: []model.Field{fld("t", long), fld("u", "x")}})
				})
				if kind == "mem" {
					return
				}
				secs(31)
				held := c22deep(st)
				fresh, err := storage.NewDiskStore(root, 9)
				if err != nil {
					mc.Failf("open", "NewDiskStore: %v", err)
				}
				fresh.GetFields([]string{"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8"}, "t")
				if f := c22deep(fresh); held > f+f/2+2000 {
					mc.Failf("memory", "an idle store holds %d bytes, a reopened one %d", held, f)
				}
			}
			if kind == "mem" {
				body()
			} else {
				inProc("store", body)
			}
		})
	}
	for _, c := range []int{0, 1, 9, 100} {
		for _, n := range []int{30, 101, 400} {
			c, n := c, n
			scn(fmt.Sprintf("memory of an idle store capacity=%d documents=%d", c, n), 0, 1, func() {
				gap := []float64{0, 0.03, 1}[mc.Choose(3)]
				inProc("store", func() {
					st := open(c)
					for round := 0; round < 2; round++ {
						for i := 0; i < n; i++ {
							f := model.Field{Name: "t", TF: map[string]int{}}
							for k := 0; k < 60; k++ {
								f.TF[fmt.Sprint("word", k)] = 1 + i%3
								f.Length += 1 + i%3
							}
							st.SaveOrUpdate(fmt.Sprint("d", i), f)
							secs(gap)
						}
					}
					secs(31)
					held := c22deep(st)
					fresh, err := storage.NewDiskStore(root, c)
					if err != nil {
						mc.Failf("open", "NewDiskStore: %v", err)
					}
					var ids []string
					for i := 0; i < n; i++ {
						ids = append(ids, fmt.Sprint("d", i))
					}
					fresh.GetFields(ids, "t")
					if f := c22deep(fresh); held > f+f/2+20000 {
						mc.Failf("memory", "an idle store of %d documents holds %d bytes, a reopened one %d", n, held, f)
					}
				})
			})
		}
	}
	// the folder of a store
	ops := []string{"d0 t a", "d0 t b", "d0 u a b", "d1 t a c", "d2 t d", "p 6", "p 14", "reopen"}
	for _, c := range []int{9, 0} {
		for first := range ops {
			c, first := c, first
			length := pick(5, 6)
			scn(fmt.Sprintf("folder capacity=%d %q length=%d", c, ops[first], length), 0, 1, func() {
				r := newRef()
				i := 0
				for again := true; again; {
					inProc("session", func() {
						st := open(c)
						for i < length {
							op := ops[first]
							if i > 0 {
								op = ops[mc.Choose(len(ops))]
							}
							i++
							if op == "reopen" {
								secs(31)
								return
							}
							c22do(r, st, op)
						}
						again = false
						secs(31)
					})
				}
				c22same(r, "running")
				inProc("reopened", func() {
					open(c)
					c22same(r, "reopened")
					secs(16)
				})
				c22same(r, "reopened and idle")
			})
		}
	}
	// fragments: several savers write to one folder, then it is opened
	for n := 1; n <= 6; n++ {
		for ticks := 1; ticks <= 3; ticks++ {
			n, ticks := n, ticks
			scn(fmt.Sprintf("%d savers flush %d times", n, ticks), 0, 1, func() {
				inProc("savers", func() {
					for i := 0; i < n; i++ {
						ch := make(chan storage.IndexTransferData)
						d := storage.NewDiskIO(root)
						mc.Go("saver", func() { d.SaveIndexOnDisk(ch) })
						mc.Go("feeder", func() {
							for k := 0; k < ticks; k++ {
								mc.ChanOf(ch).Send(storage.IndexTransferData{FieldName: "t", Term: "a", DocumentId: "d0"})
								mc.ChanOf(ch).Send(storage.IndexTransferData{FieldName: fmt.Sprint("t", i%2), Term: "a", DocumentId: "d1"})
								secs(13)
							}
						})
					}
					secs(13*float64(ticks) + 1)
				})
				for i, when := range []string{"opened", "opened again"} {
					inProc(fmt.Sprint("open", i), func() { open(9) })
					fields := 3
					if n == 1 {
						fields = 2
					}
					if f, _ := c22count(root); f > fields {
						mc.Failf("files", "%s after %d savers flushed %d times: %d files for %d fields: %v", when, n, ticks, f, fields, c22names(root))
					}
				}
			})
		}
	}
	// rounds
	for _, c := range []int{9, 0, 1} {
		for i, round := range [][]string{{"d0 t a b"}, {"d0 t a b", "p 7"}, {"d0 t a", "d1 t a b", "p 14"}, {"d0 t a", "d0 t a b", "p 31"}, {"d0 t a", "d0 u b", "d1 w a", "p 3"}, {"p 15"}, {"reopen", "d0 t a"}, {"p 8", "reopen"}} {
			c, round := c, round
			scn(fmt.Sprintf("rounds capacity=%d %d", c, i), 0, 1, func() {
				r := newRef()
				few, many := 6, pick(60, 200)
				var files, bytes, gs int
				n := 0
				for n < many {
					inProc("session", func() {
						st := open(c)
						secs(1)
						for n < many {
							leave := false
							for _, op := range round {
								if op == "reopen" {
									leave = true
									continue
								}
								c22do(r, st, op)
							}
							n++
							if n == few {
								secs(31)
								files, bytes = c22count(root)
								gs = mc.NumG() + mc.NumTimers()
							}
							if n == many {
								secs(31)
								f, b := c22count(root)
								if f > files {
									mc.Failf("files", "%d files after %d rounds, %d after %d", files, few, f, n)
								}
								if b > bytes+bytes/2+256 {
									mc.Failf("files", "%d bytes after %d rounds, %d after %d", bytes, few, b, n)
								}
								if g := mc.NumG() + mc.NumTimers(); g > gs {
									mc.Failf("goroutines", "%d goroutines after %d rounds, %d after %d", gs, few, g, n)
								}
							}
							if leave {
								secs(31)
								return
							}
						}
					})
				}
				if len(r.docs) > 0 {
					c22same(r, "after the rounds")
				}
			})
		}
	}
	return out
}

func c22do(r *Ref, st storage.Storage, op string) {
	p := strings.SplitN(op, " ", 3)
	if p[0] == "p" {
		n := 0.0
		fmt.Sscanf(p[1], "%g", &n)
		secs(n)
		return
	}
	f := fld(p[1], p[2])
	r.save(p[0], f)
	st.SaveOrUpdate(p[0], f)
}

func c22count(dir string) (files, bytes int) {
	for k, b := range mc.Tree(dir) {
		if strings.HasSuffix(k, "/") {
			continue
		}
		files++
		bytes += len(b)
	}
	return
}

// c22same compares the folder with that of a store in which the final documents were saved once.
func c22same(r *Ref, when string) {
	const other = "/w/other"
	mc.RemoveTree(other)
	if len(r.docs) > 0 {
		inProc("other", func() {
			st, err := storage.NewDiskStore(other, 9)
			if err != nil {
				mc.Failf("open", "NewDiskStore: %v", err)
			}
			for _, id := range mc.Keys(r.docs) {
				for _, f := range mc.Keys(r.docs[id]) {
					st.SaveOrUpdate(id, r.docs[id][f])
				}
			}
			secs(31)
		})
	}
	f, b := c22count(root)
	wf, wb := c22count(other)
	if f > wf {
		mc.Failf("files", "%s: %d files in the folder, %d are enough: %v", when, f, wf, c22names(root))
	}
	if b > wb+wb/2+256 {
		mc.Failf("files", "%s: %d bytes in the folder, %d are enough", when, b, wb)
	}
}

func c22names(dir string) []string {
	var l []string
	for _, k := range mc.Keys(mc.Tree(dir)) {
		l = append(l, k)
	}
	return l
}

// c22held repeats an operation and compares how much memory can be reached from the object after few and many rounds.
func c22held(what string, obj any, few int, op func(i int)) {
	for i := 0; i < few; i++ {
		op(i)
	}
	secs(31)
	before := c22deep(obj)
	for i := few; i < 12*few; i++ {
		op(i)
	}
	secs(31)
	if after := c22deep(obj); after > before+before/4+500 {
		mc.Failf("memory", "%s: %d bytes are held after %d rounds, %d after %d", what, before, few, after, 12*few)
	}
}

// c22deep is the number of bytes that can be reached from v (without what is in channels and closures).
func c22deep(v any) int {
	seen := map[string]bool{}
	var rec func(v reflect.Value) int
	once := func(p uintptr, t reflect.Type, n int) bool {
		k := fmt.Sprint(p, t, n)
		if p == 0 || seen[k] {
			return false
		}
		seen[k] = true
		return true
	}
	rec = func(v reflect.Value) int { // what v refers to, without v itself
		switch v.Kind() {
		case reflect.String:
			return v.Len()
		case reflect.Pointer:
			t := v.Type().Elem()
			if v.IsNil() || !once(v.Pointer(), t, 0) {
				return 0
			}
			if t.PkgPath() == "zzmc/mc" {
				return int(t.Size())
			}
			return int(t.Size()) + rec(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				return 0
			}
			return int(v.Elem().Type().Size()) + rec(v.Elem())
		case reflect.Slice:
			if v.IsNil() || !once(v.Pointer(), v.Type(), v.Cap()) {
				return 0
			}
			n := v.Cap() * int(v.Type().Elem().Size())
			for i := 0; i < v.Len(); i++ {
				n += rec(v.Index(i))
			}
			return n
		case reflect.Array:
			n := 0
			for i := 0; i < v.Len(); i++ {
				n += rec(v.Index(i))
			}
			return n
		case reflect.Map:
			if v.IsNil() || !once(v.Pointer(), v.Type(), 0) {
				return 0
			}
			n := 0
			for it := v.MapRange(); it.Next(); {
				n += int(v.Type().Key().Size()+v.Type().Elem().Size()) + rec(it.Key()) + rec(it.Value())
			}
			return n
		case reflect.Struct:
			n := 0
			for i := 0; i < v.NumField(); i++ {
				n += rec(v.Field(i))
			}
			return n
		}
		return 0
	}
	return rec(reflect.ValueOf(v))
}
