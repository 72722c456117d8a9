package zzharness

import (
	"fmt"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C04", Scns: c04,
		Rule: "All sequences of saves up to the stated depth over one or two documents, one or two fields and five contents (so that fields are saved again with other, fewer, more, the same or no terms), with a pause or a reopening chosen after each save, on the memory store and on disk stores with cache capacity 0, 1 and 9; after each step every getter and a set of searches is compared with what the latest versions define, and once more after everything was flushed and the store opened again."}
}

var c04u = Univ{[]string{"t", "u", "none"}, []string{"a", "b", "c", "d", "none"}, []string{"d0", "d1", "none"}}

func c04asks(st storage.Storage, r *Ref, when string, stale, searches bool) {
	if m := r.diffStore(st, c04u, stale); m != "" {
		mc.Failf("resave", "%s: %s", when, m)
	}
	if searches {
		_, sr := indexOf(st)
		c04search(sr, r, when)
	}
}

func c04search(sr search.Search, r *Ref, when string) {
	for _, q := range [][]model.Query{
		{sub("t", 1, "a")}, {sub("t", 1, "b")}, {sub("t", 1, "c")}, {sub("t", 1, "a", "b")},
		{sub("u", 2, "b", "c"), sub("t", 1, "a", "c")},
	} {
		ask(sr, r, q, diffSearch, when)
	}
}

func c04() []mc.Scenario {
	var out []mc.Scenario
	out = append(out, namesScns(true, func(r *Ref, u Univ, st storage.Storage, when string) {
		if m := r.diffStore(st, u, false); m != "" {
			mc.Failf("resave", "%s: %s", when, m)
		}
	}, func(sr search.Search, r *Ref, qs [][]model.Query, when string) {
		for _, q := range qs {
			ask(sr, r, q, diffSearch, when)
		}
	})...)
	contents := []string{"a", "a a b", "b c", "", "a b b"}
	// whole documents through the index, and many versions
	for _, kind := range []string{"mem", "disk9", "disk0"} {
		kind := kind
		out = append(out, mc.Scenario{Name: "documents " + kind, Body: func() {
			phases(kind, func(st storage.Storage) *Ref {
				r := newRef()
				ix, sr := indexOf(st)
				n := 3
				if kind != "mem" {
					n = pick(2, 3)
				}
				for i := 0; i < n; i++ {
					id := fmt.Sprint("d", mc.Choose(2))
					corpusDoc(r, ix, id, small[1+mc.Choose(4)], small[mc.Choose(3)])
					c04search(sr, r, "documents")
				}
				return r
			}, func(sr search.Search, r *Ref, when string) { c04search(sr, r, when) })
		}}, mc.Scenario{Name: "many versions " + kind, Body: func() {
			pause := []float64{0, 0.9, 4.1}[mc.Choose(3)]
			last := mc.Choose(4)
			phases(kind, func(st storage.Storage) *Ref {
				r := newRef()
				ix, sr := indexOf(st)
				for i := 0; i < 12+last; i++ {
					corpusDoc(r, ix, "d0", contents[1+i%4]+" a", []string{"-", "a", "a b b"}[i%3])
					corpusDoc(r, ix, "d1", contents[1+i*3%4]+" c", "-")
					if pause > 0 && kind != "mem" {
						secs(pause)
					}
					c04search(sr, r, fmt.Sprint("version ", i))
				}
				return r
			}, func(sr search.Search, r *Ref, when string) { c04search(sr, r, when) })
		}})
	}
	type slot struct{ id, f string }
	for _, kind := range []string{"mem", "disk9", "disk1", "disk0"} {
		for si, slots := range [][]slot{{{"d0", "t"}}, {{"d0", "t"}, {"d1", "t"}}, {{"d0", "t"}, {"d0", "u"}}} {
			for first := range contents {
				kind, slots, si, first := kind, slots, si, first
				depth := pick(3, 4)
				if si == 0 {
					depth = pick(4, 5)
				}
				if kind == "mem" {
					depth++
				} else if kind != "disk9" && !Thorough {
					depth = 3
				}
				out = append(out, mc.Scenario{Name: fmt.Sprintf("%s slots=%d/%d first=%d depth=%d", kind, si, len(slots), first, depth), Body: func() {
					r := newRef()
					i, n := 0, 1+mc.Choose(depth)
					stale := false
					session := func(st storage.Storage) (again bool) {
						c04asks(st, r, fmt.Sprint("open at ", i), stale, stale)
						for i < n {
							s, c := 0, first
							if i > 0 {
								s, c = mc.Choose(len(slots)), mc.Choose(len(contents))
							}
							f := fld(slots[s].f, contents[c])
							r.save(slots[s].id, f)
							st.SaveOrUpdate(slots[s].id, f)
							i++
							c04asks(st, r, fmt.Sprintf("%s, save %d", kind, i), stale, i == n)
							if kind == "mem" || i == n || i == 1 && !Thorough && kind != "disk9" {
								continue
							}
							switch mc.Choose(3) {
							case 1:
								secs(16)
								c04asks(st, r, fmt.Sprintf("%s, pause after save %d", kind, i), stale, false)
							case 2:
								if stale {
									continue // one reopening between saves
								}
								secs(idle)
								return true
							}
						}
						return false
					}
					if kind == "mem" {
						session(mk(kind))
						return
					}
					for again := true; again; {
						inProc(fmt.Sprint("session at ", i), func() {
							st := mk(kind)
							again = session(st)
							if !again {
								secs(idle)
								c04asks(st, r, kind+" flushed at the end", stale, true)
							}
						})
						stale = true
					}
					inProc("last", func() {
						st := mk(kind)
						c04asks(st, r, kind+" reopened at the end", true, true)
						r.save("d0", fld("t", "d"))
						st.SaveOrUpdate("d0", fld("t", "d"))
						c04asks(st, r, kind+" saved after reopening", true, true)
					})
				}})
			}
		}
	}
	return out
}
