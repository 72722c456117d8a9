package zzharness

import (
	"fmt"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C03", Scns: c03,
		Rule: "All interleavings, within the stated number of deviations from the default schedule (choosing among runnable goroutines when one blocks is free), of the goroutines of one search or of two or three concurrent searches, with 0-4 terms, 0-7 hits, 0-3 sub-queries, 1 or 2 CPUs, on the memory store and on a reopened disk store whose document cache holds 0, 1 or all documents; and all map iteration orders within a bound. Data races are detected, every result is compared with the reference answer."}
}

type c03case struct {
	kind string
	cpus int
	docs []string
	qs   [][]model.Query // one per concurrent search
	lvl  int             // deviations in the quick tier
	maps int
}

func c03() []mc.Scenario {
	var out []mc.Scenario
	one := func(q ...model.Query) [][]model.Query { return [][]model.Query{q} }
	seven := []string{"a", "a b", "b", "a c", "c b a", "a", "b b"}
	cases := []c03case{
		{"mem", 1, []string{"a"}, one(), 3, 0},
		{"mem", 1, []string{"a"}, one(sub("t", 1)), 3, 0},
		{"mem", 1, nil, one(sub("t", 1, "a")), 3, 0},
		{"mem", 1, []string{"a", "b"}, one(sub("t", 1, "x")), 3, 0},
		{"mem", 1, []string{"a", "b"}, one(sub("t", 1, "a")), 2, 0},
		{"mem", 1, []string{"a", "b", "a b"}, one(sub("t", 1, "a", "b")), 2, 0},
		{"mem", 1, []string{"a", "b", "a b"}, one(sub("t", 1, "a", "b", "c", "a")), 2, 0},
		{"mem", 2, []string{"a", "b", "a b"}, one(sub("t", 1, "a", "b", "c")), 2, 0},
		{"mem", 1, seven, one(sub("t", 1, "a", "b", "c")), 2, 0},
		{"mem", 2, seven, one(sub("t", 1, "a")), 2, 0},
		{"mem", 1, []string{"a", "b", "a b"}, one(sub("t", 1, "a"), sub("t", 2, "b")), 2, 0},
		{"mem", 1, []string{"a", "b"}, one(sub("t", 1, "a"), sub("t", 2, "b"), sub("u", 1, "a")), 1, 0},
		{"mem", 1, []string{"a", "b", "a b"}, one(sub("t", 1, "a", "b"), sub("t", 1, "b", "a")), 0, 2},
		{"mem", 1, seven, one(sub("t", 1, "a", "b", "c")), 0, 2},
		{"mem", 1, []string{"a", "b"}, [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "a", "b")}}, 2, 0},
		{"mem", 1, []string{"a", "b"}, [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "b")}, {sub("t", 1)}}, 1, 0},
		{"disk0", 1, []string{"a", "b", "a b"}, one(sub("t", 1, "a", "b")), 2, 0},
		{"disk1", 1, []string{"a", "b", "a b"}, one(sub("t", 1, "a", "b")), 2, 0},
		{"disk9", 1, []string{"a", "b", "a b"}, one(sub("t", 1, "a", "b")), 2, 0},
		{"disk1", 1, seven, one(sub("t", 1, "a")), 2, 0},
		{"disk1", 2, seven[:4], one(sub("t", 1, "a", "b")), 2, 0},
		{"disk1", 1, []string{"a", "b"}, one(sub("t", 1, "a"), sub("t", 2, "b")), 1, 0},
		{"disk1", 1, []string{"a", "b"}, [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "b")}}, 1, 0},
		{"disk0", 1, []string{"a", "b"}, [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "a", "b")}}, 1, 0},
		{"disk9", 1, []string{"a", "b"}, [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "a", "b")}}, 1, 0},
	}
	for i, c := range cases {
		c := c
		lvl := c.lvl
		if Thorough && c.maps == 0 {
			lvl++
		}
		cfg := mc.Config{NumCPU: c.cpus, Race: true, FreeSwitch: false, MapPerm: 4}
		cfg.Budget[mc.ClsSched] = lvl
		cfg.Budget[mc.ClsMap] = c.maps
		if c.kind == "mem" {
			cfg.Budget[mc.ClsTimer] = 1 // the goroutines may be slow: time passes while they could run
		}
		out = append(out, mc.Scenario{Name: fmt.Sprintf("%d %s cpus=%d docs=%d %v", i, c.kind, c.cpus, len(c.docs), c.qs), Cfg: cfg, Body: func() {
			build := func(st storage.Storage) *Ref {
				r := newRef()
				for i, d := range c.docs {
					f := fld("t", d)
					r.save(fmt.Sprint("d", i), f)
					st.SaveOrUpdate(fmt.Sprint("d", i), f)
				}
				return r
			}
			run := func(st storage.Storage, r *Ref) {
				_, sr := indexOf(st)
				mc.FreezeSched(false)
				c03run(sr, r, c.qs)
				mc.FreezeSched(true)
			}
			mc.FreezeSched(true)
			if c.kind == "mem" {
				st := mk(c.kind)
				run(st, build(st))
				return
			}
			var r *Ref
			inProc("first", func() {
				r = build(mk(c.kind))
				secs(idle)
			})
			inProc("second", func() { run(mk(c.kind), r) })
		}})
	}
	return out
}

func c03run(sr search.Search, r *Ref, qs [][]model.Query) {
	if len(qs) == 1 {
		got := sr.Search(qs[0])
		if m := diffSearch(got, r.search(qs[0])); m != "" {
			mc.Failf("search", "query %v: %s", qs[0], m)
		}
		return
	}
	var names []string
	var fs []func()
	for i, q := range qs {
		q := q
		names = append(names, fmt.Sprint("search", i))
		fs = append(fs, func() { ask(sr, r, q, diffSearch, "concurrent") })
	}
	mc.Tasks(names, fs...)
}
