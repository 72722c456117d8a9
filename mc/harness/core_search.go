package zzharness

import (
	"fmt"
	"math"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

// checkSearch compares a result with the reference answer; it returns "" or what differs.
type checkSearch func(got []model.DocumentScore, want map[string]float64) string

func sub(field string, boost float64, terms ...string) model.Query {
	return model.Query{FieldName: field, Boost: boost, Terms: terms}
}

// searchQueries is the query set asked of every small corpus.
func searchQueries() [][]model.Query {
	return [][]model.Query{
		{sub("t", 1, "a")},
		{sub("t", 1, "b")},
		{sub("t", 1, "a", "b")},
		{sub("t", 1, "b", "a", "x")},
		{sub("t", 1, "a", "a")},
		{sub("t", 0, "a", "a", "b", "a")},
		{sub("t", 2, "x")},
		{sub("t", 1)},
		{sub("t", 1, "")},
		{sub("u", 1, "a")},
		{sub("u", 3.5, "b", "a")},
		{sub("v", 1, "a")},
		{sub("", 1, "a")},
		{},
		{sub("t", 1, "a"), sub("u", 1, "a")},
		{sub("t", 1, "a", "b"), sub("u", 0.25, "b", "x")},
		{sub("t", 1, "a"), sub("t", 2, "a", "b")},
		{sub("u", 0, "b"), sub("t", 1, "x"), sub("t", 1, "b")},
		{sub("v", 1, "a"), sub("t", 1, "b"), sub("u", 1, "a"), sub("t", 0.5, "a")},
		{sub("t", 1), sub("u", 1, "a", "b", "c", "d", "e")},
		{sub("t", 1, "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l")},
	}
}

var small = []string{"-", "a", "b", "a a b", "a b b c"}

func corpusDoc(r *Ref, ix interface {
	IndexDocument(string, model.NormalizedDocument)
}, id string, t, u string) {
	var fs []model.Field
	if t != "-" {
		fs = append(fs, fld("t", t))
	}
	if u != "-" {
		fs = append(fs, fld("u", u))
	}
	for _, f := range fs {
		r.save(id, f)
	}
	ix.IndexDocument(id, model.NormalizedDocument{Fields: fs})
}

func ask(sr search.Search, r *Ref, q []model.Query, chk checkSearch, when string) {
	got := sr.Search(q)
	if m := chk(got, r.search(q)); m != "" {
		mc.Failf("search", "%s: query %v: %s", when, q, m)
	}
}

// phases runs the queries on the running store and, for a disk store, again after everything was flushed and once more
// after it was opened again.
func phases(kind string, build func(st storage.Storage) *Ref, asks func(sr search.Search, r *Ref, when string)) {
	if kind == "mem" {
		st := mk(kind)
		r := build(st)
		_, sr := indexOf(st)
		asks(sr, r, "memory")
		return
	}
	var r *Ref
	inProc("first", func() {
		st := mk(kind)
		r = build(st)
		_, sr := indexOf(st)
		asks(sr, r, kind)
		secs(idle)
		asks(sr, r, kind+" flushed")
	})
	inProc("second", func() {
		_, sr := indexOf(mk(kind))
		asks(sr, r, kind+" reopened")
	})
}

// slow lets time pass once while the goroutines of a search on the memory store could run.
func slow(kind string, cfg mc.Config) mc.Config {
	if kind == "mem" {
		cfg.Budget[mc.ClsTimer] = 1
	}
	return cfg
}

func searchScns(chk checkSearch) []mc.Scenario {
	var out []mc.Scenario
	for _, kind := range []string{"mem", "disk0", "disk1", "disk9"} {
		// all corpora of up to three documents
		us := []string{"-", "a", "a b b"}
		third := len(small)
		if kind != "mem" {
			third = pick(2, len(small))
		}
		for first := range small {
			kind, first := kind, first
			out = append(out, mc.Scenario{Name: fmt.Sprintf("corpora %s first=%q", kind, small[first]), Body: func() {
				n := 1 + mc.Choose(3)
				t := []int{first, 0, 0}
				u := []int{0, 0, 0}
				u[0] = mc.Choose(len(us))
				if n > 1 {
					t[1] = mc.Choose(len(small))
					if kind == "mem" || Thorough {
						u[1] = mc.Choose(len(us))
					} else {
						u[1] = t[1] % len(us)
					}
				}
				if n > 2 {
					t[2] = mc.Choose(third)
					u[2] = (t[0] + t[1] + t[2]) % len(us)
				}
				qs := searchQueries()
				phases(kind, func(st storage.Storage) *Ref {
					r := newRef()
					ix, _ := indexOf(st)
					for i := 0; i < n; i++ {
						corpusDoc(r, ix, fmt.Sprint("d", i), small[t[i]], us[u[i]])
					}
					return r
				}, func(sr search.Search, r *Ref, when string) {
					for _, q := range qs {
						ask(sr, r, q, chk, when)
					}
				})
			}})
		}
		// many hits and many terms
		kind := kind
		hits := []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 16, 31, 33, 64, 130}
		terms := []int{0, 1, 2, 3, 4, 5, 9, 10, 16, 17, 33, 70}
		hits = append(hits, 15, 17, 20, 21, 25, 26, 50, 51, 100, 101, 255, 257)
		terms = append(terms, 6, 7, 8, 11, 15, 31, 32, 64, 65, 128, 200)
		if Thorough {
			hits = append(hits, 500, 513, 1000, 2049)
			terms = append(terms, 12, 24, 48, 100, 257, 300)
		}
		for _, cpus := range []int{1, 4} {
			cpus := cpus
			hits := hits
			if cpus == 4 && (kind == "mem" || kind == "disk1") {
				hits = append(hits[:len(hits):len(hits)], 300, 1100)
				if kind == "mem" {
					hits = append(hits, 5300, 20500)
				} else {
					hits = append(hits, 2600)
				}
			}
			for _, h := range hits {
				h := h
				terms := terms
				if h == 300 && kind != "mem" {
					terms = []int{1, 17}
				}
				if h > 1000 {
					terms = []int{1, 33}[:pick(1, 2)]
					if h > 5000 {
						terms = terms[:1]
					}
				}
				out = append(out, mc.Scenario{Name: fmt.Sprintf("scan %s cpus=%d hits=%d", kind, cpus, h), Cfg: mc.Config{NumCPU: cpus, MaxSteps: 5000000}, Body: func() {
					nt := terms[mc.Choose(len(terms))]
					spread := mc.Choose(2) == 1 // one term per hit, or all terms in each
					phases(kind, func(st storage.Storage) *Ref {
						r := newRef()
						for i := 0; i < h+2; i++ {
							f := model.Field{Name: "t", TF: map[string]int{"other": 1}, Length: 1}
							if i < h && nt > 0 {
								if spread {
									f.TF[fmt.Sprint("w", i%nt)] = 1 + i%3
								} else {
									for k := 0; k < nt; k++ {
										f.TF[fmt.Sprint("w", k)] = 1 + (i+k)%4
									}
								}
								for _, v := range f.TF {
									f.Length += v
								}
							}
							id := fmt.Sprint("doc", i)
							r.save(id, f)
							st.SaveOrUpdate(id, f)
						}
						return r
					}, func(sr search.Search, r *Ref, when string) {
						q := sub("t", 1)
						for k := 0; k < nt; k++ {
							q.Terms = append(q.Terms, fmt.Sprint("w", k))
						}
						ask(sr, r, []model.Query{q}, chk, when)
						if nt > 0 {
							ask(sr, r, []model.Query{q, sub("t", 1, "other"), q}, chk, when)
						}
					})
				}})
			}
		}
		// many sub-queries
		out = append(out, mc.Scenario{Name: "many sub-queries " + kind, Cfg: slow(kind, mc.Config{NumCPU: 1}), Body: func() {
			n := []int{1, 2, 3, 5, 8, 9, 17, 40}[mc.Choose(8)]
			scale := []float64{1, 1e-9, 1e9, 0}[mc.Choose(4)] // 0: from very small to very large
			phases(kind, func(st storage.Storage) *Ref {
				r := newRef()
				ix, _ := indexOf(st)
				for i := 0; i < 12; i++ {
					corpusDoc(r, ix, fmt.Sprint("d", i), small[1+i%4], small[1+i%3])
				}
				for i := 0; i < 40; i++ {
					corpusDoc(r, ix, fmt.Sprint("e", i), fmt.Sprint("k", i), "b")
				}
				return r
			}, func(sr search.Search, r *Ref, when string) {
				var q []model.Query
				for i := 0; i < n; i++ {
					q = append(q, sub([]string{"t", "u", "v"}[i%3], scale*float64(i%4), []string{"a", "b", "c", "x"}[i%4], "b"))
					if scale == 0 {
						q[i] = sub("t", math.Pow(10, float64(i*7%31-15)), fmt.Sprint("k", i))
					}
				}
				ask(sr, r, q, chk, when)
			})
		}})
	}
	// a corpus that changes between the same queries
	for _, kind := range []string{"mem", "disk0", "disk9"} {
		for first := 1; first < len(small); first++ {
			kind, first := kind, first
			out = append(out, mc.Scenario{Name: fmt.Sprintf("changing %s first=%q", kind, small[first]), Body: func() {
				inProc("changing", func() {
					r := newRef()
					st := mk(kind)
					ix, sr := indexOf(st)
					qs := [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "a", "b")}, {sub("t", 2, "b", "b"), sub("u", 1, "a")}}
					for i := 0; i < pick(3, 4); i++ {
						t := first
						id := "d0"
						if i > 0 {
							t = 1 + mc.Choose(len(small)-1)
							id = []string{"d0", "d1", "d2"}[mc.Choose(pick(2, 3))]
						}
						corpusDoc(r, ix, id, small[t], "a")
						for _, q := range qs {
							ask(sr, r, q, chk, fmt.Sprintf("%s, after change %d", kind, i))
						}
					}
				})
			}})
		}
	}
	out = append(out, namesScns(false, nil, func(sr search.Search, r *Ref, qs [][]model.Query, when string) {
		for _, q := range qs {
			ask(sr, r, q, chk, when)
		}
	})...)
	return out
}

func diffIDs2(got []model.DocumentScore, want map[string]float64) string { return diffIDs(got, want) }
