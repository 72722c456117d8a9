package zzharness

import (
	"fmt"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C02", Scns: c02,
		Rule:  "The corpora and queries of C01, comparing every score with BM25 computed from the saved fields and checking the order; plus a grid over term frequency, field length, number of documents, document frequency, boost and repetition of the term up to large values, and rankings of many documents with ties.",
		Notes: []string{"a field's length is at least the number of its terms, boosts are not negative; scores are compared up to 1e-9 relative"}}
}

func c02() []mc.Scenario {
	out := searchScns(diffScores)
	tfs := []int{1, 2, 3, 10, 1000, 1000000}
	extra := []int{0, 1, 7, 100, 2000000}
	ns := []int{1, 2, 3, 10, 57}
	if Thorough {
		ns = append(ns, 4, 5, 100, 333)
	}
	boosts := []float64{0, 1, 2, 0.001, 1e6}
	for _, kind := range []string{"mem", "disk1"} {
		for _, n := range ns {
			kind, n := kind, n
			out = append(out, mc.Scenario{Name: fmt.Sprintf("grid %s documents=%d", kind, n), Cfg: mc.Config{MaxSteps: 5000000}, Body: func() {
				tf := tfs[mc.Choose(len(tfs))]
				extra := extra
				if kind == "mem" { // the total is beyond 32 bits
					extra = append(append([]int(nil), extra...), 1<<30)
				}
				ex := extra[mc.Choose(len(extra))]
				df := []int{1, (n + 1) / 2, n}[mc.Choose(3)]
				phases(kind, func(st storage.Storage) *Ref {
					r := newRef()
					for i := 0; i < n; i++ {
						f := model.Field{Name: "t", TF: map[string]int{}}
						if i < df {
							f.TF["w"] = tf + i%5
						}
						if i%2 == 0 {
							f.TF["z"] = 2
						}
						for _, v := range f.TF {
							f.Length += v
						}
						f.Length += ex * (i % 3)
						id := fmt.Sprint("doc", i)
						r.save(id, f)
						st.SaveOrUpdate(id, f)
					}
					return r
				}, func(sr search.Search, r *Ref, when string) {
					for _, b := range boosts {
						ask(sr, r, []model.Query{sub("t", b, "w")}, diffScores, when)
						ask(sr, r, []model.Query{sub("t", b, "z", "w", "w", "w", "none")}, diffScores, when)
						ask(sr, r, []model.Query{sub("t", b, "w", "z"), sub("t", 1, "z")}, diffScores, when)
					}
				})
			}})
		}
	}
	return out
}
