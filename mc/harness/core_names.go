package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

// alike are names that a careless comparison, normalisation or encoding takes for each other.
var alike = []string{
	"ab", "Ab", "AB", "ab ", " ab", "a b", "a-b", "a_b", "a.b", "a/b", "a%2fb", "a%2Fb", "a:b", "a\x00b", "a\nb", "abab", "ab\xff", "ab\xfe",
	"\u00e1b", "a\u0301b", "\u00c1b", "", " ", "0", "00", "1", "1.0", "nil", "null", "ab.index", "\ufeffab", "\u212a", "k", "\u017f", "s",
	strings.Repeat("x", 40), strings.Repeat("x", 41),
}

func alikeField(names map[string]int, field string) model.Field {
	f := model.Field{Name: field, TF: map[string]int{}}
	for t, n := range names {
		f.TF[t] = n
		f.Length += n
	}
	return f
}

var joiners = []string{"", " ", ",", "/", ".", "|", ":", "-", "_", "\x00", "\t", "\n", "%", "+", "#", ";", "&", "=", "\x1f", "\xff"}

// namesScns: for every pair of names x, y of ids, of fields and of terms, documents that differ in that name only; the
// fields are optionally saved again.
func namesScns(again bool, store func(r *Ref, u Univ, st storage.Storage, when string), asks func(sr search.Search, r *Ref, qs [][]model.Query, when string)) []mc.Scenario {
	var out []mc.Scenario
	for _, kind := range []string{"mem", "disk0", "disk9"} {
		for _, what := range []string{"ids", "fields", "terms", "joins"} {
			kind, what := kind, what
			if kind == "disk9" && !Thorough {
				continue
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("names alike: %s %s", what, kind), Body: func() {
				x, y := "", ""
				if what != "joins" {
					i := mc.Choose(len(alike) - 1)
					j := i + 1 + mc.Choose(len(alike)-1-i)
					x, y = alike[i], alike[j]
				}
				u := Univ{[]string{"t", "none"}, []string{"a", "b", "c", "none"}, []string{"d0", "d1", "none"}}
				var qs [][]model.Query
				type sv struct {
					id string
					f  model.Field
				}
				var svs, more []sv
				switch what {
				case "ids":
					u.ids = append(u.ids, x, y)
					svs = []sv{{x, fld("t", "a")}, {y, fld("t", "a b b")}, {"d0", fld("t", "b")}}
					more = []sv{{y, fld("t", "b c")}, {x, fld("t", "a a c")}}
					qs = [][]model.Query{{sub("t", 1, "a")}, {sub("t", 1, "b")}, {sub("t", 1, "a", "b", "c")}}
				case "fields":
					u.fields = append(u.fields, x, y)
					svs = []sv{{"d0", fld(x, "a")}, {"d1", fld(y, "a b")}, {"d0", fld(y, "b b")}}
					more = []sv{{"d0", fld(y, "a c")}, {"d0", fld(x, "b")}}
					qs = [][]model.Query{{sub(x, 1, "a", "b")}, {sub(y, 1, "a", "b")}, {sub("t", 1, "a")}, {sub(x, 1, "a"), sub(y, 1, "a", "c")}}
				case "terms":
					u.terms = append(u.terms, x, y)
					svs = []sv{{"d0", alikeField(map[string]int{x: 1, "a": 2}, "t")}, {"d1", alikeField(map[string]int{y: 3}, "t")}, {"d2", alikeField(map[string]int{x: 4, y: 1}, "t")}}
					u.ids = append(u.ids, "d2")
					more = []sv{{"d1", alikeField(map[string]int{x: 1}, "t")}, {"d0", alikeField(map[string]int{y: 1}, "t")}}
					qs = [][]model.Query{{sub("t", 1, x)}, {sub("t", 1, y)}, {sub("t", 1, x, y, "a")}}
				}
				if what == "joins" { // names that coincide once they are joined
					by := joiners[mc.Choose(len(joiners))]
					ab, ta, dt := "a"+by+"b", "t"+by+"a", "d"+by+"t"
					u.terms = append(u.terms, ab)
					u.fields = append(u.fields, ta)
					u.ids = append(u.ids, "d", dt)
					svs = []sv{{"d0", alikeField(map[string]int{ab: 2}, "t")}, {"d1", alikeField(map[string]int{"a": 1, "b": 3}, "t")}, {"d0", alikeField(map[string]int{"b": 4}, ta)},
						{"d", alikeField(map[string]int{"a": 5, "c": 1}, ta)}, {dt, alikeField(map[string]int{"b": 6, ab: 1}, "t")}}
					more = []sv{{dt, alikeField(map[string]int{"a": 1}, "t")}, {"d", alikeField(map[string]int{ab: 1}, ta)}}
					qs = [][]model.Query{{sub("t", 1, "a", "b")}, {sub("t", 1, ab)}, {sub(ta, 1, "b")}, {sub("t", 1, ab, "b")}, {sub("t", 1, "a", "b", "b")}, {sub("t", 2, "a", "b")}, {sub("t", 1, "b", "a")},
						{sub("t", 1, "a"), sub("t", 1, "b")}, {sub("t", 1, "a"), sub(ta, 1, "b")}, {sub("t", 1), sub("t", 1, "a"+by)}}
					if mc.Choose(2) == 1 { // asked the other way round
						for a, b := 0, len(qs)-1; a < b; a, b = a+1, b-1 {
							qs[a], qs[b] = qs[b], qs[a]
						}
					}
				}
				phases(kind, func(st storage.Storage) *Ref {
					r := newRef()
					_, sr := indexOf(st)
					for k, s := range append(svs, more...) {
						if k >= len(svs) && !again {
							break
						}
						r.save(s.id, s.f)
						st.SaveOrUpdate(s.id, cloneField(s.f))
						if store != nil {
							store(r, u, st, fmt.Sprint("save ", k))
						}
						if k == len(svs) {
							asks(sr, r, qs, "saved again")
						}
					}
					return r
				}, func(sr search.Search, r *Ref, when string) { asks(sr, r, qs, when) })
			}})
		}
	}
	return out
}
