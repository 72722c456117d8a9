package zzharness

import (
	"fmt"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C05", Scns: c05,
		Rule: "All sequences of saves of distinct document fields up to the stated depth over small sets of ids, field names and contents (empty content, repeated terms, empty names), with and without pauses in which the disk store flushes, on the memory store and disk stores with cache capacity 0, 1 and 9 in lockstep; after each save every getter is compared with the reference, every returned collection and the saved value are scribbled over, and every getter is compared again. Scans over numbers of documents, terms per document and ids asked for; names that are alike or coincide once joined."}
}

type c05stores struct {
	names  []string
	stores []storage.Storage
	ref    *Ref
	u      Univ
}

func c05open(kinds ...string) *c05stores {
	s := &c05stores{ref: newRef()}
	for i, k := range kinds {
		s.names = append(s.names, k)
		if k == "mem" {
			s.stores = append(s.stores, storage.NewMemory())
			continue
		}
		var c int
		fmt.Sscanf(k, "disk%d", &c)
		st, err := storage.NewDiskStore(fmt.Sprintf("/w/store%d", i), c)
		if err != nil {
			mc.Failf("open", "NewDiskStore: %v", err)
		}
		s.stores = append(s.stores, st)
	}
	return s
}

func (s *c05stores) save(id string, f model.Field) {
	s.ref.save(id, f)
	for _, st := range s.stores {
		g := cloneField(f)
		st.SaveOrUpdate(id, g)
		if !sameField(f, g) {
			mc.Failf("store", "SaveOrUpdate changed the field it was given to %v", g)
		}
		for t := range g.TF {
			g.TF[t] = 77
		}
		g.TF["scribble"] = 1
		g.TF["a"] = 5
	}
}

func (s *c05stores) check(when string) {
	for i, st := range s.stores {
		if m := s.ref.diffStore(st, s.u, false); m != "" {
			mc.Failf("store", "%s, %s: %s", s.names[i], when, m)
		}
	}
}

// scribble changes everything the getters return.
func (s *c05stores) scribble() {
	for _, st := range s.stores {
		for _, f := range s.u.fields {
			ix := st.GetIndex(f)
			for t, set := range ix {
				if set != nil {
					for id := range set.GetData() {
						set.Remove(id)
						break
					}
					set.Add("scribble")
				}
				if t == "a" {
					delete(ix, t)
				}
			}
			if ix != nil {
				ix["scribble"] = model.NewSet()
			}
			for _, t := range s.u.terms {
				set, ok := st.GetDocuments(f, t)
				if d := set.GetData(); ok && d != nil {
					for id := range d {
						delete(d, id)
					}
					set.Add("scribble")
				}
			}
			if n := st.GetNumberFieldTerm(f, s.u.terms); n != nil {
				for t := range n {
					n[t] = 99
				}
				n["scribble"] = 3
			}
			if fs := st.GetFields(s.u.ids, f); fs != nil {
				for id := range fs {
					fs[id] = model.Field{Name: "scribble"}
					break
				}
				for id := range fs {
					delete(fs, id)
					break
				}
				fs["scribble"] = model.Field{}
			}
		}
	}
}

// lists asks for fields with awkward id and term lists.
func (s *c05stores) lists() {
	for i, st := range s.stores {
		for _, f := range s.u.fields {
			if got := st.GetFields(nil, f); len(got) != 0 {
				mc.Failf("store", "%s: GetFields of no ids gives %v", s.names[i], got)
			}
			if got := st.GetNumberFieldTerm(f, nil); len(got) != 0 {
				mc.Failf("store", "%s: GetNumberFieldTerm of no terms gives %v", s.names[i], got)
			}
			double := append(append([]string{"nobody"}, s.u.ids...), s.u.ids...)
			got := st.GetFields(double, f)
			if n := s.ref.size(f); n != len(got) {
				mc.Failf("store", "%s: GetFields(%q) of all ids twice gives %d fields, want %d", s.names[i], f, len(got), n)
			}
			for id, g := range got {
				if w, ok := s.ref.docs[id][f]; !ok || !sameField(g, w) {
					mc.Failf("store", "%s: GetFields(%q)[%q] = %v, want %v", s.names[i], f, id, g, w)
				}
			}
			for _, t := range s.u.terms {
				n := st.GetNumberFieldTerm(f, []string{t, t, "nothing"})
				if n[t] != len(s.ref.posting(f, t)) || n["nothing"] != 0 {
					mc.Failf("store", "%s: GetNumberFieldTerm(%q, %q twice) = %v", s.names[i], f, t, n)
				}
			}
		}
	}
}

type c05slot struct{ id, field string }

func c05() []mc.Scenario {
	var out []mc.Scenario
	out = append(out, namesScns(false, func(r *Ref, u Univ, st storage.Storage, when string) {
		if m := r.diffStore(st, u, false); m != "" {
			mc.Failf("store", "%s: %s", when, m)
		}
	}, func(sr search.Search, r *Ref, qs [][]model.Query, when string) {})...)
	contents := []model.Field{
		fld("", "a"), fld("", "a a b"), fld("", ""), {Length: 9, TF: map[string]int{"": 2, "b": 1}}, {Length: 3, TF: nil}, fld("", "c c c c b a"),
	}
	slotSets := []struct {
		name  string
		slots []c05slot
	}{
		{"2 ids x 2 fields", []c05slot{{"d0", "t"}, {"d1", "t"}, {"d0", "u"}, {"d1", "u"}}},
		{"3 ids x 1 field", []c05slot{{"d0", "t"}, {"d1", "t"}, {"d2", "t"}}},
		{"awkward names", []c05slot{{"", "t"}, {"t", ""}, {"", ""}, {"a", "a"}, {"docs", "docs"}}},
	}
	groups := [][]string{{"mem", "disk9"}, {"mem", "disk1"}, {"mem", "disk0"}}
	for gi, g := range groups {
		for si, ss := range slotSets {
			for first := range contents {
				g, ss, first := g, ss, first
				depth := 3
				nc := len(contents)
				if gi > 0 {
					nc = pick(4, len(contents))
				}
				if first >= nc {
					continue
				}
				if Thorough && len(ss.slots) > 3 {
					depth = 4
					nc = 4
				}
				out = append(out, mc.Scenario{Name: fmt.Sprintf("sequences %v %s first=%d depth=%d", g, ss.name, first, depth), Body: func() {
					pauses := Thorough || si == 1
					inProc("stores", func() {
						s := c05open(g...)
						s.u = Univ{[]string{"t", "u", "", "a", "docs", "none"}, []string{"a", "b", "c", "", "scribble", "none"}, []string{"d0", "d1", "d2", "", "t", "a", "docs", "scribble", "none"}}
						if si < 2 {
							s.u = Univ{[]string{"t", "u", "none"}, []string{"a", "b", "c", "", "scribble", "none"}, []string{"d0", "d1", "d2", "scribble", "none"}}
						}
						s.check("empty")
						left := append([]c05slot(nil), ss.slots...)
						for i := 0; i < depth && len(left) > 0; i++ {
							k := 0
							if i > 0 || si == 2 {
								k = mc.Choose(len(left))
							}
							c := first
							if i > 0 {
								c = mc.Choose(nc)
							}
							f := cloneField(contents[c])
							if contents[c].TF == nil {
								f.TF = map[string]int{}
							}
							f.Name = left[k].field
							s.save(left[k].id, f)
							left = append(left[:k:k], left[k+1:]...)
							s.check(fmt.Sprint("save ", i))
							if pauses && i < depth-1 && mc.Choose(2) == 1 {
								secs(16)
								s.check(fmt.Sprint("after a pause ", i))
							}
						}
						s.scribble()
						s.check("after scribbling over the answers")
						s.scribble()
						s.save("last", fld("t", "a scribble"))
						s.u.ids = append(s.u.ids, "last")
						s.check("after another save")
						s.lists()
						secs(idle)
						s.check("after the flush")
						s.scribble()
						s.check("scribbled after the flush")
					})
				}})
			}
		}
	}
	// scans
	for gi, g := range groups {
		g := g
		ns := []int{1, 2, 4, 5, 9, 10, 11, 31, 99, 100, 101, 130, 257}
		if Thorough {
			ns = append(ns, 255, 256, 511, 513, 1000, 1025)
		}
		if gi > 0 {
			ns = []int{3, 10, 101}
		} else {
			ns = append(ns, 2100)
		}
		out = append(out, mc.Scenario{Name: fmt.Sprintf("many documents %v", g), Cfg: mc.Config{MaxSteps: 5000000}, Body: func() {
			n := ns[mc.Choose(len(ns))]
			inProc("stores", func() {
				s := c05open(g...)
				s.u = Univ{[]string{"t", "u", "none"}, []string{"w0", "w1", "w2", "all", "none"}, []string{"none"}}
				for i := 0; i < n; i++ {
					id := fmt.Sprint("doc", i)
					s.u.ids = append(s.u.ids, id)
					s.save(id, model.Field{Name: "t", Length: 2 + i, TF: map[string]int{fmt.Sprint("w", i%3): i + 1, "all": 1}})
					if i%2 == 0 {
						s.save(id, model.Field{Name: "u", Length: 1, TF: map[string]int{"all": 3}})
					}
				}
				s.check("many documents")
				s.scribble()
				secs(idle)
				s.check("many documents, flushed")
				s.lists()
			})
		}})
		out = append(out, mc.Scenario{Name: fmt.Sprintf("many terms %v", g), Cfg: mc.Config{MaxSteps: 5000000}, Body: func() {
			n := ns[mc.Choose(len(ns))]
			inProc("stores", func() {
				s := c05open(g...)
				s.u = Univ{[]string{"t"}, []string{"none"}, []string{"d0", "d1", "none"}}
				f := model.Field{Name: "t", TF: map[string]int{}}
				for i := 0; i < n; i++ {
					s.u.terms = append(s.u.terms, fmt.Sprint("w", i))
					f.TF[fmt.Sprint("w", i)] = i + 1
					f.Length += i + 1
				}
				s.save("d0", f)
				s.check("many terms")
				s.save("d1", f)
				s.check("many terms twice")
				s.scribble()
				secs(idle)
				s.check("many terms, flushed")
			})
		}})
	}
	return out
}
