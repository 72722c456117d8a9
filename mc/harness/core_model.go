package zzharness

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

// fld makes a field from "a a b" (length = number of words unless given).
func fld(name, words string) model.Field {
	f := model.Field{Name: name, TF: map[string]int{}}
	for _, w := range strings.Fields(words) {
		f.TF[w]++
		f.Length++
	}
	return f
}

func cloneField(f model.Field) model.Field {
	g := f
	g.TF = make(map[string]int, len(f.TF))
	for k, v := range f.TF {
		g.TF[k] = v
	}
	return g
}

func sameField(a, b model.Field) bool {
	if a.Name != b.Name || a.Length != b.Length || len(a.TF) != len(b.TF) {
		return false
	}
	for k, v := range a.TF {
		if w, ok := b.TF[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// Ref is the reference: the latest version of every document field.
type Ref struct {
	docs map[string]map[string]model.Field
	old  map[string]map[string]map[string]bool // id -> field -> terms of earlier versions
}

func newRef() *Ref {
	return &Ref{map[string]map[string]model.Field{}, map[string]map[string]map[string]bool{}}
}

func (r *Ref) clone() *Ref {
	n := newRef()
	for id, fs := range r.docs {
		for _, f := range fs {
			n.save(id, f)
		}
	}
	for id, fs := range r.old {
		n.old[id] = map[string]map[string]bool{}
		for f, ts := range fs {
			m := map[string]bool{}
			for t := range ts {
				m[t] = true
			}
			n.old[id][f] = m
		}
	}
	return n
}

func (r *Ref) save(id string, f model.Field) {
	m := r.docs[id]
	if m == nil {
		m = map[string]model.Field{}
		r.docs[id] = m
	}
	if o, ok := m[f.Name]; ok {
		if r.old[id] == nil {
			r.old[id] = map[string]map[string]bool{}
		}
		if r.old[id][f.Name] == nil {
			r.old[id][f.Name] = map[string]bool{}
		}
		for t := range o.TF {
			r.old[id][f.Name][t] = true
		}
	}
	m[f.Name] = cloneField(f)
}

func (r *Ref) size(field string) (n int) {
	for _, fs := range r.docs {
		if _, ok := fs[field]; ok {
			n++
		}
	}
	return
}

func (r *Ref) length(field string) (n int) {
	for _, fs := range r.docs {
		if f, ok := fs[field]; ok {
			n += f.Length
		}
	}
	return
}

func (r *Ref) posting(field, term string) map[string]bool {
	out := map[string]bool{}
	for id, fs := range r.docs {
		if f, ok := fs[field]; ok {
			if _, ok := f.TF[term]; ok {
				out[id] = true
			}
		}
	}
	return out
}

// Univ is what queries range over; the last field, term and id exist nowhere.
type Univ struct{ fields, terms, ids []string }

func strs(m map[string]bool) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%q", k))
		if !v {
			s = append(s, "(false)")
		}
	}
	sort.Strings(s)
	return "{" + strings.Join(s, " ") + "}"
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

const staleKey = "stale-posting-on-disk"

// postingOK compares a posting set with the reference. With stale, postings of terms that only earlier versions of the
// document's field contained are the listed finding.
func (r *Ref) postingOK(got map[string]bool, field, term string, stale bool) bool {
	want := r.posting(field, term)
	if sameSet(got, want) {
		return true
	}
	if !stale || !known[staleKey] {
		return false
	}
	for id := range want {
		if _, ok := got[id]; !ok {
			return false
		}
	}
	for id := range got {
		if !want[id] && !r.old[id][field][term] {
			return false
		}
	}
	mc.Known(staleKey)
	return true
}

// ever: some version of some document had the term.
func (r *Ref) ever(field, term string) bool {
	for _, o := range r.old {
		if o[field][term] {
			return true
		}
	}
	return len(r.posting(field, term)) > 0
}

// diffStore compares every answer of st with the reference.
func (r *Ref) diffStore(st storage.Storage, u Univ, stale bool) string {
	for _, f := range u.fields {
		if g, w := st.GetFieldSize(f), r.size(f); g != w {
			return fmt.Sprintf("GetFieldSize(%q) = %d, want %d", f, g, w)
		}
		if g, w := st.GetFieldLength(f), r.length(f); g != w {
			return fmt.Sprintf("GetFieldLength(%q) = %d, want %d", f, g, w)
		}
		nft := st.GetNumberFieldTerm(f, u.terms)
		for _, t := range u.terms {
			if g, w := nft[t], len(r.posting(f, t)); g != w {
				return fmt.Sprintf("GetNumberFieldTerm(%q)[%q] = %d, want %d", f, t, g, w)
			}
		}
		if len(nft) > len(u.terms) {
			return fmt.Sprintf("GetNumberFieldTerm(%q) answers %d terms of %d asked", f, len(nft), len(u.terms))
		}
		ix := st.GetIndex(f)
		seen := 0
		for _, t := range u.terms {
			s, ok := st.GetDocuments(f, t)
			got := s.GetData()
			if !r.postingOK(got, f, t, stale) {
				return fmt.Sprintf("GetDocuments(%q,%q) = %s, want %s", f, t, strs(got), strs(r.posting(f, t)))
			}
			if len(got) > 0 && !ok {
				return fmt.Sprintf("GetDocuments(%q,%q) has documents but reports none", f, t)
			}
			if ok && len(got) == 0 && !r.ever(f, t) {
				return fmt.Sprintf("GetDocuments(%q,%q) reports a term nobody saved", f, t)
			}
			var in map[string]bool
			if p := ix[t]; p != nil {
				in = p.GetData()
				if len(in) > 0 {
					seen++
				}
			}
			if !r.postingOK(in, f, t, stale) {
				return fmt.Sprintf("GetIndex(%q)[%q] = %s, want %s", f, t, strs(in), strs(r.posting(f, t)))
			}
		}
		for t, s := range ix {
			if s != nil && len(s.GetData()) > 0 {
				seen--
				_ = t
			}
		}
		if seen != 0 {
			return fmt.Sprintf("GetIndex(%q) has terms nobody saved", f)
		}
	}
	return r.diffFields(st, u)
}

func (r *Ref) diffFields(st storage.Storage, u Univ) string {
	for _, f := range u.fields {
		got := st.GetFields(u.ids, f)
		n := 0
		for _, id := range u.ids {
			w, ok := r.docs[id][f]
			g, gok := got[id]
			if ok != gok {
				return fmt.Sprintf("GetFields(%q)[%q] present=%v, want %v", f, id, gok, ok)
			}
			if ok {
				n++
				if !sameField(g, w) {
					return fmt.Sprintf("GetFields(%q)[%q] = %v, want %v", f, id, g, w)
				}
			}
		}
		if len(got) != n {
			return fmt.Sprintf("GetFields(%q) = %d fields, want %d", f, len(got), n)
		}
	}
	return ""
}

func (r *Ref) bm25(terms []string, field string, boost float64) func(f model.Field) float64 {
	if boost == 0 {
		boost = 1
	}
	n := float64(r.size(field))
	avg := float64(r.length(field)) / n
	dfs := map[string]float64{}
	for _, t := range terms {
		if _, ok := dfs[t]; !ok {
			dfs[t] = float64(len(r.posting(field, t)))
		}
	}
	return func(f model.Field) float64 { return bm25(terms, boost, n, avg, dfs, f) }
}

func bm25(terms []string, boost, n, avg float64, dfs map[string]float64, f model.Field) float64 {
	s := 0.0
	for _, t := range terms {
		tf := float64(f.TF[t])
		if tf == 0 {
			continue
		}
		df := dfs[t]
		idf := math.Log(1 + (n-df+0.5)/(df+0.5))
		s += boost * idf * (tf * 2.2) / (tf + 1.2*(0.25+0.75*float64(f.Length)/avg))
	}
	return s
}

// search is the reference answer.
func (r *Ref) search(q []model.Query) map[string]float64 {
	out := map[string]float64{}
	for _, s := range q {
		hits := map[string]bool{}
		for _, t := range s.Terms {
			for id := range r.posting(s.FieldName, t) {
				hits[id] = true
			}
		}
		score := r.bm25(s.Terms, s.FieldName, s.Boost)
		for id := range hits {
			out[id] += score(r.docs[id][s.FieldName])
		}
	}
	return out
}

func close2(a, b float64) bool {
	if math.IsNaN(a) || math.IsInf(a, 0) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(b))
}

// diffIDs compares the documents of a result with the reference.
func diffIDs(got []model.DocumentScore, want map[string]float64) string {
	seen := map[string]bool{}
	for _, d := range got {
		if seen[d.Id] {
			return fmt.Sprintf("document %q twice in the result", d.Id)
		}
		seen[d.Id] = true
		if _, ok := want[d.Id]; !ok {
			return fmt.Sprintf("document %q is in the result but matches no term", d.Id)
		}
	}
	for id := range want {
		if !seen[id] {
			return fmt.Sprintf("document %q matches but is not in the result (%d of %d)", id, len(got), len(want))
		}
	}
	return ""
}

// diffScores compares scores and order.
func diffScores(got []model.DocumentScore, want map[string]float64) string {
	for i, d := range got {
		if w, ok := want[d.Id]; ok && !close2(d.Score, w) {
			return fmt.Sprintf("score of %q is %v, want %v", d.Id, d.Score, w)
		}
		if d.Score < 0 {
			return fmt.Sprintf("score of %q is negative: %v", d.Id, d.Score)
		}
		if i > 0 && got[i-1].Score < d.Score {
			return fmt.Sprintf("result %d (%q, %v) ranks above %q with %v", i-1, got[i-1].Id, got[i-1].Score, d.Id, d.Score)
		}
	}
	return ""
}

func diffSearch(got []model.DocumentScore, want map[string]float64) string {
	if m := diffIDs(got, want); m != "" {
		return m
	}
	return diffScores(got, want)
}

// ---- stores ----

const root = "/w/store"

func open(capacity int) storage.Storage {
	st, err := storage.NewDiskStore(root, capacity)
	if err != nil {
		mc.Failf("open", "NewDiskStore: %v", err)
	}
	return st
}

// mk makes a store: "mem" or "disk<capacity>".
func mk(kind string) storage.Storage {
	if kind == "mem" {
		return storage.NewMemory()
	}
	var c int
	fmt.Sscanf(kind, "disk%d", &c)
	return open(c)
}

func sleep(d time.Duration) { mc.Sleep(int64(d)) }

func secs(s float64) { mc.Sleep(int64(s * 1e9)) }

// idle is one flush-and-merge period.
const idle = 20

// inProc runs f as a process and reports any death of it.
func inProc(name string, f func()) {
	if p := mc.Run(name, f); p.Bad() != "" {
		mc.Failf("died", "%s", p.Bad())
	}
}

func indexOf(st storage.Storage) (index.Index, search.Search) {
	ix := index.NewIndex(st)
	return ix, search.NewStandard(ix)
}

// ---- histories ----

// Op is a completed or pending operation of a concurrent history.
type Op struct {
	task     int
	call     int
	ret      int // 0: still pending
	name     string
	apply    func(r *Ref) // effect on the reference
	check    func(r *Ref) string
	sideOnly bool
}

// Hist records operations with their real-time order.
type Hist struct {
	ops []*Op
	t   int
}

// do performs f as one operation; check (may be nil) is evaluated against every candidate sequential order.
func (h *Hist) do(task int, name string, apply func(r *Ref), f func() func(r *Ref) string) {
	o := &Op{task: task, name: name, apply: apply}
	mc.Event()
	h.t++
	o.call = h.t
	h.ops = append(h.ops, o)
	o.check = f()
	mc.Event()
	h.t++
	o.ret = h.t
}

// linear looks for a sequential order that explains the history, starting from init.
func (h *Hist) linear(init *Ref) string {
	n := len(h.ops)
	used := make([]bool, n)
	why := ""
	var order []string
	var rec func(k int, r *Ref) bool
	rec = func(k int, r *Ref) bool {
		if k == n {
			return true
		}
		for i, o := range h.ops {
			if used[i] {
				continue
			}
			first := true
			for j, p := range h.ops {
				if !used[j] && j != i && p.ret != 0 && p.ret < o.call {
					first = false
				}
			}
			if !first {
				continue
			}
			nr := r
			if o.apply != nil {
				nr = r.clone()
				o.apply(nr)
			}
			if o.check != nil {
				if m := o.check(nr); m != "" {
					why = o.name + ": " + m
					continue
				}
			}
			used[i] = true
			order = append(order, o.name)
			if rec(k+1, nr) {
				return true
			}
			order = order[:len(order)-1]
			used[i] = false
		}
		return false
	}
	if rec(0, init) {
		return ""
	}
	s := ""
	for _, o := range h.ops {
		s += fmt.Sprintf(" [%d-%d %s]", o.call, o.ret, o.name)
	}
	return why + "; no sequential order explains" + s
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func cutl(s []string) []string {
	if len(s) > 20 {
		return append(append([]string{}, s[:20]...), fmt.Sprintf("... %d", len(s)))
	}
	return s
}
