package zzharness

import (
	"fmt"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

// track knows what may be on disk.
type track struct {
	r       *Ref
	ver     map[string][]model.Field // "id field" -> versions saved so far
	flushed map[string]int           // number of versions that were flushed
	terms   map[string]bool          // "field term id" ever saved
	cur     map[string]int           // statistics of the running store
	may     map[string]map[int]bool  // values each may have on disk
	wild    map[string]bool
	crashed bool
	recent  map[string]bool // saved by the running process
	u       Univ
	whole   bool // no flush while a save is under way
}

func newTrack(u Univ) *track {
	return &track{newRef(), map[string][]model.Field{}, map[string]int{}, map[string]bool{}, map[string]int{}, map[string]map[int]bool{}, map[string]bool{}, false, map[string]bool{}, u, false}
}

func (t *track) set(key string, v int) {
	t.cur[key] = v
	t.allow(key)
}

func (t *track) allow(key string) {
	if t.may[key] == nil {
		t.may[key] = map[int]bool{0: true}
	}
	t.may[key][t.cur[key]] = true
}

// save notes a save that is about to begin.
func (t *track) save(id string, f model.Field) {
	k := id + " " + f.Name
	if n := len(t.ver[k]); n > 0 {
		o := t.ver[k][n-1]
		if t.crashed { // what the reopened store knew of it decides what is taken back
			t.wild["size "+f.Name], t.wild["len "+f.Name] = true, true
			for w := range o.TF {
				t.wild["nft "+f.Name+" "+w] = true
			}
			for _, v := range t.ver[k] {
				for w := range v.TF {
					t.wild["nft "+f.Name+" "+w] = true
				}
			}
		}
		t.back("size "+f.Name, 1)
		t.back("len "+f.Name, o.Length)
		for w := range o.TF {
			t.back("nft "+f.Name+" "+w, 1)
		}
	}
	t.ver[k] = append(t.ver[k], cloneField(f))
	t.recent[k] = true
	t.set("size "+f.Name, t.cur["size "+f.Name]+1)
	t.set("len "+f.Name, t.cur["len "+f.Name]+f.Length)
	for w := range f.TF {
		t.terms[f.Name+" "+w+" "+id] = true
		t.set("nft "+f.Name+" "+w, t.cur["nft "+f.Name+" "+w]+1)
	}
	if n := len(t.ver[k]); n > 1 {
		for w := range t.ver[k][n-2].TF {
			t.allow("nft " + f.Name + " " + w)
		}
	}
}

// back notes that a save takes back what the version before it added.
func (t *track) back(key string, n int) {
	t.cur[key] -= n
	if !t.whole {
		t.allow(key)
	}
}

// idle notes that everything has been flushed.
func (t *track) idle() {
	for k := range t.recent {
		t.flushed[k] = len(t.ver[k])
	}
	for k, v := range t.cur {
		t.may[k] = map[int]bool{v: true}
	}
}

func (t *track) stat(key string, got int) string {
	if t.wild[key] {
		return ""
	}
	m := t.may[key]
	if m == nil {
		m = map[int]bool{0: true}
	}
	if !m[got] {
		return fmt.Sprintf("%s is %d; since the last flush it was one of %v", key, got, mc.Keys(m))
	}
	return ""
}

// check looks at a store that was just opened.
func (t *track) check(st storage.Storage) string {
	for _, f := range t.u.fields {
		if m := t.stat("size "+f, st.GetFieldSize(f)); m != "" {
			return m
		}
		if m := t.stat("len "+f, st.GetFieldLength(f)); m != "" {
			return m
		}
		nft := st.GetNumberFieldTerm(f, t.u.terms)
		ix := st.GetIndex(f)
		for _, w := range t.u.terms {
			if m := t.stat("nft "+f+" "+w, nft[w]); m != "" {
				return m
			}
			s, _ := st.GetDocuments(f, w)
			docs := s.GetData()
			var in map[string]bool
			if p := ix[w]; p != nil {
				in = p.GetData()
			}
			if !sameSet(docs, in) {
				return fmt.Sprintf("GetDocuments(%q,%q) = %s but GetIndex has %s", f, w, strs(docs), strs(in))
			}
			for id := range docs {
				if !t.terms[f+" "+w+" "+id] {
					return fmt.Sprintf("the posting %q %q %q was never saved", f, w, id)
				}
			}
			for _, id := range t.u.ids {
				k := id + " " + f
				n := t.flushed[k]
				if n == 0 {
					continue
				}
				every := true // every version from the flushed one on has the term
				for _, v := range t.ver[k][n-1:] {
					if _, ok := v.TF[w]; !ok {
						every = false
					}
				}
				if every && !docs[id] {
					return fmt.Sprintf("the flushed posting %q %q %q is lost", f, w, id)
				}
			}
		}
		for w := range ix {
			ok := false
			for _, v := range t.u.terms {
				ok = ok || v == w
			}
			if !ok && len(ix[w].GetData()) > 0 {
				return fmt.Sprintf("GetIndex(%q) has a term %q nobody saved", f, w)
			}
		}
		got := st.GetFields(t.u.ids, f)
		for _, id := range t.u.ids {
			k := id + " " + f
			g, ok := got[id]
			if !ok {
				if t.flushed[k] > 0 {
					return fmt.Sprintf("the flushed field %q of %q is lost", f, id)
				}
				continue
			}
			one := false
			for i, v := range t.ver[k] {
				if i+1 >= t.flushed[k] && sameField(g, v) {
					one = true
				}
			}
			if !one {
				return fmt.Sprintf("the field %q of %q is %v, none of the %d versions saved since the flush", f, id, g, len(t.ver[k]))
			}
		}
	}
	return ""
}

// adopt takes over what a reopened store reports.
func (t *track) adopt(st storage.Storage) {
	t.crashed = true
	for _, f := range t.u.fields {
		t.cur["size "+f] = st.GetFieldSize(f)
		t.cur["len "+f] = st.GetFieldLength(f)
		for w, n := range st.GetNumberFieldTerm(f, t.u.terms) {
			t.cur["nft "+f+" "+w] = n
		}
	}
}
