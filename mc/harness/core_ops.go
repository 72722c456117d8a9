package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

// c06do performs op, which is one call: "s:d0:t:a b" saves, "x:d0:t:a b" updates the index only, "docs:t:a", "ix:t", "size:t", "len:t", "nft:t:a b", "fields:t:d0 d1" read.
func c06do(h *Hist, task int, st storage.Storage, op string) {
	p := strings.Split(op, ":")
	switch p[0] {
	case "s":
		f := fld(p[2], p[3])
		h.do(task, op, func(r *Ref) { r.save(p[1], f) }, func() func(r *Ref) string {
			g := cloneField(f)
			st.SaveOrUpdate(p[1], g)
			mc.MW(g.TF, "caller")["scribble"] = 1
			return nil
		})
	case "x": // only the postings
		f := fld(p[2], p[3])
		h.do(task, op, func(r *Ref) { r.save(p[1], f) }, func() func(r *Ref) string {
			g := cloneField(f)
			st.UpdateIndex(p[1], g)
			mc.MW(g.TF, "caller")["scribble"] = 1
			return nil
		})
	case "size":
		h.do(task, op, nil, func() func(r *Ref) string {
			n := st.GetFieldSize(p[1])
			return func(r *Ref) string { return c06cmp(n, r.size(p[1])) }
		})
	case "len":
		h.do(task, op, nil, func() func(r *Ref) string {
			n := st.GetFieldLength(p[1])
			return func(r *Ref) string { return c06cmp(n, r.length(p[1])) }
		})
	case "nft":
		terms := strings.Fields(p[2])
		h.do(task, op, nil, func() func(r *Ref) string {
			m := st.GetNumberFieldTerm(p[1], terms)
			c := map[string]int{}
			for k, v := range mc.MR(m, "reader") {
				c[k] = v
			}
			return func(r *Ref) string {
				for _, t := range terms {
					if s := c06cmp(c[t], len(r.posting(p[1], t))); s != "" {
						return t + ": " + s
					}
				}
				return ""
			}
		})
	case "docs":
		h.do(task, op, nil, func() func(r *Ref) string {
			s, _ := st.GetDocuments(p[1], p[2])
			c := c06copy(s.GetData())
			mc.Event()
			mc.MR(s.GetData(), "reader") // later, too
			return func(r *Ref) string {
				if w := r.posting(p[1], p[2]); !sameSet(c, w) {
					return fmt.Sprintf("got %s, want %s", strs(c), strs(w))
				}
				return ""
			}
		})
	case "ix":
		h.do(task, op, nil, func() func(r *Ref) string {
			m := st.GetIndex(p[1])
			c := map[string]map[string]bool{}
			for t, s := range mc.MR(m, "reader") {
				if s != nil {
					c[t] = c06copy(s.GetData())
				}
			}
			mc.Event()
			mc.MR(m, "reader")
			return func(r *Ref) string {
				for _, t := range []string{"a", "b", "c", "d"} {
					if w := r.posting(p[1], t); !sameSet(c[t], w) {
						return fmt.Sprintf("%s: got %s, want %s", t, strs(c[t]), strs(w))
					}
				}
				return ""
			}
		})
	case "fields":
		ids := strings.Fields(p[2])
		h.do(task, op, nil, func() func(r *Ref) string {
			m := st.GetFields(ids, p[1])
			c := map[string]model.Field{}
			for id, f := range mc.MR(m, "reader") {
				mc.MR(f.TF, "reader")
				c[id] = cloneField(f)
			}
			mc.Event()
			for _, f := range mc.MR(m, "reader") {
				mc.MR(f.TF, "reader")
			}
			return func(r *Ref) string {
				for _, id := range ids {
					w, ok := r.docs[id][p[1]]
					g, gok := c[id]
					if ok != gok || ok && !sameField(w, g) {
						return fmt.Sprintf("%s: got %v %v, want %v %v", id, g, gok, w, ok)
					}
				}
				return ""
			}
		})
	default:
		panic(op)
	}
}

func c06copy(m map[string]bool) map[string]bool {
	c := map[string]bool{}
	for k, v := range mc.MR(m, "reader") {
		c[k] = v
	}
	return c
}

func c06cmp(a, b int) string {
	if a != b {
		return fmt.Sprintf("got %d, want %d", a, b)
	}
	return ""
}
