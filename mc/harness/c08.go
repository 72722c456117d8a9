package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C08", Scns: c08,
		Rule: "All histories up to the stated length of saves (three documents, two fields, every save with content of its own), reads of one or several documents, pauses of 4 and 11 s and reopenings, on disk stores with cache capacity -1, 0, 1, 2 and 9; after each step the getters agree with the reference, as they do after a final flush and reopening. All interleavings within a bound of saves and reads with the flush of documents at the instant it happens, for capacities 0, 1 and 2. All histories of the stated length over documents of three fields that are read one field at a time."}
}

var c08u = Univ{[]string{"t", "u", "none"}, []string{"a", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"}, []string{"d0", "d1", "d2", "none"}}

func c08field(name string, v int) model.Field {
	return model.Field{Name: name, Length: 10 + v, TF: map[string]int{"a": 1 + v, fmt.Sprint("v", v): 1}}
}

func c08() []mc.Scenario {
	var out []mc.Scenario
	ops := []string{"s d0 t", "s d0 u", "s d1 t", "s d2 t", "p 11", "r d0", "r d1", "reopen"}
	if Thorough {
		ops = append(ops, "p 4", "r d0 d1 d2", "s d1 u")
	}
	for _, c := range []int{0, 1, 2, 9, -1} {
		for first := range ops {
			c, first := c, first
			depth := 5 // after the first save
			if c > 2 || c < 0 {
				depth = pick(4, 5)
			} else if c == 1 {
				depth = pick(5, 6)
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("histories capacity=%d second=%q length=%d", c, ops[first], depth+1), Body: func() {
				r := newRef()
				i := 0
				sessions := 0
				stale := false
				session := func(st storage.Storage) bool {
					for i <= depth {
						op := "s d0 t"
						if i == 1 {
							op = ops[first]
						} else if i > 1 {
							op = ops[mc.Choose(len(ops))]
						}
						i++
						p := strings.Fields(op)
						switch p[0] {
						case "s":
							f := c08field(p[2], i)
							r.save(p[1], f)
							st.SaveOrUpdate(p[1], f)
						case "p":
							if p[1] == "4" {
								secs(4)
							} else {
								secs(11)
							}
						case "r":
							v := Univ{[]string{"t", "u"}, nil, p[1:]}
							for _, f := range v.fields {
								got := st.GetFields(p[1:], f)
								for _, id := range p[1:] {
									w, ok := r.docs[id][f]
									g, gok := got[id]
									if ok != gok || ok && !sameField(w, g) {
										mc.Failf("cache", "capacity %d: GetFields(%q)[%q] = %v %v, want %v %v", c, f, id, g, gok, w, ok)
									}
								}
							}
						case "reopen":
							if sessions == 0 && i <= depth {
								secs(idle)
								return true
							}
						}
					}
					if m := r.diffStore(st, c08u, stale); m != "" {
						mc.Failf("cache", "capacity %d, at the end: %s", c, m)
					}
					secs(idle)
					if m := r.diffStore(st, c08u, stale); m != "" {
						mc.Failf("cache", "capacity %d, flushed: %s", c, m)
					}
					return false
				}
				for again := true; again; sessions++ {
					inProc(fmt.Sprint("session", sessions), func() {
						again = session(open(c))
						stale = true
					})
				}
				inProc("last", func() {
					if m := r.diffStore(open(c), c08u, true); m != "" {
						mc.Failf("cache", "capacity %d, reopened: %s", c, m)
					}
				})
			}})
		}
	}
	// documents of several fields, read a field at a time
	wide := []string{"s d0 t", "s d0 u", "s d0 w", "s d1 w", "r t", "r u", "r w", "r none", "p 11", "reopen"}
	wu := Univ{[]string{"t", "u", "w", "none"}, c08u.terms, []string{"d0", "d1", "none"}}
	for _, c := range []int{0, 1, 2} {
		for first := range wide {
			c, first := c, first
			out = append(out, mc.Scenario{Name: fmt.Sprintf("three fields capacity=%d fourth=%q", c, wide[first]), Body: func() {
				r := newRef()
				i := 0
				n := pick(4, 5)
				again := true
				session := func(st storage.Storage, s int) {
					again = false
					if s == 0 {
						for _, f := range []string{"t", "u", "w"} {
							r.save("d0", c08field(f, 0))
							st.SaveOrUpdate("d0", c08field(f, 0))
						}
						r.save("d1", c08field("t", 0))
						st.SaveOrUpdate("d1", c08field("t", 0))
					}
					for i < n {
						op := wide[first]
						if i > 0 {
							op = wide[mc.Choose(len(wide))]
						}
						i++
						p := strings.Fields(op)
						switch p[0] {
						case "s":
							f := c08field(p[2], i)
							r.save(p[1], f)
							st.SaveOrUpdate(p[1], f)
						case "p":
							secs(11)
						case "r":
							got := st.GetFields([]string{"d0", "d1"}, p[1])
							for _, id := range []string{"d0", "d1"} {
								w, ok := r.docs[id][p[1]]
								g, gok := got[id]
								if ok != gok || ok && !sameField(w, g) {
									mc.Failf("cache", "capacity %d: GetFields(%q)[%q] = %v %v, want %v %v", c, p[1], id, g, gok, w, ok)
								}
							}
						case "reopen":
							if s == 0 {
								secs(idle)
								again = true
								return
							}
						}
					}
					if m := r.diffStore(st, wu, s > 0); m != "" {
						mc.Failf("cache", "capacity %d, at the end: %s", c, m)
					}
					secs(idle)
				}
				for s := 0; again; s++ {
					inProc(fmt.Sprint("session", s), func() { session(open(c), s) })
				}
				inProc("last", func() {
					if m := r.diffStore(open(c), wu, true); m != "" {
						mc.Failf("cache", "capacity %d, reopened: %s", c, m)
					}
				})
			}})
		}
	}
	// around the flush of documents
	for _, c := range []int{0, 1, 2} {
		for i, tasks := range [][]string{
			{"s d0 u"}, {"s d0 t"}, {"s d1 t"}, {"r d0"}, {"s d0 u;r d0"}, {"s d0 u", "r d0"}, {"s d1 t;r d0 d1"}, {"s d1 u", "s d0 u"}, {"r d1;r d0;r d1"}, {"r d0", "r d1"}, {"s d2 t;s d0 u;r d0 d1"},
		} {
			c, tasks := c, tasks
			cfg := mc.Config{Race: true}
			cfg.Budget[mc.ClsSched] = pick(2, 3)
			if i == 5 || i == 7 || i > 8 {
				cfg.Budget[mc.ClsSched] = pick(1, 2)
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("flush capacity=%d %v", c, tasks), Cfg: cfg, Body: func() {
				mc.FreezeSched(true)
				r := newRef()
				u := Univ{c08u.fields, []string{"a", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8"}, c08u.ids}
				inProc("first", func() {
					st := open(c)
					for k, s := range []string{"d0", "d1"} {
						r.save(s, c08field("t", k+1))
						st.SaveOrUpdate(s, c08field("t", k+1))
					}
					secs(9.999)
					h := &Hist{}
					mc.FreezeSched(false)
					var ns []string
					var fs []func()
					for k, t := range tasks {
						k, t := k, t
						ns = append(ns, fmt.Sprint("task", k))
						fs = append(fs, func() {
							secs(0.001)
							for j, op := range strings.Split(t, ";") {
								p := strings.Fields(op)
								if p[0] == "s" {
									f := c08field(p[2], 3+k*3+j)
									h.do(k, op, func(r *Ref) { r.save(p[1], f) }, func() func(r *Ref) string {
										st.SaveOrUpdate(p[1], f)
										return nil
									})
								} else {
									for _, f := range []string{"t", "u"} {
										c06do(h, k, st, fmt.Sprintf("fields:%s:%s", f, strings.Join(p[1:], " ")))
									}
								}
							}
						})
					}
					mc.Tasks(ns, fs...)
					mc.FreezeSched(true)
					var final *Ref
					h.do(9, "final", nil, func() func(r *Ref) string {
						return func(r *Ref) string {
							if m := r.diffFields(st, u); m != "" {
								return m
							}
							final = r
							return ""
						}
					})
					if m := h.linear(r); m != "" {
						mc.Failf("cache", "capacity %d: %s", c, m)
					}
					r = final
					secs(idle)
					if m := r.diffStore(st, u, false); m != "" {
						mc.Failf("cache", "capacity %d, flushed: %s", c, m)
					}
				})
				inProc("last", func() {
					if m := r.diffStore(open(c), u, true); m != "" {
						mc.Failf("cache", "capacity %d, reopened: %s", c, m)
					}
				})
			}})
		}
	}
	return out
}
