package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C06", Scns: c06,
		Rule: "All interleavings, within the stated number of deviations, of two or three goroutines that save to and read from one store (different documents, postings only, different fields of one document, the same field; all getters, whose answers are read through), from an empty store, a filled one and one whose documents were flushed and evicted, on the memory store and on disk stores of capacity 0, 1 and 9, with the background tasks of the disk store running too; race detection, and each history must have a sequential order that explains every answer and the final state, which is compared again after a flush and after reopening."}
}

type c06case struct {
	init  string // "", "some", "old" (flushed, then the store opened again), "same"
	tasks []string
	lvl   int // -1: all
	dlvl  int // on disk
}

func c06() []mc.Scenario {
	var out []mc.Scenario
	cases := []c06case{
		{"", []string{"s:d0:t:a", "s:d1:t:a b"}, -1, 3},
		{"", []string{"s:d0:t:a", "s:d0:u:a"}, -1, 3},
		{"", []string{"s:d0:t:a b", "s:d0:t:b c"}, -1, 3},
		{"some", []string{"s:d0:u:a", "s:d1:u:b"}, -1, 2},
		{"some", []string{"s:d0:t:c", "s:d0:u:b c"}, -1, 2},
		{"", []string{"s:d0:t:a b", "docs:t:a", "docs:t:b"}, -1, 2},
		{"some", []string{"s:d2:t:a b", "ix:t"}, -1, 3},
		{"some", []string{"s:d2:t:a b", "fields:t:d0 d2 d1"}, -1, 3},
		{"some", []string{"s:d0:u:a b", "fields:t:d0 d1 d0"}, -1, 3},
		{"some", []string{"s:d0:u:a b;s:d0:w:a", "fields:t:d0;fields:u:d0"}, 4, 2},
		{"some", []string{"s:d2:t:a b", "nft:t:a b;size:t"}, -1, 2},
		{"some", []string{"s:d2:t:a b", "size:t;len:t;docs:t:a"}, 4, 2},
		{"some", []string{"s:d2:t:a b", "fields:t:d2;docs:t:a"}, 4, 2},
		{"some", []string{"docs:t:a;docs:t:a", "s:d2:t:a;s:d3:t:a"}, 4, 2},
		{"some", []string{"ix:t;fields:t:d0 d1", "fields:t:d1 d0;nft:t:a"}, -1, 3},
		{"", []string{"s:d0:t:a", "s:d1:t:a", "s:d2:t:b"}, 4, 2},
		{"", []string{"s:d0:t:a", "s:d0:u:a", "fields:t:d0;fields:u:d0"}, 3, 1},
		{"some", []string{"s:d2:t:a b", "s:d0:u:a", "docs:t:a;fields:u:d0"}, 3, 1},
		{"some", []string{"s:d2:t:a b", "ix:t", "docs:t:a;size:t"}, 3, 1},
		{"some", []string{"s:d0:t:c", "ix:t;fields:t:d0"}, 4, 2},
		{"some", []string{"s:d0:t:c;s:d1:t:c", "docs:t:a;nft:t:a c"}, 4, 2},
		{"postings", []string{"x:d0:t:a", "x:d1:t:a"}, -1, 3},
		{"postings", []string{"x:d0:t:a b", "x:d1:u:b", "docs:t:a;docs:u:b"}, 4, 1},
		{"postings", []string{"x:d0:t:a", "ix:t", "x:d1:t:a b"}, 4, 1},
		{"postings", []string{"x:d0:t:a;x:d2:t:c", "docs:t:c;docs:t:a"}, -1, 2},
		{"some", []string{"ix:none;docs:none:a", "ix:none;docs:t:none"}, -1, 2},
		{"some", []string{"size:none;len:none;nft:none:a;nft:t:none", "size:none;len:none;nft:none:a;nft:t:none"}, 3, 2},
		{"some", []string{"fields:none:d0;fields:t:none", "fields:t:none;fields:none:d0"}, 3, 2},
		{"some", []string{"ix:u;docs:u:a;size:u", "s:d0:u:a"}, 3, 2},
		{"old", []string{"s:d0:u:a", "s:d0:w:b"}, 0, 3},
		{"old", []string{"ix:u;fields:u:d0;docs:t:none", "docs:t:none;fields:u:d0 none;size:u"}, 0, 2},
		{"old", []string{"s:d0:u:a", "fields:t:d0 d1"}, 0, 3},
		{"old", []string{"fields:t:d0 d1;fields:t:d0", "fields:t:d1 d0"}, 0, 2},
		{"old", []string{"s:d2:t:a", "docs:t:a;ix:t"}, 0, 2},
		{"old", []string{"s:d0:t:b", "s:d1:u:b", "fields:t:d0 d1"}, 0, 1},
		{"old", []string{"s:d1:t:a", "s:d0:t:a", "s:d0:u:c"}, 0, 1},
	}
	for i, c := range cases {
		for _, kind := range []string{"mem", "disk9", "disk1", "disk0"} {
			i, c, kind := i, c, kind
			if kind == "mem" && c.init == "old" {
				continue
			}
			cfg := mc.Config{Race: true}
			if kind == "mem" {
				cfg.FreeSwitch = true
				cfg.Budget[mc.ClsSched] = c.lvl
				if Thorough {
					cfg.Budget[mc.ClsSched] = -1
				}
			} else {
				cfg.Budget[mc.ClsSched] = c.dlvl
				if Thorough {
					cfg.Budget[mc.ClsSched]++
				}
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("%d %s %s %v", i, kind, c.init, c.tasks), Cfg: cfg, Body: func() {
				mc.FreezeSched(true)
				init := newRef()
				u := Univ{[]string{"t", "u", "w", "none"}, []string{"a", "b", "c", "d", "scribble"}, []string{"d0", "d1", "d2", "d3", "none"}}
				fill := func(st storage.Storage) {
					for _, x := range [][2]string{{"d0", "a"}, {"d1", "a b"}} {
						f := fld("t", x[1])
						init.save(x[0], f)
						st.SaveOrUpdate(x[0], f)
					}
				}
				final := init
				diff := func(r *Ref, st storage.Storage, stale bool) string {
					if c.init != "postings" {
						return r.diffStore(st, u, stale)
					}
					for _, f := range u.fields {
						ix := st.GetIndex(f)
						for _, w := range u.terms {
							s, _ := st.GetDocuments(f, w)
							if want := r.posting(f, w); !sameSet(s.GetData(), want) {
								return fmt.Sprintf("GetDocuments(%q,%q) = %s, want %s", f, w, strs(s.GetData()), strs(want))
							}
							if p := ix[w]; p != nil && !sameSet(p.GetData(), r.posting(f, w)) {
								return fmt.Sprintf("GetIndex(%q) has %s for %q", f, strs(p.GetData()), w)
							}
						}
					}
					return ""
				}
				h := &Hist{}
				run := func(st storage.Storage) {
					if c.init == "some" {
						fill(st)
					}
					mc.FreezeSched(false)
					var ns []string
					var fs []func()
					for k, t := range c.tasks {
						k, t := k, t
						ns = append(ns, fmt.Sprint("task", k))
						fs = append(fs, func() {
							for _, op := range strings.Split(t, ";") {
								c06do(h, k, st, op)
							}
						})
					}
					mc.Tasks(ns, fs...)
					mc.FreezeSched(true)
					// the final state is explained by the same order
					h.do(9, "final", nil, func() func(r *Ref) string {
						return func(r *Ref) string {
							if m := diff(r, st, false); m != "" {
								return m
							}
							final = r
							return ""
						}
					})
					if m := h.linear(init); m != "" {
						mc.Failf("store", "%s", m)
					}
				}
				if kind == "mem" {
					run(mk(kind))
					return
				}
				if c.init == "old" {
					inProc("before", func() {
						fill(mk(kind))
						secs(idle)
					})
				}
				inProc("stores", func() {
					st := mk(kind)
					run(st)
					secs(idle)
					if m := diff(final, st, false); m != "" {
						mc.Failf("store", "after the flush: %s", m)
					}
				})
				inProc("reopened", func() {
					if m := diff(final, mk(kind), true); m != "" {
						mc.Failf("store", "reopened: %s", m)
					}
				})
			}})
		}
	}
	return out
}
