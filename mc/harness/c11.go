package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C11", Scns: c11,
		Rule: "All interleavings, within the stated number of deviations, of the four flush tasks, the merge task, saves (of new documents, new fields and new versions) and readers at the instants at which two to five of the tasks wake up together, file operation by file operation; and histories in which the clock is ahead, so that a task wakes up while another one is still working, within the stated number of early wake-ups; race detection, no death, the getters explained by the saves throughout, and everything on disk after a final idle period and reopening. Merging again and again, with all numbers of fragments up to a bound, leaves the same index."}
}

type c11case struct {
	at    float64  // instant
	saves []string // shortly before
	tasks []string // at the instant
	sched int
	timer int
}

func c11save(r *Ref, st storage.Storage, op string) {
	p := strings.SplitN(op, " ", 3)
	f := fld(p[1], p[2])
	if r != nil {
		r.save(p[0], f)
	}
	st.SaveOrUpdate(p[0], f)
}

func c11() []mc.Scenario {
	var out []mc.Scenario
	u := Univ{[]string{"t", "u", "w", "none"}, []string{"a", "b", "c", "d", "e", "none"}, []string{"d0", "d1", "d2", "none"}}
	two := []string{"d0 t a", "d1 t a b"}
	cases := []c11case{
		{195, two, nil, 2, 0},
		{195, []string{"d0 t a", "d0 u a"}, nil, 2, 0},
		{195, two, []string{"s:d2:t:a c"}, 1, 0},
		{195, two, []string{"s:d2:u:a"}, 1, 0},
		{195, two, []string{"docs:t:a;ix:t", "s:d0:t:c"}, 1, 0},
		{390, two, nil, 1, 0},
		{65, two, nil, 2, 0},
		{65, two, []string{"s:d0:u:a"}, 1, 0},
		{91, two, nil, 2, 0},
		{105, two, nil, 2, 0},
		{105, two, []string{"s:d2:u:c;fields:u:d2"}, 1, 0},
		{30, two, nil, 2, 0},
		{30, two, []string{"s:d0:t:b"}, 1, 0},
		{30, two, []string{"fields:t:d0 d1;nft:t:a b"}, 1, 0},
		{35, two, nil, 3, 0},
		{35, two, []string{"s:d0:t:a;size:t"}, 2, 0},
		{70, two, nil, 2, 0},
		{70, two, []string{"s:d0:t:c;s:d0:u:a", "fields:t:d0;nft:t:a c"}, 1, 0},
		{130, []string{"d0 t a", "d0 t b"}, nil, 2, 0},
		{210, two, nil, 1, 0},
		{5, two, []string{"s:d2:t:a;size:t;len:t"}, 2, 0},
		{7, two, []string{"s:d2:t:a;nft:t:a b"}, 2, 0},
		{10, two, []string{"s:d0:u:a;fields:t:d0;fields:u:d0"}, 1, 0},
		{13, two, []string{"s:d2:t:a;docs:t:a"}, 2, 0},
		{15, two, []string{"s:d2:t:a;docs:t:a"}, 2, 0},
		{5, two, []string{"s:d2:t:a;s:d2:t:b c"}, 1, 0},
		{7, two, []string{"s:d2:t:a;s:d2:t:b c"}, 1, 0},
		{10, two, []string{"s:d2:t:a;s:d2:t:b c"}, 1, 0},
		{13, two, []string{"s:d2:t:a;s:d2:t:b c"}, 1, 0},
		{5, two, []string{"s:d2:t:a;s:d0:t:b c"}, 1, 0},
		{10, two, []string{"s:d2:t:a;s:d2:u:b c"}, 1, 0},
		{13, two, []string{"s:d2:t:a;s:d0:t:a c"}, 1, 0},
		// one task is slow: the clock runs ahead while it works
		{4.9, two, nil, 1, 1},
		{12.9, two, nil, 1, 1},
		{12.9, []string{"d0 t a", "d0 u a"}, []string{"s:d2:t:c"}, 0, 2},
		{14.9, two, []string{"s:d2:u:c"}, 0, 2},
		{14.9, two, nil, 1, 2},
		{24.9, two, []string{"s:d0:t:c;fields:t:d0"}, 0, 2},
		{25.9, two, nil, 1, 2},
		{29.9, two, nil, 1, 1},
	}
	for i, c := range cases {
		i, c := i, c
		cfg := mc.Config{Race: true, FreeSwitch: true}
		cfg.Budget[mc.ClsSched] = c.sched
		cfg.Budget[mc.ClsTimer] = c.timer
		if Thorough {
			cfg.Budget[mc.ClsSched]++
			if c.timer > 0 {
				cfg.Budget[mc.ClsTimer]++
			}
		}
		if len(c.tasks) > 0 && c.at != 5 && c.at != 7 && c.at != 10 || c.at > 200 || c.at == 70 {
			cfg.FreeSwitch = Thorough && c.at < 200 && c.at != 70
		}
		out = append(out, mc.Scenario{Name: fmt.Sprintf("%d at %gs after %v with %v early=%d", i, c.at, c.saves, c.tasks, c.timer), Cfg: cfg, Body: func() {
			mc.FreezeSched(true)
			init := newRef()
			final := init
			inProc("service", func() {
				st := open(9)
				if c.at > 20 {
					secs(c.at - 12.5)
					c11save(init, st, "d1 w e")
					secs(9)
					for _, s := range c.saves {
						c11save(init, st, s)
					}
					secs(3.499)
				} else {
					for _, s := range c.saves {
						c11save(init, st, s)
					}
					secs(c.at - 0.001)
				}
				h := &Hist{}
				mc.FreezeSched(false)
				ns := []string{"clock"}
				fs := []func(){func() {
					secs(0.001)
					if c.timer > 0 {
						secs(6)
					}
				}}
				for k, t := range c.tasks {
					k, t := k, t
					ns = append(ns, fmt.Sprint("task", k))
					fs = append(fs, func() {
						secs(0.001)
						for _, op := range strings.Split(t, ";") {
							c06do(h, k, st, op)
						}
					})
				}
				mc.Tasks(ns, fs...)
				secs(0.001)
				mc.FreezeSched(true)
				h.do(9, "final", nil, func() func(r *Ref) string {
					return func(r *Ref) string {
						if m := r.diffStore(st, u, false); m != "" {
							return m
						}
						final = r
						return ""
					}
				})
				if m := h.linear(init); m != "" {
					mc.Failf("flush", "%s", m)
				}
				secs(idle)
				if m := final.diffStore(st, u, false); m != "" {
					mc.Failf("flush", "after an idle period: %s", m)
				}
			})
			inProc("reopened", func() {
				st := open(9)
				if m := final.diffStore(st, u, true); m != "" {
					mc.Failf("flush", "reopened: %s", m)
				}
				secs(16)
			})
			inProc("once more", func() {
				if m := final.diffStore(open(0), u, true); m != "" {
					mc.Failf("flush", "reopened once more: %s", m)
				}
			})
		}})
	}
	// merging is idempotent
	for _, mode := range []string{"fragments", "background"} {
		mode := mode
		out = append(out, mc.Scenario{Name: "merging " + mode, Cfg: mc.Config{MaxSteps: 5000000}, Body: func() {
			n := mc.Choose(pick(9, 40))
			merges := 1 + mc.Choose(4)
			r := newRef()
			v := Univ{[]string{"t", "u", "none"}, []string{"a", "w0", "w1", "w2", "none"}, []string{"none"}}
			same := func(ix map[string]map[string]map[string]bool, when string) {
				for _, f := range v.fields {
					for _, t := range v.terms {
						if w := r.posting(f, t); !sameSet(ix[f][t], w) {
							mc.Failf("merge", "%s: %q %q is %s, want %s", when, f, t, strs(ix[f][t]), strs(w))
						}
					}
				}
			}
			load := func(when string) {
				d := storage.NewDiskIO(root)
				m, err := d.LoadIndexOnHD()
				if err != nil {
					mc.Failf("merge", "%s: %v", when, err)
				}
				ix := map[string]map[string]map[string]bool{}
				for f, ts := range m {
					ix[f] = map[string]map[string]bool{}
					for t, s := range ts {
						ix[f][t] = s.GetData()
					}
				}
				same(ix, when)
			}
			inProc("writer", func() {
				st := open(9)
				for i := 0; i < n; i++ {
					id := fmt.Sprint("x", i)
					v.ids = append(v.ids, id)
					c11save(r, st, id+" t "+fmt.Sprint("a w", i%3))
					if i%2 == 0 {
						c11save(r, st, id+" u "+fmt.Sprint("a w", i%2))
					}
					if mode == "background" {
						secs(5.3)
					} else if i%13 == 12 {
						break
					}
				}
				secs(13.5)
			})
			inProc("merger", func() {
				for i := 0; i < merges; i++ {
					load(fmt.Sprint("merge ", i))
				}
			})
			for i := 0; i < merges; i++ {
				inProc("opened", func() {
					if m := r.diffIndex(open(9), v); m != "" {
						mc.Failf("merge", "opened: %s", m)
					}
					secs(15.5 * float64(i%2))
				})
			}
			inProc("merger again", func() { load("last") })
		}})
	}
	return out
}

// diffIndex compares the postings only.
func (r *Ref) diffIndex(st storage.Storage, u Univ) string {
	for _, f := range u.fields {
		for _, t := range u.terms {
			s, _ := st.GetDocuments(f, t)
			if w := r.posting(f, t); !sameSet(s.GetData(), w) {
				return fmt.Sprintf("GetDocuments(%q,%q) = %s, want %s", f, t, strs(s.GetData()), strs(w))
			}
		}
	}
	return ""
}
