package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C07", Scns: c07,
		Rule: "All interleavings, within the stated number of deviations (and unbounded in the smallest cases), of goroutines that index documents (new ones, and new versions of indexed ones, of one and two fields, one at a time and several at once) and goroutines that search, over an empty and a filled corpus, on the memory store and on disk stores of capacity 0, 1 and 9, with 1 and 2 CPUs; race detection; each search result must be, in documents and scores, the reference answer for the documents indexed before plus some of those being indexed during the search."}
}

// snapshot checks every search by itself: what was indexed before it is there, what began after it is not, what
// overlaps it is there completely or not at all.
func (h *Hist) snapshot(init *Ref) string {
	for _, s := range h.ops {
		if s.check == nil {
			continue
		}
		var must, may []*Op
		for _, o := range h.ops {
			switch {
			case o.apply == nil || o.call > s.ret:
			case o.ret < s.call:
				must = append(must, o)
			default:
				may = append(may, o)
			}
		}
		ok := false
		why := ""
		for bits := 0; bits < 1<<len(may) && !ok; bits++ {
			g := &Hist{ops: append([]*Op(nil), must...)}
			for i, o := range may {
				if bits>>i&1 == 1 {
					c := *o
					c.call, c.ret = s.call, s.ret // in any order
					for _, p := range may {
						if p.ret < o.call {
							c.call = o.call
						}
					}
					g.ops = append(g.ops, &c)
				}
			}
			last := *s
			last.call, last.ret = 1<<30, 1<<30+1
			for _, o := range g.ops {
				if o.ret >= last.call {
					panic("order")
				}
			}
			g.ops = append(g.ops, &last)
			if m := g.linear(init); m == "" {
				ok = true
			} else if why == "" {
				why = m
			}
		}
		if !ok {
			return fmt.Sprintf("%s [%d-%d] is no snapshot: %s", s.name, s.call, s.ret, why)
		}
	}
	return ""
}

// "i:d0:t=a b,u=c" indexes, "q:t:a b" searches.
func c07do(h *Hist, task int, ix index.Index, sr search.Search, op string) {
	p := strings.SplitN(op, ":", 3)
	if p[0] == "i" {
		var fs []model.Field
		for _, x := range strings.Split(p[2], ",") {
			y := strings.SplitN(x, "=", 2)
			fs = append(fs, fld(y[0], y[1]))
		}
		h.do(task, op, func(r *Ref) {
			for _, f := range fs {
				r.save(p[1], f)
			}
		}, func() func(r *Ref) string {
			ix.IndexDocument(p[1], model.NormalizedDocument{Fields: fs})
			return nil
		})
		return
	}
	q := []model.Query{sub(p[1], 1, strings.Fields(p[2])...)}
	h.do(task, op, nil, func() func(r *Ref) string {
		got := sr.Search(q)
		c := make([]model.DocumentScore, len(got))
		for i := range got {
			c[i] = *c07r(&got[i])
		}
		return func(r *Ref) string { return diffSearch(c, r.search(q)) }
	})
}

func c07r(p *model.DocumentScore) *model.DocumentScore {
	mc.R(p, "reader")
	return p
}

func c07() []mc.Scenario {
	var out []mc.Scenario
	type kase struct {
		init  []string
		tasks []string
		lvl   int
		cpus  int
	}
	some := []string{"i:d0:t=a", "i:d1:t=a b"}
	cases := []kase{
		{nil, []string{"i:d0:t=a", "q:t:a"}, 3, 1},
		{nil, []string{"i:d0:t=a b", "q:t:a b"}, 2, 1},
		{nil, []string{"i:d0:t=a,u=b", "q:u:b"}, 2, 1},
		{some, []string{"i:d2:t=a a b", "q:t:a"}, 2, 1},
		{some, []string{"i:d2:t=a a b", "q:t:b"}, 2, 2},
		{some, []string{"i:d2:t=c,u=a", "q:u:a;q:t:a"}, 2, 1},
		{some, []string{"i:d2:t=a;i:d3:t=b", "q:t:a b"}, 2, 1},
		{some, []string{"i:d2:t=a", "i:d3:t=a b", "q:t:a"}, 1, 1},
		{some, []string{"i:d0:t=b b", "q:t:a b"}, 2, 1},
		{some, []string{"i:d0:t=c", "q:t:a"}, 2, 1},
		{some, []string{"i:d0:u=a", "q:u:a"}, 2, 1},
		{some, []string{"i:d2:t=b", "q:t:a", "q:t:b"}, 1, 1},
		{some, []string{"q:t:a;q:t:a", "i:d2:t=a;i:d2:t=b"}, 1, 1},
		{nil, []string{"i:d0:t=a", "i:d1:t=a", "q:t:a"}, 1, 1},
		{some, []string{"q:t:a", "i:d2:t=a;q:t:a"}, 2, 1},
		{some, []string{"q:t:b;q:u:a", "i:d2:t=a,u=a;q:u:a;q:t:a"}, 1, 1},
		{nil, []string{"q:w:c", "i:d0:t=a,u=b,w=c;q:w:c;q:u:b;q:t:a"}, 1, 1},
		{some, []string{"q:t:a", "i:d2:t=a;i:d2:t=b;q:t:a b"}, 1, 1},
	}
	for i, c := range cases {
		for _, kind := range []string{"mem", "disk9", "disk1", "disk0"} {
			i, c, kind := i, c, kind
			cfg := mc.Config{Race: true, NumCPU: c.cpus}
			cfg.Budget[mc.ClsSched] = c.lvl
			if kind != "mem" && c.lvl > 2 {
				cfg.Budget[mc.ClsSched] = 2
			}
			if kind != "mem" && i > 13 {
				cfg.Budget[mc.ClsSched] = 1
			}
			if kind != "mem" && kind != "disk1" && (i > 5 && i < 14 || i > 15) && !Thorough {
				continue
			}
			if Thorough {
				cfg.Budget[mc.ClsSched]++
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("%d %s init=%d %v", i, kind, len(c.init), c.tasks), Cfg: cfg, Body: func() {
				mc.FreezeSched(true)
				body := func(st storage.Storage) {
					h := &Hist{}
					ix, sr := indexOf(st)
					for _, op := range c.init {
						c07do(h, 8, ix, sr, op)
					}
					mc.FreezeSched(false)
					var ns []string
					var fs []func()
					for k, t := range c.tasks {
						k, t := k, t
						ns = append(ns, fmt.Sprint("task", k))
						fs = append(fs, func() {
							for _, op := range strings.Split(t, ";") {
								c07do(h, k, ix, sr, op)
							}
						})
					}
					mc.Tasks(ns, fs...)
					mc.FreezeSched(true)
					for _, op := range []string{"q:t:a", "q:t:b", "q:u:a", "q:u:b"} {
						c07do(h, 9, ix, sr, op)
					}
					if m := h.snapshot(newRef()); m != "" {
						mc.Failf("snapshot", "%s", m)
					}
				}
				if kind == "mem" {
					body(mk(kind))
					return
				}
				inProc("service", func() { body(mk(kind)) })
			}})
		}
	}
	return out
}
