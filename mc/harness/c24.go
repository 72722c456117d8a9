package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C24", Scns: c24,
		Rule: "Streams of saves without a pause (new documents, one document's fields again and again with growing and changing content, ever new fields, documents in turn, bursts, hundreds of documents, of fields, documents of many terms), with every spacing of a list from 0.25 to 19 s, also two streams at once, and saves at the very instants of two to four successive flushes in every order within 1-3 deviations; the process ends at every half second of up to 70 s, or dies before every file operation or within every write; a second session goes on and ends in the same way. After each opening everything saved 20 s before the death (or a newer version) is there, nothing is invented, and each statistic has a value it had within those 20 s."}
}

var c24u = Univ{[]string{"t", "u", "v", "w", "x", "none"}, []string{"a", "b", "c", "d", "none"}, []string{"d0", "d1", "d2", "d3", "none"}}

type c24save struct {
	at int64
	id string
	f  model.Field
}

// c24track is what may be on disk if the process died now: everything saved 20 s ago has been flushed.
func c24track(base *track, log []c24save, now int64) *track {
	t := newTrack(base.u)
	*t = *c24clone(base)
	i := 0
	for ; i < len(log) && log[i].at <= now-20e9; i++ {
		t.save(log[i].id, log[i].f)
	}
	t.idle()
	for ; i < len(log); i++ {
		t.save(log[i].id, log[i].f)
	}
	return t
}

func c24clone(b *track) *track {
	t := newTrack(b.u)
	for k, v := range b.ver {
		t.ver[k] = append([]model.Field(nil), v...)
	}
	for k, v := range b.flushed {
		t.flushed[k] = v
	}
	for k := range b.terms {
		t.terms[k] = true
	}
	for k, v := range b.cur {
		t.cur[k] = v
	}
	for k, m := range b.may {
		t.may[k] = map[int]bool{}
		for v := range m {
			t.may[k][v] = true
		}
	}
	for k := range b.wild {
		t.wild[k] = true
	}
	t.crashed = b.crashed
	t.whole = true
	return t
}

type c24stream struct {
	name string
	ops  []string // in turn
	gap  float64
	stop float64 // seconds after which it pauses for good (0: never)
}

func c24() []mc.Scenario {
	var out []mc.Scenario
	patterns := map[string][]string{
		"documents in turn":   {"d0 t a", "d1 t a b", "d2 t b", "d3 t c"},
		"one field again":     {"d0 t a", "d0 t a b", "d0 t a b c", "d0 t a a"},
		"same content again":  {"d0 t a b"},
		"fields in turn":      {"d0 t a", "d0 u b", "d0 v c", "d0 w d"},
		"one first, then all": {"d0 t a", "d1 u a", "d1 u a b", "d1 u b", "d1 u a b b", "d1 u c", "d1 u c", "d1 u c", "d1 u c", "d1 u c", "d1 u c", "d1 u c"},
		"every field":         {"d0 t a", "d0 u a", "d0 v a", "d0 w a", "d0 x a", "d1 t b", "d1 u b", "d1 v b", "d1 w b", "d1 x b", "d2 t a b", "d2 u a b", "d2 v a b", "d2 w a b", "d2 x a b", "d3 t c", "d3 u c", "d3 v c", "d3 w c", "d3 x c"},
		"mixed":               {"d0 t a", "d1 u b", "d0 u a", "d2 t a c", "d1 t d"},
	}
	gaps := []float64{0.25, 1, 2.5, 4.75, 5, 6, 7, 9.75, 10, 12, 13, 14.75, 15, 19}
	if Thorough {
		gaps = append(gaps, 0.5, 1.5, 2, 3, 3.5, 4, 6.75, 8, 9, 11, 12.75, 14, 16, 17, 18)
	}
	for _, name := range mc.Keys(patterns) {
		for _, gap := range gaps {
			name, gap := name, gap
			ops := patterns[name]
			out = append(out, mc.Scenario{Name: fmt.Sprintf("stopped: %s every %g s", name, gap), Cfg: mc.Config{MaxSteps: 2000000}, Body: func() {
				c24play(c24u, []c24stream{{name: name, ops: ops, gap: gap}}, []int{0, 9}[mc.Choose(2)], pick(70, 140), 1)
			}})
			if gap < 1 {
				continue
			}
			cfg := mc.Config{Torn: 2, MaxSteps: 2000000}
			cfg.Budget[mc.ClsCrash] = 1
			if Thorough && gap >= 5 {
				cfg.Budget[mc.ClsCrash] = 2
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("dying: %s every %g s", name, gap), Cfg: cfg, Body: func() {
				c24play(c24u, []c24stream{{name: name, ops: ops, gap: gap}}, 9, 0, 1)
			}})
		}
	}
	two := [][2]float64{{1, 13}, {2.5, 9}, {4.75, 5}, {0.5, 17}, {7, 10}}
	for _, g := range two {
		g := g
		streams := []c24stream{{name: "A", ops: []string{"d0 t a", "d0 t a b"}, gap: g[0]}, {name: "B", ops: []string{"d1 t a", "d1 u b", "d2 u c"}, gap: g[1]}}
		out = append(out, mc.Scenario{Name: fmt.Sprintf("stopped: two streams, every %g and %g s", g[0], g[1]), Cfg: mc.Config{MaxSteps: 2000000}, Body: func() {
			c24play(c24u, streams, []int{0, 1, 9}[mc.Choose(3)], pick(70, 140), 1)
		}})
		out = append(out, mc.Scenario{Name: fmt.Sprintf("stopped twice: two streams, every %g and %g s", g[0], g[1]), Cfg: mc.Config{MaxSteps: 2000000}, Body: func() {
			c24play(c24u, streams, 9, 35, 2)
		}})
		cfg := mc.Config{Torn: 2, MaxSteps: 2000000}
		cfg.Budget[mc.ClsCrash] = 1
		out = append(out, mc.Scenario{Name: fmt.Sprintf("dying: two streams, every %g and %g s", g[0], g[1]), Cfg: cfg, Body: func() { c24play(c24u, streams, 1, 0, 1) }})
	}
	// saves at the very instants at which the flushes happen, in every order
	for _, x := range []struct {
		tick float64
		n    int
	}{{10, 2}, {13, 2}, {7, 3}, {5, 4}} {
		for i, ops := range [][]string{{"d1 t b"}, {"d1 t a b c"}, {"d1 u a", "d2 u b"}} {
			x, ops := x, ops
			cfg := mc.Config{MaxSteps: 2000000}
			cfg.Budget[mc.ClsSched] = pick(2, 3)
			if i == 0 && x.n == 3 {
				cfg.Budget[mc.ClsSched] = 3
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("stopped: saves at the flushes, every %g s %q", x.tick, ops), Cfg: cfg, Body: func() {
				mc.FreezeSched(true)
				var log []c24save
				base := newTrack(c24u)
				base.whole = true
				save := func(st storage.Storage, op string) {
					p := strings.SplitN(op, " ", 3)
					f := fld(p[1], p[2])
					log = append(log, c24save{mc.Now(), p[0], f})
					st.SaveOrUpdate(p[0], f)
				}
				end := x.tick*float64(x.n) + 8.5
				if x.tick > 12 {
					end += 3
				}
				inProc("first", func() {
					start := mc.Now()
					st := open(9)
					save(st, "d0 t a")
					save(st, "d3 v d")
					for i := 1; i <= x.n; i++ {
						mc.Sleep(start + int64(float64(i)*x.tick*1e9) - mc.Now() - 1000)
						mc.FreezeSched(false)
						mc.Sleep(1000)
						for _, op := range ops {
							save(st, op+strings.Repeat(" d", i-1))
						}
						mc.Sleep(1000)
						mc.FreezeSched(true)
					}
					mc.Sleep(start + int64(end*1e9) - mc.Now())
				})
				base = c24track(base, log, mc.Now())
				inProc("after", func() {
					if m := base.check(open(9)); m != "" {
						mc.Failf("steady", "reopened after %.2f s: %s", float64(mc.Now())/1e9, m)
					}
				})
			}})
		}
	}
	for _, w := range []struct {
		name        string
		docs, terms int // different ones
		fields      int
		per         int // terms of a document
		gap         float64
		stop        float64
	}{
		{"documents, one term", 300, 1, 1, 1, 0.25, 0},
		{"documents, few terms", 300, 5, 1, 2, 0.5, 0},
		{"terms of one document", 1, 60, 1, 50, 1, 0},
		{"terms", 20, 60, 1, 40, 2.5, 0},
		{"fields", 3, 3, 40, 2, 0.25, 0},
		{"fields of one document", 1, 1, 40, 1, 0.5, 0},
		{"everything", 60, 40, 3, 20, 0.5, 0},
		{"documents at once", 300, 2, 1, 1, 0.001, 9},
		{"documents of several fields at once", 130, 3, 6, 1, 0.01, 9},
		{"documents of several fields in a flush period", 80, 3, 5, 2, 0.02, 12},
	} {
		w := w
		out = append(out, mc.Scenario{Name: "stopped: many " + w.name, Cfg: mc.Config{MaxSteps: 6000000}, Body: func() {
			u := Univ{[]string{"none"}, []string{"none"}, []string{"none"}}
			for i := 0; i < w.docs; i++ {
				u.ids = append(u.ids, fmt.Sprint("n", i))
			}
			for i := 0; i < w.terms; i++ {
				u.terms = append(u.terms, fmt.Sprint("k", i))
			}
			for i := 0; i < w.fields; i++ {
				u.fields = append(u.fields, fmt.Sprint("f", i))
			}
			var ops []string
			for i := 0; i < 300 || i < w.docs*w.fields; i++ {
				var ts []string
				for j := 0; j < w.per; j++ {
					ts = append(ts, u.terms[1+(i*7+j)%w.terms])
				}
				ops = append(ops, fmt.Sprintf("n%d f%d %s", i%w.docs, i/w.docs%w.fields, strings.Join(ts, " ")))
			}
			c24play(u, []c24stream{{name: w.name, ops: ops, gap: w.gap, stop: w.stop}}, []int{0, 9, 100000}[mc.Choose(3)], pick(60, 140), 1)
		}})
	}
	return out
}

// c24play runs the streams; the process ends at a chosen half second (ends > 0: their number), or is killed at a file
// operation.
func c24play(u Univ, streams []c24stream, capacity, ends, sessions int) {
	base := newTrack(u)
	base.whole = true
	died := false
	for s := 0; s < sessions; s++ {
		var log []c24save
		total := 60.0
		if ends > 0 {
			total = 0.25 + 0.5*float64(1+mc.Choose(ends))
		}
		mc.SetCrash(ends == 0)
		p := mc.Run(fmt.Sprint("session", s), func() {
			st := open(capacity)
			if m := base.check(st); m != "" {
				mc.Failf("steady", "session %d: %s", s, m)
			}
			base.recent = map[string]bool{}
			if died {
				base.adopt(st)
			}
			c24run(st, streams, total, &log)
		})
		mc.SetCrash(false)
		if b := p.Bad(); b != "" {
			mc.Failf("died", "%s", b)
		}
		died = true
		base = c24track(base, log, mc.Now())
	}
	inProc("after", func() {
		st := open(capacity)
		if m := base.check(st); m != "" {
			mc.Failf("steady", "reopened after %.2f s: %s", float64(mc.Now())/1e9, m)
		}
		secs(31)
	})
	inProc("last", func() {
		if m := base.check(open(9)); m != "" {
			mc.Failf("steady", "reopened again: %s", m)
		}
	})
}

func c24run(st storage.Storage, streams []c24stream, total float64, log *[]c24save) {
	begin := mc.Now()
	end := begin + int64(total*1e9)
	next := make([]int64, len(streams))
	n := make([]int, len(streams))
	for i := range next {
		next[i] = mc.Now() + int64(i)*100e6 + 50e6
	}
	for {
		k := 0
		for i := range next {
			if next[i] < next[k] {
				k = i
			}
		}
		if next[k] >= end {
			break
		}
		mc.Sleep(next[k] - mc.Now())
		p := strings.SplitN(streams[k].ops[n[k]%len(streams[k].ops)], " ", 3)
		f := fld(p[1], p[2])
		*log = append(*log, c24save{mc.Now(), p[0], f})
		st.SaveOrUpdate(p[0], f)
		n[k]++
		next[k] += int64(streams[k].gap * 1e9)
		if s := streams[k].stop; s > 0 && (next[k] > begin+int64(s*1e9) || n[k] == len(streams[k].ops)) {
			next[k] = end
		}
	}
	mc.Sleep(end - mc.Now())
}
