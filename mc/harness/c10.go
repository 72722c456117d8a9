package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C10", Scns: c10,
		Rule: "For a set of histories of saves, pauses and idle periods (first save ever; new documents, fields and terms beside flushed ones; fields saved again; several fields; fragments waiting for the merge; flush and merge at the same instant, in every order within a bound), the process dies before every file operation that changes anything, and in the middle of every write in several torn variants, from the first opening to the end; the store is opened again, with the process dying at every point of the opening and of what follows, up to the stated number of deaths; the history then goes on. After each opening everything flushed is there and nothing is invented; at the end new saves and new versions work and survive."}
}

type c10case struct {
	name  string
	warm  []string // flushed before anything can happen
	steps []string
	crash int
	sched int
}

// c10play runs the history, as often as the process dies.
func c10play(c c10case) {
	u := Univ{[]string{"b", "t", "u", "w", "none"}, []string{"a", "b", "c", "d", "z", "none"}, []string{"d0", "d1", "d2", "z", "none"}}
	t := newTrack(u)
	mc.FreezeSched(true)
	do := func(st storage.Storage, op string) {
		p := strings.SplitN(op, " ", 3)
		switch p[0] {
		case "p":
			n := 0.0
			fmt.Sscanf(p[1], "%g", &n)
			secs(n)
		case "idle":
			secs(idle)
			t.idle()
		case "free":
			mc.FreezeSched(false)
		case "frozen":
			mc.FreezeSched(true)
		default:
			f := fld(p[1], p[2])
			t.save(p[0], f)
			st.SaveOrUpdate(p[0], f)
		}
	}
	capacity := 9
	if len(c.warm) > 0 {
		inProc("warm", func() {
			st := open(capacity)
			for _, op := range c.warm {
				do(st, op)
			}
		})
	}
	step := 0
	died := false
	for s := 0; ; s++ {
		mc.SetCrash(true)
		p := mc.Run(fmt.Sprint("session", s), func() {
			st := open(capacity)
			if m := t.check(st); m != "" {
				mc.Failf("crash", "session %d, before step %d: %s", s, step, m)
			}
			c10search(st, u)
			t.recent = map[string]bool{}
			if died {
				t.adopt(st)
			}
			for step < len(c.steps) {
				op := c.steps[step]
				step++
				do(st, op)
			}
		})
		mc.SetCrash(false)
		mc.FreezeSched(true)
		if b := p.Bad(); b != "" {
			mc.Failf("died", "%s", b)
		}
		if !p.Crashed {
			break
		}
		died = true
	}
	// the store is usable
	inProc("after", func() {
		st := open(capacity)
		if m := t.check(st); m != "" {
			mc.Failf("crash", "at the end: %s", m)
		}
		c10search(st, u)
		n, l := st.GetFieldSize("t"), st.GetFieldLength("t")
		k := st.GetNumberFieldTerm("t", []string{"a", "z"})
		st.SaveOrUpdate("z", fld("t", "a z z"))
		if g := st.GetFieldSize("t"); g != n+1 {
			mc.Failf("crash", "saving a new document takes the size from %d to %d", n, g)
		}
		if g := st.GetFieldLength("t"); g != l+3 {
			mc.Failf("crash", "saving a new document takes the length from %d to %d", l, g)
		}
		if g := st.GetNumberFieldTerm("t", []string{"a", "z"}); g["a"] != k["a"]+1 || g["z"] != k["z"]+1 {
			mc.Failf("crash", "saving a new document takes the counts from %v to %v", k, g)
		}
		ids := []string{}
		for _, id := range u.ids[:3] {
			fs := st.GetFields([]string{id}, "t")
			st.SaveOrUpdate(id, fld("t", "d d z"))
			if len(fs) > 0 {
				ids = append(ids, id)
			}
		}
		_, sr := indexOf(st)
		got := sr.Search([]model.Query{sub("t", 1, "d", "z")})
		seen := map[string]bool{}
		for _, d := range got {
			seen[d.Id] = true
		}
		for _, id := range append(ids, "z") {
			if !seen[id] {
				mc.Failf("crash", "%q is not found after it was saved: %v", id, got)
			}
		}
		c10saved(st, "running")
		secs(idle)
	})
	inProc("last", func() { c10saved(open(capacity), "reopened") })
}

// c10search: whatever the death left behind, each hit has a score that is a number and not negative.
func c10search(st storage.Storage, u Univ) {
	_, sr := indexOf(st)
	for _, f := range u.fields {
		for _, w := range u.terms {
			got := sr.Search([]model.Query{sub(f, 1, w)})
			for i, d := range got {
				if !(d.Score >= 0 && d.Score <= 1e300) || i > 0 && got[i-1].Score < d.Score {
					mc.Failf("crash", "searching %q in %q after the crash: %v (size %d, length %d, count %v)", w, f, got, st.GetFieldSize(f), st.GetFieldLength(f), st.GetNumberFieldTerm(f, []string{w}))
				}
			}
		}
	}
}

func c10saved(st storage.Storage, when string) {
	s, _ := st.GetDocuments("t", "z")
	for _, id := range []string{"z", "d0", "d1", "d2"} {
		w := fld("t", "d d z")
		if id == "z" {
			w = fld("t", "a z z")
		}
		if g, ok := st.GetFields([]string{id}, "t")[id]; !ok || !sameField(g, w) {
			mc.Failf("crash", "%s: the field of %q saved after the crash is %v, want %v", when, id, g, w)
		}
		if !s.GetData()[id] {
			mc.Failf("crash", "%s: the posting of %q saved after the crash is missing", when, id)
		}
	}
}

func c10() []mc.Scenario {
	var out []mc.Scenario
	warm := []string{"d0 t a", "d1 t a b", "idle"}
	cases := []c10case{
		{"same instant 390", warm, []string{"p 385", "d2 t a c", "d0 u b", "p 4.999", "free", "p 0.002", "frozen", "p 20"}, 1, 1},
		{"first save", nil, []string{"d0 t a b", "idle"}, 2, 0},
		{"first saves", nil, []string{"d0 t a b", "d1 t a", "d0 u c", "idle"}, 2, 0},
		{"new document", warm, []string{"d2 t a c", "idle"}, 2, 0},
		{"new field", warm, []string{"d0 u a", "idle"}, 2, 0},
		{"new document and fields", warm, []string{"d2 t a c", "d0 u b", "d2 w a", "idle"}, 2, 0},
		{"saved again", warm, []string{"d0 t c", "idle"}, 2, 0},
		{"saved again twice", warm, []string{"d0 t c", "d0 t a c", "p 6", "d0 t b b", "idle"}, 2, 0},
		{"two periods", warm, []string{"d2 t a", "p 6", "d0 u a", "p 6", "d1 u b", "p 3", "d2 u c", "idle"}, 2, 0},
		{"fragments waiting", nil, []string{"d0 t a", "d1 t a b", "p 14"}, 3, 0},
		{"more fragments waiting", warm, []string{"d2 t a", "d0 u c", "p 14"}, 2, 0},
		{"nothing new", warm, []string{"p 16"}, 3, 0},
		{"idle then more", warm, []string{"d2 t a c", "idle", "d0 u b", "idle"}, 2, 0},
		{"go on", warm, []string{"d2 t a", "p 11", "d2 u a", "p 3", "d1 u c", "idle", "d0 w a", "p 14"}, 2, 0},
		{"fields flushed in part", warm, []string{"p 5.5", "d0 b a", "p 3", "d1 b b", "p 9", "idle"}, 1, 0},
		{"fragments long waiting", warm, []string{"p 78.5", "d2 t a c", "d0 b b", "idle", "p 8"}, 2, 0},
		{"fragments long waiting at first", nil, []string{"d0 t a", "d1 t a b", "p 77.6", "d2 t a", "d0 b b", "d1 u a", "idle"}, 1, 0},
		{"one flush of several", nil, []string{"p 25.5", "d0 t a", "d1 t a", "p 6"}, 1, 1},
		{"one flush of several, beside old", warm, []string{"p 6.5", "d0 u a", "d2 t b a", "p 40"}, 1, 1},
		{"same instant 195", warm, []string{"p 190", "d2 t a c", "p 4.999", "free", "p 0.002", "frozen", "p 20"}, 1, 1},
		{"same instant 70", warm, []string{"p 65", "d2 t a c", "d0 u b", "p 4.999", "free", "p 0.002", "frozen", "p 20"}, 1, 1},
		{"same instant 210", warm, []string{"p 193", "d2 t a c", "d0 t b", "p 16.999", "free", "p 0.002", "frozen", "p 20"}, 1, 1},
	}
	for _, c := range cases {
		for _, torn := range []int{4} {
			c, torn := c, torn
			free := c.name != "same instant 390" || Thorough
			if Thorough {
				c.crash++
				if c.sched > 0 {
					c.sched++
					c.crash--
				}
			}
			cfg := mc.Config{Torn: torn, FreeSwitch: free}
			cfg.Budget[mc.ClsCrash] = c.crash
			cfg.Budget[mc.ClsSched] = c.sched
			out = append(out, mc.Scenario{Name: fmt.Sprintf("%s crashes=%d", c.name, c.crash), Cfg: cfg, Body: func() { c10play(c) }})
		}
	}
	return out
}
