package zzharness

import (
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C09", Scns: c09,
		Rule: "All histories up to the stated length of saves (new documents, new fields, fields again; shared and new terms), pauses that end before, between and after the ticks of the flush and merge tasks, and reopenings after an idle period, spread over up to three sessions; after each idle period the store answers as the reference, before closing and after opening, and once more after a second reopening without any save. Every distribution over the clock of two and three saves, by half seconds over one merge period. Scans over numbers of documents, terms and fragments. Each history also ends with a search."}
}

var c09u = Univ{[]string{"t", "u", "w", "none"}, []string{"a", "b", "c", "d", "e", "none"}, []string{"d0", "d1", "d2", "d3", "none"}}

func c09asks(st storage.Storage, r *Ref, u Univ, when string, stale bool) {
	if m := r.diffStore(st, u, stale); m != "" {
		mc.Failf("reopen", "%s: %s", when, m)
	}
}

func c09search(sr search.Search, r *Ref, when string) {
	for _, q := range [][]model.Query{{sub("t", 1, "a", "c")}, {sub("u", 1, "a"), sub("t", 2, "b", "d")}} {
		ask(sr, r, q, diffSearch, when)
	}
}

func c09() []mc.Scenario {
	var out []mc.Scenario
	ops := []string{"d0 t a", "d0 u a b", "d1 t a c", "d0 t b", "d2 t d", "p 6", "p 14", "reopen"}
	if Thorough {
		ops = append(ops, "p 8", "d1 w ")
	}
	for _, c := range []int{9, 0} {
		for first := range ops {
			for second := range ops {
				c, first, second := c, first, second
				length := pick(6, 6)
				if c == 0 {
					length = pick(5, 6)
				}
				out = append(out, mc.Scenario{Name: fmt.Sprintf("histories capacity=%d %q %q length=%d", c, ops[first], ops[second], length), Body: func() {
					r := newRef()
					i, sessions := 0, 0
					session := func(st storage.Storage) bool {
						c09asks(st, r, c09u, fmt.Sprintf("session %d opened at step %d", sessions, i), true)
						for i < length {
							op := ops[first]
							if i == 1 {
								op = ops[second]
							} else if i > 1 {
								op = ops[mc.Choose(len(ops))]
							}
							i++
							p := strings.SplitN(op, " ", 3)
							switch p[0] {
							case "p":
								n := 0.0
								fmt.Sscanf(p[1], "%g", &n)
								secs(n)
							case "reopen":
								if sessions < 2 {
									secs(idle)
									c09asks(st, r, c09u, fmt.Sprintf("session %d idle at step %d", sessions, i), true)
									return true
								}
							default:
								f := fld(p[1], p[2])
								r.save(p[0], f)
								st.SaveOrUpdate(p[0], f)
							}
						}
						secs(idle)
						c09asks(st, r, c09u, "idle at the end", true)
						return false
					}
					for again := true; again; sessions++ {
						inProc(fmt.Sprint("session", sessions), func() { again = session(open(c)) })
					}
					inProc("last", func() {
						st := open(c)
						c09asks(st, r, c09u, "reopened at the end", true)
						_, sr := indexOf(st)
						c09search(sr, r, "reopened at the end")
						secs(16)
					})
					inProc("once more", func() { c09asks(open(c), r, c09u, "reopened once more", true) })
				}})
			}
		}
	}
	// when things are saved relative to the ticks
	step := 0.5
	type timed struct{ saves []string }
	for _, x := range []timed{{[]string{"d0 t a", "d1 t a b"}}, {[]string{"d0 t ", "d0 u a"}}, {[]string{"d0 t a", "d1 u "}}, {[]string{"d0 t a", "d0 t "}}, {[]string{"d0 t a", "d0 u b"}}, {[]string{"d0 t a b", "d0 t a c"}}, {[]string{"d0 t a", "d1 t b", "d2 t c"}}, {[]string{"d0 t a", "d0 u a", "d0 w a"}}} {
		x := x
		if len(x.saves) > 2 {
			step = 2.5
			if Thorough {
				step = 1
			}
		}
		st0 := step
		out = append(out, mc.Scenario{Name: fmt.Sprintf("times step=%g %v", st0, x.saves), Body: func() {
			r := newRef()
			inProc("first", func() {
				st := open(9)
				secs(0.25)
				for i, s := range x.saves {
					if i > 0 {
						secs(st0 * float64(mc.Choose(int(31/st0))))
					} else {
						secs(st0 * float64(mc.Choose(int(15.5/st0))))
					}
					p := strings.SplitN(s, " ", 3)
					f := fld(p[1], p[2])
					r.save(p[0], f)
					st.SaveOrUpdate(p[0], f)
				}
				secs(idle)
				c09asks(st, r, c09u, "idle", false)
			})
			inProc("last", func() { c09asks(open(9), r, c09u, "reopened", true) })
		}})
	}
	// exactly on the ticks (every order of what happens at that instant)
	for _, t := range []float64{5, 7, 10, 13, 15, 14, 30, 35, 65, 70, 105, 195} {
		for _, s := range []string{"d1 t a c", "d0 u a", "d0 t b"} {
			t, s := t, s
			cfg := mc.Config{Race: true, FreeSwitch: true}
			cfg.Budget[mc.ClsSched] = pick(1, 2)
			out = append(out, mc.Scenario{Name: fmt.Sprintf("at %gs %s", t, s), Cfg: cfg, Body: func() {
				mc.FreezeSched(true)
				r := newRef()
				save := func(st storage.Storage, s string) {
					p := strings.SplitN(s, " ", 3)
					f := fld(p[1], p[2])
					r.save(p[0], f)
					st.SaveOrUpdate(p[0], f)
				}
				inProc("first", func() {
					st := open(9)
					secs(t - 0.5)
					save(st, "d0 t a")
					save(st, "d2 t d")
					secs(0.499)
					mc.FreezeSched(false)
					secs(0.001)
					save(st, s)
					secs(0.001)
					mc.FreezeSched(true)
					c09asks(st, r, c09u, "running", false)
					secs(idle)
					c09asks(st, r, c09u, "idle", false)
				})
				inProc("last", func() { c09asks(open(9), r, c09u, "reopened", true) })
			}})
		}
	}
	// sizes
	ns := []int{1, 2, 5, 33, 99, 100, 101, 150}
	if Thorough {
		ns = append(ns, 257, 1000)
	}
	for _, mode := range []string{"documents", "terms", "fields", "fragments", "sessions", "long"} {
		mode := mode
		out = append(out, mc.Scenario{Name: "many " + mode, Cfg: mc.Config{MaxSteps: 20000000}, Body: func() {
			n := ns[mc.Choose(len(ns))]
			r := newRef()
			u := Univ{[]string{"t", "none"}, []string{"a", "w0", "w1", "w2", "none"}, []string{"d0", "none"}}
			if mode == "terms" {
				u.terms = []string{"a", "none"}
			}
			save := func(st storage.Storage, id string, f model.Field) {
				r.save(id, f)
				st.SaveOrUpdate(id, f)
			}
			fill := func(st storage.Storage) {
				switch mode {
				case "documents":
					for i := 0; i < n; i++ {
						u.ids = append(u.ids, fmt.Sprint("x", i))
						save(st, fmt.Sprint("x", i), fld("t", fmt.Sprint("a w", i%3)))
					}
				case "terms":
					f := fld("t", "a")
					for i := 0; i < n; i++ {
						u.terms = append(u.terms, fmt.Sprint("w", i))
						f.TF[fmt.Sprint("w", i)] = i + 1
					}
					save(st, "d0", f)
					secs(3)
					save(st, "d1", f)
				case "fields":
					if n > 101 {
						n = 101
					}
					for i := 0; i < n; i++ {
						u.fields = append(u.fields, fmt.Sprint("f", i))
						save(st, "d0", fld(fmt.Sprint("f", i), fmt.Sprint("a w", i%2)))
					}
				case "fragments":
					if n > 33 {
						n = 33
					}
					for i := 0; i < n; i++ {
						u.ids = append(u.ids, fmt.Sprint("x", i))
						save(st, fmt.Sprint("x", i), fld("t", fmt.Sprint("a w", i%3)))
						secs(3.7)
					}
				case "long":
					big := strings.Repeat("long", n)
					u.terms = append(u.terms, big)
					u.ids = append(u.ids, "id"+big)
					save(st, "id"+big, fld("t", "a "+big))
					save(st, "d0", model.Field{Name: "t", Length: 1<<31 - 1 - n*8, TF: map[string]int{"a": 1<<31 - 1, big: n}})
				}
				secs(idle)
				c09asks(st, r, u, "idle", false)
			}
			if mode == "sessions" {
				if n > 33 {
					n = 12
				}
				for i := 0; i < n; i++ {
					inProc(fmt.Sprint("session", i), func() {
						st := open(3)
						c09asks(st, r, u, "reopened", false)
						u.ids = append(u.ids, fmt.Sprint("x", i))
						save(st, fmt.Sprint("x", i), fld("t", fmt.Sprint("a w", i%3)))
						secs(idle)
					})
				}
			} else {
				inProc("first", func() { fill(open(3)) })
			}
			inProc("last", func() { c09asks(open(9), r, u, "reopened", false) })
			inProc("once more", func() { c09asks(open(0), r, u, "reopened", false) })
		}})
	}
	return out
}
