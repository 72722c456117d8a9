package zzharness

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C21", Scns: c21,
		Rule: "Replacements of a file in which every file operation fails in turn (every pair in two rounds), a write also half done, for every prior content and size class: an error is reported unless the new content is there, the name holds the complete old or new content, neighbours keep theirs, and a later save succeeds. For a set of store histories, every single file operation (and every pair, where stated) of the flush tasks, the merge, the opening, and of reads in a second run, fails once; the process may stop, or go on: when it goes on, its answers stay those of the reference; in either case the store opens again afterwards with all that was flushed before, nothing invented, and everything saved by a process that went on through an idle period."}
}

type c21case struct {
	name     string
	warm     []string // flushed before anything can fail
	steps    []string
	capacity int
}

// c21do performs one step of a history.
func c21do(st storage.Storage, t *track, op string) {
	p := strings.SplitN(op, " ", 3)
	switch p[0] {
	case "p":
		n := 0.0
		fmt.Sscanf(p[1], "%g", &n)
		secs(n)
	case "idle":
		secs(idle)
	case "read":
		if m := t.r.diffStore(st, c21u, false); m != "" {
			mc.Failf("fault", "the running store: %s", m)
		}
	default:
		f := fld(p[1], p[2])
		t.save(p[0], f)
		t.r.save(p[0], f)
		st.SaveOrUpdate(p[0], f)
	}
}

var c21u = Univ{[]string{"b", "t", "u", "w", "none"}, []string{"a", "b", "c", "d", "z", "none"}, []string{"d0", "d1", "d2", "z", "none"}}

func c21() []mc.Scenario {
	var out []mc.Scenario
	sizes := []int{0, 1, 5, 5000}
	for _, near := range []bool{false, true} {
		for prior := -1; prior < len(sizes); prior++ {
			near, prior := near, prior
			cfg := mc.Config{}
			cfg.Budget[mc.ClsFault] = pick(2, 3)
			out = append(out, mc.Scenario{Name: fmt.Sprintf("replace prior=%d neighbours=%v", prior, near), Cfg: cfg, Body: func() {
				const dir = "/w/d"
				mc.MkdirAll(dir, 0755)
				nb := map[string][]byte{}
				if near {
					for i, n := range []string{"f_temp", "f_old", "f_new", "f.tmp", "f.bak", "f.old", "f~", ".f", "_temp", "tmp", "temp", "f.temp", "f1"} {
						nb[n] = bytes.Repeat([]byte{'A' + byte(i)}, 3+i)
						mc.PutFile(dir+"/"+n, nb[n])
					}
				}
				var cur []byte
				has := prior >= 0
				if has {
					cur = bytes.Repeat([]byte{'p'}, sizes[prior])
					mc.PutFile(dir+"/f", cur)
				}
				for round := 0; round < 4; round++ {
					next := bytes.Repeat([]byte{'1' + byte(round)}, sizes[mc.Choose(len(sizes))])
					faults := mc.Faults()
					mc.SetFault(2)
					if round > 2 {
						mc.SetFault(0)
					}
					var err error
					ended := false
					p := mc.Run(fmt.Sprint("save", round), func() {
						err = file.SecureSaveFile(dir, "f", next)
						ended = true
					})
					mc.SetFault(0)
					failed := mc.Faults() > faults
					if b := p.Bad(); b != "" && !failed {
						mc.Failf("fault", "%s, though no operation failed", b)
					}
					t := mc.Tree(dir)
					g, ok := t["f"]
					isNew := ok && bytes.Equal(g, next)
					isOld := ok == has && bytes.Equal(g, cur)
					desc := func() string {
						return fmt.Sprintf("round %d (%d failures before): the file holds %d bytes (present %v), before it held %d (present %v), the new content has %d; error %v", round, faults, len(g), ok, len(cur), has, len(next), err)
					}
					switch {
					case !failed && (!ended || err != nil):
						mc.Failf("fault", "a save without a failing operation reports an error: %s", desc())
					case ended && err == nil && !isNew:
						mc.Failf("fault", "the save reports success but the new content is not there: %s", desc())
					case !isNew && !isOld:
						mc.Failf("fault", "neither the old nor the new content: %s", desc())
					}
					for k, v := range nb {
						if w, ok := t[k]; !ok || !bytes.Equal(v, w) {
							mc.Failf("fault", "the file %q was disturbed: %s", k, desc())
						}
					}
					cur, has = append([]byte(nil), g...), ok
				}
			}})
		}
	}
	warm := []string{"d0 t a", "d1 t a b", "d1 u c", "idle"}
	cases := []c21case{
		{"first save", nil, []string{"d0 t a b", "idle", "read"}, 9},
		{"first saves", nil, []string{"d0 t a b", "d1 t a", "d0 u c", "idle", "read", "p 16", "read"}, 9},
		{"new document", warm, []string{"d2 t a c", "idle", "read"}, 9},
		{"new field", warm, []string{"d0 u a", "idle", "read"}, 9},
		{"new field, not cached", warm, []string{"d0 u a", "idle", "read"}, 0},
		{"new fields, cache of one", warm, []string{"d0 u a", "d1 w b", "p 6", "d0 w c", "idle", "read"}, 1},
		{"saved again", warm, []string{"d0 t a c", "p 6", "d0 t a b b c", "idle", "read"}, 9},
		{"saved again, not cached", warm, []string{"d1 t a b c", "p 6", "d1 t a b b c c", "idle", "read"}, 0},
		{"fragments", warm, []string{"d2 t a", "p 14", "d2 u a", "p 3", "d0 w c", "idle", "read", "p 12", "d0 t a d", "idle", "read"}, 9},
		{"reads only", warm, []string{"read", "p 16", "read"}, 0},
		{"opened on fragments", []string{"d0 t a", "d1 t a b", "d1 u c", "p 14"}, []string{"read", "p 16", "read"}, 9},
		{"opened on fragments beside merged", []string{"d0 t a", "idle", "d1 t a b", "d0 u c", "p 14"}, []string{"read", "d2 t a", "idle", "read"}, 0},
		{"nothing", warm, []string{"p 31"}, 9},
		{"long", warm, []string{"p 60", "d2 t a c", "d0 u b", "p 16", "read", "d2 u a", "idle", "read"}, 1},
	}
	type bound struct{ kind, faults, crashes int }
	bounds := []bound{{1, 1, 0}, {1, 2, 0}, {2, 1, 0}, {1, 1, 1}}
	if Thorough {
		bounds = append(bounds, bound{2, 2, 0}, bound{1, 3, 0}, bound{2, 1, 1}, bound{1, 2, 1})
	}
	for _, b := range bounds {
		for _, c := range cases {
			if b.crashes > 0 && len(c.steps) > 7 && !Thorough {
				continue
			}
			c, b := c, b
			cfg := mc.Config{Torn: 2}
			cfg.Budget[mc.ClsFault] = b.faults
			cfg.Budget[mc.ClsCrash] = b.crashes
			k := "changes"
			if b.kind == 2 {
				k = "all"
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("store %q capacity=%d failing=%s times=%d crashes=%d", c.name, c.capacity, k, b.faults, b.crashes), Cfg: cfg, Body: func() { c21play(c, b.kind) }})
		}
	}
	return out
}

func c21play(c c21case, kind int) {
	t := newTrack(c21u)
	if len(c.warm) > 0 {
		inProc("warm", func() {
			st := open(c.capacity)
			for _, op := range c.warm {
				c21do(st, t, op)
			}
			t.idle()
		})
	}
	step, died := 0, false
	for s := 0; ; s++ {
		faults := mc.Faults()
		mc.SetFault(kind)
		mc.SetCrash(true)
		done := false
		p := mc.Run(fmt.Sprint("session", s), func() {
			st, err := storage.NewDiskStore(root, c.capacity)
			if err != nil {
				if mc.Faults() == faults {
					mc.Failf("fault", "NewDiskStore: %v, though nothing failed", err)
				}
				return
			}
			if m := t.check(st); m != "" {
				mc.Failf("fault", "session %d, opened before step %d: %s", s, step, m)
			}
			t.recent = map[string]bool{}
			if died {
				t.adopt(st)
			}
			for step < len(c.steps) {
				op := c.steps[step]
				step++
				if op == "read" && died {
					continue
				}
				c21do(st, t, op)
			}
			mc.SetFault(0)
			secs(30)
			t.idle()
			done = true
		})
		mc.SetFault(0)
		mc.SetCrash(false)
		if b := p.Bad(); b != "" && mc.Faults() == faults {
			mc.Failf("fault", "%s, though nothing failed", b)
		}
		if done {
			break
		}
		died = true
	}
	inProc("after", func() {
		st := open(c.capacity)
		if !died {
			if m := t.r.diffStore(st, c21u, false); m != "" {
				mc.Failf("fault", "reopened after a session that went on: %s", m)
			}
		}
		if m := t.check(st); m != "" {
			mc.Failf("fault", "reopened: %s", m)
		}
		n := st.GetFieldSize("t")
		st.SaveOrUpdate("z", fld("t", "a z z"))
		if g := st.GetFieldSize("t"); g != n+1 {
			mc.Failf("fault", "saving a new document takes the size from %d to %d", n, g)
		}
		secs(idle)
	})
	inProc("last", func() {
		st := open(9)
		if g, ok := st.GetFields([]string{"z"}, "t")["z"]; !ok || !sameField(g, fld("t", "a z z")) {
			mc.Failf("fault", "what is saved afterwards is not there: %v", g)
		}
		if s, _ := st.GetDocuments("t", "z"); !s.GetData()["z"] {
			mc.Failf("fault", "what is saved afterwards is not found")
		}
	})
}
