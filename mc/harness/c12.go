package zzharness

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/file"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C12", Scns: c12,
		Rule: "Three replacements of a file, one process each, with the process dying before every file operation of the first two (and in the middle of every write, in several torn variants), for every prior content and size class, with neighbours named like temporary files; all interleavings of a replacement with readers and with a replacement of another file; all sequences of saves over a set of names that are each other's temporary names."}
}

const c12dir = "/w/d"

func c12data(n int, tag byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = tag + byte(i%7)
	}
	if n > 0 {
		b[n-1] = tag
	}
	return b
}

var c12near = []string{"f_temp", "f_old", "f_new", "f.tmp", "f.bak", "f.old", "f~", ".f", "_temp", "tmp", "temp", "f.temp", "f_", "f1", "F"}

func short(b []byte, ok bool) string {
	if !ok {
		return "no file"
	}
	if len(b) > 12 {
		return fmt.Sprintf("%d bytes %q...", len(b), b[:8])
	}
	return fmt.Sprintf("%q", b)
}

// c12is reports whether the file is exactly want (nil: absent).
func c12is(got []byte, ok bool, want []byte, wok bool) bool {
	return ok == wok && (!ok || bytes.Equal(got, want))
}

func c12save(name string, b []byte) {
	if err := file.SecureSaveFile(c12dir, name, b); err != nil {
		mc.Failf("save", "saving %q: %v", name, err)
	}
}

func c12near2(tree map[string][]byte, near map[string][]byte) {
	for k, v := range near {
		g, ok := tree[k]
		if !c12is(g, ok, v, true) {
			mc.Failf("save", "saving disturbed the file %q: it holds %s, want %s", k, short(g, ok), short(v, true))
		}
	}
}

func c12() []mc.Scenario {
	var out []mc.Scenario
	sizes := []int{0, 1, 5, 5000}
	if Thorough {
		sizes = append(sizes, 4096, 70000)
	}
	for _, near := range []bool{false, true} {
		for prior := -1; prior < len(sizes); prior++ {
			near, prior := near, prior
			cfg := mc.Config{Torn: 4}
			cfg.Budget[mc.ClsCrash] = 2
			out = append(out, mc.Scenario{Name: fmt.Sprintf("crash prior=%d neighbours=%v", prior, near), Cfg: cfg, Body: func() {
				mc.MkdirAll(c12dir, 0755)
				nb := map[string][]byte{}
				if near {
					for i, n := range c12near {
						nb[n] = c12data(3+i, 'A')
						mc.PutFile(c12dir+"/"+n, nb[n])
					}
				}
				var cur []byte
				has := prior >= 0
				if has {
					cur = c12data(sizes[prior], 'p')
					mc.PutFile(c12dir+"/f", cur)
				}
				clean := true
				for round := 0; round < 3; round++ {
					next := c12data(sizes[mc.Choose(len(sizes))], byte('1'+round))
					mc.SetCrash(round < 2)
					done := false
					p := mc.Run(fmt.Sprint("save", round), func() {
						c12save("f", next)
						done = true
					})
					mc.SetCrash(false)
					if b := p.Bad(); b != "" {
						mc.Failf("died", "%s", b)
					}
					t := mc.Tree(c12dir)
					g, ok := t["f"]
					if done {
						if !c12is(g, ok, next, true) {
							mc.Failf("save", "after save %d the file holds %s, want %s", round, short(g, ok), short(next, true))
						}
					} else {
						clean = false
						if !c12is(g, ok, cur, has) && !c12is(g, ok, next, true) {
							mc.Failf("save", "after the process died in save %d the file holds %s; before it held %s, the new content is %s", round, short(g, ok), short(cur, has), short(next, true))
						}
					}
					c12near2(t, nb)
					if clean && len(t) != len(nb)+1 {
						mc.Failf("save", "save left other files behind: %s", strings.Join(names(t), " "))
					}
					// the application reads through the package as well
					rg, err := file.ReadFileOnDisk(c12dir + "/f")
					if (err == nil) != ok || !bytes.Equal(rg, g) {
						mc.Failf("save", "ReadFileOnDisk answers %d bytes, %v; the file holds %s", len(rg), err, short(g, ok))
					}
					cur, has = append([]byte(nil), g...), ok
				}
			}})
		}
	}
	// readers and a writer of another file
	for _, c := range []struct {
		prior           bool
		readers, others int
		crash           bool
	}{{true, 1, 0, false}, {false, 1, 0, false}, {true, 2, 0, false}, {true, 1, 1, false}, {true, 1, 0, true}} {
		c := c
		cfg := mc.Config{Race: true, FreeSwitch: true, Torn: 2}
		cfg.Budget[mc.ClsSched] = -1
		if c.readers+c.others > 1 {
			cfg.Budget[mc.ClsSched] = pick(4, -1)
		}
		if c.crash {
			cfg.Budget[mc.ClsCrash] = 1
		}
		out = append(out, mc.Scenario{Name: fmt.Sprintf("concurrent prior=%v readers=%d others=%d crash=%v", c.prior, c.readers, c.others, c.crash), Cfg: cfg, Body: func() {
			mc.MkdirAll(c12dir, 0755)
			vers := [][]byte{nil, c12data(300, '1'), c12data(9, '2')}
			if c.prior {
				vers[0] = c12data(20, 'p')
				mc.PutFile(c12dir+"/f", vers[0])
			}
			mc.PutFile(c12dir+"/g", c12data(4, 'g'))
			ns := []string{"writer"}
			fs := []func(){func() {
				mc.Run("writer", func() {
					mc.SetCrash(c.crash)
					c12save("f", vers[1])
					c12save("f", vers[2])
				})
			}}
			for i := 0; i < c.readers; i++ {
				ns = append(ns, fmt.Sprint("reader", i))
				fs = append(fs, func() {
					last := 0
					for k := 0; k < 2; k++ {
						b, err := file.ReadFileOnDisk(c12dir + "/f")
						v := -1
						for i, w := range vers {
							if i >= last && (err != nil && w == nil || err == nil && w != nil && bytes.Equal(b, w)) {
								v = i
								break
							}
						}
						if v < 0 {
							mc.Failf("save", "a reader found %s (%v) while the file was being replaced; it had seen version %d", short(b, err == nil), err, last)
						}
						last = v
					}
				})
			}
			for i := 0; i < c.others; i++ {
				ns = append(ns, "other")
				fs = append(fs, func() { c12save("g", c12data(7, 'h')) })
			}
			mc.Tasks(ns, fs...)
			t := mc.Tree(c12dir)
			if !c.crash {
				if !bytes.Equal(t["f"], vers[2]) || len(t) != 2 {
					mc.Failf("save", "at the end the file holds %s, files: %s", short(t["f"], true), strings.Join(names(t), " "))
				}
			}
			w := c12data(4, 'g')
			if c.others > 0 {
				w = c12data(7, 'h')
			}
			if !bytes.Equal(t["g"], w) {
				mc.Failf("save", "the other file holds %s", short(t["g"], true))
			}
		}})
	}
	// replacements at the same time: of two files, of one file, in two folders; contents as long as each other, or equal
	for _, names := range [][]string{{"f", "g"}, {"f", "ff"}, {"f", "f"}, {"f", "../e/f"}, {"index", "metrics"}} {
		for _, equal := range []bool{true, false} {
			names, equal := names, equal
			cfg := mc.Config{Race: true, FreeSwitch: true}
			cfg.Budget[mc.ClsSched] = -1
			out = append(out, mc.Scenario{Name: fmt.Sprintf("at once %v equal=%v", names, equal), Cfg: cfg, Body: func() {
				mc.MkdirAll(c12dir, 0755)
				mc.MkdirAll("/w/e", 0755)
				tags := []byte{'1', '2'}
				if equal {
					tags[1] = '1'
				}
				n := []int{0, 1, 300}[mc.Choose(3)]
				save := func(i int) func() {
					return func() {
						dir, name := c12dir, names[i]
						if base, ok := strings.CutPrefix(name, "../e/"); ok {
							dir, name = "/w/e", base
						}
						if err := file.SecureSaveFile(dir, name, c12data(n, tags[i])); err != nil {
							mc.Failf("save", "saving %q: %v", name, err)
						}
					}
				}
				mc.Tasks([]string{"first", "second"}, save(0), save(1))
				for i, name := range names {
					g, err := file.ReadFileOnDisk(c12dir + "/" + name)
					if err != nil || !bytes.Equal(g, c12data(n, tags[i])) && !(names[0] == names[1] && bytes.Equal(g, c12data(n, tags[1-i]))) {
						mc.Failf("save", "saved %v at once; %q holds %s, %v", names, name, short(g, err == nil), err)
					}
				}
				want := map[string]bool{names[0]: true, names[1]: true}
				if l := len(mc.Tree(c12dir)) + len(mc.Tree("/w/e")); l != len(want) {
					mc.Failf("save", "saved %v at once; %d files are there", names, l)
				}
			}})
		}
	}
	// a file that happens to have the name that an earlier save used for its own purposes
	for _, set := range [][]string{{"a"}, {"a", "b"}, {"index"}} {
		set := set
		out = append(out, mc.Scenario{Name: fmt.Sprintf("names seen %v", set), Body: func() {
			mc.MkdirAll(c12dir, 0755)
			mc.StartFSLog()
			want := map[string][]byte{}
			for i, n := range set {
				want[n] = c12data(3+i, 'a')
				c12save(n, want[n])
			}
			seen := map[string]bool{}
			for _, e := range mc.FSLog() {
				if n, ok := strings.CutPrefix(e.Path, c12dir+"/"); ok && !strings.Contains(n, "/") {
					seen[n] = true
				}
			}
			for _, n := range mc.Keys(seen) {
				if _, ok := want[n]; ok {
					continue
				}
				want[n] = c12data(40, 'z')
				if mc.Choose(2) == 0 {
					mc.PutFile(c12dir+"/"+n, want[n])
				} else {
					c12save(n, want[n])
				}
			}
			for round := 0; round < 2; round++ {
				for i, n := range set {
					want[n] = c12data(5+i+round, 'c')
					c12save(n, want[n])
				}
			}
			t := mc.Tree(c12dir)
			c12near2(t, want)
			if len(t) != len(want) {
				mc.Failf("save", "after saving %d files the folder holds %s", len(want), strings.Join(names(t), " "))
			}
		}})
	}
	// sequences over names that look like each other's temporaries
	sets := [][]string{{"a", "a_temp", "a_old"}, {"a", ".a", "a~"}, {"a", "a.tmp", "a.bak"}, {"a", "a_temp_temp", "a_temp"}, {"temp", "_temp", "_old"}, {"a", "a_new", "tmp-a"}, {"index", "index_old", "metrics"}, {"a", ".a.tmp", ".a_temp"}, {"a", "a.temp", ".a.temp"}, {"a", "a.new", "a.old"}, {"a", ".a.swp", ".tmp"}}
	long := strings.Repeat("n", 199)
	sets = append(sets, []string{long, long + "m", long + "n"}, []string{"%2F", " ", "é日"}, []string{"A", "a", "a."})
	for _, set := range sets {
		set := set
		depth := pick(5, 7)
		out = append(out, mc.Scenario{Name: fmt.Sprintf("sequence %v depth=%d", set, depth), Body: func() {
			mc.MkdirAll(c12dir, 0755)
			want := map[string][]byte{}
			for i := 0; i < depth; i++ {
				n := set[mc.Choose(len(set))]
				b := c12data(1+i*3, byte('0'+i))
				c12save(n, b)
				want[n] = b
				t := mc.Tree(c12dir)
				c12near2(t, want)
				if len(t) != len(want) {
					mc.Failf("save", "after saving %d files the folder holds %s", len(want), strings.Join(names(t), " "))
				}
			}
		}})
	}
	return out
}

func names(t map[string][]byte) []string {
	var s []string
	for k := range t {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
