package zzharness

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C14", Scns: c14,
		Rule: "Every ordered pair of names of an alphabet of hostile names (separators, dot names, percent signs and escapes, spaces, control bytes, invalid UTF-8, the empty name, names of the store's own files and folders with the usual suffixes of temporary files, long ids, and every name of a file or folder the store itself creates for the other name) as two document ids, as two field names, and as a document id and a field name; saved, flushed, opened again, updated, flushed and opened once more, on disk stores of capacity 0 and 9, with all getters compared with the reference each time, every access of the file system recorded and compared with the root folder, and files around the root watched."}
}

// Names of at most 80 bytes, for ids and fields.
var c14names = []string{
	"a", "", " ", ".", "..", "...", ". ", " .", "/", "//", "\\", "%", "%%", "%2F", "%2f", "%2E", "%25", "%252F", "%00", "%-",
	"/a", "a/", "a//", "a/b", "a/./b", "a/../b", "a\\b", "a%2Fb", "./a", "../a", "../../a", "../x", "../../x", "../../../../../../w/x", "/w/x", "/x",
	"..%2Fx", "%2e%2e", "a.", "a ", " a", "a\x00", "a\x00b", "\x00", "a\nb", "\n", "\x7f", "A", "é", "e\u0301", "\xff", "\xfe\xff", "~", "*", "?", "a:b", "$HOME", "-", "-rf",
	"docs", "docs/metrics", "docs/metrics/a", "docs/raw", "metrics", "index", "nfterm", "temp", "raw", "a/index", "a/metrics", "a/nfterm", "a/temp", "a/temp/x", "docs/a",
	"index_temp", "index_old", "metrics_temp", "metrics_old", "nfterm_temp", "a_temp", "a_old", "_temp", "_old", "a.tmp", "a.bak", ".a", ".index", ".metrics", "a_temp_temp", "Docs", "DOCS", "%64ocs", "%44ocs",
}

func c14ids() []string {
	l := strings.Repeat("l", 400)
	out := append([]string{}, c14names...)
	out = append(out, l[:200], l[:201], l[:250], l[:255], l[:256], l[:300], l, l+"x", l+"_temp", strings.Repeat("/", 90), strings.Repeat("/", 100), strings.Repeat("%2F", 90), strings.Repeat("../", 100), strings.Repeat("é", 150), strings.Repeat("x", 5000))
	return out
}

const c14root = root

var c14around = []string{"/w/x", "/w/a", "/x", "/a", "/w/index", "/w/metrics", "/w/nfterm", "/w/docs", "/w/store_temp", "/w/store.x", "/w/.x"}

func c14open(c int) storage.Storage { return open(c) }

// c14watch prepares the surroundings and returns what checks them.
func c14watch() func(when string) {
	for _, p := range c14around {
		mc.PutFile(p, []byte("keep "+p))
	}
	mc.StartFSLog()
	return func(when string) {
		for _, a := range mc.FSLog() {
			if a.Path == c14root || strings.HasPrefix(a.Path, c14root+"/") || strings.HasPrefix(a.Path, "/tmp/") {
				continue
			}
			if !a.Mut && (a.Path == "/" || a.Path == "/tmp" || strings.HasPrefix(c14root, a.Path+"/")) {
				continue
			}
			mc.Failf("outside", "%s: %s of %q, which is outside %s", when, a.Op, a.Path, c14root)
		}
		t := mc.Tree("/")
		for _, p := range c14around {
			if b, ok := t[p[1:]]; !ok || string(b) != "keep "+p {
				mc.Failf("outside", "%s: the file %q was changed: %q", when, p, b)
			}
			delete(t, p[1:])
		}
		for p := range t {
			q := "/" + strings.TrimSuffix(p, "/")
			if q != "/" && q != "/w" && q != "/tmp" && q != c14root && !strings.HasPrefix(q, c14root+"/") {
				mc.Failf("outside", "%s: %q was created outside %s", when, q, c14root)
			}
		}
	}
}

// c14life saves, flushes, opens, updates and opens again; names yields the steps once the first session has begun.
func c14life(c int, first, second []c14save) {
	seen := c14watch()
	r := newRef()
	u := Univ{terms: []string{"none", "x", "y", "z"}}
	add := func(l *[]string, s string) {
		for _, x := range *l {
			if x == s {
				return
			}
		}
		*l = append(*l, s)
	}
	for _, s := range append(append([]c14save{}, first...), second...) {
		add(&u.ids, s.id)
		add(&u.fields, s.f.Name)
		for t := range s.f.TF {
			add(&u.terms, t)
		}
	}
	sort.Strings(u.terms)
	add(&u.ids, "unknown id")
	add(&u.fields, "unknown field")
	check := func(st storage.Storage, when string) {
		if m := r.diffStore(st, u, false); m != "" {
			mc.Failf("names", "capacity %d, %s: %s", c, when, m)
		}
		seen(when)
	}
	inProc("first", func() {
		st := c14open(c)
		for _, s := range first {
			r.save(s.id, s.f)
			st.SaveOrUpdate(s.id, cloneField(s.f))
		}
		check(st, "saved")
		secs(idle)
		check(st, "flushed")
	})
	inProc("second", func() {
		st := c14open(c)
		check(st, "reopened")
		for _, s := range second {
			r.save(s.id, s.f)
			st.SaveOrUpdate(s.id, cloneField(s.f))
		}
		check(st, "updated")
		secs(idle)
		check(st, "updated and flushed")
	})
	inProc("third", func() { check(c14open(c), "reopened again") })
}

type c14save struct {
	id string
	f  model.Field
}

func c14f(name string, length int, terms ...string) model.Field {
	f := model.Field{Name: name, Length: length, TF: map[string]int{}}
	for i, t := range terms {
		f.TF[t] += 1 + i
	}
	return f
}

func c14twoIDs(c int, a, b string) {
	c14life(c,
		[]c14save{{a, c14f("t", 5, "x", "y", a)}, {b, c14f("t", 7, "x", "z", b)}, {a, c14f("u", 9, "y")}},
		[]c14save{{b, c14f("u", 4, "y", "x")}, {a, c14f("t", 11, "y", "x", "z", a)}, {"third", c14f("t", 2, "z")}})
}

func c14twoFields(c int, a, b string) {
	c14life(c,
		[]c14save{{"d", c14f(a, 5, "x", "y", a)}, {"d", c14f(b, 7, "x", "z", b)}, {"e", c14f(a, 9, "y")}},
		[]c14save{{"e", c14f(b, 4, "y", "x")}, {"d", c14f(a, 11, "y", "x", "z", a)}, {"e", c14f("third", 2, "z")}})
}

func c14idField(c int, id, f string) {
	c14life(c,
		[]c14save{{id, c14f(f, 5, "x", "y")}, {"d", c14f(f, 7, "x", "z")}, {id, c14f("t", 9, "y")}},
		[]c14save{{"d", c14f("t", 4, "y", "x")}, {id, c14f(f, 11, "y", "x", "z")}, {f, c14f("t", 3, "y", "z")}})
}

// c14made returns the names of the files and folders that a store makes for a document id and a field name.
func c14made(id, field string) []string {
	inProc("probe", func() {
		st := c14open(9)
		st.SaveOrUpdate(id, c14f(field, 2, "x"))
		secs(14) // with a fragment and, later, without
	})
	names := map[string]bool{}
	take := func() {
		for p := range mc.Tree(c14root) {
			p = strings.TrimSuffix(p, "/")
			names[p] = true
			names[path.Base(p)] = true
		}
	}
	take()
	inProc("probe", func() { c14open(9); secs(1) })
	take()
	delete(names, id)
	delete(names, field)
	delete(names, "")
	var out []string
	for n := range names {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func c14() []mc.Scenario {
	var out []mc.Scenario
	ids := c14ids()
	for _, c := range []int{0, 9} {
		c := c
		if c == 9 || Thorough {
			for i := range ids {
				i := i
				out = append(out, mc.Scenario{Name: fmt.Sprintf("ids capacity=%d %d %.20q", c, i, ids[i]), Body: func() {
					if j := mc.Choose(len(ids)); j != i {
						c14twoIDs(c, ids[i], ids[j])
					}
				}})
			}
			for i := range c14names {
				i := i
				out = append(out, mc.Scenario{Name: fmt.Sprintf("fields capacity=%d %d %.20q", c, i, c14names[i]), Body: func() {
					if j := mc.Choose(len(c14names)); j != i {
						c14twoFields(c, c14names[i], c14names[j])
					}
				}})
			}
		}
		for i := range ids {
			i := i
			out = append(out, mc.Scenario{Name: fmt.Sprintf("id and field capacity=%d %d %.20q", c, i, ids[i]), Body: func() {
				c14idField(c, ids[i], c14names[mc.Choose(len(c14names))])
			}})
		}
	}
	// names of the files the store makes itself
	for i := range ids {
		i := i
		for _, kind := range []string{"id", "field"} {
			kind := kind
			if kind == "field" && i >= len(c14names) {
				continue
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("own files %s %d %.20q", kind, i, ids[i]), Body: func() {
				id, field := ids[i], "t"
				if kind == "field" {
					id, field = "d", ids[i]
				}
				l := c14made(id, field)
				n := l[mc.Choose(len(l))]
				mc.RemoveTree(c14root)
				if kind == "id" {
					c14twoIDs(0, id, n)
				} else if len(n) <= 80 {
					c14twoFields(9, field, n)
				}
			}})
		}
	}
	// many names at once
	l := strings.Repeat("l", 400)
	crowd := map[string]func(i int) string{
		"long ids, different ends":    func(i int) string { return l + fmt.Sprint(i) },
		"long ids, different fronts":  func(i int) string { return fmt.Sprint(i) + l },
		"long ids, different middles": func(i int) string { return l[:180] + fmt.Sprintf("%04d", i) + l[:180] },
		"ids of many lengths":         func(i int) string { return strings.Repeat("n", i+1) },
		"ids of many escapes":         func(i int) string { return strings.Repeat("/", i+1) },
		"bytes":                       func(i int) string { return string([]byte{byte(i)}) },
		"bytes, first":                func(i int) string { return string([]byte{byte(i)}) + "a" },
		"bytes, last":                 func(i int) string { return "a" + string([]byte{byte(i)}) },
		"bytes, escaped":              func(i int) string { return fmt.Sprintf("%%%02X", i) },
		"bytes, escaped below":        func(i int) string { return fmt.Sprintf("%%%02x", i) },
		"bytes, between":              func(i int) string { return "%" + string([]byte{byte(i)}) + "F" },
		"runes":                       func(i int) string { return string([]rune{rune(i + 0x80)}) },
	}
	for _, name := range mc.Keys(crowd) {
		nm, at := name, crowd[name]
		for _, field := range []bool{false, true} {
			field := field
			n := 256
			if strings.Contains(nm, "long") {
				n = pick(600, 3000)
			}
			if field && strings.Contains(nm, "ids") {
				continue
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("crowd fields=%v %s", field, nm), Cfg: mc.Config{MaxSteps: 20000000}, Body: func() {
				var first, second []c14save
				seen := map[string]bool{}
				for i := 0; i < n; i++ {
					if seen[at(i)] {
						continue
					}
					seen[at(i)] = true
					if field {
						first = append(first, c14save{"d", c14f(at(i), i+1, "x", at(i))})
						second = append(second, c14save{[]string{"d", "e"}[i%2], c14f(at(i), i+2, "y", "x", at(i))})
					} else {
						first = append(first, c14save{at(i), c14f("t", i+1, "x", at(i))})
						second = append(second, c14save{at(i), c14f([]string{"t", "u"}[i%2], i+2, "y", "x", at(i))})
					}
				}
				c14life(0, first, second)
			}})
		}
	}
	// three documents in one field
	if Thorough {
		for i := range ids {
			i := i
			out = append(out, mc.Scenario{Name: fmt.Sprintf("three %d %.20q", i, ids[i]), Body: func() {
				j := mc.Choose(len(ids))
				k := mc.Choose(len(ids)/3) * 3
				if i == j || j == k || i == k {
					return
				}
				c14life(1, []c14save{{ids[i], c14f("t", 5, "x", "y")}, {ids[j], c14f("t", 7, "x", "z")}, {ids[k], c14f("t", 7, "z")}},
					[]c14save{{ids[k], c14f("u", 4, "y", "x")}, {ids[j], c14f("t", 11, "y", "x", "z")}})
			}})
		}
	}
	return out
}
