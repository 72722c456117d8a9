package zzharness

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C13", Scns: c13,
		Rule:  "All indexes, field maps, count tables and metrics over small alphabets of awkward strings and of counts up to the largest 32-bit value, in every map order within a bound; scans over numbers of entries and string lengths; every value is encoded, compressed, decompressed and decoded twice, compared, scribbled over and compared again, also with other values encoded in between and concurrently. All byte strings up to the stated length and scanned sizes through real compression.",
		Notes: []string{"counts, sizes and lengths are 0..2^31-1; posting sets hold true only"}}
}

// codec is one encodable kind of value.
type codec struct {
	enc func(v any) []byte
	dec func(b []byte) any
	eq  func(a, b any) bool
	cp  func(v any) any
	bad func(v any) // scribble over a decoded value
}

func cpIndex(v any) any {
	n := map[string]map[string]bool{}
	for k, s := range v.(map[string]map[string]bool) {
		m := map[string]bool{}
		for d := range s {
			m[d] = true
		}
		n[k] = m
	}
	return n
}

func cpFields(v any) any {
	n := map[string]model.Field{}
	for k, f := range v.(map[string]model.Field) {
		n[k] = cloneField(f)
	}
	return n
}

func cpCounts(v any) any {
	n := map[string]int{}
	for k, f := range v.(map[string]int) {
		n[k] = f
	}
	return n
}

type metric3 struct {
	name         string
	size, length int32
}

var codecs = map[string]codec{
	"index": {
		func(v any) []byte { return storage.SerializeIndex(v.(map[string]map[string]bool)) },
		func(b []byte) any { return storage.DeserializeIndex(b) },
		func(a, b any) bool { return reflect.DeepEqual(a, b) }, cpIndex,
		func(v any) {
			m := v.(map[string]map[string]bool)
			for _, s := range m {
				s["scribble"] = true
			}
			m["scribble"] = map[string]bool{}
		}},
	"fields": {
		func(v any) []byte { return storage.SerializeFieldMap(v.(map[string]model.Field)) },
		func(b []byte) any { return storage.DeserializeFieldMap(b) },
		func(a, b any) bool {
			x, y := a.(map[string]model.Field), b.(map[string]model.Field)
			if len(x) != len(y) {
				return false
			}
			for k, f := range x {
				g, ok := y[k]
				if !ok || !sameField(f, g) {
					return false
				}
			}
			return true
		}, cpFields,
		func(v any) {
			m := v.(map[string]model.Field)
			for _, f := range m {
				f.TF["scribble"] = 9
			}
			m["scribble"] = model.Field{}
		}},
	"counts": {
		func(v any) []byte { return storage.SerializeNumberFieldTerm(v.(map[string]int)) },
		func(b []byte) any { return storage.DeserializeNumberFieldTerm(b) },
		func(a, b any) bool { return reflect.DeepEqual(a, b) }, cpCounts,
		func(v any) { v.(map[string]int)["scribble"] = 1 }},
	"metrics": {
		func(v any) []byte {
			m := v.(metric3)
			return storage.SerializeFieldSizeLength(m.name, m.size, m.length)
		},
		func(b []byte) any {
			n, s, l := storage.DeserializeFieldSizeLength(b)
			return metric3{n, s, l}
		},
		func(a, b any) bool { return a == b }, func(v any) any { return v }, func(v any) {}},
}

func brief(v any) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 300 {
		s = fmt.Sprintf("%s... (%d bytes)", s[:300], len(s))
	}
	return s
}

func roundTrip(kind string, v any) {
	c := codecs[kind]
	orig := c.cp(v)
	buf := c.enc(v)
	if !c.eq(orig, v) {
		mc.Failf("codec", "encoding changed its input %s to %s", brief(orig), brief(v))
	}
	z := file.CompressData(buf)
	plain := file.DecompressData(z)
	a := c.dec(plain)
	if !c.eq(a, orig) {
		mc.Failf("codec", "%s decodes to %s, want %s", kind, brief(a), brief(orig))
	}
	b := c.dec(buf)
	if !c.eq(b, orig) {
		mc.Failf("codec", "%s decodes without compression to %s, want %s", kind, brief(b), brief(orig))
	}
	c.bad(a)
	if !c.eq(b, orig) {
		mc.Failf("codec", "changing one decoded %s changed another", kind)
	}
	if m := shares(kind, c.dec(buf)); m != "" {
		mc.Failf("codec", "in a decoded %s, changing %s", kind, m)
	}
	b2 := c.dec(plain)
	for i := range plain {
		plain[i] = 0xaa
	}
	if !c.eq(b2, orig) {
		mc.Failf("codec", "a decoded %s changes with the buffer it came from", kind)
	}
	// encode again, and something else in between
	buf2 := c.enc(v)
	z2 := file.CompressData([]byte("something else"))
	b3 := c.dec(file.DecompressData(file.CompressData(buf2)))
	if !c.eq(b3, orig) || !c.eq(c.dec(buf), orig) || !c.eq(c.dec(file.DecompressData(z)), orig) {
		mc.Failf("codec", "encoding again disturbed an earlier encoding of %s", kind)
	}
	if string(file.DecompressData(z2)) != "something else" {
		mc.Failf("codec", "compressing again disturbed an earlier result")
	}
}

// shares says which two parts of a decoded value are one and the same.
func shares(kind string, v any) string {
	seen := map[uintptr]string{}
	see := func(k string, m any) string {
		p := reflect.ValueOf(m).Pointer()
		if o, ok := seen[p]; ok && p != 0 {
			return fmt.Sprintf("the part %q changes %q", cut(k), cut(o))
		}
		seen[p] = k
		return ""
	}
	switch kind {
	case "index":
		for t, s := range v.(map[string]map[string]bool) {
			if m := see(t, s); m != "" {
				return m
			}
		}
	case "fields":
		for t, f := range v.(map[string]model.Field) {
			if m := see(t, f.TF); m != "" {
				return m
			}
		}
	}
	return ""
}

func c13() []mc.Scenario {
	var out []mc.Scenario
	long := strings.Repeat("long ", 60)
	terms := []string{"", "a", "b\x00c", "\xff\xfe", long}
	docs := []string{"", "1", "a"}
	counts := []int{0, 1, 255, 65536, 1<<31 - 1}
	subset := func(n int) map[string]bool {
		m := map[string]bool{}
		for i, d := range docs {
			if n>>i&1 == 1 {
				m[d] = true
			}
		}
		return m
	}
	mkIndex := func(nt, opts int) any {
		m := map[string]map[string]bool{}
		for _, t := range terms[:nt] {
			if k := mc.Choose(opts); k > 0 {
				m[t] = subset(k*(9/opts) - 1)
			}
		}
		return m
	}
	mkCounts := func(nt int, cs []int) any {
		m := map[string]int{}
		for _, t := range terms[:nt] {
			if k := mc.Choose(len(cs) + 1); k > 0 {
				m[t] = cs[k-1]
			}
		}
		return m
	}
	mkField := func(ns []string, ls, cs []int, nt int) model.Field {
		f := model.Field{Name: ns[mc.Choose(len(ns))], Length: ls[mc.Choose(len(ls))], TF: map[string]int{}}
		for _, t := range terms[1 : 1+nt] {
			if k := mc.Choose(len(cs) + 1); k > 0 {
				f.TF[t] = cs[k-1]
			}
		}
		return f
	}
	mkFields := func(keys []string, ns []string, ls, cs []int, nt int) any {
		m := map[string]model.Field{}
		for _, k := range keys {
			if mc.Choose(2) == 1 {
				m[k] = mkField(ns, ls, cs, nt)
			}
		}
		return m
	}
	out = append(out,
		mc.Scenario{Name: "index all", Body: func() { roundTrip("index", mkIndex(pick(4, 5), 9)) }},
		mc.Scenario{Name: "counts all", Body: func() { roundTrip("counts", mkCounts(5, counts)) }},
		mc.Scenario{Name: "fields one", Body: func() {
			roundTrip("fields", mkFields([]string{"k"}, []string{"", "n", "\xff\x00", long}, counts, counts, 3))
		}},
		mc.Scenario{Name: "fields two", Body: func() {
			roundTrip("fields", mkFields([]string{"", "n"}, []string{"", "n"}, []int{0, 1<<31 - 1}, []int{0, 1, 1<<31 - 1}, 2))
		}},
		mc.Scenario{Name: "fields many", Body: func() {
			roundTrip("fields", mkFields([]string{"", "n", long, "\x00", "é"}, []string{"x"}, []int{7}, []int{3}, pick(1, 2)))
		}},
		mc.Scenario{Name: "metrics", Body: func() {
			ns := append([]string{"日本語", "name"}, terms...)
			roundTrip("metrics", metric3{ns[mc.Choose(len(ns))], int32(counts[mc.Choose(len(counts))]), int32(counts[mc.Choose(len(counts))])})
		}},
	)
	// map orders
	ord := mc.Config{MapPerm: 4}
	ord.Budget[mc.ClsMap] = -1
	out = append(out,
		mc.Scenario{Name: "index orders", Cfg: mc.Config{MapPerm: 3, Budget: [mc.NClass]int{mc.ClsMap: 2}}, Body: func() { roundTrip("index", mkIndex(3, 3)) }},
		mc.Scenario{Name: "counts orders", Cfg: mc.Config{MapPerm: 4, Budget: [mc.NClass]int{mc.ClsMap: 2}}, Body: func() { roundTrip("counts", mkCounts(4, []int{5})) }},
		mc.Scenario{Name: "fields orders", Cfg: mc.Config{MapPerm: 3, Budget: [mc.NClass]int{mc.ClsMap: 2}}, Body: func() {
			roundTrip("fields", mkFields([]string{"", "n", "o"}, []string{"x"}, []int{7}, []int{3}, 2))
		}},
	)
	// sizes
	ns := []int{}
	for i := 0; i <= pick(70, 300); i++ {
		ns = append(ns, i)
	}
	ns = append(ns, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097)
	if Thorough {
		ns = append(ns, 10000, 32767, 32768, 65535, 65536, 65537, 100000)
	} else {
		ns = append(ns, 65537)
	}
	for part := 0; part < 4; part++ {
		part := part
		out = append(out, mc.Scenario{Name: fmt.Sprint("sizes ", part), Cfg: mc.Config{MaxSteps: 50000000, RealGzip: part == 0}, Body: func() {
			n := ns[mc.Choose(len(ns))]
			switch part {
			case 0:
				m := map[string]int{}
				for i := 0; i < n; i++ {
					m[fmt.Sprint("term", i)] = i * 7919 % (1 << 31)
				}
				roundTrip("counts", m)
			case 1: // many terms
				m := map[string]map[string]bool{}
				for i := 0; i < n; i++ {
					m[fmt.Sprint("term", i)] = map[string]bool{fmt.Sprint("d", i/2): true, "x": true}
				}
				roundTrip("index", m)
			case 2: // many documents in one term
				m := map[string]map[string]bool{"other": {"d1": true}, "t": {}}
				for i := 0; i < n; i++ {
					m["t"][fmt.Sprint("d", i)] = true
				}
				roundTrip("index", m)
			case 3: // many terms in one field
				f := model.Field{Name: "t", Length: n, TF: map[string]int{}}
				for i := 0; i < n; i++ {
					f.TF[fmt.Sprint("w", i)] = i + 1
				}
				roundTrip("fields", map[string]model.Field{"t": f, "u": fld("u", "a b")})
			}
		}})
	}
	out = append(out, mc.Scenario{Name: "string lengths", Body: func() {
		n := ns[mc.Choose(len(ns))]
		s := strings.Repeat("x", n)
		roundTrip("index", map[string]map[string]bool{s: {s: true, "y" + s: true}, "z": {s: true}})
		roundTrip("counts", map[string]int{s: 3, s + "y": 4})
		roundTrip("fields", map[string]model.Field{s: {Name: s, Length: 3, TF: map[string]int{s: 1, s + "z": 2}}})
		roundTrip("metrics", metric3{s, 5, 6})
	}})
	// compression
	depth := pick(5, 6)
	out = append(out, mc.Scenario{Name: fmt.Sprint("compression bytes depth=", depth), Cfg: mc.Config{RealGzip: true}, Body: func() {
		n := mc.Choose(depth + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = []byte{0, 'a', 0x1f, 0xff}[mc.Choose(4)]
		}
		o := append([]byte(nil), b...)
		if g := file.DecompressData(file.CompressData(b)); !bytes.Equal(g, o) || !bytes.Equal(b, o) {
			mc.Failf("codec", "%q decompresses to %q", o, g)
		}
	}})
	out = append(out, mc.Scenario{Name: "compression sizes", Cfg: mc.Config{RealGzip: true}, Body: func() {
		szs := []int{0, 1, 100, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 70000, 300000, 1 << 20}
		n := szs[mc.Choose(len(szs))]
		mode := mc.Choose(3)
		b := make([]byte, n)
		x := uint32(1)
		for i := range b {
			x = x*1664525 + 1013904223
			switch mode {
			case 0:
				b[i] = byte(x >> 24)
			case 1:
				b[i] = byte(i / 100)
			}
		}
		o := append([]byte(nil), b...)
		z := file.CompressData(b)
		z2 := file.CompressData(b[:n/2])
		if g := file.DecompressData(z); !bytes.Equal(g, o) || !bytes.Equal(b, o) {
			mc.Failf("codec", "%d bytes do not survive compression (%d back)", n, len(g))
		}
		g2 := file.DecompressData(z2)
		if g := file.DecompressData(z); !bytes.Equal(g2, o[:n/2]) || !bytes.Equal(g, o) {
			mc.Failf("codec", "compressing again disturbed an earlier result")
		}
	}})
	// concurrently: the flush goroutines encode at the same time
	for i, ks := range [][]string{{"index", "counts"}, {"fields", "metrics"}, {"index", "index"}, {"fields", "fields"}, {"counts", "counts"}, {"metrics", "metrics", "counts"}} {
		ks := ks
		cfg := mc.Config{Race: true, FreeSwitch: true}
		cfg.Budget[mc.ClsSched] = 3
		out = append(out, mc.Scenario{Name: fmt.Sprintf("concurrent %d %v", i, ks), Cfg: cfg, Body: func() {
			vals := map[string]any{
				"index":   map[string]map[string]bool{"a": {"1": true, "2": true}, "b": {"": true}},
				"counts":  map[string]int{"a": 1, "b": 2},
				"fields":  map[string]model.Field{"t": fld("t", "a b a"), "u": fld("u", "c")},
				"metrics": metric3{"n", 3, 4},
			}
			var fs []func()
			var nm []string
			for j, k := range ks {
				j, k := j, k
				nm = append(nm, fmt.Sprint("task", j))
				fs = append(fs, func() {
					mc.Event()
					z := file.CompressData(codecs[k].enc(vals[k]))
					mc.Event()
					if v := codecs[k].dec(file.DecompressData(z)); !codecs[k].eq(v, vals[k]) {
						mc.Failf("codec", "%s encoded concurrently decodes to %s", k, brief(v))
					}
				})
			}
			mc.Tasks(nm, fs...)
		}})
	}
	return out
}
