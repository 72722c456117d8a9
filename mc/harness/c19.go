package zzharness

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/field"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C19", Scns: c19,
		Rule:  "All JSON objects up to the stated depth and width over small alphabets of keys (plain, empty, dotted, accented, 'Id') and leaf values (strings, numbers, booleans, null, empty and nested arrays), in several spellings; every map iteration order within the stated bound; all id values of a list of strings, numbers and null at the top level and below, in objects of up to three keys; two flattenings of one object at once with race detection.",
		Notes: []string{"numbers are what encoding/json makes of them (double precision)"}}
}

// jn is a JSON value: an object or a leaf.
type jn struct {
	obj  bool
	keys []string
	vals []*jn
	leaf string // JSON text
}

var c19leaves = []string{`"x"`, `1`, `null`, `[]`, `true`, `""`, `-0.5`, `[1,{"a":{"b":2}},[null]]`, `"{\"a\":1}"`, `"\u00e9\n"`, `1e300`, `false`, `[{"a":1}]`, `[{}]`, `[["x"]]`, `["a"]`, `[null]`, `[{"a":{"b":[{"c":1}]}},{"a":2}]`}

// gen enumerates objects: depth levels of nesting, up to width keys, nk keys and nl leaf values to choose from.
func c19gen(depth, width, nl int, keys []string) *jn {
	n := &jn{obj: true}
	w := mc.Choose(width + 1)
	at := 0
	for i := 0; i < w && at < len(keys); i++ {
		at += mc.Choose(len(keys) - at)
		n.keys = append(n.keys, keys[at])
		at++
		alts := nl
		if depth > 1 {
			alts++
		}
		if k := mc.Choose(alts); k < nl {
			n.vals = append(n.vals, &jn{leaf: c19leaves[k]})
		} else {
			n.vals = append(n.vals, c19gen(depth-1, width, nl, keys))
		}
	}
	return n
}

func (n *jn) text(b *strings.Builder, style int) {
	if !n.obj {
		b.WriteString(n.leaf)
		return
	}
	sp := []string{"", " ", "\n\t"}[style]
	b.WriteString("{" + sp)
	for i := range n.keys {
		k := i
		if style == 1 {
			k = len(n.keys) - 1 - i
		}
		if i > 0 {
			b.WriteString("," + sp)
		}
		q, _ := json.Marshal(n.keys[k])
		b.Write(q)
		b.WriteString(sp + ":" + sp)
		n.vals[k].text(b, style)
	}
	b.WriteString(sp + "}")
}

// paths collects the leaves; it reports false when two have the same path.
func (n *jn) paths(at []string, out map[string]interface{}) bool {
	if !n.obj {
		var v interface{}
		if err := json.Unmarshal([]byte(n.leaf), &v); err != nil {
			panic(err)
		}
		p := strings.Join(at, ".")
		if _, ok := out[p]; ok {
			return false
		}
		out[p] = v
		return true
	}
	for i, k := range n.keys {
		if !n.vals[i].paths(append(at[:len(at):len(at)], k), out) {
			return false
		}
	}
	return true
}

func (n *jn) value() interface{} {
	if !n.obj {
		var v interface{}
		json.Unmarshal([]byte(n.leaf), &v)
		return v
	}
	m := map[string]interface{}{}
	for i, k := range n.keys {
		m[k] = n.vals[i].value()
	}
	return m
}

func c19flat(n *jn, style int) {
	want := map[string]interface{}{}
	if !n.paths(nil, want) {
		return
	}
	var b strings.Builder
	n.text(&b, style)
	in := field.StringToObject(b.String())
	if !reflect.DeepEqual(in, n.value()) {
		mc.Failf("flatten", "StringToObject(%s) = %v", b.String(), in)
	}
	got := field.Flatten(in)
	if !reflect.DeepEqual(got, want) {
		mc.Failf("flatten", "%s flattens to %v, want %v", b.String(), got, want)
	}
	if !reflect.DeepEqual(in, n.value()) {
		mc.Failf("flatten", "flattening %s changed it to %v", b.String(), in)
	}
	got["scribble"] = 1
	if again := field.Flatten(in); !reflect.DeepEqual(again, want) {
		mc.Failf("flatten", "%s flattens to %v the second time, want %v", b.String(), again, want)
	}
	// flattening what is flat already changes nothing
	delete(got, "scribble")
	if again := field.Flatten(got); !reflect.DeepEqual(again, want) {
		mc.Failf("flatten", "%v flattens to %v", got, again)
	}
}

type c19id struct {
	text string
	want string
}

func c19ids() []c19id {
	out := []c19id{{``, ""}, {`null`, ""}}
	for _, s := range []string{"", "a", "0", " x ", "%s", "%!s(int=1)", "100%", "null", "é", "1e5", "a.b", "\x00", "\"q\"", "<nil>", "map[]", "..", "日本", "\\", "e\u0301", strings.Repeat("long", 100)} {
		q, _ := json.Marshal(s)
		out = append(out, c19id{string(q), s})
	}
	out = append(out, c19id{`"\u0041\/"`, "A/"})
	for _, n := range []string{"0", "1", "-1", "7", "10", "42", "100", "123456", "999999", "1000000", "1000001", "12345678", "20170101", "2147483647", "2147483648", "4294967296", "-2147483649", "100000000000", "9007199254740991", "9007199254740992", "-9007199254740992", "1000000000000000000", "100000000000000000000", "1000000000000000000000", "0.5", "-0.5", "1.25", "0.1", "3.14159", "0.000001", "0.0000001", "123456.789"} {
		out = append(out, c19id{n, n})
	}
	for _, p := range [][2]string{{"1e3", "1000"}, {"1E+2", "100"}, {"5e-1", "0.5"}, {"1.0", "1"}, {"2.50", "2.5"}, {"1e21", "1000000000000000000000"}, {"1e22", "10000000000000000000000"}, {"123e-2", "1.23"}, {"1e-7", "0.0000001"}} {
		out = append(out, c19id{p[0], p[1]})
	}
	return out
}

func c19checkID(text, want string) {
	in := field.StringToObject(text)
	if got := field.GetID(in); got != want {
		mc.Failf("id", "GetID of %s is %q, want %q", cut(text), cut(got), cut(want))
	}
	flat := field.Flatten(in)
	if got := field.GetID(flat); got != want {
		mc.Failf("id", "GetID of %s after flattening is %q, want %q", cut(text), cut(got), cut(want))
	}
	var again map[string]interface{}
	json.Unmarshal([]byte(text), &again)
	if !reflect.DeepEqual(in, again) {
		mc.Failf("id", "GetID changed %s", text)
	}
}

func c19() []mc.Scenario {
	var out []mc.Scenario
	sets := []struct {
		name             string
		depth, width, nl int
		keys             []string
	}{
		{"wide keys", 2, 2, 3, []string{"a", "b", "", "Id", "a.b", "é"}},
		{"all leaves", 1, 2, len(c19leaves), []string{"a", "Id", "b.c"}},
		{"all leaves below", 2, 1, len(c19leaves), []string{"a", "Id", "b.c", "", "id"}},
		{"deep chains", pick(6, 8), 1, 2, []string{"a", ""}},
		{"three keys", 1, 3, 4, []string{"a", "b", "c", ""}},
		{"depth 3", 3, 2, 1, []string{"a", "", "b"}},
	}
	if Thorough {
		sets = append(sets, struct {
			name             string
			depth, width, nl int
			keys             []string
		}{"depth 3, two leaves", 3, 2, 2, []string{"a", "", "b"}}, struct {
			name             string
			depth, width, nl int
			keys             []string
		}{"depth 2, three keys", 2, 3, 2, []string{"a", "a.b", "b"}})
	}
	for i, s := range sets {
		for style := 0; style < 3; style++ {
			if style > 0 && i > 1 {
				continue
			}
			s, style := s, style
			out = append(out, mc.Scenario{Name: fmt.Sprintf("objects %s depth=%d width=%d leaves=%d keys=%q style=%d", s.name, s.depth, s.width, s.nl, s.keys, style), Body: func() {
				c19flat(c19gen(s.depth, s.width, s.nl, s.keys), style)
			}})
		}
	}
	ord := mc.Config{MapPerm: 4}
	ord.Budget[mc.ClsMap] = pick(3, 5)
	for _, t := range []string{`{"a":1,"b":{"a":2,"b":3},"c":[1]}`, `{"Id":"x","a":{"Id":"y"},"b":{"c":{"Id":"z"}}}`, `{"a":{"b":{"c":1,"d":2},"e":{"c":3,"d":4}}}`, `{"a":null,"Id":5,"":{"":0}}`} {
		t := t
		out = append(out, mc.Scenario{Name: "orders " + t, Cfg: ord, Body: func() {
			var v map[string]interface{}
			json.Unmarshal([]byte(t), &v)
			want := map[string]interface{}{}
			c19ref("", v, want, true)
			if got := field.Flatten(v); !reflect.DeepEqual(got, want) {
				mc.Failf("flatten", "%s flattens to %v, want %v", t, got, want)
			}
			id := ""
			switch x := v["Id"].(type) {
			case string:
				id = x
			case float64:
				id = strconv.Itoa(int(x))
			}
			if got := field.GetID(v); got != id {
				mc.Failf("id", "GetID of %s is %q, want %q", t, got, id)
			}
		}})
	}
	out = append(out, mc.Scenario{Name: "sizes", Cfg: mc.Config{MaxSteps: 20000000}, Body: func() {
		ns := []int{127, 128, 129, 255, 256, 257, 300, 1000, 1025}
		for i := 1; i <= 70; i++ {
			ns = append(ns, i)
		}
		n := ns[mc.Choose(len(ns))]
		mode := mc.Choose(6)
		leaf := func(s string) *jn { return &jn{leaf: s} }
		top := &jn{obj: true}
		add := func(o *jn, k string, v *jn) { o.keys, o.vals = append(o.keys, k), append(o.vals, v) }
		switch mode {
		case 0: // deep
			o := top
			for i := 0; i < n; i++ {
				in := &jn{obj: true}
				add(o, fmt.Sprint("k", i), in)
				add(o, "x", leaf(strconv.Itoa(i)))
				o = in
			}
			add(o, "leaf", leaf("1"))
		case 1: // wide
			for i := 0; i < n; i++ {
				add(top, fmt.Sprint("k", i), leaf(strconv.Itoa(i)))
			}
		case 2: // many objects
			for i := 0; i < n; i++ {
				in := &jn{obj: true}
				add(in, "a", leaf(strconv.Itoa(i)))
				add(in, "b", leaf(`"s"`))
				add(top, fmt.Sprint("k", i), in)
			}
		case 3: // a long key above and below
			k := strings.Repeat("k", n)
			in := &jn{obj: true}
			add(in, k+"y", leaf("2"))
			add(top, k, leaf("1"))
			add(top, k+"x", in)
		case 4: // a long value, and a long array
			add(top, "a", leaf(`"`+strings.Repeat("v", n)+`"`))
			add(top, "b", leaf("["+strings.Repeat("1,", n-1)+"1]"))
		case 5: // many fields in one inner object
			in := &jn{obj: true}
			for i := 0; i < n; i++ {
				add(in, fmt.Sprint("k", i), leaf(strconv.Itoa(i)))
			}
			add(top, "a", in)
			add(top, "b", leaf("null"))
		}
		c19flat(top, 0)
	}})
	ids := c19ids()
	iord := mc.Config{MapPerm: 4}
	iord.Budget[mc.ClsMap] = 2
	out = append(out, mc.Scenario{Name: "ids", Cfg: iord, Body: func() {
		id := ids[mc.Choose(len(ids))]
		rest := []string{``, `"id":"other"`, `"a":{"Id":"inner"}`, `"ID":7,"Id ":8`, `"a":{"b":{"Id":null}},"z":1`}[mc.Choose(5)]
		parts := []string{}
		if id.text != "" {
			parts = append(parts, `"Id":`+id.text)
		}
		if rest != "" {
			parts = append(parts, rest)
		}
		c19checkID("{"+strings.Join(parts, ",")+"}", id.want)
	}})
	// every whole number of a range, and powers around which number formats change
	out = append(out, mc.Scenario{Name: "number ids", Cfg: mc.Config{MaxSteps: 20000000}, Body: func() {
		b := mc.Choose(pick(64, 250))
		for i := b * 512; i < (b+1)*512; i++ {
			c19checkID(fmt.Sprintf(`{"Id":%d}`, i), strconv.Itoa(i))
			c19checkID(fmt.Sprintf(`{"Id":%d}`, -i-1), strconv.Itoa(-i-1))
			c19checkID(fmt.Sprintf(`{"Id":%d}`, i*1000003), strconv.Itoa(i*1000003))
		}
		if b < 53 {
			for d := -3; d <= 3; d++ {
				v := int64(math.Pow(2, float64(b))) + int64(d)
				c19checkID(fmt.Sprintf(`{"Id":%d}`, v), strconv.FormatInt(v, 10))
			}
		}
	}})
	for _, t := range []string{`{"a":1,"b":{"a":2,"b":3},"Id":"q"}`} {
		t := t
		cfg := mc.Config{Race: true, FreeSwitch: true}
		cfg.Budget[mc.ClsSched] = -1
		out = append(out, mc.Scenario{Name: "two at once", Cfg: cfg, Body: func() {
			v := field.StringToObject(t)
			want := map[string]interface{}{}
			c19ref("", v, want, true)
			f := func() {
				if got := field.Flatten(v); !reflect.DeepEqual(got, want) {
					mc.Failf("flatten", "%s flattens to %v, want %v", t, got, want)
				}
				if got := field.GetID(v); got != "q" {
					mc.Failf("id", "GetID of %s is %q", t, got)
				}
			}
			mc.Tasks([]string{"one", "two"}, f, f)
		}})
	}
	return out
}

func c19ref(at string, v map[string]interface{}, out map[string]interface{}, top bool) {
	for k, x := range v {
		p := at + "." + k
		if top {
			p = k
		}
		if m, ok := x.(map[string]interface{}); ok {
			c19ref(p, m, out, false)
		} else {
			out[p] = x
		}
	}
}
