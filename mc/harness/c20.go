package zzharness

// needs: main
// uses: c18.go

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"sort"
	"strings"

	"github.com/gin-gonic/gin"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/model"

	"zzmc/mc"
)

func init() {
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	prop = &Property{ID: "C20", Scns: c20,
		Rule: "The real main with its router and handlers, started as a process (only the listening socket is replaced). All sequences up to the stated length of posts (new documents, new versions, malformed and id-less bodies), searches, idle periods and restarts; all ordered pairs of a family of well-formed and malformed bodies and of hostile ids; every number of hits from 0 to 25 and more; the service dying at every file operation, started again and going on; all interleavings within a bound of two and three requests at once, with race detection. Every answer (status, number, ids, similarity, order) is compared with an independent definition of analysis, BM25 and ranking."}
}

type c20hit struct {
	id    string
	score float64
}

// c20req sends one request to the service and waits for the answer.
type c20resp struct {
	code int
	body []byte
	fail string
}

type c20svc struct {
	p *mc.Proc
	h http.Handler
	r *Ref
}

func c20start(r *Ref) *c20svc {
	if mainFn == nil {
		mc.Failf("harness", "no main function")
	}
	p := mc.StartProc("service", mainFn)
	h, _ := p.Handler().(http.Handler)
	if h == nil {
		mc.Failf("died", "the service does not start: %s", p.Bad())
	}
	return &c20svc{p, h, r}
}

func (s *c20svc) alive() {
	if b := s.p.Bad(); b != "" || s.p.Doomed() {
		mc.Failf("died", "the service died: %s", b)
	}
}

// send performs one request in the calling goroutine, the way a server's connection goroutine does.
func (s *c20svc) send(method, target, body string, out *c20resp) {
	defer func() {
		if v := recover(); v != nil {
			buf := make([]byte, 3000)
			out.fail = fmt.Sprintf("panic: %v\n%s", v, buf[:runtime.Stack(buf, false)])
		}
	}()
	req := httptest.NewRequest(method, target, strings.NewReader(body))
	req.Header.Set("Content-Type", "application/json")
	w := httptest.NewRecorder()
	s.h.ServeHTTP(w, req)
	out.code, out.body = w.Code, w.Body.Bytes()
}

// do sends one request from a goroutine of the service's own and waits.
func (s *c20svc) do(method, target, body string) c20resp {
	var out c20resp
	done := false
	mc.GoIn(s.p, "request", func() { s.send(method, target, body, &out) }, func() { done = true })
	mc.Join("request", func() bool { return done || s.p.Doomed() })
	s.alive()
	if out.fail != "" {
		mc.Failf("request", "%s %s %.300q: %s", method, target, body, out.fail)
	}
	return out
}

// c20doc is the independent reading of a body: nil if it must be refused.
func c20doc(body string) map[string]string {
	var v any
	if json.Unmarshal([]byte(body), &v) != nil {
		return nil
	}
	m, ok := v.(map[string]any)
	if !ok {
		return nil
	}
	d := map[string]string{"id": "", "title": "", "text": ""}
	for k := range d {
		switch x := m[k].(type) {
		case string:
			d[k] = x
		case nil:
		default:
			return nil
		}
	}
	if d["id"] == "" {
		return nil
	}
	return d
}

func c20apply(r *Ref, d map[string]string) {
	for _, k := range []string{"id", "title", "text"} {
		f := model.Field{Name: k, TF: map[string]int{}}
		for _, w := range refAnalyse(d[k], language.English) {
			f.TF[w]++
			f.Length++
		}
		r.save(d["id"], f)
	}
}

func (s *c20svc) post(body string) {
	d := c20doc(body)
	out := s.do("POST", "/nir", body)
	want := 400
	if d != nil {
		want = 201
		c20apply(s.r, d)
	}
	if out.code != want {
		mc.Failf("post", "POST %.300q is answered %d %.200q, want %d", body, out.code, out.body, want)
	}
}

func c20target(q string) string { return "/nir?query=" + url.QueryEscape(q) }

func c20query(q string) []model.Query {
	ts := refAnalyse(q, language.English)
	return []model.Query{sub("title", 1, ts...), sub("text", 1, ts...)}
}

// c20parse reads an answer to a search.
func c20parse(q string, out c20resp) []c20hit {
	if out.fail != "" {
		mc.Failf("request", "search for %q: %s", q, out.fail)
	}
	if out.code != 200 {
		mc.Failf("search", "a search for %q is answered %d %.200q", q, out.code, out.body)
	}
	var b struct {
		Total        *int `json:"total"`
		QueryResults []struct {
			Similarity *float64 `json:"similarity"`
			Document   struct {
				Id string `json:"id"`
			} `json:"document"`
		} `json:"queryResults"`
	}
	if err := json.Unmarshal(out.body, &b); err != nil || b.Total == nil {
		mc.Failf("search", "a search for %q is answered with %.300q: %v", q, out.body, err)
	}
	var hits []c20hit
	for _, h := range b.QueryResults {
		if h.Similarity == nil {
			mc.Failf("search", "search for %q: a hit without similarity", q)
		}
		hits = append(hits, c20hit{h.Document.Id, *h.Similarity})
	}
	if *b.Total != len(hits) {
		mc.Failf("search", "search for %q: total is %d with %d hits", q, *b.Total, len(hits))
	}
	return hits
}

// c20diff compares hits with the reference scores of all matching documents.
func c20diff(hits []c20hit, want map[string]float64) string {
	n := len(want)
	if n > 10 {
		n = 10
	}
	if len(hits) != n {
		return fmt.Sprintf("%d hits, want %d (of %d)", len(hits), n, len(want))
	}
	var scores []float64
	for _, w := range want {
		scores = append(scores, w)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(scores)))
	seen := map[string]bool{}
	for i, h := range hits {
		w, ok := want[h.id]
		switch {
		case seen[h.id]:
			return fmt.Sprintf("document %q twice", h.id)
		case !ok:
			return fmt.Sprintf("document %q does not match", h.id)
		case !close2(h.score, w) || math.IsNaN(h.score):
			return fmt.Sprintf("similarity of %q is %v, want %v", h.id, h.score, w)
		case !close2(h.score, scores[i]):
			return fmt.Sprintf("hit %d is %q with %v, the best one left has %v", i, h.id, h.score, scores[i])
		}
		seen[h.id] = true
	}
	return ""
}

func (s *c20svc) search(q, when string) {
	hits := c20parse(q, s.do("GET", c20target(q), ""))
	if m := c20diff(hits, s.r.search(c20query(q))); m != "" {
		mc.Failf("search", "%s: search for %q: %s", when, q, m)
	}
}

func (s *c20svc) restart() *c20svc {
	secs(idle)
	s.alive()
	s.p.Kill()
	return c20start(s.r)
}

func c20body(id, title, text string) string {
	b, _ := json.Marshal(map[string]string{"id": id, "title": title, "text": text})
	return string(b)
}

// bodies of every kind; none has keys that differ in case only, or anything after the value.
var c20bodies = []string{
	`{"id":"b0","title":"The quick brown foxes","text":"jumped over the lazy dogs"}`,
	`{"id":"b1","title":"FOXES","text":""}`,
	`{"id":"b2","text":"dog's cafés, naïve Über-fox; dogs' running"}`,
	`{"id":"b3","title":"lazy lazy lazy dog"}`,
	`{"id":"b4"}`,
	`{"id":"b5","title":null,"text":null}`,
	`{"id":"b6","title":"the of and","text":"a an the"}`,
	`{"id":"b7","title":"'' ' !!! --","text":"fox \ud83d\ude00 \u0000 dog"}`,
	`{"id":"b8","title":"Fox","text":"fox","extra":{"id":"x","l":[1,2]}}`,
	`{"text":"fox","title":"dog","id":"b9"}`,
	` {"id" : "b10" , "title" : "brown 12 3rd fox" }` + "\n",
	`{"id":"b 11/../x%2F\"\\","title":"lazy fox"}`,
	`{"id":"É\u00e9日本","title":"日本 fox"}`,
	`{"id":"` + strings.Repeat("long", 100) + `","title":"fox dog"}`,
	`{"id":" ","title":"fox space"}`,
	`{"id":".","title":"fox dot"}`,
	`{"id":"docs","title":"dog docs"}`,
	`{"id":"the","title":"stop fox"}`,
	`{"id":"b12","title":"` + strings.Repeat("fox ", 300) + `dog"}`,
	// refused
	``, ` `, `{`, `}`, `{"id":"m0","title":"fox"`, `{"id":"m1","title":fox}`, `{"id":"m2" "title":"fox"}`, `not json fox`, `[{"id":"m3","title":"fox"}]`, `"m4"`, `5`, `null`, `true`,
	`{"id":5,"title":"fox"}`, `{"id":["m5"],"title":"fox"}`, `{"id":{"id":"m6"},"title":"fox"}`, `{"id":"m7","title":5}`, `{"id":"m8","text":["fox"]}`, `{"id":"m9","title":{"fox":"fox"}}`, `{"id":true}`,
	`{}`, `{"id":""}`, `{"id":"","title":"fox","text":"dog"}`, `{"id":null,"title":"fox"}`, `{"title":"fox","text":"fox dog"}`, `{"name":"m10","title":"fox"}`,
}

var c20searches = []string{"fox", "DOGS lazy", "the", "", "café naive 3rd", "nothing", "quick brown foxes jumped", "fox fox dog", "running über-dog's", "日本 12", "stop & space/dot?docs=1 %", "dog'"}

func (s *c20svc) all(when string) {
	for _, q := range c20searches {
		s.search(q, when)
	}
}

func c20() []mc.Scenario {
	var out []mc.Scenario
	// concurrent requests
	type kase struct {
		init  []string
		tasks []string // "p body" or "g query", several after ";;"
		lvl   int
	}
	few := []string{c20body("d0", "fox dog", "lazy"), c20body("d1", "fox", "fox fox dog")}
	np := func(id, t string) string { return "p " + c20body(id, t, "") }
	nb := func(id, t, x string) string { return "p " + c20body(id, t, x) }
	for i, k := range []kase{
		{nil, []string{np("d0", "fox"), "g fox"}, 1},
		{nil, []string{np("d0", "fox"), np("d1", "fox")}, 2},
		{few, []string{np("d2", "fox"), "g fox dog"}, 1},
		{few, []string{nb("d2", "fox", "lazy dog"), "g fox dog"}, 1},
		{few, []string{"g fox", "g dog"}, 1},
		{few, []string{"g fox dog lazy", "g fox dog lazy"}, 1},
		{few, []string{np("d2", "fox"), np("d3", "dog fox"), "g fox"}, 1},
		{few, []string{"g fox", "g lazy", "g nothing"}, 1},
		{few, []string{np("d2", "fox") + ";;g fox", np("d3", "fox") + ";;g fox"}, 1},
		{few, []string{"p {", np("d2", "dog"), "g dog"}, 1},
		{few, []string{`p {"title":"fox"}`, "g fox"}, 1},
	} {
		i, k := i, k
		cfg := mc.Config{Race: true, NumCPU: 1 + i%2}
		cfg.Budget[mc.ClsSched] = k.lvl
		if Thorough {
			cfg.Budget[mc.ClsSched]++
		}
		out = append(out, mc.Scenario{Name: fmt.Sprintf("concurrent %d init=%d %d tasks", i, len(k.init), len(k.tasks)), Cfg: cfg, Body: func() { c20concurrent(k.init, k.tasks) }})
	}
	// bodies
	for first := range c20bodies {
		first := first
		out = append(out, mc.Scenario{Name: fmt.Sprintf("bodies %d %.30q", first, c20bodies[first]), Body: func() {
			s := c20start(newRef())
			s.post(c20bodies[first])
			s.all("after one post")
			s.post(c20bodies[mc.Choose(len(c20bodies))])
			s.all("after two posts")
			s = s.restart()
			s.all("after a restart")
		}})
	}
	// deaths
	d2 := c20body("d2", "fox cat", "fox")
	for _, c := range []struct {
		name  string
		steps []string
		n     int
	}{
		{"first posts", []string{few[0], few[1], "idle"}, 2},
		{"new documents", []string{few[0], "idle", few[1], d2, "idle"}, 1},
		{"new versions", []string{few[0], few[1], "idle", c20body("d0", "cat", "lazy fox"), c20body("d1", "dog", ""), "idle"}, 1},
		{"one flush of several", []string{"p 25.5", few[0], "p 6", few[1], "p 10", d2, "p 15"}, 1},
		{"one flush of several, beside old", []string{few[0], "idle", "p 2.3", d2, "p 3", few[1], "p 14"}, 1},
	} {
		c := c
		cfg := mc.Config{Torn: 2, MaxSteps: 3000000}
		cfg.Budget[mc.ClsCrash] = pick(c.n, 2)
		out = append(out, mc.Scenario{Name: "deaths: " + c.name, Cfg: cfg, Body: func() { c20dying(c.steps) }})
	}
	// large requests
	for i, n := range []int{100, 1000, 5000, 20000, 70000} {
		i, n := i, n
		out = append(out, mc.Scenario{Name: fmt.Sprintf("large requests %d", n), Cfg: mc.Config{MaxSteps: 8000000, NumCPU: 1 + i%3}, Body: func() {
			s := c20start(newRef())
			var bodies []string
			long := strings.Repeat("x", n)
			bodies = append(bodies, c20body("l0", long+" fox", "dog"), c20body("l1", "fox", strings.Repeat("the ", n/4)+"fox"), `{"extra":"`+long+`","id":"l2","title":"fox dog"}`, c20body("l3", "dog", strings.Repeat(" -/", n/3)+"fox"))
			many, some := "", ""
			for k := 0; len(many) < n && k < 1500; k++ {
				many += fmt.Sprintf("w%d ", k)
				if k < 120 {
					some += fmt.Sprintf("w%d ", k)
				}
			}
			bodies = append(bodies, c20body("l4", many, "fox"))
			if n < 100000 {
				bodies = append(bodies, c20body("i"+long, "fox fox", many))
			}
			for _, b := range bodies {
				s.post(b)
			}
			qs := []string{"fox", "dog", long, "w0 w7", some + " fox"}
			for _, q := range qs {
				s.search(q, "large")
			}
			s = s.restart()
			for _, q := range qs {
				s.search(q, "large, after a restart")
			}
		}})
	}
	// numbers of hits
	var counts []int
	for n := 0; n < pick(26, 60); n++ {
		counts = append(counts, n)
	}
	counts = append(counts, 64, 101, 257)
	for _, n := range counts {
		n := n
		out = append(out, mc.Scenario{Name: fmt.Sprintf("hits %d", n), Cfg: mc.Config{MaxSteps: 3000000, NumCPU: 1 + n%3}, Body: func() {
			shape := mc.Choose(4)
			others := mc.Choose(3)
			s := c20start(newRef())
			for i := 0; i < n+others; i++ {
				w := "fox"
				if i >= n {
					w = "cat"
				}
				t, x := w, ""
				switch shape {
				case 1:
					t = strings.TrimSpace(strings.Repeat(w+" ", 1+i*7%n1(n))) + strings.Repeat(" pad", i*3%5)
				case 2:
					t, x = "pad", strings.Repeat(w+" ", 1+i%3)
				case 3:
					t, x = strings.Repeat("pad ", i%4), w
					if i%2 == 0 {
						t += w
					}
				}
				s.post(c20body(fmt.Sprint("doc", i), t, x))
			}
			for _, q := range []string{"fox", "cat", "fox cat", "foxes pad", "none"} {
				s.search(q, fmt.Sprintf("%d hits of shape %d", n, shape))
			}
		}})
	}
	// sequences
	ops := []string{
		"p " + few[0], "p " + few[1], "p " + c20body("d0", "cat", "fox"), "p " + c20body("d2", "", "dog cat"), "p " + c20body("d1", "fox", "dog"), `p {"id":"d3","title":"fox"`, `p {"id":"","title":"fox dog"}`, "idle", "restart",
	}
	depth := pick(4, 5)
	for first := range ops {
		for second := range ops {
			first, second := first, second
			out = append(out, mc.Scenario{Name: fmt.Sprintf("sequences of %d from %d %d", depth, first, second), Body: func() {
				s := c20start(newRef())
				for k := 0; k < depth; k++ {
					op := ops[first]
					if k == 1 {
						op = ops[second]
					} else if k > 1 {
						op = ops[mc.Choose(len(ops))]
					}
					switch op {
					case "idle":
						secs(idle)
					case "restart":
						s = s.restart()
					default:
						s.post(op[2:])
					}
					for _, q := range []string{"fox", "dog lazy", "cat", "fox cat", "lazy"} {
						s.search(q, fmt.Sprint("after step ", k))
					}
				}
			}})
		}
	}
	return out
}

func n1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

// c20dying plays the steps; the service dies at file operations and is started again.
func c20dying(steps []string) {
	type versions struct {
		docs    []map[string]string
		flushed int
	}
	all := map[string]*versions{}
	has := func(text, q string) bool {
		for _, w := range refAnalyse(text, language.English) {
			for _, t := range refAnalyse(q, language.English) {
				if w == t {
					return true
				}
			}
		}
		return false
	}
	// request reports whether the service lived through it
	request := func(s *c20svc, method, target, body string, out *c20resp) bool {
		done := false
		if s.p.Doomed() {
			return false
		}
		mc.GoIn(s.p, "request", func() { s.send(method, target, body, out) }, func() { done = true })
		mc.Join("request", func() bool { return done || s.p.Doomed() })
		if out.fail != "" && !s.p.Crashed {
			mc.Failf("request", "%s %s %.300q: %s", method, target, body, out.fail)
		}
		return !s.p.Doomed()
	}
	verify := func(s *c20svc, when string) bool {
		for _, q := range []string{"fox", "dog lazy", "fox cat", "cat"} {
			var out c20resp
			if !request(s, "GET", c20target(q), "", &out) {
				return false
			}
			hits := c20parse(q, out)
			found := map[string]bool{}
			for i, h := range hits {
				v := all[h.id]
				ok := false
				if v != nil {
					for k, d := range v.docs {
						ok = ok || k+1 >= v.flushed && (has(d["title"], q) || has(d["text"], q))
					}
				}
				switch {
				case !ok:
					mc.Failf("search", "%s: search for %q finds %q, which never had that", when, q, h.id)
				case found[h.id]:
					mc.Failf("search", "%s: search for %q finds %q twice", when, q, h.id)
				case !(h.score >= 0 && h.score < 1e300) || i > 0 && h.score > hits[i-1].score:
					mc.Failf("search", "%s: search for %q has the similarities %v", when, q, hits)
				}
				found[h.id] = true
			}
			for _, id := range mc.Keys(all) {
				v := all[id]
				if v.flushed == 0 || found[id] {
					continue
				}
				for _, f := range []string{"title", "text"} {
					every := true
					for _, d := range v.docs[v.flushed-1:] {
						every = every && has(d[f], q)
					}
					if every {
						mc.Failf("search", "%s: search for %q lacks %q, which was flushed", when, q, id)
					}
				}
			}
		}
		return true
	}
	k := 0
	start := func() *c20svc {
		p := mc.StartProc("service", mainFn)
		h, _ := p.Handler().(http.Handler)
		if b := p.Bad(); b != "" {
			mc.Failf("died", "the service died, before step %d: %s", k, b)
		}
		return &c20svc{p, h, nil}
	}
	for again := true; again; {
		mc.SetCrash(true)
		s := start()
		again = !(s.h != nil && !s.p.Doomed() && verify(s, fmt.Sprint("before step ", k)))
		fresh := map[string]bool{} // accepted by this process
		for !again && k < len(steps) {
			op := steps[k]
			k++
			switch {
			case op == "idle":
				secs(idle)
				if !s.p.Doomed() {
					for id := range fresh {
						all[id].flushed = len(all[id].docs)
					}
				}
			case op[:2] == "p ":
				n := 0.0
				fmt.Sscanf(op[2:], "%g", &n)
				secs(n)
			default:
				d := c20doc(op)
				if all[d["id"]] == nil {
					all[d["id"]] = &versions{}
				}
				all[d["id"]].docs = append(all[d["id"]].docs, d)
				var out c20resp
				if request(s, "POST", "/nir", op, &out) {
					fresh[d["id"]] = true
					if out.code != 201 {
						mc.Failf("post", "a post is answered %d", out.code)
					}
				}
			}
			again = s.p.Doomed()
		}
		mc.SetCrash(false)
		if b := s.p.Bad(); b != "" {
			mc.Failf("died", "the service died: %s", b)
		}
		if !s.p.Doomed() {
			s.p.Kill()
		}
	}
	// a service that lives on
	s := start()
	if s.h == nil {
		mc.Failf("died", "the service does not start")
	}
	verify(s, "at the end")
	for _, id := range []string{"d0", "d9"} {
		d := map[string]string{"id": id, "title": "cat", "text": "new fox"}
		if all[id] == nil {
			all[id] = &versions{}
		}
		all[id].docs = append(all[id].docs, d)
		all[id].flushed = len(all[id].docs) // and found at once
		if out := s.do("POST", "/nir", c20body(id, d["title"], d["text"])); out.code != 201 {
			mc.Failf("post", "a post is answered %d", out.code)
		}
		verify(s, "posting again")
	}
	secs(idle)
	verify(s, "flushed again")
	s.p.Kill()
	s = start()
	verify(s, "started again")
}

type c20op struct {
	call, ret int
	doc       map[string]string
	q         string
	hits      []c20hit
}

func c20concurrent(init, tasks []string) {
	mc.FreezeSched(true)
	s := c20start(newRef())
	for _, b := range init {
		s.post(b)
	}
	base := s.r
	var ops []*c20op
	t := 0
	mc.FreezeSched(false)
	var outs []*c20resp
	ended := 0
	for k, list := range tasks {
		list := strings.Split(list, ";;")
		mc.GoIn(s.p, fmt.Sprint("request", k), func() {
			for _, op := range list {
				o := &c20op{}
				mc.Event()
				t++
				o.call = t
				ops = append(ops, o)
				var r c20resp
				outs = append(outs, &r)
				if op[0] == 'p' {
					o.doc = c20doc(op[2:])
					s.send("POST", "/nir", op[2:], &r)
					want := 201
					if o.doc == nil {
						want = 400
					}
					if r.fail == "" && r.code != want {
						r.fail = fmt.Sprintf("answered %d, want %d", r.code, want)
					}
				} else {
					o.q = op[2:]
					s.send("GET", c20target(o.q), "", &r)
				}
				mc.Event()
				t++
				o.ret = t
				if r.fail != "" {
					mc.Failf("request", "%s: %s", op, r.fail)
				}
				if op[0] == 'g' {
					o.hits = c20parse(o.q, r)
				}
			}
		}, func() { ended++ })
	}
	mc.Join("requests", func() bool { return ended == len(tasks) || s.p.Doomed() })
	s.alive()
	mc.FreezeSched(true)
	for _, g := range ops {
		if g.doc != nil || g.q == "" {
			continue
		}
		var may []*c20op
		must := base.clone()
		for _, o := range ops {
			if o.doc == nil || o.call > g.ret {
				continue
			}
			if o.ret < g.call {
				c20apply(must, o.doc)
			} else {
				may = append(may, o)
			}
		}
		q := c20query(g.q)
		ok := false
		why := ""
		// each of the two fields is searched on a corpus of its own moment
		for bits := 0; bits < 1<<(2*len(may)) && !ok; bits++ {
			want := map[string]float64{}
			for f := 0; f < 2; f++ {
				r := must.clone()
				for i, o := range may {
					if bits>>(2*i+f)&1 == 1 {
						c20apply(r, o.doc)
					}
				}
				for id, v := range r.search(q[f : f+1]) {
					want[id] += v
				}
			}
			m := c20diff(g.hits, want)
			if m == "" {
				ok = true
			}
			why = m
		}
		if !ok {
			mc.Failf("search", "the search for %q while documents are posted gives %v, which no moment explains (%s)", g.q, g.hits, why)
		}
	}
	for _, o := range ops {
		if o.doc != nil {
			c20apply(s.r, o.doc)
		}
	}
	s.all("after all requests")
	secs(idle)
	s.all("flushed")
}
