package zzharness

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
	"github.com/sira-serverless-ir-arch/porter2"
	"golang.org/x/text/unicode/norm"

	"zzmc/mc"
)

func init() {
	prop = &Property{ID: "C18", Scns: c18,
		Rule: "All texts up to the stated length over an alphabet of letters (plain, accented, precomposed and combining, capital, other scripts), digits, apostrophes, separators and invalid bytes; all lists of up to 3-4 words of a stop-word, suffix and accent vocabulary; every single Unicode code point; for both languages, through each filter alone and the whole pipeline, against an independent definition; all sequences of up to 3-4 analyses in the two languages on words that are stop words of one; all interleavings of the stemmer's goroutines within a bound, and of two analyses running at once on shared filters, with race detection."}
}

// ---- reference ----

func refTokens(s string) []string {
	var out []string
	cur := ""
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if unicode.IsLetter(r) || unicode.IsNumber(r) || r == '\'' {
			cur += s[:n]
		} else if cur != "" {
			out = append(out, cur)
			cur = ""
		}
		s = s[n:]
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func refLower(w string) string {
	b := ""
	for _, r := range w {
		b += string(unicode.ToLower(r))
	}
	return b
}

func refStem(w string) string {
	if s := porter2.Stem(w); s != "" {
		return s
	}
	return w
}

func refASCII(w string) string {
	b := ""
	for _, r := range norm.NFD.String(w) {
		if !unicode.Is(unicode.Mn, r) {
			b += string(r)
		}
	}
	return norm.NFC.String(b)
}

var refStop = map[language.Language]map[string]bool{}

func refStops(l language.Language) map[string]bool {
	if refStop[l] == nil {
		m := map[string]bool{}
		for k, v := range language.GetWords(l) {
			if v {
				m[k] = true
			}
		}
		refStop[l] = m
	}
	return refStop[l]
}

// sureStops are stop words that no list of the language may lack, and words that none may have.
var sureStops = map[language.Language][2]string{
	language.English:    {"the a an and or of to in is are was be it this that with for not but by at as on they", "cat search engine document galaxy nao não uma para com que você ele retrieval house computer"},
	language.Portuguese: {"o a os as de do da em na um uma e que com por se como mas mais ele ela", "the and of cat gato casa documento computador busca galáxia with this house"},
}

func refAnalyse(s string, l language.Language) []string {
	var out []string
	for _, w := range refTokens(s) {
		w = refLower(w)
		if refStops(l)[w] {
			continue
		}
		if w = refASCII(refStem(w)); w != "" {
			out = append(out, w)
		}
	}
	return out
}

// ---- code under test ----

type pipeline struct {
	tok                       tokenizer.Tokenizer
	lower, stop, stem, ascii_ filter.Filter
}

func newPipeline(l language.Language) pipeline {
	return pipeline{tokenizer.NewStandard(), filter.NewLowercase(), filter.NewStopWords(language.GetWords(l)), filter.NewStemmer(stemmer.Snowball), filter.NewASCII()}
}

func (p pipeline) run(s string) []string {
	r := p.tok.Tokenize(s)
	r = p.lower.Process(r)
	r = p.stop.Process(r)
	r = p.stem.Process(r)
	return p.ascii_.Process(r)
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func analysed(p pipeline, s string, l language.Language) {
	got, want := p.run(s), refAnalyse(s, l)
	if !sameList(got, want) {
		mc.Failf("analysis", "%s text %q gives %q, want %q", l, cut(s), cutl(got), cutl(want))
	}
	tf := metric.TermFrequency(got)
	n := map[string]int{}
	for _, w := range got {
		n[w]++
	}
	if len(tf) != len(n) {
		mc.Failf("analysis", "TermFrequency(%q) = %v", cutl(got), tf)
	}
	for k, v := range n {
		if tf[k] != v {
			mc.Failf("analysis", "TermFrequency(%q)[%q] = %d, want %d", cutl(got), k, tf[k], v)
		}
	}
}

// filterMaps checks a one-to-one filter on a list.
func filterMaps(name string, f filter.Filter, ref func(string) string, in []string) []string {
	var want []string
	for _, w := range in {
		want = append(want, ref(w))
	}
	got := f.Process(append([]string(nil), in...))
	if !sameList(got, want) {
		mc.Failf("analysis", "%s maps %q to %q, want %q", name, cutl(in), cutl(got), cutl(want))
	}
	return got
}

func filters(p pipeline, l language.Language, in []string) {
	filterMaps("Lowercase", p.lower, refLower, in)
	first := filterMaps("Stemmer", p.stem, refStem, in)
	keep := append([]string(nil), first...)
	first2 := filterMaps("ASCII", p.ascii_, refASCII, in)
	keep2 := append([]string(nil), first2...)
	var want []string
	for _, w := range in {
		if !refStops(l)[w] {
			want = append(want, w)
		}
	}
	got := p.stop.Process(append([]string(nil), in...))
	if !sameList(got, want) {
		mc.Failf("analysis", "StopWords maps %q to %q, want %q", cutl(in), cutl(got), cutl(want))
	}
	// again, on something else: earlier results and later ones are unaffected
	other := []string{"running", "É", "x", "caresses", "ponies"}
	filterMaps("Stemmer", p.stem, refStem, other)
	filterMaps("ASCII", p.ascii_, refASCII, other)
	if !sameList(first, keep) || !sameList(first2, keep2) {
		mc.Failf("analysis", "a later call changed an earlier result")
	}
}

func c18() []mc.Scenario {
	var out []mc.Scenario
	langs := []language.Language{language.English, language.Portuguese}
	alpha := []string{"a", "S", "é", "e\u0301", "'", " ", "\xff", "1", "ß"}
	alpha2 := []string{"a", "e", "I", "n", "g", "s", "'", "\u0130", "中", "-", "½", "\u0345", "ﬁ", "\x00"}
	depth := pick(5, 6)
	for first := range alpha {
		first := first
		out = append(out, mc.Scenario{Name: fmt.Sprintf("texts over %q first=%d depth=%d", alpha, first, depth), Body: func() {
			l := langs[first%2]
			p := newPipeline(l)
			s := alpha[first]
			for i := 1; i < depth; i++ {
				k := mc.Choose(len(alpha) + 1)
				if k == len(alpha) {
					break
				}
				s += alpha[k]
			}
			analysed(p, s, l)
		}})
	}
	for first := range alpha2 {
		first := first
		out = append(out, mc.Scenario{Name: fmt.Sprintf("texts over set 2 first=%d depth=%d", first, pick(4, 5)), Body: func() {
			l := langs[first%2]
			p := newPipeline(l)
			s := alpha2[first]
			for i := 1; i < pick(4, 5); i++ {
				k := mc.Choose(len(alpha2) + 1)
				if k == len(alpha2) {
					break
				}
				s += alpha2[k]
			}
			analysed(p, s, l)
		}})
	}
	words := []string{"the", "The", "não", "nao", "a", "running", "Flies", "caresses", "''s", "'", "o'clock", "café", "ÉTÉ", "İstanbul", "2nd", "sky", "generously", "de", "and", "''s's", "naïvely", "ΑΣ", "ponies"}
	seps := []string{" ", ", ", "\n", "-", "... "}
	for _, l := range langs {
		for first := range words {
			l, first := l, first
			out = append(out, mc.Scenario{Name: fmt.Sprintf("words %s first=%q", l, words[first]), Body: func() {
				p := newPipeline(l)
				n := 1 + mc.Choose(pick(3, 4))
				in := []string{words[first]}
				for i := 1; i < n; i++ {
					in = append(in, words[mc.Choose(len(words))])
				}
				analysed(p, strings.Join(in, seps[first%len(seps)]), l)
				if n < 4 {
					filters(p, l, in)
				}
			}})
		}
	}
	// every code point
	step := 0x110000 / 64
	for b := 0; b < 64; b += 8 {
		b := b
		out = append(out, mc.Scenario{Name: fmt.Sprintf("code points %x-%x", b*step, (b+8)*step), Cfg: mc.Config{MaxSteps: 20000000}, Body: func() {
			k := b + mc.Choose(8)
			p := newPipeline(language.English)
			var in []string
			for r := rune(k * step); r < rune((k+1)*step); r++ {
				if r >= 0xd800 && r < 0xe000 {
					continue
				}
				if !unicode.IsLetter(r) && !unicode.IsNumber(r) {
					s := "ab" + string(r) + "cd"
					if got := p.tok.Tokenize(s); !sameList(got, refTokens(s)) {
						mc.Failf("analysis", "tokens of %q: %q", s, got)
					}
					continue
				}
				in = append(in, "x"+string(r)+"s", string(r))
				if len(in) >= 400 {
					analysed(p, strings.Join(in, " "), language.English)
					in = in[:0]
				}
			}
			analysed(p, strings.Join(in, " "), language.English)
		}})
	}
	// many words: more goroutines than anything could limit
	for _, cpus := range []int{1, 3, 4, 16} {
		cpus := cpus
		out = append(out, mc.Scenario{Name: fmt.Sprintf("long texts cpus=%d", cpus), Cfg: mc.Config{MaxSteps: 20000000, NumCPU: cpus}, Body: func() {
			ns := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025}
			if cpus == 4 {
				ns = append(ns, 5000)
				for i := 10; i < 140; i++ {
					ns = append(ns, i)
				}
			}
			n := ns[mc.Choose(len(ns))]
			p := newPipeline(language.English)
			var in []string
			for i := 0; i < n; i++ {
				in = append(in, fmt.Sprintf("%s%d", words[i%len(words)], i))
			}
			analysed(p, strings.Join(in, " "), language.English)
			filters(p, language.English, in)
			w := strings.Repeat("xá", n)
			analysed(p, w+" "+w+"s", language.English)
			w = strings.Repeat("ab", n)
			analysed(p, strings.Join([]string{w + "ing", w + "ness", w + "ies", "the" + w + "ed", w + "'s", "'" + w, w + "ly"}, " "), language.English)
		}})
	}
	// every stop word, lower and upper case, and every word with a letter more or less
	for _, l := range langs {
		l := l
		out = append(out, mc.Scenario{Name: fmt.Sprintf("known stop words %s", l), Body: func() {
			p := newPipeline(l)
			for i, ws := range sureStops[l] {
				for _, w := range strings.Fields(ws) {
					if got := p.stop.Process([]string{"x1", w, "x2"}); (len(got) == 2) != (i == 0) {
						mc.Failf("analysis", "%s stop words: %q becomes %q", l, []string{"x1", w, "x2"}, got)
					}
				}
			}
		}}, mc.Scenario{Name: fmt.Sprintf("stop words %s", l), Cfg: mc.Config{MaxSteps: 20000000}, Body: func() {
			p := newPipeline(l)
			var in []string
			for _, w := range mc.Keys(refStops(l)) {
				in = append(in, w, strings.ToUpper(w), w+"x", "x"+w, w+"'")
			}
			analysed(p, strings.Join(in, " "), l)
			filters(p, l, in)
		}})
	}
	// both languages in turn, on the same words, with pipelines made before and in between
	for first := 0; first < 4; first++ {
		first := first
		out = append(out, mc.Scenario{Name: fmt.Sprintf("languages in turn first=%d", first), Body: func() {
			ts := []string{"the de The De", "a o and e", "running não nao casas", "cats do gatos as"}
			ps := []pipeline{newPipeline(language.English), newPipeline(language.Portuguese)}
			n := pick(3, 4)
			for i := 0; i < n; i++ {
				t := first
				if i > 0 {
					t = mc.Choose(len(ts))
				}
				k := mc.Choose(4)
				if k > 1 {
					ps[k-2] = newPipeline(langs[k-2])
				}
				analysed(ps[k%2], ts[t], langs[k%2])
				filters(ps[k%2], langs[k%2], strings.Fields(ts[t]))
			}
		}})
	}
	out = append(out, mc.Scenario{Name: "stop words of one's own", Body: func() {
		sets := []map[string]bool{{}, {"a": true}, {"b": true}, {"a": true, "b": true}, {"c": true}}
		var fs []filter.Filter
		var of []int
		for i := 0; i < 2; i++ {
			k := mc.Choose(len(sets))
			m := map[string]bool{}
			for w := range sets[k] {
				m[w] = true
			}
			of = append(of, k)
			fs = append(fs, filter.NewStopWords(m))
		}
		for i := 0; i < 3; i++ {
			k := mc.Choose(2)
			in := [][]string{{"a"}, {"b"}, {"a", "b", "c"}, {"c", "c", "a", "a"}, {}}[mc.Choose(5)]
			var want []string
			for _, w := range in {
				if !sets[of[k]][w] {
					want = append(want, w)
				}
			}
			if got := fs[k].Process(append([]string(nil), in...)); !sameList(got, want) {
				mc.Failf("analysis", "StopWords(%v) maps %q to %q, want %q", mc.Keys(sets[of[k]]), in, got, want)
			}
		}
	}})
	// schedules
	for i, s := range []string{"running", "running flies", "The running Cafés ''s", "a b c d e"} {
		s := s
		cfg := mc.Config{Race: true, FreeSwitch: true}
		cfg.Budget[mc.ClsSched] = -1
		if i > 1 {
			cfg.Budget[mc.ClsSched] = pick(3, 5)
		}
		out = append(out, mc.Scenario{Name: fmt.Sprintf("schedules %q", s), Cfg: cfg, Body: func() { analysed(newPipeline(language.English), s, language.English) }})
	}
	for i, c := range [][2]string{{"running", "flies"}, {"café", "été"}, {"the cafés", "naïve ponies"}} {
		for _, shared := range []bool{true, false} {
			c, shared := c, shared
			cfg := mc.Config{Race: true, FreeSwitch: true}
			cfg.Budget[mc.ClsSched] = pick(3, 5)
			if i == 2 {
				cfg.Budget[mc.ClsSched] = pick(2, 4)
			}
			out = append(out, mc.Scenario{Name: fmt.Sprintf("two analyses %q shared=%v", c, shared), Cfg: cfg, Body: func() {
				p := newPipeline(language.English)
				q := p
				if !shared {
					q = newPipeline(language.English)
				}
				mc.Tasks([]string{"one", "two"}, func() { analysed(p, c[0], language.English) }, func() { analysed(q, c[1], language.English) })
			}})
		}
	}
	return out
}
