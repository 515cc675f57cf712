package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// A wordMatch is a license match in words.
type wordMatch struct {
	ID     string
	W0, W1 int
}

func wordMatches(toks []ref.Tok, got ref.Coverage) []wordMatch {
	var out []wordMatch
	for _, m := range got.Match {
		if !m.IsURL {
			w0, w1 := within(toks, m.Start, m.End)
			out = append(out, wordMatch{m.ID, w0, w1})
		}
	}
	return out
}

var wordRE = regexp.MustCompile(`\pL+`)

// layoutCase is a license list and a base text as a list of words.
type layoutCase struct {
	list  []ref.License
	words []string
}

func layoutCases() []layoutCase {
	l1 := pats("alpha beta gamma", "alpha https delta", "alpha delta\n((of the))??\nnotices __2__ end", "copyright epsilon québec is the copy", "license are them", "license notices", "these copies", "copyright copy")
	var out []layoutCase
	for _, t := range []string{
		"alpha beta gamma", "x alpha beta gamma y", "alpha delta notices end", "alpha delta of the notices x end",
		"alpha delta the notices", "copyright x alpha beta gamma", "copyright epsilon québec is the copy", "license is it", "alpha beta x", "licenses is it",
		"license notices", "x the copy", "the copy x", "copyright copy", "copy the copyright copy", "alpha betas gammas", "alpha http delta", "x https alpha http delta",
	} {
		out = append(out, layoutCase{l1, strings.Fields(t)})
	}
	return out
}

// forms returns documented equivalents of a word, ending with other spellings of case.
func forms(w string) []string {
	up := strings.ToUpper(w)
	m := []string{w, up, strings.Title(w), up[:1] + w[1:], w[:len(w)-1] + up[len(up)-1:]}
	if strings.ContainsAny(w, "é") {
		m = []string{w, up, "quebec", "Quebec", "QUE\u0301BEC", "que\u0300bec", "qu\u00e8bec"}
	}
	acc := strings.NewReplacer("a", "á", "e", "è", "i", "Í", "o", "ó", "u", "Ù")
	m = append(m, acc.Replace(w))
	mark := strings.NewReplacer("a", "a\u0301", "e", "e\u0300", "o", "O\u0301")
	m = append(m, mark.Replace(w))
	switch w {
	case "http", "https":
		m = append(m, "http", "https", "HTTPS", "Https", "httpS", "http\u0301s")
	case "is":
		m = append(m, "are", "ARE")
	case "it":
		m = append(m, "them", "they", "Them")
	case "the":
		m = append(m, "these", "this", "those", "THIS")
	case "copy":
		m = append(m, "copies", "Copies")
	case "copyright":
		m = append(m, "(c)", "©", "&copy;", "(C)", "copyright (c)", "Copyright ©", "© copyright (c)")
	}
	if strings.HasSuffix(w, "s") && len(w) > 3 {
		m = append(m, w[:len(w)-1]+"(s)", up[:len(up)-1]+"(s)")
	}
	var out []string
	seen := map[string]bool{}
	for _, x := range m {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

var gapForms = []string{" ", "\n", "\t", "\r\n", "  \n\n ", ", ", ". ", "-", "/", "\n// ", "\n * ", "\n# ", "\"", "' '", "\u00a0", "\u2014", " <b> ", "<br/>", "&nbsp;", "&#160;", "_", "\x00", "\xff", "{#a} ", " [](#x) ", " ] ( ", "\u200b", ") ", " ("}

func init() {
	reg(&eng.Check{ID: "C08", Level: "model_checking",
		Rule:        "base texts of at most 7 words × all combinations of gap forms, word forms, line breaks and comment styles, all Unicode characters between words and inside words, and the same rewritings of patterns; each rewritten text must give the base text's matches, in words; non-trivial: the rewritten text differs from the base text",
		Assumptions: []string{"Rewritings that make other words by the documented rules (say c next to parentheses) are recognized by the reference tokenizer and left out."},
		Run:         runC08})
}

func runC08(c *eng.Ctx) {
	cases := layoutCases()
	// same checks that text gives the base result.
	type base struct {
		toks []ref.Tok
		wm   []wordMatch
		pct  float64
	}
	mk := func(w *eng.Worker, s *Set, text string) base {
		got := s.scan(w, text)
		toks := ref.Tokenize(text, true)
		return base{toks, wordMatches(toks, got), got.Percent}
	}
	same := func(w *eng.Worker, s *Set, b base, baseText, text string) {
		got := s.scan(w, text)
		toks := ref.Tokenize(text, true)
		if len(toks) != len(b.toks) {
			w.Skipped++
			w.Outcome("other words")
			oFull(w, s, text, toks, got)
			return
		}
		for i := range toks {
			if toks[i].W != b.toks[i].W {
				w.Skipped++
				w.Outcome("other words")
				oFull(w, s, text, toks, got)
				return
			}
		}
		if text != baseText {
			w.Nontrivial++
		}
		w.Traces++
		wm := wordMatches(toks, got)
		ok := len(wm) == len(b.wm) && got.Percent == b.pct
		for i := 0; ok && i < len(wm); i++ {
			ok = wm[i] == b.wm[i]
		}
		if !ok {
			s.fail(w, text, got, nil, "matches in words %v %v%%, but %q has %v %v%%", wm, got.Percent, baseText, b.wm, b.pct)
		}
		oFull(w, s, text, toks, got)
		if len(wm) > 0 {
			w.Outcome(fmt.Sprint(wm))
			if w.WantSample() {
				w.Sample(map[string]interface{}{"text": text, "base": baseText, "matches": wm})
			}
		}
	}

	k := len(gapForms)
	c.Space("gaps", len(cases)*k*k, fmt.Sprintf("%d base texts × all ways to put %d gap forms in two neighbouring gaps (also before the first and after the last word), the other gaps all one of them", len(cases), k), func(w *eng.Worker, i int) {
		lc := cases[i/k/k]
		g1, g2 := gapForms[i/k%k], gapForms[i%k]
		s := mustSet(w, lc.list)
		bt := strings.Join(lc.words, " ")
		b := mk(w, s, bt)
		for at := -1; at < len(lc.words); at++ {
			for _, rest := range []string{" ", "\n * ", g1} {
				var t strings.Builder
				for n := 0; n <= len(lc.words); n++ {
					switch {
					case n == at+1:
						t.WriteString(g1)
					case n == at+2:
						t.WriteString(g2)
					case n > 0 && n < len(lc.words):
						t.WriteString(rest)
					}
					if n < len(lc.words) {
						t.WriteString(lc.words[n])
					}
				}
				same(w, s, b, bt, t.String())
			}
		}
		s.close(w)
	})
	var runs []int
	for n := 2; n <= 70; n++ {
		runs = append(runs, n)
	}
	runs = append(runs, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 65536, 65537)
	c.Space("gap_runs", len(cases)*len(runs), fmt.Sprintf("%d base texts × one gap (before, between or after the words) or all of n spaces, tabs, line breaks, comment signs, dashes, other characters or an indented new line, n of %d sizes up to %d; the copyright words doubled by a sign at that distance", len(cases), len(runs), runs[len(runs)-1]), func(w *eng.Worker, i int) {
		lc := cases[i%len(cases)]
		n := runs[len(runs)-1-i/len(cases)]
		s := mustSet(w, lc.list)
		bt := strings.Join(lc.words, " ")
		b := mk(w, s, bt)
		for _, g := range []string{strings.Repeat(" ", n), strings.Repeat("\t", n), strings.Repeat("\n", n), "\n" + strings.Repeat(" ", n), "\r\n" + strings.Repeat("*", n), strings.Repeat("-", n), strings.Repeat("\r\n", n), strings.Repeat("\u00a0", n), strings.Repeat("// \n", n), strings.Repeat("\x00", n)} {
			for at := 0; at <= len(lc.words); at++ {
				same(w, s, b, bt, strings.Join(lc.words[:at], " ")+g+strings.Join(lc.words[at:], " "))
				if at > 0 && lc.words[at-1] == "copyright" {
					for _, sign := range []string{"(c)", "©", "&copy;", "copyright"} {
						same(w, s, b, bt, strings.Join(lc.words[:at], " ")+g+sign+" "+strings.Join(lc.words[at:], " "))
						same(w, s, b, bt, strings.Join(lc.words[:at-1], " ")+" "+sign+g+sign+g+"(C)"+g+strings.Join(lc.words[at:], " "))
					}
				}
			}
			if n < 5000 {
				same(w, s, b, bt, strings.Join(lc.words, g))
			}
		}
		s.close(w)
	})
	wraps := [][2]string{{"<!-- ", " -->"}, {"<!--", "-->"}, {"<![CDATA[", "]]>"}, {"/* ", " */"}, {"/**\n * ", "\n */"}, {"<p>", "</p>"}, {"<p class=\"x y\">\n", "\n</p>"}, {"<script> ", " </script>"}, {"<pre>", "</pre>"}, {"\"\"\"", "\"\"\""}, {"```\n", "\n```"},
		{"{- ", " -}"}, {"(* ", " *)"}, {"%{ ", " %}"}, {"[[ ", " ]]"}, {"((", "))"}, {"<<", ">>"}, {"&lt;", "&gt;"}, {"&lt;!-- ", " --&gt;"}, {"__", "__"}, {"**", "**"}, {"~~", "~~"}, {"\\(", "\\)"}, {"\u201c", "\u201d"}, {"\u00ab", "\u00bb"}, {"\ufeff", ""}, {"", "\x1a"}, {"", "\x00\x00"}, {"---\n", "\n---"}, {"#if 0\n", "\n#"}, {"\n\n\n", "\n\n\n"}, {"1. ", ""}, {"; ", ""}, {"<?", "?>"}, {"<% ", " %>"}, {"<", ">"}, {"< ", " >"}, {"</ ", " >"}, {"{# ", " #}"}, {"{{ ", " }}"}, {"[", "](u)"}, {"![", "](x)"}, {"@ ", ""}, {"$", "$"}, {"> ", ""}, {"|", "|"}, {"=====\n", "\n====="}}
	c.Space("wraps", len(cases)*len(wraps), fmt.Sprintf("%d base texts × every run of words enclosed in each of %d pairs of markers, alone and nested", len(cases), len(wraps)), func(w *eng.Worker, i int) {
		lc := cases[i/len(wraps)]
		wr := wraps[i%len(wraps)]
		s := mustSet(w, lc.list)
		bt := strings.Join(lc.words, " ")
		b := mk(w, s, bt)
		n := len(lc.words)
		put := func(ws []string, lo, hi int, wr [2]string) []string {
			out := append([]string{}, ws...)
			out[lo] = wr[0] + out[lo]
			out[hi] += wr[1]
			return out
		}
		for lo := 0; lo < n; lo++ {
			for hi := lo; hi < n; hi++ {
				one := put(lc.words, lo, hi, wr)
				same(w, s, b, bt, strings.Join(one, " "))
				same(w, s, b, bt, strings.Join(one, "\n"))
				for _, w2 := range wraps {
					same(w, s, b, bt, strings.Join(put(one, 0, n-1, w2), " "))
					same(w, s, b, bt, strings.Join(put(one, lo, hi, w2), " "))
					if lo+1 < hi {
						same(w, s, b, bt, strings.Join(put(one, lo+1, hi-1, w2), " "))
					}
				}
			}
		}
		s.close(w)
	})
	c.Space("words", len(cases), "each base text × all combinations of the forms of its words (case, accents, combining marks, synonyms, (s), copyright signs) with three gap forms", func(w *eng.Worker, i int) {
		lc := cases[i]
		s := mustSet(w, lc.list)
		bt := strings.Join(lc.words, " ")
		b := mk(w, s, bt)
		fs := make([][]string, len(lc.words))
		n := 1
		for j, x := range lc.words {
			fs[j] = forms(x)
			if len(lc.words) > 5 && len(fs[j]) > 5 {
				fs[j] = append(fs[j][:2:2], fs[j][len(fs[j])-3:]...)
			}
			n *= len(fs[j])
		}
		for x := 0; x < n; x++ {
			t := make([]string, len(fs))
			for j, y := 0, x; j < len(fs); j++ {
				t[j] = fs[j][y%len(fs[j])]
				y /= len(fs[j])
			}
			same(w, s, b, bt, strings.Join(t, " "))
			same(w, s, b, bt, strings.Join(t, "\n // "))
			same(w, s, b, bt, "\""+strings.Join(t, "\", \"")+"\"")
		}
		s.close(w)
	})
	prefixes := []string{"", "// ", " * ", "# ", "; ", "-- ", "% ", "> ", "\t", ".\\\" ", "| ", "/* ", "<!-- ", "' ", "!"}
	c.Space("wrapping", len(cases)*len(prefixes), "each base text × every set of line breaks × comment prefixes and suffixes, newline styles, hyphens", func(w *eng.Worker, i int) {
		lc := cases[i/len(prefixes)]
		p := prefixes[i%len(prefixes)]
		s := mustSet(w, lc.list)
		bt := strings.Join(lc.words, " ")
		b := mk(w, s, bt)
		for mask := 0; mask < 1<<uint(len(lc.words)); mask++ {
			for _, nl := range []string{"\n", "\r\n", "\n\n", " */\n", "\r", "\\\n"} {
				for _, q := range []string{" ", ", ", "  "} {
					t := p
					if mask&1 != 0 {
						t = nl + p
					}
					for j, x := range lc.words {
						if j > 0 {
							if mask>>uint(j)&1 != 0 {
								t += nl + p
							} else {
								t += q
							}
						}
						t += x
					}
					same(w, s, b, bt, t+nl)
				}
			}
		}
		s.close(w)
	})
	c.Space("runes_between", 0x110000>>8, "every Unicode character between, before and after the words of a match", func(w *eng.Worker, i int) {
		s := mustSet(w, pats("alpha beta\n((gamma))??\ndelta"))
		bt := "alpha beta delta"
		b := mk(w, s, bt)
		for r := rune(i << 8); r < rune((i+1)<<8); r++ {
			x := string(r)
			same(w, s, b, bt, "alpha"+x+"beta"+x+"delta")
			same(w, s, b, bt, x+" alpha "+x+" beta"+x+" delta"+x)
		}
		s.close(w)
	})
	c.Space("runes_case", 0x30000>>8, "every letter and digit in a pattern word × every case variant of it in the text, and back", func(w *eng.Worker, i int) {
		for r := rune(i << 8); r < rune((i+1)<<8); r++ {
			if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
				continue
			}
			vs := map[rune]bool{r: true, unicode.ToUpper(r): true, unicode.ToLower(r): true, unicode.ToTitle(r): true}
			for o := unicode.SimpleFold(r); o != r; o = unicode.SimpleFold(o) {
				vs[o] = true
			}
			if len(vs) == 1 && i > 0x10 && !c.Thorough {
				continue
			}
			pat := "alpha x" + string(r) + "x be" + string(r)
			s := mustSet(w, pats(pat))
			b := mk(w, s, pat)
			for v := range vs {
				t := "ALPHA X" + string(v) + "X Be" + string(v)
				if ref.Fold(string(v)) != ref.Fold(string(r)) {
					continue // say İ, which is no simple case variant of i
				}
				same(w, s, b, pat, t)
			}
			s.close(w)
		}
	})
	c.Space("patterns", len(cases), "the same rewritings of each pattern of the base lists: results on all base texts stay the same", func(w *eng.Worker, i int) {
		l := cases[i]
		s := mustSet(w, l.list)
		bt := strings.Join(l.words, " ")
		got := s.scan(w, bt)
		check := func(f func(string) string) {
			var list []ref.License
			for _, x := range l.list {
				x.LRE = f(x.LRE)
				list = append(list, x)
			}
			s2, err := lc.NewScanner(toReal(list))
			if err != nil {
				w.Fail(caseOf(list, bt), testSrc(list, bt), "NewScanner rejects a rewritten pattern: %v", err)
			}
			w.Evals++
			w.Nontrivial++
			w.Traces++
			got2 := toCov(s2.Scan([]byte(bt)))
			if !eq(got, got2) {
				w.Fail(caseOf(list, bt), testSrc(list, bt), "rewriting the patterns changes the result from %+v to %+v", got, got2)
			}
		}
		check(strings.ToUpper)
		check(strings.Title)
		for _, g := range gapForms {
			g := g
			if ref.Tokenize("a"+g+"b", true)[0].W != "a" || len(ref.Tokenize("a"+g+"b", true)) != 2 || strings.Contains(g, "//") {
				continue
			}
			check(func(p string) string {
				var ls []string
				for _, line := range strings.Split(p, "\n") {
					if !strings.HasPrefix(line, "((") && !strings.HasSuffix(line, "))") {
						line = strings.ReplaceAll(line, " ", g)
					}
					ls = append(ls, line)
				}
				return strings.Join(ls, "\n")
			})
		}
		check(func(p string) string {
			return "//** a comment (( **//\n" + strings.ReplaceAll(strings.ReplaceAll(p, "\n", " //** ) **//\n"), "?? //** ) **//", "??")
		})
		check(func(p string) string {
			m := map[string]string{"the": "these", "is": "are", "copy": "copies", "copyright": "(c)", "them": "they"}
			return wordRE.ReplaceAllStringFunc(p, func(x string) string {
				if y, ok := m[x]; ok {
					return y
				}
				return x
			})
		})
		check(func(p string) string { return strings.NewReplacer("a", "á", "e", "È", "o", "o\u0301").Replace(p) })
		check(func(p string) string { return strings.ReplaceAll(p, "\n", "\r\n") })
		check(func(p string) string { return "\t" + strings.ReplaceAll(p, "\n", " \n\t ") + "\n\n" })
		check(func(p string) string { return strings.ReplaceAll(p, "((", "  ((  ") })
		s.close(w)
	})
	// And on real licenses.
	_, texts := corpus()
	c.Space("corpus", len(texts), "the repository's test texts × upper case, comment styles, newline styles, one line, accents", func(w *eng.Worker, i int) {
		s := builtinSet(w)
		t := texts[i]
		if strings.Contains(t, "://") { // URLs depend on layout
			t = strings.ReplaceAll(t, "://", ": //")
		}
		b := mk(w, s, t)
		for _, v := range []string{
			strings.ToUpper(t), strings.ToLower(t), " * " + strings.ReplaceAll(t, "\n", "\n * "), "// " + strings.ReplaceAll(t, "\n", "\n// "),
			strings.ReplaceAll(t, "\n", "\r\n"), strings.ReplaceAll(t, "\n", " "), strings.ReplaceAll(t, " ", "\n"), strings.ReplaceAll(t, " ", "\u00a0"),
			strings.ReplaceAll(t, "\n", "\n\n"), strings.ReplaceAll(t, ",", ""), strings.ReplaceAll(t, " ", " , "),
			strings.NewReplacer(" a", " á", "e ", "é ", "o", "O\u0300").Replace(t),
			strings.NewReplacer("\"", "\u201c", "'", "\u2019", "-", "\u2014").Replace(t),
		} {
			same(w, s, b, t, v)
		}
		s.release(w)
	})
}
