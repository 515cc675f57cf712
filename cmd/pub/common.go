// Command pub decides the properties visible through the public API of
// google/licensecheck. It uses nothing else of that module.
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// A Set is a license list with the real scanner and the reference for it.
type Set struct {
	List []ref.License
	Real *lc.Scanner
	Ref  *ref.Scanner
	ids  map[string]bool

	states, trans int
}

func toReal(list []ref.License) []lc.License {
	var out []lc.License
	for _, l := range list {
		out = append(out, lc.License{ID: l.ID, Type: lc.Type(l.Type), LRE: l.LRE, URL: l.URL})
	}
	return out
}

func fromReal(list []lc.License) []ref.License {
	var out []ref.License
	for _, l := range list {
		out = append(out, ref.License{ID: l.ID, Type: uint(l.Type), LRE: l.LRE, URL: l.URL})
	}
	return out
}

// newSet builds both scanners; they must agree on whether the list is valid.
// It returns nil if both reject it.
func newSet(w *eng.Worker, list []ref.License) *Set {
	r, rerr := ref.NewScanner(list)
	s, serr := lc.NewScanner(toReal(list))
	if (rerr == nil) != (serr == nil) {
		w.Fail(caseOf(list, ""), testSrc(list, ""), "NewScanner error = %v, reference says %v", serr, rerr)
	}
	if serr != nil {
		return nil
	}
	set := &Set{List: list, Real: s, Ref: r, ids: map[string]bool{}}
	for _, l := range list {
		set.ids[l.ID] = true
	}
	return set
}

// mustSet is newSet for lists that are valid by construction.
func mustSet(w *eng.Worker, list []ref.License) *Set {
	s := newSet(w, list)
	if s == nil {
		_, err := lc.NewScanner(toReal(list))
		w.Fail(caseOf(list, ""), testSrc(list, ""), "NewScanner rejects a valid list: %v", err)
	}
	return s
}

func pats(lres ...string) []ref.License {
	var out []ref.License
	for i, l := range lres {
		out = append(out, ref.License{ID: fmt.Sprintf("L%d", i), Type: 1 << uint(1+i%7), LRE: l})
	}
	return out
}

// close adds the model's size to the counters.
func (s *Set) close(w *eng.Worker) {
	if s == nil {
		return
	}
	m := s.Ref.M
	st, tr := m.States()+m.Visited, m.Transitions+m.Steps
	w.States += int64(st - s.states)
	w.Trans += int64(tr - s.trans)
	s.states, s.trans = st, tr
}

type scanCase struct {
	Licenses []ref.License
	Text     string        // Go-quoted if not valid UTF-8
	Got      *ref.Coverage `json:",omitempty"`
	Want     *ref.Coverage `json:",omitempty"`
}

func caseOf(list []ref.License, text string) *scanCase {
	if len(list) > 20 {
		list = list[:20]
	}
	if len(text) > 4000 {
		text = text[:2000] + " [...] " + text[len(text)-2000:]
	}
	return &scanCase{Licenses: list, Text: fmt.Sprintf("%q", text)}
}

// testSrc writes a plain Go test that shows what the real code does on a case.
func testSrc(list []ref.License, text string) string {
	if len(list) > 100 || len(text) > 1<<16 {
		return ""
	}
	var b strings.Builder
	b.WriteString("package licensecheck_test\n\nimport (\n\t\"testing\"\n\n\tlc \"github.com/google/licensecheck\"\n)\n\nfunc TestReplay(t *testing.T) {\n\ts, err := lc.NewScanner([]lc.License{\n")
	for _, l := range list {
		fmt.Fprintf(&b, "\t\t{ID: %q, Type: %d, LRE: %q, URL: %q},\n", l.ID, l.Type, l.LRE, l.URL)
	}
	fmt.Fprintf(&b, "\t})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttext := %q\n\tt.Logf(\"%%+v\", s.Scan([]byte(text)))\n}\n", text)
	return b.String()
}

func toCov(c lc.Coverage) ref.Coverage {
	var out ref.Coverage
	out.Percent = c.Percent
	for _, m := range c.Match {
		out.Match = append(out.Match, ref.Match{ID: m.ID, Type: uint(m.Type), Start: m.Start, End: m.End, IsURL: m.IsURL})
	}
	return out
}

const guard = "\n a b q r s\x00"

// scan runs the real scanner on text, checking that it leaves its input alone.
func (s *Set) scan(w *eng.Worker, text string) (cov ref.Coverage) {
	defer func() {
		if e := recover(); e != nil {
			w.Fail(caseOf(s.List, text), testSrc(s.List, text), "Scan panics: %v", e)
		}
	}()
	w.Evals++
	if w.Evals&63 == 0 || len(text) > 1000 {
		w.Alive()
	}
	// The caller may have more in the memory after the text.
	buf := append(append(make([]byte, 0, len(text)+len(guard)), text...), guard...)
	cov = toCov(s.Real.Scan(buf[:len(text)]))
	if string(buf[:len(text)]) != text || string(buf[len(text):]) != guard {
		panic("Scan changed its input")
	}
	return cov
}

func (s *Set) fail(w *eng.Worker, text string, got ref.Coverage, want *ref.Coverage, format string, args ...interface{}) {
	c := caseOf(s.List, text)
	c.Got, c.Want = &got, want
	msg := fmt.Sprintf(format, args...)
	test := testSrc(s.List, text)
	if test != "" && want != nil {
		test = strings.Replace(test, "\tt.Logf(\"%+v\", s.Scan([]byte(text)))\n",
			fmt.Sprintf("\tconst want = %q\n\tif got := fmt.Sprintf(\"%%+v\", s.Scan([]byte(text))); got != want {\n\t\tt.Errorf(\"got  %%s\\nwant %%s\", got, want)\n\t}\n", fmt.Sprintf("%+v", fromCov(*want))), 1)
		test = strings.Replace(test, "import (\n", "import (\n\t\"fmt\"\n", 1)
	}
	w.Fail(c, test, "%s", msg)
}

func fromCov(c ref.Coverage) lc.Coverage {
	out := lc.Coverage{Percent: c.Percent}
	for _, m := range c.Match {
		out.Match = append(out.Match, lc.Match{ID: m.ID, Type: lc.Type(m.Type), Start: m.Start, End: m.End, IsURL: m.IsURL})
	}
	return out
}

// An Oracle decides one case. toks is the reference tokenization of text.
type Oracle func(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage)

func eq(a, b ref.Coverage) bool {
	if len(a.Match) != len(b.Match) || math.Abs(a.Percent-b.Percent) > 1e-9*math.Abs(b.Percent) {
		return false
	}
	for i := range a.Match {
		if a.Match[i] != b.Match[i] {
			return false
		}
	}
	return true
}

// oFull: the result is exactly the reference's (unless spelling correction is ambiguous).
func oFull(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
	spans, amb := s.Ref.M.Matches(toks)
	if amb {
		w.Skipped++
		return
	}
	w.Traces++
	want := ref.Cover(toks, s.Ref.Regions(text, toks, spans))
	if !eq(got, want) {
		s.fail(w, text, got, &want, "Scan = %+v, want %+v", got, want)
	}
}

// oMatches: as oFull, but only the license matches.
func oMatches(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
	spans, amb := s.Ref.M.Matches(toks)
	if amb {
		w.Skipped++
		return
	}
	w.Traces++
	want := ref.Cover(toks, s.Ref.Regions(text, toks, spans))
	if !sameMatches(got, want, false) {
		s.fail(w, text, got, &want, "license matches: Scan = %+v, want %+v", got, want)
	}
}

// oURLs: only the URL matches.
func oURLs(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
	spans, amb := s.Ref.M.Matches(toks)
	if amb {
		w.Skipped++
		return
	}
	w.Traces++
	want := ref.Cover(toks, s.Ref.Regions(text, toks, spans))
	if !sameMatches(got, want, true) {
		s.fail(w, text, got, &want, "URL matches: Scan = %+v, want %+v", got, want)
	}
}

func sameMatches(a, b ref.Coverage, urls bool) bool {
	var x, y []ref.Match
	for _, m := range a.Match {
		if m.IsURL == urls {
			x = append(x, m)
		}
	}
	for _, m := range b.Match {
		if m.IsURL == urls {
			y = append(y, m)
		}
	}
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// within returns the words of toks lying inside bytes [lo, hi).
func within(toks []ref.Tok, lo, hi int) (w0, w1 int) {
	w0 = sort.Search(len(toks), func(i int) bool { return toks[i].Lo >= lo })
	w1 = sort.Search(len(toks), func(i int) bool { return toks[i].Hi > hi })
	if w1 < w0 {
		w1 = w0
	}
	return w0, w1
}

// oStruct: matches are in order, disjoint, within the text, non-empty and come from the list.
func oStruct(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
	w.Traces++
	prev := 0
	for i, m := range got.Match {
		if m.Start < prev || m.End <= m.Start || m.End > len(text) {
			s.fail(w, text, got, nil, "match %d at [%d,%d) is out of order, empty or out of range (previous end %d, text length %d)", i, m.Start, m.End, prev, len(text))
		}
		prev = m.End
		ok := false
		for _, l := range s.List {
			if l.ID == m.ID && l.Type == m.Type && (m.IsURL && l.URL != "" || !m.IsURL && l.LRE != "") {
				ok = true
				break
			}
		}
		if !ok {
			s.fail(w, text, got, nil, "match %d (%s, type %d, URL %v) is not an entry of the list", i, m.ID, m.Type, m.IsURL)
		}
	}
	if math.IsNaN(got.Percent) || got.Percent < 0 || got.Percent > 100+1e-9 {
		s.fail(w, text, got, nil, "Percent = %v", got.Percent)
	}
	if len(got.Match) == 0 && got.Percent != 0 {
		s.fail(w, text, got, nil, "Percent = %v without a match", got.Percent)
	}
}

// oPercent: Percent is 100 * words inside the reported ranges / words of the text.
func oPercent(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
	w.Traces++
	n := 0
	for _, m := range got.Match {
		w0, w1 := within(toks, m.Start, m.End)
		n += w1 - w0
	}
	want := 0.0
	if len(toks) > 0 {
		want = 100 * float64(n) / float64(len(toks))
	}
	if math.IsNaN(got.Percent) || math.Abs(got.Percent-want) > 1e-9*want {
		s.fail(w, text, got, nil, "Percent = %v, want %v (%d of %d words)", got.Percent, want, n, len(toks))
	}
}

// oSound: every reported license match is justified by its pattern and the documented corrections.
func oSound(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
	w.Traces++
	prev := 0
	for i, m := range got.Match {
		w0, w1 := within(toks, m.Start, m.End)
		if m.IsURL {
			if l, ok := s.Ref.LookupURL(text[m.Start:m.End]); !ok || l.ID != m.ID || l.Type != m.Type {
				s.fail(w, text, got, nil, "match %d: %q is not a URL of %s", i, text[m.Start:m.End], m.ID)
			}
			continue
		}
		k := -1
		ok := false
		for _, l := range s.Ref.LREs() {
			k++
			if l.ID != m.ID || l.Type != m.Type {
				continue
			}
			if w0 < prev {
				break
			}
			for core := w0; core <= w0+50 && core+2 <= w1; core++ {
				if core > w0 && toks[w0].W != "copyright" {
					break
				}
				if !s.Ref.M.Phrase[[2]int{s.Ref.M.ID(toks[core].W), s.Ref.M.ID(toks[core+1].W)}] {
					continue
				}
				if s.Ref.M.Justified(k, toks, core, w1) {
					ok = true
					break
				}
			}
			if ok {
				break
			}
		}
		if !ok {
			s.fail(w, text, got, nil, "match %d: %q is not a match of %s, even with corrections", i, text[m.Start:m.End], m.ID)
		}
		prev = w1
	}
}

// all combines oracles.
func all(os ...Oracle) Oracle {
	return func(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
		for _, o := range os {
			o(w, s, text, toks, got)
		}
	}
}

// try runs one text.
func (s *Set) try(w *eng.Worker, o Oracle, text string) ref.Coverage {
	got := s.scan(w, text)
	toks := ref.Tokenize(text, true)
	for i := 0; i+1 < len(toks); i++ {
		if s.Ref.M.Phrase[[2]int{s.Ref.M.ID(toks[i].W), s.Ref.M.ID(toks[i+1].W)}] {
			w.Nontrivial++
			break
		}
	}
	if len(got.Match) > 0 && w.WantSample() {
		w.Sample(map[string]interface{}{"licenses": caseOf(s.List, "").Licenses, "text": caseOf(nil, text).Text, "result": got})
	}
	o(w, s, text, toks, got)
	return got
}
