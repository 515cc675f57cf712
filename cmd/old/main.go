// Command old decides the properties of the old (v0.1.0) checker, through its public API.
package main

import (
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/google/licensecheck/old"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

var checks []*eng.Check

func reg(c *eng.Check) { checks = append(checks, c) }

func main() { eng.Main(checks) }

// A Set is a license list with the real checker and the reference for it.
type Set struct {
	List []ref.OldLicense
	Real *old.Checker
	Ref  *ref.OldChecker
}

func toReal(list []ref.OldLicense) []old.License {
	var out []old.License
	for _, l := range list {
		out = append(out, old.License{Name: l.Name, Text: l.Text, URL: l.URL})
	}
	return out
}

func newSet(w *eng.Worker, list []ref.OldLicense) (s *Set) {
	defer func() {
		if e := recover(); e != nil {
			w.Fail(caseOf(list, "", old.Options{}), "", "New panics: %v", e)
		}
	}()
	in := toReal(list)
	s = &Set{List: list, Real: old.New(in), Ref: ref.NewOld(list)}
	for i, l := range toReal(list) {
		if in[i] != l {
			panic("New changed its argument")
		}
		in[i] = old.License{Name: "changed", Text: "changed later on", URL: "x.org/changed"}
	}
	return s
}

func texts1(texts ...string) []ref.OldLicense {
	var out []ref.OldLicense
	for i, t := range texts {
		out = append(out, ref.OldLicense{Name: fmt.Sprintf("%s-%d", []string{"MIT", "BSD", "GPL", "X"}[i%4], i), Text: t})
	}
	return out
}

type coverCase struct {
	Licenses []ref.OldLicense
	Text     string
	Options  old.Options
	Got      *old.Coverage  `json:",omitempty"`
	Want     []ref.OldMatch `json:",omitempty"`
}

func caseOf(list []ref.OldLicense, text string, o old.Options) *coverCase {
	if len(list) > 20 {
		list = list[:20]
	}
	if len(text) > 4000 {
		text = text[:2000] + " [...] " + text[len(text)-2000:]
	}
	return &coverCase{Licenses: list, Text: fmt.Sprintf("%q", text), Options: o}
}

func testSrc(list []ref.OldLicense, text string, o old.Options) string {
	if len(list) > 100 || len(text) > 1<<16 {
		return ""
	}
	var b strings.Builder
	b.WriteString("package old_test\n\nimport (\n\t\"testing\"\n\n\t\"github.com/google/licensecheck/old\"\n)\n\nfunc TestReplay(t *testing.T) {\n\tc := old.New([]old.License{\n")
	for _, l := range list {
		fmt.Fprintf(&b, "\t\t{Name: %q, Text: %q, URL: %q},\n", l.Name, l.Text, l.URL)
	}
	fmt.Fprintf(&b, "\t})\n\tcov, ok := c.Cover([]byte(%q), old.Options{MinLength: %d, Threshold: %d, Slop: %d})\n\tt.Logf(\"%%+v %%v\", cov, ok)\n}\n", text, o.MinLength, o.Threshold, o.Slop)
	return b.String()
}

func (s *Set) fail(w *eng.Worker, text string, o old.Options, got *old.Coverage, want []ref.OldMatch, format string, args ...interface{}) {
	c := caseOf(s.List, text, o)
	c.Got, c.Want = got, want
	w.Fail(c, testSrc(s.List, text, o), "%s", fmt.Sprintf(format, args...))
}

func (s *Set) cover(w *eng.Worker, text string, o old.Options) (cov old.Coverage, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			w.Fail(caseOf(s.List, text, o), testSrc(s.List, text, o), "Cover panics: %v", e)
		}
	}()
	w.Evals++
	buf := []byte(text)
	cov, ok = s.Real.Cover(buf, o)
	if string(buf) != text {
		panic("Cover changed its input")
	}
	return cov, ok
}

// An Oracle decides one case.
type Oracle func(w *eng.Worker, s *Set, text string, o old.Options, cov old.Coverage, ok bool)

var typePrefixes = []string{"AGPL", "Apache", "BSD", "CC", "GPL", "JSON", "MIT", "Unlicense", "Zlib"}

func typeOf(name string) old.Type {
	for i, p := range typePrefixes {
		if strings.HasPrefix(name, p) {
			return old.Type(i)
		}
	}
	return old.Other
}

// oStruct: the result is well-formed, and the same when asked again.
func oStruct(w *eng.Worker, s *Set, text string, o old.Options, cov old.Coverage, ok bool) {
	w.Traces++
	bad := func(format string, args ...interface{}) { s.fail(w, text, o, &cov, nil, format, args...) }
	if ok != (len(cov.Match) > 0) {
		bad("flag %v with %d matches", ok, len(cov.Match))
	}
	if math.IsNaN(cov.Percent) || cov.Percent < 0 || cov.Percent > 100+1e-9 {
		bad("Percent = %v", cov.Percent)
	}
	if len(cov.Match) == 0 && cov.Percent != 0 {
		bad("Percent = %v without a match", cov.Percent)
	}
	th := float64(o.Threshold)
	if th <= 0 {
		th = 40
	}
	prev := 0
	for i, m := range cov.Match {
		if m.Start < prev || m.End <= m.Start || m.End > len(text) {
			bad("match %d at [%d,%d) is out of order, empty or out of range (previous end %d, text length %d)", i, m.Start, m.End, prev, len(text))
		}
		prev = m.End
		if math.IsNaN(m.Percent) || m.Percent < 0 || m.Percent > 100+1e-9 || !m.IsURL && m.Percent < th-1e-9 {
			bad("match %d: Percent = %v", i, m.Percent)
		}
		if m.IsURL && m.Percent != 100 {
			bad("URL match %d: Percent = %v", i, m.Percent)
		}
		found := false
		for _, l := range s.List {
			found = found || l.Name == m.Name && (m.IsURL && l.URL != "" || !m.IsURL && l.Text != "")
		}
		if !found {
			bad("match %d (%q, URL %v) is not an entry of the list", i, m.Name, m.IsURL)
		}
		if m.Type != typeOf(m.Name) {
			bad("match %d (%q) has type %v, want %v", i, m.Name, m.Type, typeOf(m.Name))
		}
		if m.IsURL && !strings.HasPrefix(strings.ToLower(text[m.Start:m.End]), "http") {
			bad("URL match %d is %q", i, text[m.Start:m.End])
		}
	}
	if len(cov.Match) > 0 {
		w.Nontrivial++
	}
}

// oAgain: asking again, with defaults spelled out, and a fresh checker all give the same.
func oAgain(w *eng.Worker, s *Set, text string, o old.Options, cov old.Coverage, ok bool) {
	c2, ok2 := s.cover(w, text, o)
	if d := diff(cov, c2); d != "" || ok2 != ok {
		s.fail(w, text, o, &cov, nil, "the second call differs: %s", d)
	}
	full := o
	if full.MinLength <= 0 {
		full.MinLength = 10
	}
	if full.Threshold <= 0 {
		full.Threshold = 40
	}
	if full.Slop <= 0 {
		full.Slop = 8
	}
	if full != o {
		c2, _ := s.cover(w, text, full)
		if d := diff(cov, c2); d != "" {
			s.fail(w, text, o, &cov, nil, "with the defaults spelled out (%+v) it differs: %s", full, d)
		}
	}
}

func diff(a, b old.Coverage) string {
	x, y := fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b)
	if x == y {
		return ""
	}
	return x + " and " + y
}

// oRef: the result is the reference's.
func oRef(w *eng.Worker, s *Set, text string, o old.Options, cov old.Coverage, ok bool) {
	pct, want, tie := s.Ref.Cover(text, ref.OldOptions{MinLength: o.MinLength, Threshold: o.Threshold, Slop: o.Slop})
	if tie {
		w.Skipped++
		return
	}
	w.Traces++
	w.States++
	w.Trans += int64(len(want))
	same := len(want) == len(cov.Match) && math.Abs(pct-cov.Percent) <= 1e-9*math.Abs(pct)
	for i := 0; same && i < len(want); i++ {
		g, r := cov.Match[i], want[i]
		same = g.Name == r.Name && g.Start == r.Start && g.End == r.End && g.IsURL == r.IsURL && math.Abs(g.Percent-r.Percent) <= 1e-9*math.Abs(r.Percent)
	}
	if !same {
		s.fail(w, text, o, &cov, want, "Cover = %+v, want %v %+v", cov, pct, want)
	}
	if len(want) > 0 {
		w.Nontrivial++
	}
}

func all(os ...Oracle) Oracle {
	return func(w *eng.Worker, s *Set, text string, o old.Options, cov old.Coverage, ok bool) {
		for _, f := range os {
			f(w, s, text, o, cov, ok)
		}
	}
}

func (s *Set) try(w *eng.Worker, f Oracle, text string, o old.Options) old.Coverage {
	cov, ok := s.cover(w, text, o)
	f(w, s, text, o, cov, ok)
	if len(cov.Match) > 0 && len(text) > 5 && w.WantSample() {
		w.Sample(map[string]interface{}{"case": caseOf(s.List, text, o), "result": cov})
	}
	return cov
}

// seqs returns every sequence of min..max elements of alphabet, shortest first, joined by spaces.
func seqs(alphabet []string, min, max int) []string {
	var out []string
	level := []string{""}
	for n := 0; n <= max; n++ {
		if n >= min {
			out = append(out, level...)
		}
		var next []string
		for _, s := range level {
			for _, a := range alphabet {
				next = append(next, strings.TrimSpace(s+" "+a))
			}
		}
		level = next
	}
	return out
}

// words returns n distinct words, letters only.
func words(n int, tag string) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, tag+string([]byte{byte('a' + i/26/26%26), byte('a' + i/26%26), byte('a' + i%26)}))
	}
	return out
}

// fill returns n unrelated words.
func fill(n int) string { return strings.TrimSpace(strings.Repeat("zz ", n)) }

var mu sync.Mutex
