package main

import (
	"fmt"
	"reflect"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// Histories of API calls and caller mutations.

type histWorld struct {
	w      *eng.Worker
	ops    []string
	first  *lc.Scanner // first scanner made
	cur    *lc.Scanner // last scanner made
	firstK int         // which list it was made from
	curK   int
	passed []lc.License // the slice last passed to NewScanner
	last   lc.Coverage
	lastK  int
	text   []byte
}

var histLists = [][]lc.License{
	{{ID: "A0", Type: lc.Notice, LRE: "moon copyright sun"}, {ID: "A1", LRE: "sun moon\n((star))??\ncomet"}, {ID: "A2", Type: lc.Unrestricted, URL: "x.org/a"}, {ID: "a3 ", Type: 1 << 40, URL: "HTTP://X.org/A/"}, {ID: "A4", URL: "x.org/b/"}, {ID: "A5", LRE: " Comet\r\n//** Sun **//\n((moons))??\n Copyright (C)\t\n"}, {}},
	{{ID: "B0", Type: lc.ShareServer, LRE: "comet star\n((sun))??\nmoon"}, {ID: "B1", URL: "x.org/b", LRE: "sun moon __4__ comet star"}, {ID: "B2", URL: "x.org/a"}},
	{{ID: "C0", URL: "x.org/a", Type: lc.Discouraged}},
	{{ID: "D0", Type: lc.ShareChanges, LRE: "sun moon comet"}, {ID: "D1", LRE: "comet star\n((moon))??\nsun"}},
}

// Words unknown to a list, near its words, and words of the other lists.
var histTexts = []string{
	"sun moon comet star moon",
	"sun moonx strange wordless comet star http://x.org/a moon (c) sun",
	"copyright w comet star sunmoon\nhttp://x.org/b/ w",
	"strange wordless moon copyright strange",
}

// histWant[k][t] is the reference's answer.
func histExpect() [][]ref.Coverage {
	var out [][]ref.Coverage
	for _, l := range histLists {
		s, err := ref.NewScanner(fromReal(l))
		if err != nil {
			panic(err)
		}
		var row []ref.Coverage
		for _, t := range histTexts {
			c, amb := s.Scan(t)
			if amb {
				panic("ambiguous text in histories: " + t)
			}
			row = append(row, c)
		}
		out = append(out, row)
	}
	return out
}

func (h *histWorld) fail(format string, args ...interface{}) {
	h.w.Fail(h.ops, "", "after %s: %s", strings.Join(h.ops, "; "), fmt.Sprintf(format, args...))
}

var histNames = []string{"new A", "new B", "new C", "new D", "new bad", "scribble on passed list", "scan 0", "scan 1", "scan 2", "scan 3 with first", "scan 1 with first", "scribble on result and text", "BuiltinLicenses and scribble", "append to result", "rewrite text in place and scan"}

func (h *histWorld) do(op int, want [][]ref.Coverage) {
	h.ops = append(h.ops, histNames[op])
	scan := func(s *lc.Scanner, k, t int) {
		if s == nil {
			return
		}
		h.text = []byte(histTexts[t])
		c := s.Scan(h.text)
		h.w.Evals++
		h.w.Trans++
		if string(h.text) != histTexts[t] {
			h.fail("Scan changed its input")
		}
		if got := toCov(c); !eq(got, want[k][t]) {
			h.fail("Scan(%q) with list %d = %+v, want %+v", histTexts[t], k, got, want[k][t])
		}
		h.last, h.lastK = c, k
	}
	switch op {
	case 0, 1, 2, 3:
		h.passed = append(make([]lc.License, 0, 8), histLists[op]...)
		s, err := lc.NewScanner(h.passed)
		if err != nil {
			h.fail("NewScanner: %v", err)
		}
		if !reflect.DeepEqual(h.passed, histLists[op]) {
			h.fail("NewScanner changed its argument")
		}
		h.w.Trans++
		h.cur, h.curK = s, op
		if h.first == nil {
			h.first, h.firstK = s, op
		}
	case 4:
		bad := append([]lc.License{}, histLists[0]...)
		bad = append(bad, lc.License{ID: "bad", LRE: "strange wordless moonx\n((sun"})
		if _, err := lc.NewScanner(bad); err == nil {
			h.fail("NewScanner accepts a bad pattern")
		}
		h.w.Trans++
	case 5:
		p := h.passed[:cap(h.passed)]
		for i := range p {
			p[i] = lc.License{ID: "scribble", Type: 1 << 8, LRE: "strange wordless", URL: "x.org/b"}
		}
	case 6, 7, 8:
		scan(h.cur, h.curK, op-6)
	case 9:
		scan(h.first, h.firstK, 3)
	case 10:
		scan(h.first, h.firstK, 1)
	case 11:
		m := h.last.Match[:cap(h.last.Match)]
		for i := range m {
			m[i] = lc.Match{ID: "scribble", Start: -1, End: 1 << 30}
		}
		for i := range h.text {
			h.text[i] = 'x'
		}
	case 12:
		l := lc.BuiltinLicenses()
		h.w.Trans++
		if len(l) == 0 || l[0].ID == "scribble" {
			h.fail("BuiltinLicenses: %d entries", len(l))
		}
		if len(l) > 0 {
			l[0] = lc.License{ID: "scribble", LRE: "sun moon"}
			l[len(l)-1] = lc.License{ID: "scribble", URL: "x.org/b"}
		}
	case 13:
		_ = append(h.last.Match, lc.Match{ID: "appended"})
	case 14:
		// The same memory holds another text: nothing may be remembered by address.
		buf := h.text[:cap(h.text)]
		if len(buf) < len(histTexts[2]) {
			return
		}
		buf = buf[:copy(buf, histTexts[2])]
		h.w.Evals++
		h.w.Trans++
		if got := toCov(h.cur.Scan(buf)); !eq(got, want[h.curK][2]) {
			h.fail("Scan(%q) in the memory of an earlier text with list %d = %+v, want %+v", buf, h.curK, got, want[h.curK][2])
		}
	}
}

// changed reports whether doing op now can change anything (others are skipped).
func (h *histWorld) useful(op int) bool {
	switch op {
	case 5:
		return h.passed != nil
	case 6, 7, 8, 9, 10:
		return h.cur != nil
	case 11, 13, 14:
		return h.text != nil
	}
	return true
}

func init() {
	reg(&eng.Check{ID: "C12", Level: "model_checking",
		Rule:        "all histories of operations (three license lists sharing words in different orders, a failing list, scans, scribbling on lists, results and texts) up to the stated depth, each call compared with the reference answer for its own list and text; and histories of first uses in fresh processes, each compared with the operation alone in a fresh process; non-trivial: histories with a scan after another operation",
		Assumptions: []string{"The state of the model is (list of first scanner, list of last scanner); every call must answer as a function of it."},
		Run: func(c *eng.Ctx) {
			want := histExpect()
			depth := 5
			if c.Thorough {
				depth = 6
			}
			n := len(histNames)
			c.Space("histories", n*n, fmt.Sprintf("all histories of at most %d of %d operations", depth, n), func(w *eng.Worker, i int) {
				type key struct{ a, b int }
				states := map[key]bool{}
				var rec func(seq []int)
				rec = func(seq []int) {
					h := &histWorld{w: w, firstK: -1, curK: -1}
					scans := 0
					for j, op := range seq {
						if !h.useful(op) {
							if j == len(seq)-1 {
								return
							}
							return
						}
						h.do(op, want)
						if op >= 6 && op <= 10 || op == 14 {
							scans++
						}
						states[key{h.firstK, h.curK}] = true
					}
					w.Traces++
					if scans > 0 {
						w.Nontrivial++
					}
					if len(seq) < depth {
						for op := 0; op < n; op++ {
							rec(append(seq[:len(seq):len(seq)], op))
						}
					} else if scans > 2 && w.WantSample() {
						w.Sample(h.ops)
					}
				}
				rec([]int{i / n, i % n})
				w.States += int64(len(states))
			})
			// Order of construction: scanners of all lists made in all orders, interleaved with scans.
			c.Space("orders", 1, "all orders of making all scanners and one failing one × all scanners scanned twice in all orders", func(w *eng.Worker, i int) {
				perms(len(histLists)+1, func(p []int) {
					ss := make([]*lc.Scanner, len(histLists))
					h := &histWorld{w: w}
					for _, k := range p {
						if k == len(histLists) {
							h.do(4, want)
							continue
						}
						s, err := lc.NewScanner(histLists[k])
						if err != nil {
							w.Fail(nil, "", "NewScanner: %v", err)
						}
						ss[k] = s
						for k2, s2 := range ss {
							if s2 == nil {
								continue
							}
							for t, text := range histTexts {
								w.Evals++
								w.Nontrivial++
								w.Traces++
								if got := toCov(s2.Scan([]byte(text))); !eq(got, want[k2][t]) {
									w.Fail(p, "", "making scanners in order %v: list %d, Scan(%q) = %+v, want %+v", p, k2, text, got, want[k2][t])
								}
							}
						}
					}
				})
			})
			// Many scans of one scanner: the same answer every time.
			c.Space("repetition", len(histLists), "every ordered pair of texts of a scanner, then 300 rounds of all texts", func(w *eng.Worker, k int) {
				s, err := lc.NewScanner(histLists[k])
				if err != nil {
					w.Fail(nil, "", "NewScanner: %v", err)
				}
				for r := 0; r < 300; r++ {
					for d := 0; d < len(histTexts); d++ {
						t := (r*(d+1) + d) % len(histTexts)
						w.Evals++
						w.Traces++
						if got := toCov(s.Scan([]byte(histTexts[t]))); !eq(got, want[k][t]) {
							w.Fail(nil, "", "round %d: list %d, Scan(%q) = %+v, want %+v", r, k, histTexts[t], got, want[k][t])
						}
					}
				}
			})
			// Every pair of texts of a larger pool on one scanner: the second answer is the solo one.
			pool := histPool()
			c.Space("pairs_of_texts", len(pool), fmt.Sprintf("all ordered pairs of %d texts scanned one after the other by one scanner, and against a fresh scanner", len(pool)), func(w *eng.Worker, i int) {
				list := append(pats("q r s", "q r __4__ abcdef u v\n((w))??\nz", "copyright abcdef", "abcdefs q"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
				s := mustSet(w, list)
				for _, t2 := range pool {
					fresh := mustSet(w, list).scan(w, t2)
					s.scan(w, pool[i])
					got := s.scan(w, t2)
					w.Traces++
					w.Nontrivial++
					if !reflect.DeepEqual(got, fresh) {
						s.fail(w, t2, got, &fresh, "after scanning %q: %+v, on a fresh scanner %+v", pool[i], got, fresh)
					}
				}
			})
			spaceTwins(c)
			spaceFirstUse(c)
		}})
}

func histPool() []string {
	var out []string
	for _, a := range []string{"", "q r s", "q r abcdef u v z", "q r x x abcdef u v w z", "q r abcdefg u v z", "copyright abcdef", "(c) abcdex", "abcdefs q r s", "http://x.org/lic", "HTTP://X.ORG/LIC/legalcode w", "x", "copyright x"} {
		for _, b := range []string{"", " x", "\nq r s", " unknownword http://x.org/lic", "\ncopyright q r abc def u v z"} {
			out = append(out, a+b)
		}
	}
	// URLs that are found by trimming, and longer ones.
	for _, a := range []string{"x.org/lic", "x.org/lic/a", "x.org/lic/a/b", "x.org/lic/a/b/c", "x.org/lic/legalcode", "x.org/lic/legalcode/a", "x.org/lic/a/legalcode", "x.org/a", "x.org/a/lic"} {
		out = append(out, "see https://"+a+" w", "http://"+a+"/")
	}
	// Long texts of the same length that differ at the end, in the middle, and at the start.
	for _, n := range []int{100, 3000, 30000} {
		long := strings.Repeat("w x ", n)
		mid := len(long) / 8 * 4
		for _, x := range []string{"q r s ", "q r q ", "s q r "} {
			out = append(out, long+x, long[:mid]+x+long[mid:], x+long)
		}
	}
	return out
}

func perms(n int, f func(p []int)) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			f(p)
			return
		}
		for k := 0; k < n; k++ {
			if used>>uint(k)&1 == 0 {
				rec(append(p[:len(p):len(p)], k), used|1<<uint(k))
			}
		}
	}
	rec(nil, 0)
}

// spaceTwins: lists that are nearly the same, used one after the other.
func spaceTwins(c *eng.Ctx) {
	o := all(oFull, oStruct)
	base := []ref.License{{ID: "A", Type: 2, LRE: "sun moon star"}, {ID: "B", Type: 4, LRE: "comet star\n((moon))??\nsun", URL: "x.org/b"}, {ID: "C", Type: 8, URL: "x.org/c"}, {ID: "D", Type: 16, LRE: "copyright sun __3__ comet"}}
	// Every list one small edit away, with its base.
	var twins [][2][]ref.License
	add := func(a, b []ref.License) { twins = append(twins, [2][]ref.License{a, b}) }
	for n := 1; n <= len(base); n++ {
		for first := 0; first+n <= len(base); first++ {
			a := base[first : first+n : first+n]
			for k := range a {
				edit := func(f func(l *ref.License)) {
					b := append([]ref.License{}, a...)
					f(&b[k])
					add(a, b)
				}
				edit(func(l *ref.License) { l.ID += "x" })
				edit(func(l *ref.License) { l.ID = strings.ToLower(l.ID) })
				edit(func(l *ref.License) { l.Type ^= 1 << 8 })
				edit(func(l *ref.License) { l.Type = 0 })
				for _, f := range []string{"LRE", "URL"} {
					get := func(l *ref.License) *string {
						if f == "URL" {
							return &l.URL
						}
						return &l.LRE
					}
					t := *get(&a[k])
					if t == "" {
						continue
					}
					for p := 0; p < len(t); p++ {
						if 'a' <= t[p] && t[p] <= 'z' {
							x := t[:p] + string(rune('a'+(t[p]-'a'+1)%26)) + t[p+1:]
							edit(func(l *ref.License) { *get(l) = x })
						}
					}
					if len(a) > 1 {
						edit(func(l *ref.License) { *get(l) = "" })
					}
				}
				if k > 0 {
					b := append([]ref.License{}, a...)
					b[0], b[k] = b[k], b[0]
					add(a, b)
					b = append([]ref.License{}, a...)
					b[0].ID, b[k].ID = b[k].ID, b[0].ID
					add(a, b)
					b = append([]ref.License{}, a...)
					b[0].Type, b[k].Type = b[k].Type, b[0].Type
					add(a, b)
				}
				if len(a) > 1 {
					add(a, append(append([]ref.License{}, a[:k]...), a[k+1:]...))
				}
				add(a, append(append([]ref.License{}, a...), a[k]))
			}
		}
	}
	words := []string{"sun", "moon", "star", "comet"}
	c.Space("twins", len(twins), "all pairs of a list of 1..4 entries and a list one small edit away (a letter of a pattern, URL or ID, a type, entries exchanged, dropped or doubled), made in both orders × texts of the patterns and URLs of both", func(w *eng.Worker, i int) {
		for _, order := range [][]int{{0, 1}, {1, 0}, {0, 1, 0}} {
			var sets []*Set
			for _, k := range order {
				s := newSet(w, twins[i][k])
				if s == nil {
					continue
				}
				sets = append(sets, s)
				for _, s := range sets {
					for _, l := range append(append([]ref.License{}, twins[i][0]...), twins[i][1]...) {
						t := strings.NewReplacer("((", "", "))??", "", "__3__", "w").Replace(l.LRE)
						s.try(w, o, t+"\nhttp://"+l.URL)
						s.try(w, o, "http://"+l.URL+" "+t)
					}
					for _, x := range words {
						s.try(w, o, "sun moon star comet "+x+" sun")
					}
				}
			}
			for _, s := range sets {
				s.close(w)
			}
		}
	})
}
