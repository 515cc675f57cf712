package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/google/licensecheck/old"
	"github.com/google/licensecheck/verif/conc"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

func init() {
	reg(&eng.Check{ID: "C21", Level: "model_checking",
		Rule: "all lists, options and texts of the bounded spaces below (small alphabets exhaustively; slop, threshold, blank, overlap, URL, word and size boundaries); each result checked for its structure, asked twice, with defaults spelled out; all histories of calls on shared checkers up to a depth, and the same calls from several goroutines; non-trivial: there is a match",
		Run:  runC21})
	reg(&eng.Check{ID: "C22", Level: "model_checking",
		Rule:        "all lists, options and texts of the bounded spaces below, compared with a reference written from the documented rules over plain word lists; texts that hold a license with changed case, punctuation and list markers must give exactly that range at 100 percent; non-trivial: the reference has a match",
		Assumptions: []string{"Candidates of equal name and start word have no specified order; such cases are counted as skipped_ambiguous."},
		Run:         runC22})
}

func runC22(c *eng.Ctx) {
	everything(c, oRef)
	exact(c)
}

var exactGaps = []string{" ", "\n", ", ", ". ", "\n * ", "\n// ", "\n\t", " - ", "\" ", " (", ") ", " 12 ", "; a. ", "\n(ii) ", " &amp; ", "\u00a0", " \u2014 ", "/"}

// exact: a text with the license in it, differently laid out, is found whole.
func exact(c *eng.Ctx) {
	ns := []int{10, 11, 12, 13, 20, 50}
	c.Space("exact", len(ns)*len(exactGaps), "licenses of n words with one gap form at every place or all places, in four cases of letters, surrounded or not by other words: one match, 100 percent, exactly that range", func(w *eng.Worker, i int) {
		n, g := ns[i/len(exactGaps)], exactGaps[i%len(exactGaps)]
		ws := words(n, "p")
		s := newSet(w, append(texts1(strings.Join(ws, " ")), ref.OldLicense{Name: "GPL", Text: "entirely other words that never occur in any of these texts at all"}))
		var bodies []string
		bodies = append(bodies, strings.Join(ws, g))
		for k := 1; k < n; k++ {
			bodies = append(bodies, strings.Join(ws[:k], " ")+g+strings.Join(ws[k:], " "))
		}
		for _, b := range bodies {
			low := strings.ReplaceAll(b, "\x00", "")
			for _, t := range []string{low, strings.ToUpper(low), strings.Title(low)} {
				t = strings.ReplaceAll(t, "&AMP;", "&amp;")
				t = strings.ReplaceAll(t, "&Amp;", "&amp;")
				for _, wr := range [][2]string{{"", ""}, {"zz zz ", " zz zz"}, {"12. ", " 34"}, {"zz\n\n", "\n\nzz zz zz"}} {
					text := wr[0] + t + wr[1]
					cov := s.try(w, oRef, text, old.Options{})
					lo, hi := len(wr[0]), len(wr[0])+len(t)
					if !strings.Contains(wr[0], "zz") {
						lo = 0
					}
					if !strings.Contains(wr[1], "zz") {
						hi = len(text)
					}
					if len(cov.Match) != 1 || cov.Match[0] != (old.Match{Name: "MIT-0", Type: old.MIT, Percent: 100, Start: lo, End: hi}) {
						s.fail(w, text, old.Options{}, &cov, nil, "want MIT-0 at 100%% over [%d,%d), got %+v", lo, hi, cov)
					}
				}
			}
		}
	})
}

func runC21(c *eng.Ctx) {
	everything(c, all(oStruct, oAgain))
	histories(c)
	types(c)
	concurrent(c)
	conc.Checkers(c)
}

// types: the type its name implies.
func types(c *eng.Ctx) {
	names := []string{"", "A", "AGPL", "AGPL-3.0", "Apache", "Apache-2.0", "apache", "BSD", "BSD-3-Clause", "BS", "CC", "CC-BY", "C", "GPL", "GPL2", "LGPL", "JSON", "MIT", "MITx", "XMIT", "Unlicense", "Zlib", "zlib", "Other", "OtherThing", "AGP", "G"}
	c.Space("types", len(names), "names with, without and nearly with the listed prefixes, found by text and by URL", func(w *eng.Worker, i int) {
		lic := strings.Join(words(12, "p"), " ")
		s := newSet(w, []ref.OldLicense{{Name: names[i], Text: lic, URL: "x.org/l"}})
		cov := s.try(w, oStruct, lic+" see http://x.org/l now", old.Options{})
		if len(cov.Match) != 2 {
			s.fail(w, lic, old.Options{}, &cov, nil, "want two matches, got %+v", cov)
		}
		if t := typeOf(names[i]); t < old.Other && t.String() != typePrefixes[t] {
			w.Fail(names[i], "", "type %d is called %q", t, t)
		}
	})
}

// A histOp is one call in a history.
type histOp struct {
	set  int
	text string
	opts old.Options
}

func histSets() [][]ref.OldLicense {
	a, b := strings.Join(words(10, "p"), " "), strings.Join(words(10, "q"), " ")
	return [][]ref.OldLicense{
		append(texts1(a, b), ref.OldLicense{Name: "U", URL: "x.org/l"}),
		texts1(b+" "+a, strings.Join(words(4, "new"), " ")),
	}
}

func histOps() []histOp {
	a, b := strings.Join(words(10, "p"), " "), strings.Join(words(10, "q"), " ")
	var out []histOp
	for set := 0; set < 2; set++ {
		for _, t := range []string{a + " unknown " + b, strings.Join(words(4, "new"), " ") + " other", b + " http://x.org/l " + a, "", b[:len(b)/2] + " " + a} {
			out = append(out, histOp{set, t, old.Options{}})
		}
		out = append(out, histOp{set, a, old.Options{MinLength: 2, Threshold: 1, Slop: 1}})
	}
	return out
}

// histories: every sequence of calls on two shared checkers answers as fresh ones do.
func histories(c *eng.Ctx) {
	ops := histOps()
	n := len(ops)
	depth := 4
	if c.Thorough {
		depth = 5
	}
	alone := make([]string, n)
	run := func(w *eng.Worker, sets []*Set, o histOp) string {
		cov, ok := sets[o.set].cover(w, o.text, o.opts)
		s := fmt.Sprintf("%+v %v", cov, ok)
		for i := range cov.Match { // scribble on the result
			cov.Match[i] = old.Match{Name: "scribble"}
		}
		return s
	}
	mk := func(w *eng.Worker) []*Set {
		var sets []*Set
		for _, l := range histSets() {
			sets = append(sets, newSet(w, l))
		}
		return sets
	}
	c.Space("histories", n*n, fmt.Sprintf("all histories of up to %d of %d calls on two checkers, callers changing lists and results, against each call alone", depth, n), func(w *eng.Worker, i int) {
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) == depth {
				sets := mk(w)
				for k, x := range h {
					got := run(w, sets, ops[x])
					mu.Lock()
					want := alone[x]
					mu.Unlock()
					if want == "" {
						want = run(w, mk(w), ops[x])
						mu.Lock()
						alone[x] = want
						mu.Unlock()
					}
					w.Trans++
					if got != want {
						w.Fail(h[:k+1], "", "after calls %v, call %d (%+v) gives %s, alone %s", h[:k], x, ops[x], got, want)
					}
				}
				w.States++
				w.Traces++
				w.Nontrivial++
				return
			}
			for x := range ops {
				rec(append(h[:len(h):len(h)], x))
			}
		}
		rec([]int{i / n, i % n})
	})
}

// concurrent: the same calls from several goroutines at once.
func concurrent(c *eng.Ctx) {
	ops := histOps()
	rounds := 200
	if c.Thorough {
		rounds = 3000
	}
	c.Space("concurrent", len(ops), fmt.Sprintf("each call from 8 goroutines on shared checkers, with every other call going on, %d rounds (free-running; the histories above cover the orders)", rounds), func(w *eng.Worker, i int) {
		var sets []*Set
		for _, l := range histSets() {
			sets = append(sets, newSet(w, l))
		}
		want := make([]string, len(ops))
		for k, o := range ops {
			cov, ok := sets[o.set].cover(w, o.text, o.opts)
			want[k] = fmt.Sprintf("%+v %v", cov, ok)
		}
		var wg sync.WaitGroup
		bad := make(chan string, 8)
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						bad <- fmt.Sprintf("panic: %v", e)
					}
				}()
				for r := 0; r < rounds; r++ {
					k := i
					if g >= 4 {
						k = (r + g) % len(ops)
					}
					o := ops[k]
					cov, ok := sets[o.set].Real.Cover([]byte(o.text), o.opts)
					if s := fmt.Sprintf("%+v %v", cov, ok); s != want[k] {
						bad <- fmt.Sprintf("%+v gives %s, alone %s", o, s, want[k])
						return
					}
				}
			}()
		}
		wg.Wait()
		w.Evals += int64(8 * rounds)
		w.Traces++
		select {
		case m := <-bad:
			w.Fail(i, "", "concurrent calls: %s", m)
		default:
		}
	})
}

// spaceTestdata: the texts of the old package's license directory, if any, against each other.
func spaceTestdata(c *eng.Ctx, f Oracle) {
	var files []string
	for _, g := range []string{"/repo/testdata/*.txt", "/repo/testdata/*.t*", "/repo/testdata/*/*"} {
		m, _ := filepath.Glob(g)
		files = append(files, m...)
	}
	sort.Strings(files)
	var names, texts []string
	seen := map[string]bool{}
	for _, p := range files {
		data, err := os.ReadFile(p)
		if err != nil || len(data) > 40000 || seen[p] {
			continue
		}
		seen[p] = true
		names = append(names, filepath.Base(p))
		texts = append(texts, string(data))
	}
	if len(texts) == 0 {
		return
	}
	max := 60
	if c.Thorough {
		max = 400
	}
	if len(texts) > max {
		step := len(texts) / max
		var a, b []string
		for i := 0; i < len(texts); i += step {
			a, b = append(a, names[i]), append(b, texts[i])
		}
		names, texts = a, b
	}
	var list []ref.OldLicense
	for i := range texts {
		list = append(list, ref.OldLicense{Name: fmt.Sprintf("%03d-%s", i, names[i]), Text: texts[i], URL: fmt.Sprintf("x.org/%d", i)})
	}
	nb := 8
	c.Space("testdata", nb, fmt.Sprintf("%d sample texts of the repository as licenses, in lists of an eighth of them × each of them, in upper case, and its halves, as texts", len(texts)), func(w *eng.Worker, i int) {
		var part []ref.OldLicense
		for k := i; k < len(list); k += nb {
			part = append(part, list[k])
		}
		s := newSet(w, part)
		for _, l := range part {
			s.try(w, f, l.Text, old.Options{})
			s.try(w, f, strings.ToUpper(l.Text), old.Options{})
			h := len(l.Text) / 2
			s.try(w, f, l.Text[:h], old.Options{})
			s.try(w, f, l.Text[h:]+" "+l.Text[:h], old.Options{Slop: 20, Threshold: 10})
		}
	})
}
