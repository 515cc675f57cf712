package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// The built-in license list as a Set, made once.
var (
	builtinOnce sync.Once
	builtinList []ref.License
	builtinReal *lc.Scanner
	builtinRef  *ref.Scanner
	builtinErr  error
	builtinPool sync.Pool
)

func loadBuiltin() {
	builtinOnce.Do(func() {
		list := lc.BuiltinLicenses()
		builtinList = fromReal(list)
		builtinReal, builtinErr = lc.NewScanner(list)
		if builtinErr == nil {
			builtinRef, builtinErr = ref.NewScanner(builtinList)
		}
	})
}

// builtinSet returns a Set for the built-in list, for use by one worker at a time.
func builtinSet(w *eng.Worker) *Set {
	loadBuiltin()
	if builtinErr != nil {
		w.Fail(nil, "", "the built-in license list is not usable: %v", builtinErr)
	}
	if s, _ := builtinPool.Get().(*Set); s != nil {
		return s
	}
	return &Set{List: builtinList, Real: builtinReal, Ref: builtinRef.Clone()}
}

func (s *Set) release(w *eng.Worker) {
	s.close(w)
	if s.Ref.M.States() < 400000 {
		builtinPool.Put(s)
	}
}

const filler = "qqzqqzqqz"

// sameWords reports whether text reads as exactly ws.
func sameWords(toks []ref.Tok, ws []string) bool {
	if len(toks) != len(ws) {
		return false
	}
	for i, t := range toks {
		if t.W != ws[i] {
			return false
		}
	}
	return true
}

// corpus returns the texts of the repository's test data.
func corpus() (names, texts []string) {
	files, _ := filepath.Glob("/repo/testdata/*.t[0-9]*")
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		s := string(data)
		if i := strings.Index(s, "\n\n"); i >= 0 {
			s = s[i+2:]
		}
		names = append(names, filepath.Base(f))
		texts = append(texts, s)
	}
	return names, texts
}

// variants are ways to edit the words of a license text.
func variants(ws []string, full bool) []string {
	n := len(ws)
	join := func(w []string) string { return strings.Join(w, " ") }
	edit := func(k int, f func(w []string, k int) []string) string {
		return join(f(append([]string{}, ws...), k))
	}
	out := []string{
		join(ws),
		"Copyright 2020 Somebody\n\n" + join(ws) + "\nother words",
		"other words " + strings.ToUpper(join(ws)),
		join(ws) + "\n" + join(ws),
		"see http://creativecommons.org/licenses/by/4.0/legalcode " + join(ws) + " https://opensource.org/licenses/MIT",
	}
	steps := 3
	if full {
		steps = 12
	}
	for s := 0; s <= steps; s++ {
		k := s * (n - 1) / steps
		out = append(out,
			edit(k, func(w []string, k int) []string { return append(w[:k], w[k+1:]...) }),
			edit(k, func(w []string, k int) []string { w[k] = filler; return w }),
			edit(k, func(w []string, k int) []string { w[k] += "s"; return w }),
			edit(k, func(w []string, k int) []string { w[k] = filler + " " + w[k]; return w }),
			edit(k, func(w []string, k int) []string { w[k] = stopWords[(n+k)%16] + " " + w[k]; return w }),
			edit(k, func(w []string, k int) []string { w[k] += " not"; return w }),
		)
		if k+1 < n {
			out = append(out,
				edit(k, func(w []string, k int) []string { w[k] += w[k+1]; return append(w[:k+1], w[k+2:]...) }),
				join(ws[:k+1])+"\n\n"+join(ws),
				join(ws[k+1:]))
		}
		if len(ws[k]) > 1 {
			out = append(out, edit(k, func(w []string, k int) []string {
				w[k] = w[k][:len(w[k])/2] + "-\n" + w[k][len(w[k])/2:]
				return w
			}))
		}
	}
	return out
}

// spaceBuiltin: the built-in list on texts spelled out from its patterns and on the corpus.
func spaceBuiltin(c *eng.Ctx, o Oracle) {
	loadBuiltin()
	n := 0
	for _, l := range builtinList {
		if l.LRE != "" {
			n++
		}
	}
	c.Space("builtin_spelled", n, "for each built-in pattern: three texts spelled from it × word deleted, replaced, misspelled, inserted, joined, split at several places, truncated, repeated, in context", func(w *eng.Worker, i int) {
		s := builtinSet(w)
		e := ref.NewExpander(s.Ref.M.Trees[i])
		for def := 0; def < 3; def++ {
			for _, t := range variants(e.Expand(def, filler), c.Thorough) {
				s.try(w, o, t)
			}
		}
		// Followed by the next license.
		j := (i + 1) % n
		f := ref.NewExpander(s.Ref.M.Trees[j])
		a, b := strings.Join(e.Expand(2, filler), " "), strings.Join(f.Expand(2, filler), " ")
		s.try(w, o, a+"\n\n"+b)
		s.try(w, o, a+" "+b+" "+a)
		s.try(w, o, a+"\ncopyright w "+b+"\nhttp://opensource.org/licenses/ISC")
		s.release(w)
	})
	_, texts := corpus()
	c.Space("builtin_corpus", len(texts), fmt.Sprintf("%d texts of the repository's test data, as they are, upper-cased, as a comment, unwrapped, cut, doubled", len(texts)), func(w *eng.Worker, i int) {
		s := builtinSet(w)
		t := texts[i]
		s.try(w, o, t)
		s.try(w, o, strings.ToUpper(t))
		s.try(w, o, " * "+strings.ReplaceAll(t, "\n", "\n * "))
		s.try(w, o, strings.ReplaceAll(t, "\n", " "))
		s.try(w, o, t[:len(t)/2])
		s.try(w, o, t[len(t)/3:])
		s.try(w, o, t+t)
		s.try(w, o, strings.ReplaceAll(t, "\n", "\r\n"))
		s.release(w)
	})
}

// spaceBuiltinURLs: every built-in URL in several spellings.
func spaceBuiltinURLs(c *eng.Ctx, o Oracle) {
	loadBuiltin()
	var urls []string
	for _, l := range builtinList {
		if l.URL != "" {
			urls = append(urls, l.URL)
		}
	}
	c.Space("builtin_urls", len(urls), "every built-in URL × scheme, case, suffix and context", func(w *eng.Worker, i int) {
		s := builtinSet(w)
		for _, sc := range []string{"http://", "https://", "HTTPS://", "ftp://", ""} {
			for _, sf := range []string{"", "/", "/legalcode", "/legalcode/", "/us", "/us/", "/us/legalcode", "/us/x", "x", ".html", ")", "."} {
				for _, u := range []string{urls[i], strings.ToUpper(urls[i]), "www." + urls[i]} {
					s.try(w, o, "see "+sc+u+sf+" now")
					s.try(w, o, sc+u+sf)
					s.try(w, o, "<"+sc+u+sf+">\nCopyright w "+sc+u+sf)
				}
			}
		}
		s.release(w)
	})
}
