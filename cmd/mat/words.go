package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/verif/eng"
)

// spaceWordPairs: words that differ in marks, case or form are different words.
func spaceWordPairs(c *eng.Ctx) {
	atoms := []string{"a", "s", "e", "A", "é", "É", "\u0301", "'", "\u2019", "-", "_", " ", "\n", "1", ".", "(", "(s)", "\x00", "\xff", "\u00ad", "ß", "ing", "copyright", "http"}
	n := len(atoms)
	var short []string
	for _, x := range append([]string{""}, atoms...) {
		short = append(short, x)
		if x != "" {
			for _, y := range atoms {
				short = append(short, x+y)
			}
		}
	}
	c.Space("word_pairs", len(short), fmt.Sprintf("all ordered pairs of strings of at most 2 of %d atoms (letters, accents, apostrophes, hyphens, spaces, bytes), inserted into a new dictionary", n), func(w *eng.Worker, i int) {
		x := short[i]
		for _, y := range short {
			d := new(match.Dict)
			a := d.Insert(x)
			l := d.Lookup(y)
			b := d.Insert(y)
			w.Evals++
			w.Nontrivial++
			w.Trans += 3
			w.Traces++
			wl, wb, nw := match.WordID(-1), match.WordID(1), 2
			if x == y {
				wl, wb, nw = 0, 0, 1
			}
			if a != 0 || l != wl || b != wb || len(d.Words()) != nw || d.Words()[nw-1] != y || d.Words()[0] != x || d.Lookup(x) != 0 || d.Lookup(y) != b {
				w.Fail(fmt.Sprintf("%q %q", x, y), "", "Insert(%q) = %d, Lookup(%q) = %d, Insert = %d, Words %q", x, a, y, l, b, d.Words())
			}
		}
		w.States += int64(2 * len(short))
	})
	var all []string
	seen := map[string]bool{}
	add := func(x string) {
		if !seen[x] {
			seen[x] = true
			all = append(all, x)
		}
	}
	for _, x := range append([]string{""}, atoms...) {
		for _, y := range append([]string{""}, atoms...) {
			for _, z := range append([]string{""}, atoms...) {
				add(x + y + z)
			}
		}
	}
	for _, x := range strings.Fields(variants) {
		for _, y := range []string{"", "s", "'s", "s'", "\u2019s", "(s)", "es", "ed", "ing", ".", "-", " "} {
			add(x + y)
			add(strings.Title(x + y))
			add(strings.Map(unicode.ToUpper, x+y))
		}
	}
	c.Space("word_orders", 4, fmt.Sprintf("%d words (all strings of at most 3 of those atoms, spelling variants with suffixes in three cases) inserted into one dictionary in 4 orders, each looked up before and after", len(all)), func(w *eng.Worker, i int) {
		d := new(match.Dict)
		ws := append([]string{}, all...)
		if i&1 != 0 {
			for a, b := 0, len(ws)-1; a < b; a, b = a+1, b-1 {
				ws[a], ws[b] = ws[b], ws[a]
			}
		}
		if i&2 != 0 {
			ws = append(ws[len(ws)/2:], ws[:len(ws)/2]...)
		}
		for k, x := range ws {
			w.Evals++
			w.Trans += 3
			if l, in := d.Lookup(x), d.Insert(x); l != match.BadWord || int(in) != k {
				w.Fail(fmt.Sprintf("%q", x), "", "Lookup(%q) = %d before it is inserted; Insert = %d, want %d", x, l, in, k)
			}
		}
		words := d.Words()
		for k, x := range ws {
			if words[k] != x || int(d.Lookup(x)) != k {
				w.Fail(fmt.Sprintf("%q", x), "", "Words()[%d] = %q, Lookup = %d; want %q", k, words[k], d.Lookup(x), x)
			}
		}
		w.Nontrivial++
		w.Traces++
		w.States += int64(len(ws))
	})
}
