package main

import (
	"fmt"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// entries is the alphabet of license list entries: pattern, URL.
var entries = []struct{ lre, url string }{
	{"q r s", ""}, {"q r", ""}, {"", "x.org/lic"}, {"", ""}, {"u v", "y.org/d"}, {"q r s\n((t))??", ""},
	{"u\n((v || w))", "x.org/lic"}, {"copyright q", ""}, {"http x", ""},
	// not usable
	{"q", ""}, {"__2__ q r", ""}, {"q __2__ r", ""}, {"\n((q r))??", ""}, {"//** only a comment **//", ""}, {"q r __3__", ""}, {"   ", ""}, {"q\n((r))??", "x.org/z"},
	// malformed
	{"q r ((s))", ""}, {"q r\n((s", ""}, {"q r || s", "x.org/lic"}, {"q r //** s", ""}, {"q r ??", ""}, {"q r\n))", ""}, {"q r __99999999999__ s", ""}, {"q r\n((s)) t", ""},
}

var listTexts = []string{"q r s", "q r s t", "x q r u v\nhttp://x.org/lic w", "copyright q", "http x http://y.org/d/", "u w http://x.org/z", "", "Copyright (c) 2020 w", "q r s u v q r"}

// tryList checks NewScanner on one list, and the scanner if there is one.
func tryList(w *eng.Worker, o Oracle, list []ref.License, texts []string) {
	w.Evals++
	w.Trans++
	w.Traces++
	s := newSet(w, list)
	if s == nil {
		w.Outcome("rejected")
		_, err := lc.NewScanner(toReal(list))
		fault := map[string]bool{}
		syntax := false
		for _, l := range list {
			if l.LRE != "" {
				if _, perr := ref.ParseLRE(l.LRE, nil); perr != nil {
					syntax = true
				}
				if _, perr := ref.NewModel([]string{l.LRE}); perr != nil {
					fault[l.ID] = true
				}
			}
		}
		if syntax {
			named := false
			for id := range fault {
				named = named || strings.Contains(err.Error(), id)
			}
			if !named {
				w.Fail(caseOf(list, ""), testSrc(list, ""), "NewScanner error %q does not name a license at fault (%v)", err, fault)
			}
		}
		return
	}
	w.Outcome("accepted")
	w.Nontrivial++
	for _, t := range texts {
		s.try(w, o, t)
	}
	s.close(w)
}

func init() {
	reg(&eng.Check{ID: "C11", Level: "model_checking",
		Rule:        "all lists of up to 3 entries from an alphabet of 25 entries (usable, unusable and malformed patterns, URLs, both, neither), all single patterns from small syntax trees, from token strings and from strings of special characters; errors compared with the reference's rules, accepted scanners run against the reference; non-trivial: accepted lists",
		Assumptions: []string{"Only for syntax errors is the error required to name the license."},
		Run:         runC11})
}

func runC11(c *eng.Ctx) {
	o := all(oFull, oStruct)
	n := len(entries)
	mk := func(ks ...int) []ref.License {
		var list []ref.License
		for i, k := range ks {
			list = append(list, ref.License{ID: fmt.Sprintf("Lic-%c-%d", 'A'+i, k), Type: 2 << uint(i), LRE: entries[k].lre, URL: entries[k].url})
		}
		return list
	}
	c.Space("empty", 2, "nil and empty lists", func(w *eng.Worker, i int) {
		if i == 0 {
			tryList(w, o, nil, listTexts)
		} else {
			tryList(w, o, []ref.License{}, listTexts)
		}
	})
	c.Space("entries", n*n, fmt.Sprintf("all lists of 1..3 entries from %d kinds × %d texts", n, len(listTexts)), func(w *eng.Worker, i int) {
		if i%n == 0 {
			tryList(w, o, mk(i/n), listTexts)
		}
		tryList(w, o, mk(i/n, i%n), listTexts)
		for k := range entries {
			tryList(w, o, mk(i/n, i%n, k), listTexts)
		}
	})
	good := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
	c.Space("usable", len(good)*len(good), "all lists of 4 usable entries", func(w *eng.Worker, i int) {
		for _, a := range good {
			for _, b := range good {
				tryList(w, o, mk(good[i/len(good)], a, good[i%len(good)], b), listTexts)
			}
		}
	})
	// Same ID for different entries; identical entries; empty ID.
	c.Space("identities", n, "each entry kind twice, with the same ID, an empty ID and after all URL forms", func(w *eng.Worker, i int) {
		for k := range entries {
			l := mk(i, k)
			l[1].ID = l[0].ID
			tryList(w, o, l, listTexts)
			l[0].ID, l[1].ID = "", ""
			if s := newSetQuiet(l); s {
				tryList(w, o, l, listTexts)
			}
			l = append(mk(2, 2, 3), mk(i, k)...)
			l[0].URL, l[1].URL = "x.org/1", "x.org/2"
			tryList(w, o, l, append([]string{"http://x.org/1 http://x.org/2/"}, listTexts...))
			l[2], l[4] = l[4], l[2]
			tryList(w, o, l, append([]string{"http://x.org/1 http://x.org/2/"}, listTexts...))
		}
	})
	toks := []string{"a", "b", "__1__", "\n((", "((", "))\n", "))", "??\n", "))??\n", "||", "\n", "//**", "**//", "__", "copyright", "(c)", "__0__"}
	depth := 4
	if c.Thorough {
		depth = 6
	}
	nt := len(toks)
	c.Space("pattern_tokens", nt*nt, fmt.Sprintf("single patterns: all strings of 2..%d of %d tokens, alone and after \"a b\"", depth, nt), func(w *eng.Worker, i int) {
		var rec func(src string, k int)
		rec = func(src string, k int) {
			for _, p := range []string{"", "a b ", "a b\n"} {
				tryList(w, o, []ref.License{{ID: "Only-One", Type: 2, LRE: p + src, URL: ""}}, []string{"a b a", "b a b"})
			}
			if k == depth {
				return
			}
			for _, t := range toks {
				rec(src+" "+t, k+1)
				if strings.ContainsAny(t, "()|?/*") && k+1 < depth {
					rec(src+t, k+1)
				}
			}
		}
		rec(toks[i/nt]+" "+toks[i%nt], 2)
	})
	raw := []string{"(", "c", ")", "s", "<", ">", "/", "&", "copy;", "©", "{#", "}", "]", "http://", "#", " ", "\n", "é", "\xff", "\xe2", "\u0301", "a"}
	rd := 4
	if c.Thorough {
		rd = 5
	}
	nr := len(raw)
	c.Space("pattern_bytes", nr*nr, fmt.Sprintf("patterns ending in any string of 2..%d of the tokenizer's special characters %q", rd, raw), func(w *eng.Worker, i int) {
		for k := 1; k < rd; k++ {
			atomStrings(raw, k, i%nr, func(t string) {
				src := "q r " + raw[i/nr] + t
				if k < 3 {
					tryList(w, o, []ref.License{{ID: "Only-One", Type: 2, LRE: src}}, []string{src, "q r c", src + src})
				} else {
					tryList(w, o, []ref.License{{ID: "Only-One", Type: 2, LRE: src}}, []string{src})
				}
			})
		}
	})
	size := 3
	if c.Thorough {
		size = 4
	}
	var srcs []string
	for _, t := range ref.Trees([]string{"a", "b", "__1__", "__5__", ""}, size) {
		srcs = append(srcs, t.Source())
	}
	c.Space("trees", len(srcs), fmt.Sprintf("all syntax trees of at most %d leaves/optionals, alone, after and before one fixed word", size), func(w *eng.Worker, i int) {
		for _, p := range []string{srcs[i], "c\n" + srcs[i], srcs[i] + "\nc", "c d\n" + srcs[i], "c\n" + srcs[i] + "\nd"} {
			tryList(w, o, []ref.License{{ID: "Only-One", Type: 2, LRE: p}}, []string{"a b", "c a b", "a b c", "c d a b a", "c a a d", "c b d"})
		}
	})
	// Patterns that can begin in many ways: every one of them begins a match.
	var starts []int
	for n := 1; n <= 70; n++ {
		starts = append(starts, n)
	}
	for k := 7; k <= 12; k++ {
		starts = append(starts, 1<<uint(k)-1, 1<<uint(k), 1<<uint(k)+1)
	}
	c.Space("many_beginnings", len(starts), "patterns with n alternatives (of one, two words, and nested) at the beginning, after one word and in the middle, n in 1..70 and around powers of two to 4097 × texts taking each alternative", func(w *eng.Worker, i int) {
		n := starts[len(starts)-1-i]
		alt := func(f string) string {
			var l []string
			for k := 0; k < n; k++ {
				l = append(l, strings.ReplaceAll(f, "#", letters(k)))
			}
			return "((" + strings.Join(l, " || ") + "))"
		}
		forms := []string{"\n" + alt("k# m") + "\nz", "\n" + alt("k#") + "\nz", "k\n" + alt("k# m") + "\nz", "\n((k k))??\n" + alt("k# m") + "\nz", "q r\n" + alt("k#") + "\nz", "\n" + alt("k m#") + "\nz", "q\n" + alt("k#")}
		for fi, f := range forms {
			if n > 600 && fi > 2 {
				break
			}
			var texts []string
			for k := 0; k <= n; k++ {
				if n > 70 && k%(n/20) != 0 && k < n-2 {
					continue
				}
				x := letters(k)
				texts = append(texts, "k"+x+" m z", "k"+x+" z", "k k"+x+" m z", "k k k"+x+" m z", "q r k"+x+" z", "k m"+x+" z", "q k"+x)
			}
			tryList(w, o, []ref.License{{ID: "Only-One", Type: 2, LRE: f}, {ID: "Other", Type: 4, LRE: "k z q"}}, texts)
		}
	})
	spaceURLOnly(c, o)
	spaceLists(c, o)
	// The built-in list and its parts.
	loadBuiltin()
	c.Space("builtin_parts", len(builtinList), "the built-in list from each entry on alone, with its neighbour, and without it (every 16th)", func(w *eng.Worker, i int) {
		l := builtinList[i]
		w.Evals++
		w.Nontrivial++
		w.Traces++
		w.Trans++
		if _, err := lc.NewScanner(toReal([]ref.License{l})); err != nil {
			w.Fail(l.ID, "", "NewScanner rejects the built-in entry %s alone: %v", l.ID, err)
		}
		if i%64 == 3 {
			rest := append(append([]ref.License{}, builtinList[:i]...), builtinList[i+1:]...)
			if _, err := lc.NewScanner(toReal(rest)); err != nil {
				w.Fail(l.ID, "", "NewScanner rejects the built-in list without %s: %v", l.ID, err)
			}
		}
	})
}

func newSetQuiet(l []ref.License) bool {
	_, err := ref.NewScanner(l)
	return err == nil
}

// letters spells n in letters, starting with a, all of the same length for n < 26^3.
func letters(n int) string {
	return string([]byte{byte('a' + n/676%26), byte('a' + n/26%26), byte('a' + n%26)})
}
