package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"reflect"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

func init() {
	reg(&eng.Check{ID: "C14", Level: "model_checking",
		Rule: "the repository's test texts, texts spelled from each built-in pattern with edits, all built-in URLs in several spellings, and all short strings of built-in words and markup, scanned by Scan and by NewScanner(BuiltinLicenses()); plus the structure and freshness of BuiltinLicenses; non-trivial: texts with a match",
		Run: func(c *eng.Ctx) {
			loadBuiltin()
			same := func(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
				b := []byte(text)
				c1 := lc.Scan(b)
				w.Traces++
				if string(b) != text {
					s.fail(w, text, got, nil, "Scan changed its input")
				}
				g := toCov(c1)
				if !reflect.DeepEqual(g, got) {
					cs := caseOf(nil, text)
					cs.Got, cs.Want = &g, &got
					w.Fail(cs, "", "Scan = %+v, NewScanner(BuiltinLicenses()).Scan = %+v", g, got)
				}
			}
			c.Space("list", 1, "structure of BuiltinLicenses; repeated calls; overwriting a returned list and appending to it", func(w *eng.Worker, i int) {
				checkBuiltinList(w)
			})
			spaceBuiltin(c, all(same, oFull))
			spaceBuiltinURLs(c, all(same, oFull))
			spaceBuiltinSoup(c, all(same, oFull))
			bases := []string{"mit license\n\npermission is hereby granted", "see https://opensource.org/licenses/MIT", corpusString("ISC.t1"), corpusString("MIT.t1")}
			c.Space("edges", 256, "two short texts and two licenses with every string of one and two bytes before, after or between them, and each byte many times", func(w *eng.Worker, i int) {
				s := builtinSet(w)
				b := string([]byte{byte(i)})
				fast := func(t string) {
					w.Evals++
					w.Traces++
					g1, g2 := lc.Scan([]byte(t)), s.Real.Scan([]byte(t))
					if !reflect.DeepEqual(g1, g2) {
						same(w, s, t, nil, toCov(g2))
					}
					if len(g2.Match) > 0 {
						w.Nontrivial++
					}
				}
				for k, x := range bases {
					for _, t := range []string{b + x, x + b, b + x + b, x + b + x} {
						fast(t)
					}
					for _, n := range []int{3, 7, 8, 9, 64, 255, 256, 4096} {
						r := strings.Repeat(b, n)
						fast(r + x + r)
						fast(r)
					}
					for j := 0; j < 256 && (k < 2 || c.Thorough); j++ {
						y := b + string([]byte{byte(j)})
						for _, t := range []string{y + x, x + y, x + y + x, y} {
							fast(t)
						}
					}
				}
				s.release(w)
			})
			bases = append(bases, "copyright w\n"+bases[0])
			c.Space("preambles", len(preambles), fmt.Sprintf("the same texts before, after and between each of %d beginnings and delimiters of file formats", len(preambles)), func(w *eng.Worker, i int) {
				s := builtinSet(w)
				p := preambles[i]
				for _, x := range bases {
					for _, t := range []string{p + x, x + p, p + x + p, x + p + x, p + "\n" + x, "\n" + p + x, strings.ReplaceAll(x, " ", p), strings.ReplaceAll(x, "\n", "\n"+p)} {
						same(w, s, t, nil, s.scan(w, t))
					}
				}
				for _, q := range preambles {
					for _, x := range bases[:2] {
						for _, t := range []string{p + q + x, p + x + q, p + x + q + x} {
							same(w, s, t, nil, s.scan(w, t))
						}
					}
				}
				s.release(w)
			})
			top := 24
			if c.Thorough {
				top = 27
			}
			c.Space("sizes", 2*(top-6), fmt.Sprintf("texts of length around powers of two up to 2^%d with a license and a URL at the start, in the middle and at the end", top), func(w *eng.Worker, i int) {
				s := builtinSet(w)
				n := 1 << uint(top-i/2)
				x := corpusString("ISC.t1")
				for d := -1; d <= 1; d++ {
					for _, fill := range []string{"y ", "\n", "Copyright y "}[i%2 : i%2+2] {
						f := strings.Repeat(fill, (n+d)/len(fill)+1)[:n+d]
						for _, t := range []string{x + f, f + x, f[:n/2] + "\n" + x + "https://opensource.org/licenses/MIT " + f[n/2:]} {
							s2 := s.scan(w, t)
							same(w, s, t, nil, s2)
						}
					}
				}
				s.release(w)
			})
			spaceFirstUse(c)
		}})

	reg(&eng.Check{ID: "C15", Level: "model_checking",
		Rule:        "for each built-in pattern, under three settings of everything else, every reading of each optional part, every alternative, each wildcard with 0, 1, N-1 and N words; and pairs of such choices; non-trivial: the text reads back as the words spelled out",
		Assumptions: []string{"Texts that merge at a seam (two copyright words meeting) are left out, as no text of that form exists."},
		Run:         runC15})
}

func checkBuiltinList(w *eng.Worker) {
	a := lc.BuiltinLicenses()
	b := lc.BuiltinLicenses()
	w.Evals += 2
	w.Nontrivial++
	if !reflect.DeepEqual(a, b) {
		w.Fail(nil, "", "two calls of BuiltinLicenses differ")
	}
	typ := map[string]lc.Type{}
	pat := map[string]bool{}
	urls := false
	for i, l := range a {
		w.Evals++
		if l.ID == "" || (l.LRE == "") == (l.URL == "") {
			w.Fail(l, "", "entry %d has no ID, or not exactly one of LRE and URL", i)
		}
		if l.LRE != "" {
			if urls {
				w.Fail(l.ID, "", "pattern entry %d after a URL entry", i)
			}
			if pat[l.ID] {
				w.Fail(l.ID, "", "two pattern entries for %s", l.ID)
			}
			typ[l.ID] = l.Type
			pat[l.ID] = true
			continue
		}
		urls = true
		if l.Type != typ[l.ID] {
			w.Fail(l, "", "URL entry %s has type %v, want %v", l.ID, l.Type, typ[l.ID])
		}
		if l.URL != strings.ToLower(l.URL) || strings.Contains(l.URL, "://") || strings.HasSuffix(l.URL, "/") {
			w.Fail(l, "", "URL entry %s: %q can never be found", l.ID, l.URL)
		}
	}
	for i := range a {
		a[i] = lc.License{ID: "scribble", LRE: "((", URL: "example.com/"}
	}
	_ = append(a[:0], lc.License{ID: "x"})
	x := a[:cap(a)]
	for i := range x {
		x[i] = lc.License{ID: "scribble2"}
	}
	if !reflect.DeepEqual(lc.BuiltinLicenses(), b) {
		w.Fail(nil, "", "writing to a list returned by BuiltinLicenses changes later results")
	}
}

// spaceBuiltinSoup: short strings over words that matter to the built-in list.
func spaceBuiltinSoup(c *eng.Ctx, o Oracle) {
	atoms := []string{"permission is hereby granted", "copyright", "mit", "license", "http://opensource.org/licenses/MIT", "https://creativecommons.org/licenses/by/4.0/", "\n", " ", "(c)", "the software", "is", "apache license version 2.0", "<a>", "this work is licensed under", "public domain", "all rights reserved", ".", "creative commons"}
	n := len(atoms)
	c.Space("builtin_soup", n*n, fmt.Sprintf("all strings of up to 4 of %d phrases", n), func(w *eng.Worker, i int) {
		s := builtinSet(w)
		if i%n == 0 {
			s.try(w, o, atoms[i/n])
		}
		p := atoms[i/n] + " " + atoms[i%n]
		s.try(w, o, p)
		for _, x := range atoms {
			s.try(w, o, p+" "+x)
			for _, y := range atoms {
				s.try(w, o, p+x+" "+y)
			}
		}
		s.release(w)
	})
}

// First use of the built-in scanner, in fresh processes.

const firstText = "w w\nCopyright 2020 The Authors\n\nRedistribution and use in source and binary forms, with or without\nmodification, are permitted.\nsee https://opensource.org/licenses/MIT w"

var firstOps = []struct {
	name string
	f    func() string
}{
	{"Scan", func() string {
		return fmt.Sprintf("%+v", lc.Scan([]byte(firstText)))
	}},
	{"Scan license", func() string {
		return fmt.Sprintf("%+v", lc.Scan(corpusText("ISC.t1")))
	}},
	{"Scan empty", func() string { return fmt.Sprintf("%+v", lc.Scan(nil)) }},
	{"scribble on BuiltinLicenses", func() string {
		l := lc.BuiltinLicenses()
		for i := range l {
			l[i] = lc.License{ID: "bad", LRE: "((", URL: "x"}
		}
		return fmt.Sprint(len(l))
	}},
	{"scribble on result", func() string {
		t := corpusText("ISC.t1")
		c := lc.Scan(t)
		s := fmt.Sprintf("%+v", c)
		for i := range c.Match {
			c.Match[i] = lc.Match{ID: "bad"}
		}
		for i := range t {
			t[i] = 'x'
		}
		return s
	}},
	{"NewScanner(BuiltinLicenses())", func() string {
		s, err := lc.NewScanner(lc.BuiltinLicenses())
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%+v", s.Scan([]byte(firstText)))
	}},
	{"custom scanner", func() string {
		s, err := lc.NewScanner([]lc.License{{ID: "X", LRE: "redistribution and use", Type: lc.Notice}, {ID: "Y", URL: "opensource.org/licenses/mit"}})
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%+v", s.Scan([]byte(firstText)))
	}},
	{"failing NewScanner", func() string {
		_, err := lc.NewScanner([]lc.License{{ID: "X", LRE: "copyright http ((", Type: lc.Notice}})
		return fmt.Sprint(err)
	}},
	{"a longer list than the built-in one", func() string {
		l := append(lc.BuiltinLicenses(), lc.License{ID: "X", LRE: "modification are permitted", Type: lc.Notice}, lc.License{ID: "Y", URL: "opensource.org/licenses/mit"})
		return listScan(l)
	}},
	{"the built-in list from its end", func() string {
		l := lc.BuiltinLicenses()
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		return listScan(l)
	}},
	{"the built-in list with other names", func() string {
		l := lc.BuiltinLicenses()
		for i := range l {
			l[i].ID, l[i].Type = "Z", lc.Discouraged
		}
		return listScan(l)
	}},
	{"the built-in URLs alone", func() string {
		l := lc.BuiltinLicenses()
		for len(l) > 0 && l[0].LRE != "" {
			l = l[1:]
		}
		return listScan(l)
	}},
	{"the first half of the built-in list", func() string {
		l := lc.BuiltinLicenses()
		return listScan(l[:len(l)/2])
	}},
	{"an empty list", func() string { return listScan(nil) }},
	{"BuiltinLicenses", func() string {
		l := lc.BuiltinLicenses()
		return fmt.Sprintf("%d %+v %+v", len(l), l[0], l[len(l)-1])
	}},
}

// listScan scans with a new scanner of list.
func listScan(list []lc.License) string {
	s, err := lc.NewScanner(list)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%+v", s.Scan([]byte(firstText)))
}

func corpusString(name string) string {
	s := string(corpusText(name))
	if i := strings.Index(s, "\n\n"); i >= 0 {
		s = s[i+2:]
	}
	return s
}

func corpusText(name string) []byte {
	data, err := os.ReadFile("/repo/testdata/" + name)
	if err != nil {
		return nil
	}
	return data
}

// firstUseMain runs the operations named by index and prints their results.
func firstUseMain(args string) {
	for _, c := range args {
		k := int(c - 'a')
		fmt.Printf("%s\x01\n", firstOps[k].f())
	}
}

// spaceFirstUse: each operation answers alike whatever came before it in a fresh process.
func spaceFirstUse(c *eng.Ctx) {
	exe, err := os.Executable()
	if err != nil {
		c.Incomplete("first use: " + err.Error())
		return
	}
	n := len(firstOps)
	run := func(w *eng.Worker, seq string) []string {
		cmd := exec.Command(exe, "-firstuse", seq)
		var out, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &stderr
		err := cmd.Run()
		w.Evals++
		res := strings.Split(out.String(), "\x01\n")
		if err != nil || len(res) != len(seq)+1 {
			msg := stderr.String()
			if len(msg) > 1500 {
				msg = msg[:1500]
			}
			w.Fail(seqNames(seq), "", "a fresh process running %v: %v\n%s", seqNames(seq), err, msg)
		}
		return res[:len(seq)]
	}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	size := n * n
	if depth == 3 {
		size *= n
	}
	alone := make([]string, n)
	c.Space("first_use_alone", n, "each operation as the first of a fresh process", func(w *eng.Worker, i int) {
		alone[i] = run(w, string(rune('a'+i)))[0]
		w.Nontrivial++
	})
	if c.Failed() {
		return
	}
	c.Space("first_use", size, fmt.Sprintf("all histories of %d of %d operations (scans, scribbling on results and lists, other scanners) in fresh processes", depth, n), func(w *eng.Worker, i int) {
		seq := ""
		for k, x := 0, i; k < depth; k++ {
			seq += string(rune('a' + x%n))
			x /= n
		}
		w.Nontrivial++
		w.Traces++
		for k, r := range run(w, seq) {
			a := alone[seq[k]-'a']
			if a == "" { // replay of one case
				a = run(w, seq[k:k+1])[0]
			}
			if r != a {
				w.Fail(seqNames(seq), "", "after %v, %s gives %.600s, alone %.600s", seqNames(seq[:k]), firstOps[seq[k]-'a'].name, r, a)
			}
		}
	})
}

func seqNames(seq string) []string {
	var out []string
	for _, c := range seq {
		out = append(out, firstOps[c-'a'].name)
	}
	return out
}

func runC15(c *eng.Ctx) {
	loadBuiltin()
	var lres []ref.License
	var urls []ref.License
	for _, l := range builtinList {
		if l.LRE != "" {
			lres = append(lres, l)
		} else {
			urls = append(urls, l)
		}
	}
	idx := map[string]int{}
	for i, l := range lres {
		idx[l.ID] = i
	}
	c.Space("patterns", len(lres), fmt.Sprintf("%d built-in patterns × three default readings × every single choice (thorough: and every pair of choices of patterns with at most 60)", len(lres)), func(w *eng.Worker, i int) {
		s := builtinSet(w)
		l := lres[i]
		tree := s.Ref.M.Trees[i]
		e := ref.NewExpander(tree)
		seen := map[string]bool{}
		try := func(ws []string) {
			text := strings.Join(ws, " ")
			if seen[text] {
				return
			}
			seen[text] = true
			toks := ref.Tokenize(text, true)
			if !sameWords(toks, ws) {
				w.Skipped++
				return
			}
			w.Evals++
			w.Traces++
			w.States++
			w.Trans += int64(len(ws))
			got := toCov(lc.Scan([]byte(text)))
			if w.WantSample() {
				w.Sample(map[string]interface{}{"id": l.ID, "text": fmt.Sprintf("%.200q", text), "result": got})
			}
			// The pattern itself matches unless a cut intervenes; the model decides that.
			if want, amb := s.Ref.Scan(text); !amb && !wholeMatch(want, text) {
				w.Outcome("text lost to an early cut or to a longer match")
				if !eq(got, want) {
					s.fail(w, text, got, &want, "%s: Scan = %+v, want %+v", l.ID, got, want)
				}
				return
			}
			w.Nontrivial++
			if !wholeMatch(got, text) {
				s.fail(w, text, got, nil, "a text of %s is not recognized as one license in full: %+v", l.ID, got)
			}
			m := got.Match[0]
			if m.ID == l.ID {
				w.Outcome("itself")
				if m.Type != l.Type {
					s.fail(w, text, got, nil, "%s has type %d, want %d", l.ID, m.Type, l.Type)
				}
				return
			}
			w.Outcome("an earlier license")
			j, ok := idx[m.ID]
			if !ok || j > i {
				s.fail(w, text, got, nil, "a text of %s is recognized as %s, which is later in the list", l.ID, m.ID)
			}
			if !s.Ref.M.Trees[j].Ends(ws, map[int]bool{0: true})[len(ws)] {
				s.fail(w, text, got, nil, "a text of %s is recognized as %s, which does not match it", l.ID, m.ID)
			}
		}
		br := e.Branches()
		for def := 0; def < 3; def++ {
			try(e.Expand(def, filler))
			for _, p := range br {
				try(e.Expand(def, filler, p))
			}
		}
		if c.Thorough && len(br) <= 120 || len(br) <= 24 {
			for def := 0; def < 3; def++ {
				for a := range br {
					for b := range br[:a] {
						try(e.Expand(def, filler, br[b], br[a]))
					}
				}
			}
		}
		s.release(w)
	})
	c.Space("urls", len(urls), "every built-in URL, with both schemes and with documented suffixes, alone and in context", func(w *eng.Worker, i int) {
		u := urls[i]
		for _, sc := range []string{"http://", "https://", "HTTPS://"} {
			for _, sf := range []string{"", "/", "/legalcode", "/legalcode/"} {
				for _, x := range []string{u.URL, strings.ToUpper(u.URL)} {
					for _, ctx := range [][2]string{{"", ""}, {"see ", " now"}, {"<", ">"}} {
						s := sc + x + sf
						text := ctx[0] + s + ctx[1]
						w.Evals++
						w.Nontrivial++
						w.Traces++
						got := lc.Scan([]byte(text))
						want := lc.Match{ID: u.ID, Type: lc.Type(u.Type), Start: len(ctx[0]), End: len(ctx[0]) + len(s), IsURL: true}
						if len(got.Match) != 1 || got.Match[0] != want {
							w.Fail(map[string]string{"text": text}, "", "Scan(%q) = %+v, want %+v", text, got, want)
						}
					}
				}
			}
		}
	})
}

// wholeMatch reports whether cov is one license match of the whole text.
func wholeMatch(cov ref.Coverage, text string) bool {
	return len(cov.Match) == 1 && !cov.Match[0].IsURL && cov.Match[0].Start == 0 && cov.Match[0].End == len(text) && math.Abs(cov.Percent-100) < 1e-9
}
