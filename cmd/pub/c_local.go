package main

import (
	"fmt"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// shifted returns m moved by n bytes.
func shifted(ms []ref.Match, n int) []ref.Match {
	var out []ref.Match
	for _, m := range ms {
		m.Start += n
		m.End += n
		out = append(out, m)
	}
	return out
}

func equalMatches(a, b []ref.Match) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func localBlocks() (list []ref.License, blocks []string) {
	list = append(pats("q r s", "u v __3__ t", "q r __12__ abcdef u v\n((w))??\nz", "copyright abcdef"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
	guard := strings.Repeat("unrelated ", 70)
	for _, core := range []string{
		"q r s", "q r s\nu v t", "copyright 2020\nq r s", "q r x x x abcdef u v w z", "q r abcdefg u v z", "http://x.org/lic", "q r s http://x.org/lic/ q r s",
		"u v x x x t", "u v x x x x t", "q", "q r", "", "copyright abcdef copyright q r s", "q r abc def u v z", "q r abcdefu v z", "&copy; <a href=x>q r</a> s", "Q R\nS",
	} {
		blocks = append(blocks, guard+"\n"+core+"\n"+guard)
	}
	return list, blocks
}

func init() {
	reg(&eng.Check{ID: "C23", Level: "model_checking",
		Rule:        "17 text blocks with guard words × unrelated text of every length up to 300 and around powers of two before and after, all ordered pairs and triples of blocks, many repetitions, license lists grown by unrelated licenses to many sizes, each compared with the block alone, shifted; and large texts, patterns and lists compared with the reference; non-trivial: blocks with a match",
		Assumptions: []string{"Guard words are not near-misspellings of pattern words and more numerous than any wildcard or the copyright look-back."},
		Run:         runC23})
}

func runC23(c *eng.Ctx) {
	list, blocks := localBlocks()
	type solo struct {
		cov   ref.Coverage
		words int
	}
	alone := func(w *eng.Worker, s *Set) []solo {
		var out []solo
		for _, b := range blocks {
			out = append(out, solo{s.scan(w, b), len(ref.Tokenize(b, true))})
		}
		return out
	}
	expect := func(w *eng.Worker, s *Set, text string, want []ref.Match, what string) {
		got := s.scan(w, text)
		w.Traces++
		if len(want) > 0 {
			w.Nontrivial++
		}
		if !equalMatches(got.Match, want) {
			wc := ref.Coverage{Match: want}
			s.fail(w, text, got, &wc, "%s: matches differ from those of the parts", what)
		}
	}
	var pads []int
	for n := 0; n <= 300; n++ {
		pads = append(pads, n)
	}
	top := 20
	if c.Thorough {
		top = 24
	}
	for k := 9; k <= top; k++ {
		for d := -3; d <= 3; d++ {
			pads = append(pads, 1<<uint(k)+d)
		}
	}
	c.Space("shift", len(pads), fmt.Sprintf("each of %d blocks after and before unrelated text of each byte length 0..300 and 2^k-3..2^k+3, k<=%d (words, spaces, one long word, newlines, known words in no order)", len(blocks), top), func(w *eng.Worker, i int) {
		n := pads[len(pads)-1-i]
		s := mustSet(w, list)
		so := alone(w, s)
		fill := func(x string) string {
			t := strings.Repeat(x, n/len(x))
			return t + strings.Repeat(".", n-len(t)-0)
		}
		kinds := []string{" ", "unrelated ", "y", "\n", "t s z ", "copyright t "}
		for k, b := range blocks {
			if n > 1<<18 && (k+i)%len(blocks) > 1 {
				continue
			}
			for _, x := range kinds {
				p := fill(x)
				expect(w, s, p+"\n"+b, shifted(so[k].cov.Match, n+1), fmt.Sprintf("block %d after %d bytes of %q", k, n, x))
				if n < 1<<18 {
					expect(w, s, b+"\n"+p, so[k].cov.Match, fmt.Sprintf("block %d before %d bytes of %q", k, n, x))
				}
			}
		}
	})
	// Every number of unrelated words before, to hit every word index.
	c.Space("word_index", 17, "blocks after every number of unrelated words up to 1100, and around powers of two to 2^18", func(w *eng.Worker, i int) {
		s := mustSet(w, list)
		so := alone(w, s)
		k := i
		for n := 0; n <= 1100; n++ {
			p := strings.Repeat("y ", n)
			expect(w, s, p+"\n"+blocks[k], shifted(so[k].cov.Match, len(p)+1), fmt.Sprintf("block %d after %d words", k, n))
		}
		for e := 11; e <= 18; e++ {
			for d := -3; d <= 3; d++ {
				p := strings.Repeat("y ", 1<<uint(e)+d)
				expect(w, s, p+"\n"+blocks[k], shifted(so[k].cov.Match, len(p)+1), fmt.Sprintf("block %d after 2^%d%+d words", k, e, d))
			}
		}
	})
	nb := len(blocks)
	c.Space("concat", nb*nb, "all ordered pairs and triples of blocks in one text; Percent is the weighted mean", func(w *eng.Worker, i int) {
		s := mustSet(w, list)
		so := alone(w, s)
		for l := -1; l < nb; l++ {
			ks := []int{i / nb, i % nb}
			if l >= 0 {
				ks = append(ks, l)
			}
			text := ""
			var want []ref.Match
			num, den := 0.0, 0.0
			for _, k := range ks {
				want = append(want, shifted(so[k].cov.Match, len(text))...)
				text += blocks[k] + "\n"
				num += so[k].cov.Percent * float64(so[k].words)
				den += float64(so[k].words)
			}
			expect(w, s, text, want, fmt.Sprintf("blocks %v in a row", ks))
			got := s.scan(w, text)
			if d := got.Percent - num/den; d > 1e-9 || d < -1e-9 {
				s.fail(w, text, got, nil, "blocks %v in a row: Percent %v, want %v", ks, got.Percent, num/den)
			}
		}
	})
	var reps []int
	for n := 2; n <= 40; n++ {
		reps = append(reps, n)
	}
	reps = append(reps, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097)
	c.Space("repeat", len(reps), "n copies of each block", func(w *eng.Worker, i int) {
		n := reps[len(reps)-1-i]
		s := mustSet(w, list)
		for k, x := range alone(w, s) {
			var want []ref.Match
			for j := 0; j < n; j++ {
				want = append(want, shifted(x.cov.Match, j*(len(blocks[k])+1))...)
			}
			expect(w, s, strings.Repeat(blocks[k]+"\n", n), want, fmt.Sprintf("%d copies of block %d", n, k))
		}
	})
	// Unrelated licenses in the list.
	var extra []int
	for n := 0; n <= 70; n++ {
		extra = append(extra, n)
	}
	extra = append(extra, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4097, 5200, 9000)
	if c.Thorough {
		extra = append(extra, 33000, 42000, 66000, 90000)
	}
	c.Space("more_licenses", len(extra), "the list with n unrelated licenses (patterns, URLs, shared first words, wildcards) before, after and around it", func(w *eng.Worker, i int) {
		n := extra[len(extra)-1-i]
		s := mustSet(w, list)
		so := alone(w, s)
		var un []lc.License
		for k := 0; k < n; k++ {
			l := lc.License{ID: fmt.Sprintf("X%d", k), Type: 1 << 3}
			switch k % 5 {
			case 0:
				l.LRE = fmt.Sprintf("one%dx two%dx three", k, k)
			case 1:
				l.LRE = fmt.Sprintf("one two%dx\n((three || four%dx))\nfive", k, k)
			case 2:
				l.URL = fmt.Sprintf("z.org/l%d", k)
			case 3:
				l.LRE = fmt.Sprintf("one%dx two three\n((z%dx))??\nfour", k, k)
			case 4:
				l.LRE = fmt.Sprintf("one two three%dx __7__ four five six", k)
			}
			un = append(un, l)
		}
		base := toReal(list)
		for v, l := range [][]lc.License{append(append([]lc.License{}, un...), base...), append(append([]lc.License{}, base...), un...), append(append(append([]lc.License{}, un[:n/2]...), base...), un[n/2:]...)} {
			sc, err := lc.NewScanner(l)
			if err != nil {
				w.Fail(nil, "", "NewScanner with %d more licenses: %v", n, err)
			}
			s2 := &Set{List: list, Real: sc, Ref: s.Ref}
			for k, b := range blocks {
				expect(w, s2, b, so[k].cov.Match, fmt.Sprintf("block %d with %d unrelated licenses (placement %d)", k, n, v))
			}
		}
	})
	// The same on real licenses: each test text after other text.
	_, texts := corpus()
	c.Space("corpus", len(texts), "each test text between unrelated words, at three offsets", func(w *eng.Worker, i int) {
		s := builtinSet(w)
		g := strings.Repeat("qqzqqzqqz ", 300)
		t := g + "\n" + texts[i] + "\n" + g
		base := s.scan(w, t)
		for _, p := range []string{"y ", strings.Repeat("y ", 4000), strings.Repeat("\n", 70001)} {
			expect(w, s, p+t, shifted(base.Match, len(p)), fmt.Sprintf("test text after %d bytes", len(p)))
		}
		expect(w, s, t+t, append(append([]ref.Match{}, base.Match...), shifted(base.Match, len(t))...), "test text twice")
		s.release(w)
	})
	o := all(oFull, oStruct)
	spaceScale(c, o)
	spaceLists(c, o)
	spaceStraddle(c, o)
	spaceDictionary(c, o)
}
