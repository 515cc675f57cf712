package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// spaceTrees: one pattern from all small syntax trees × all texts over a tiny alphabet.
func spaceTrees(c *eng.Ctx, o Oracle) {
	size, tlen := 4, 5
	leaves := []string{"a", "b", "__1__", "__2__", "__5__", ""}
	if c.Thorough {
		size, tlen = 4, 8
	}
	ps := validPatterns(leaves, size)
	c.Space("trees", len(ps), fmt.Sprintf("all valid patterns from syntax trees of at most %d leaves/optionals over %q, alone and after \"a b\", × all texts of at most %d words over a b x", size, leaves, tlen),
		func(w *eng.Worker, i int) {
			s := mustSet(w, pats(ps[i]))
			texts([]string{"a", "b", "x"}, tlen, "", func(t string) { s.try(w, o, t) })
			s.close(w)
		})
}

// spaceHeads: all the ways a pattern can begin.
func spaceHeads(c *eng.Ctx, o Oracle) {
	size, tlen := 3, 5
	leaves := []string{"a", "b", "c", "a b", "a c", "b b a", ""}
	if c.Thorough {
		size, tlen = 4, 7
	}
	var ps []string
	for _, t := range ref.Trees(leaves, size) {
		for _, src := range []string{t.Source(), t.Source() + "\nc b"} {
			if _, err := ref.NewModel([]string{src}); err == nil {
				ps = append(ps, src)
			}
		}
	}
	c.Space("heads", len(ps), fmt.Sprintf("all valid patterns from syntax trees of at most %d leaves/optionals over %q, alone and before \"c b\", × all texts of at most %d words over a b c", size, leaves, tlen),
		func(w *eng.Worker, i int) {
			s := mustSet(w, pats(ps[i]))
			texts([]string{"a", "b", "c"}, tlen, "", func(t string) { s.try(w, o, t) })
			s.close(w)
		})
}

// spaceIdentity: entries that share an ID, a type, a URL or a pattern.
func spaceIdentity(c *eng.Ctx, o Oracle) {
	var kinds []ref.License
	for _, id := range []string{"A", "B"} {
		for _, ty := range []uint{0, 2, 8} {
			for _, k := range [][2]string{{"q r s", ""}, {"", "x.org/l"}, {"q r s", "x.org/l"}, {"q r s t", ""}} {
				kinds = append(kinds, ref.License{ID: id, Type: ty, LRE: k[0], URL: k[1]})
			}
		}
	}
	n := len(kinds)
	ts := []string{"q r s", "q r s t", "http://x.org/l", "q r s http://x.org/l/us", "https://x.org/l/legalcode\nq r s t", "q r s q r s t u v w", "http://y.org/l u v w q r s"}
	c.Space("identity", n*n, fmt.Sprintf("all lists of 1..3 entries from %d (2 IDs × 3 types × pattern, URL, both or a longer pattern), followed by another pattern and URL × %d texts", n, len(ts)), func(w *eng.Worker, i int) {
		lists := [][]ref.License{{kinds[i/n], kinds[i%n]}}
		if i%n == 0 {
			lists = append(lists, []ref.License{kinds[i/n]})
		}
		for _, k := range kinds {
			lists = append(lists, []ref.License{kinds[i/n], kinds[i%n], k})
		}
		for _, l := range lists {
			l = append(l, ref.License{ID: "Z", Type: 64, LRE: "u v w", URL: "y.org/l"})
			s := mustSet(w, l)
			for _, t := range ts {
				s.try(w, o, t)
			}
			s.close(w)
		}
	})
}

// spaceTails: deeper trees after the fixed head "a b", on texts that begin with it.
func spaceTails(c *eng.Ctx, o Oracle) {
	size, tlen := 4, 5
	leaves := []string{"a", "c", "__2__", "__4__"}
	if c.Thorough {
		size, tlen = 5, 7
	}
	var ps []string
	for _, t := range ref.Trees(leaves, size) {
		src := t.Source()
		if strings.HasPrefix(src, "((") {
			src = "a b\n" + src
		} else {
			src = "a b " + src
		}
		if _, err := ref.NewModel([]string{src}); err == nil {
			ps = append(ps, src)
		}
	}
	c.Space("tails", len(ps), fmt.Sprintf("\"a b\" + all trees of at most %d leaves/optionals over %q × all texts \"a b\" + at most %d words over a c x", size, leaves, tlen),
		func(w *eng.Worker, i int) {
			s := mustSet(w, pats(ps[i]))
			texts([]string{"a", "c", "x"}, tlen, "a b", func(t string) { s.try(w, o, t) })
			s.close(w)
		})
}

// spacePairs: several literal patterns together.
func spacePairs(c *eng.Ctx, o Oracle) {
	lits := seqs([]string{"a", "b"}, 2, 5)
	tlen := 8
	if c.Thorough {
		lits = seqs([]string{"a", "b"}, 2, 6)
		tlen = 10
	}
	n := len(lits)
	c.Space("pairs", n*n, fmt.Sprintf("all ordered pairs of %d literal patterns over a b × all texts of at most %d words over a b", n, tlen),
		func(w *eng.Worker, i int) {
			s := mustSet(w, pats(strings.Join(lits[i/n], " "), strings.Join(lits[i%n], " ")))
			texts([]string{"a", "b"}, tlen, "", func(t string) { s.try(w, o, t) })
			s.close(w)
		})
	var short []string
	for _, l := range lits {
		if len(l) <= 3 {
			short = append(short, strings.Join(l, " "))
		}
	}
	short = append(short, "a b\n((c))??\na", "a b __2__ b c", "a __x b", "a\n((b || c))\nb", "b c", "c a", "b c a b")
	n = len(short)
	tl := 5
	if c.Thorough {
		tl = 7
	}
	c.Space("triples", n*n*n, fmt.Sprintf("all ordered triples of %d short patterns (literal, optional, wildcard, alternation) × all texts of at most %d words over a b c", n, tl),
		func(w *eng.Worker, i int) {
			s := mustSet(w, pats(short[i/n/n], short[i/n%n], short[i%n]))
			texts([]string{"a", "b", "c"}, tl, "", func(t string) { s.try(w, o, t) })
			s.close(w)
		})
}

// spaceCuts: what follows a wildcard, and repeats of it inside the wildcard.
func spaceCuts(c *eng.Ctx, o Oracle) {
	tails := seqs([]string{"a", "b"}, 1, 5)
	var ps []string
	ns := []int{3, 4, 5}
	for _, n := range ns {
		for _, t := range tails {
			ps = append(ps, fmt.Sprintf("q r __%d__ %s", n, strings.Join(t, " ")))
		}
	}
	// optional and alternative words at each position after the wildcard
	for _, t := range seqs([]string{"a", "b"}, 3, 4) {
		for k := range t {
			u := append([]string{}, t...)
			u[k] = "\n((" + t[k] + "))??\n"
			ps = append(ps, "q r __4__ "+strings.Join(u, " "))
			u[k] = "\n((" + t[k] + " || a b))\n"
			ps = append(ps, "q r __4__ "+strings.Join(u, " "))
			u[k] = t[k] + " __4__"
			if k < len(t)-1 {
				ps = append(ps, "q r __4__ "+strings.Join(u, " "))
			}
		}
	}
	tlen := 9
	if c.Thorough {
		tlen = 13
	}
	c.Space("cuts", len(ps), fmt.Sprintf("q r __N__ (N=3,4,5) + every literal tail of 1..5 words over a b, and every tail of 3..4 words with one optional, alternative or further wildcard × all texts \"q r\" + at most %d words over a b", tlen),
		func(w *eng.Worker, i int) {
			s := mustSet(w, pats(ps[i]))
			alpha := []string{"a", "b"}
			texts(alpha, tlen, "q r", func(t string) { s.try(w, o, t) })
			texts([]string{"a", "b", "x"}, 5, "q r", func(t string) { s.try(w, o, t) })
			s.close(w)
		})
}

// spaceWild: wildcard limits.
func spaceWild(c *eng.Ctx, o Oracle) {
	ns := []int{}
	for n := 0; n <= 24; n++ {
		ns = append(ns, n)
	}
	for n := 25; n <= 300; n++ {
		if m := n % 8; c.Thorough || m == 0 || m == 1 || m == 7 || m == 3 && n%25 == 0 {
			ns = append(ns, n)
		}
	}
	ns = append(ns, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097)
	forms := []string{"q r __%d__ s", "q r __%d__ s t", "q r __%d__ s t u", "q r __%d__ s t u v", "q r\n((__%d__ s))??\nt u", "q r __%d__\n((s))??\nt u v w", "q r __%d__ s t u v __%[1]d__ s t u v", "q r s __%d__ t __2__ u", "q r __%d__\n((s t || u v))\nw"}
	tails := []string{"s", "s t", "s t u", "s t u v", "t u", "t u v w", "s t u v w", "u v w", "s t w", "t u x", "", "s x t u", "s t u x v"}
	c.Space("wildcards", len(ns)*len(forms), fmt.Sprintf("%d wildcard sizes N up to 4097 × %d pattern forms × gaps of 0,1,N-1..N+3 words × %d continuations", len(ns), len(forms), len(tails)),
		func(w *eng.Worker, i int) {
			n := ns[i/len(forms)]
			s := mustSet(w, pats(fmt.Sprintf(forms[i%len(forms)], n)))
			gaps := map[int]bool{0: true, 1: true}
			for g := n - 2; g <= n+3; g++ {
				if g >= 0 {
					gaps[g] = true
				}
			}
			if n <= 24 {
				for g := 0; g <= n+3; g++ {
					gaps[g] = true
				}
			}
			for g := 0; g <= n+3; g++ {
				if !gaps[g] {
					continue
				}
				for _, t := range tails {
					s.try(w, o, "q r"+strings.Repeat(" x", g)+" "+t)
					if n < 600 {
						s.try(w, o, "q r s"+strings.Repeat(" x", g)+" "+t)
						s.try(w, o, "q r"+strings.Repeat(" x", g)+" s t u v"+strings.Repeat(" x", g)+" "+t)
					}
				}
			}
			s.close(w)
		})
}

const target = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"

// spaceSpelling: misspelled, joined and split words at each place of a match.
func spaceSpelling(c *eng.Ctx, o Oracle) {
	var words []string
	maxLen := 24
	if c.Thorough {
		maxLen = 52
	}
	for n := 1; n <= maxLen; n++ {
		words = append(words, target[:n])
	}
	words = append(words, "aa", "aaa", "aaaa", "aaaaa", "abab", "ababa", "2020", "1234", "123", "sale", "notice", "notices", "québec", "straße", "λόγος", "c", "copyright", "http", "3rd", "noninfringement")
	forms := []string{"q r %s", "q r %s s t", "q r\n((u))??\n%s v", "q r __2__ %s v", "q r __5__ %s v w z", "q r\n((%s || k))\ns", "q r\n((%s))??\ns"}
	c.Space("misspell", len(words)*len(forms), fmt.Sprintf("%d words (lengths 1..%d, repeats, digits, accents, c, copyright) × %d pattern forms × every single-byte edit, and every pair of edits of short words, every transposition", len(words), maxLen, len(forms)),
		func(w *eng.Worker, i int) {
			wd, form := words[i/len(forms)], forms[i%len(forms)]
			s := mustSet(w, pats(fmt.Sprintf(form, wd)))
			letters := "az9"
			if len(wd) > 0 {
				letters += wd[:1] + wd[len(wd)-1:]
			}
			m := map[string]bool{wd: true, "": true, "c": true, "copyright": true, "©": true, "(c)": true, "&copy;": true, "(C)": true, "notice(s)": true}
			for _, e := range edits(wd, letters) {
				m[e] = true
			}
			if len(wd) <= 5 {
				for _, e := range edits(wd, letters) {
					for _, e2 := range edits(e, "az") {
						m[e2] = true
					}
				}
			}
			for k := 0; k+1 < len(wd); k++ {
				m[wd[:k]+wd[k+1:k+2]+wd[k:k+1]+wd[k+2:]] = true
			}
			for _, e := range keys(m) {
				for _, tail := range []string{" s t", " v w z", "", " v", " s"} {
					s.try(w, o, "q r "+e+tail)
				}
				s.try(w, o, "q r u "+e+" v")
				s.try(w, o, "q r x "+e+" v w z")
				s.try(w, o, "q r "+strings.ToUpper(e)+" s t")
			}
			s.close(w)
		})
	// Long words: the tolerance has no upper limit.
	var lens []int
	for n := 25; n <= 140; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 199, 200, 201, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537)
	c.Space("long_misspell", len(lens), "words of 25..140 and up to 65537 letters × one and two edits at the start, middle and end, joined and split there, in four pattern forms", func(w *eng.Worker, i int) {
		n := lens[len(lens)-1-i]
		wd := strings.Repeat(target[:26], n/26+1)[:n]
		for _, form := range []string{"q r %s", "q r %s s t", "q r\n((u))??\n%s v", "q r __5__ %s v w z"} {
			s := mustSet(w, pats(fmt.Sprintf(form, wd), fmt.Sprintf(form, wd[:n/2]+" "+wd[n/2:])))
			for _, tail := range []string{"", " s t", " v w z"} {
				s.try(w, o, "q r "+wd+tail)
				for _, k := range []int{0, 1, n / 2, n - 1, n} {
					e1 := []string{wd[:k] + "9" + wd[k:], wd[:k] + " " + wd[k:], wd[:k] + "-\n" + wd[k:], wd[:k] + "é" + wd[k:]}
					if k < n {
						e1 = append(e1, wd[:k]+wd[k+1:], wd[:k]+"9"+wd[k+1:])
					}
					for _, e := range e1 {
						s.try(w, o, "q r "+e+tail)
						s.try(w, o, "q r x "+e+tail)
						s.try(w, o, "q r 9"+e+tail)
						s.try(w, o, "q r "+e+"9"+tail)
						s.try(w, o, "q r "+e+strings.TrimSpace(tail))
						s.try(w, o, "q r "+e[1:]+tail)
					}
				}
			}
			s.close(w)
		}
	})
	// Join and split: every way to cut a word in two or more parts, and to glue neighbours.
	var js []string
	for _, a := range []string{"a", "ab", "abc", "abcd", "abcde", "non", "c"} {
		for _, b := range []string{"x", "xy", "xyz", "wxyz", "infringement", "or", "a"} {
			js = append(js, a+" "+b)
		}
	}
	pf := []string{"q r %s", "q r %s v", "q r %s\n((v))??\nw", "q r\n((%s || k))\nv", "q r __2__ %s v", "q r\n((%s))??\nv", "q r __5__ %s v w z"}
	c.Space("joinsplit", len(js)*len(pf), fmt.Sprintf("%d word pairs × %d pattern forms, with the pair written as two words or as one in the pattern × every placement of the space (or hyphen-newline) in the text, missing spaces, and one edit in either half", len(js), len(pf)),
		func(w *eng.Worker, i int) {
			p, form := js[i/len(pf)], pf[i%len(pf)]
			one := strings.ReplaceAll(p, " ", "")
			for _, pat := range []string{p, one} {
				s := mustSet(w, pats(fmt.Sprintf(form, pat)))
				m := map[string]bool{one: true, p: true, one + "v": true, one + "v w": true, one + " v": true}
				for k := 1; k < len(one); k++ {
					m[one[:k]+" "+one[k:]] = true
					m[one[:k]+"-\n"+one[k:]] = true
					for j := k + 1; j < len(one); j++ {
						m[one[:k]+" "+one[k:j]+" "+one[j:]] = true
					}
				}
				for _, e := range edits(p, "a z") {
					m[e] = true
				}
				for _, e := range edits(one, "a z") {
					m[e] = true
				}
				for _, e := range keys(m) {
					for _, tail := range []string{"", " v", " v w", " w", " v w z", "v", "v w", " x"} {
						s.try(w, o, "q r "+e+tail)
						s.try(w, o, "q r x "+e+tail)
					}
					s.try(w, o, "q r"+e+" v")
					s.try(w, o, "qr "+e+" v")
				}
				s.close(w)
			}
		})
	// A correction must never move one license's text to another one's.
	// Dictionaries of several close words: pairs of patterns that differ in one word.
	near := []string{"moon", "moons", "soon", "mo", "on", "moonsun", "sun", "copy", "copyx", "c", "copyright", "the", "them", "notice", "notices", "license", "licence"}
	n := len(near)
	c.Space("near", n*n, "all ordered pairs of patterns \"q r W\"/\"q r W' s\" over close words × all texts q r + at most 2 of those words, glued or apart, + s",
		func(w *eng.Worker, i int) {
			s := mustSet(w, pats("q r "+near[i/n], "q r "+near[i%n]+" s", "q r s"))
			for _, x := range near {
				s.try(w, o, "q r "+x)
				s.try(w, o, "q r "+x+" s")
				s.try(w, o, "q r "+x+"s s")
				for _, y := range near {
					s.try(w, o, "q r "+x+" "+y+" s")
					s.try(w, o, "q r "+x+y+" s")
					s.try(w, o, "q r "+x+y)
				}
			}
			s.close(w)
		})
	// Matches ending inside or beside a corrected word.
	c.Space("splitend", 1, "patterns that are prefixes of each other × glued words at the end of the shorter one", func(w *eng.Worker, i int) {
		ws := []string{"foo", "bar", "foob", "ar", "food", "x"}
		for _, a := range ws {
			for _, b := range ws {
				for _, l := range [][]string{{"a b " + a, "a b " + a + " " + b + " baz"}, {"a b " + a + " " + b + " baz", "a b " + a}, {"a b " + a, "a b " + a + " " + b, "a b " + a + " __2__ end"}, {"a b\n((" + a + "))??", "a b " + b + " z"}} {
					s := mustSet(w, pats(l...))
					for _, t := range ws {
						for _, u := range ws {
							for _, v := range []string{"", " baz", " x", " end", " x end", "baz", " z"} {
								s.try(w, o, "a b "+t+u+v)
								s.try(w, o, "a b "+t+" "+u+v)
								s.try(w, o, "a b "+t+u+t+v)
								s.try(w, o, "a b "+t+u+v+" a b "+t)
							}
						}
					}
					s.close(w)
				}
			}
		}
	})
}

// spaceCopyright: the notice before a match, and line boundaries around it.
func spaceCopyright(c *eng.Ctx, o Oracle) {
	forms := []string{"Copyright", "copyright", "©", "(c)", "&copy;", "Copyright (c)", "c"}
	dist := 60
	if c.Thorough {
		dist = 120
	}
	seps := []string{" ", "\n", "\n\n", " \n ", ".\n\n* "}
	c.Space("copyright_distance", dist+1, fmt.Sprintf("a copyright word in each of %d forms at each distance 0..%d before a match, a second one at each distance, after nothing, other text, another match or a URL × separators", len(forms), dist),
		func(w *eng.Worker, d int) {
			list := append(pats("q r s", "u v"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
			s := mustSet(w, list)
			fill := func(n int) string { return strings.Repeat("w ", n) }
			for _, cf := range forms {
				for _, pre := range []string{"", "w ", "w w w w\n", "u v ", "u v\n", "u v w ", "http://x.org/lic ", "http://x.org/lic\n", "u v http://x.org/lic "} {
					for _, sep := range seps {
						s.try(w, o, pre+cf+" "+fill(d)+"w"+sep+"q r s tail")
						s.try(w, o, pre+cf+sep+fill(d)+"q r s")
						s.try(w, o, pre+fill(3)+sep+cf+" "+fill(d)+"q r s"+sep+"w")
						s.try(w, o, pre+cf+sep+fill(d)+"http://x.org/lic"+sep+fill(2)+"q r s"+sep+"w")
					}
				}
				for d2 := 0; d2 <= d; d2++ {
					s.try(w, o, "w "+cf+" "+fill(d-d2)+"\ncopyright "+fill(d2)+"q r s")
				}
				s.try(w, o, "u v "+cf+" "+fill(d)+"q r s "+cf+" "+fill(d)+"u v")
				s.try(w, o, cf+" "+fill(d)+"u v "+fill(d)+"q r s")
			}
			s.close(w)
		})
	fills := []string{" ", "\n", "\n\n", "\n# ", "\n * ", ", ", ".\n", " \n", "\r\n", "<br>\n", "-", "\n\n\n\n"}
	c.Space("copyright_layout", dist+1, fmt.Sprintf("as above with the words of the notice separated in each of %d ways, the match on the same line or the next", len(fills)),
		func(w *eng.Worker, d int) {
			list := append(pats("q r s", "u v"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
			s := mustSet(w, list)
			for _, f := range fills {
				n := strings.Repeat("w"+f, d)
				for _, cf := range forms {
					for _, pre := range []string{"", "w ", "w w w w\n", "u v\n", "http://x.org/lic\n"} {
						s.try(w, o, pre+cf+f+n+"q r s"+f+"w")
						s.try(w, o, pre+cf+f+n+f+"q r s")
						s.try(w, o, pre+cf+" 2020"+f+n+cf+f+n+"q r s")
						s.try(w, o, pre+cf+f+n+"u v"+f+cf+f+n+"q r s")
					}
				}
			}
			s.close(w)
		})
	gaps := []string{" ", "\n", " \n", "\n ", "\n\n", " \n \n ", ".", ". \n", "\n* ", "<br>\n<br>", "&nbsp;\n", "\r\n", "\r", "\n\t\n\t", "--", "\n{#a}\n", "](#x\n)"}
	k := len(gaps)
	c.Space("boundaries", k*k, fmt.Sprintf("all pairs of %d gap forms before and after a match × whether other words, another match or nothing lies beyond", k),
		func(w *eng.Worker, i int) {
			list := append(pats("q r s", "u v"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
			s := mustSet(w, list)
			g1, g2 := gaps[i/k], gaps[i%k]
			for _, pre := range []string{"", "w", "u v", "w\nw", "copyright w", "http://x.org/lic", "w copyright"} {
				for _, post := range []string{"", "w", "u v", "w\nw", "q r s", "http://x.org/lic", "copyright w u v"} {
					s.try(w, o, pre+g1+"q r s"+g2+post)
					s.try(w, o, pre+g1+"q"+g1+"r"+g2+"s"+g2+post)
					s.try(w, o, g1+pre+g1+"q r s"+g2+post+g2)
				}
			}
			s.close(w)
		})
}

// spaceGaps: long gaps around a match, with the newline at every distance.
func spaceGaps(c *eng.Ctx, o Oracle) {
	var lens []int
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	top := 16
	if c.Thorough {
		top = 20
	}
	for k := 9; k <= top; k++ {
		for d := -2; d <= 2; d++ {
			lens = append(lens, 1<<uint(k)+d)
		}
	}
	kinds := []string{" ", ".", "\r", "\u00a0", "\xff", "\x00", "<b>", "\t*"}
	c.Space("long_gaps", len(lens), fmt.Sprintf("gaps of n times %q before or after the newline nearest to a match, n in 0..300 and 2^k-2..2^k+2 up to k=%d, at the start, middle and end of the text, beside words, matches and URLs", kinds, top),
		func(w *eng.Worker, i int) {
			n := lens[len(lens)-1-i]
			list := append(pats("q r s", "u v"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
			s := mustSet(w, list)
			for _, k := range kinds {
				g := strings.Repeat(k, n)
				for _, pre := range []string{"", "w ", "u v ", "copyright ", "http://x.org/lic "} {
					s.try(w, o, pre+g+"\n"+"q r s")
					s.try(w, o, pre+"\n"+g+"q r s")
					s.try(w, o, pre+g+"q r s"+g+"\n w")
				}
				for _, post := range []string{"", " w", " u v", " http://x.org/lic"} {
					s.try(w, o, "w\nq r s"+g+"\n"+post)
					s.try(w, o, "w q r s\n"+g+post)
					s.try(w, o, "w\n"+g+"\nq r s\n"+g+"\n"+post)
				}
				if n <= 1<<12 {
					s.try(w, o, "w\nq"+g+" r"+g+" s"+g+"u v\n"+g+"\n u v")
				}
			}
			s.close(w)
		})
}

// spaceURLs: URL forms.
func spaceURLs(c *eng.Ctx, o Oracle) {
	list := append(pats("q r s", "u v"),
		ref.License{ID: "A", Type: 4, URL: "x.org/lic"}, ref.License{ID: "B", Type: 8, URL: "www.x.com/a/b-1.0"},
		ref.License{ID: "C", Type: 16, URL: "x.org/lic/deep"}, ref.License{ID: "D", Type: 2, URL: "y.org/d.txt"},
		ref.License{ID: "E", Type: 0, URL: "y_1.x-y.org/p#f?q=1"},
		ref.License{ID: "F", Type: 32, URL: "x.com/legalcode"}, ref.License{ID: "G", Type: 64, LRE: "http x org", URL: "z.org/g"},
		// Listed, but never found.
		ref.License{ID: "N0", Type: 1, URL: "x.net/lic"}, ref.License{ID: "N1", Type: 1, URL: "x.org:80/lic"}, ref.License{ID: "N2", Type: 1, URL: "x.org"}, ref.License{ID: "N3", Type: 1, URL: "x.org/s/"},
		ref.License{ID: "N4", Type: 1, URL: "x.org/UP"}, ref.License{ID: "N5", Type: 1, URL: "http://x.org/full"}, ref.License{ID: "N6", Type: 1, URL: "xorg/lic"}, ref.License{ID: "N7", Type: 1, URL: "localhost/lic"},
		ref.License{ID: "N8", Type: 1, URL: "x.org/licé"}, ref.License{ID: "N9", Type: 1, URL: "x.com/a b"}, ref.License{ID: "N10", Type: 1, URL: "x.edu/lic"}, ref.License{ID: "N11", Type: 1, URL: "x.org/a~b"}, ref.License{ID: "N12", Type: 1, URL: "x.org/lic//"}, ref.License{ID: "N13", Type: 1, URL: "/lic"}, ref.License{ID: "N14", Type: 1, URL: "user@x.org/lic"},
		ref.License{ID: "N15", Type: 1, URL: "x.telecom/lic"}, ref.License{ID: "N16", Type: 1, URL: "x.borg/lic"}, ref.License{ID: "N17", Type: 1, URL: "x.org.io/lic"}, ref.License{ID: "N18", Type: 1, URL: "x.-com/lic"}, ref.License{ID: "N19", Type: 1, URL: "com/lic"}, ref.License{ID: "N20", Type: 1, URL: "x.com_/lic"},
		// A host is anything of the right letters that ends in .com or .org.
		ref.License{ID: "H", Type: 2, URL: ".com/lic"}, ref.License{ID: "I", Type: 4, URL: "-.org/lic"}, ref.License{ID: "J", Type: 8, URL: "..com/lic"})
	schemes := []string{"http://", "https://", "HTTP://", "Https://", "hTTPs://", "ftp://", "http:/", "http//", "", "//", "xhttp://", "http://http://", "httpx://", "http:// "}
	hosts := []string{"x.org/lic", "www.x.com/a/b-1.0", "x.org/lic/deep", "y.org/d.txt", "y_1.x-y.org/p#f?q=1", "x.com/legalcode", "z.org/g", "x.org", "www.x.com", "x.org/li", "x.org/lics", "X.ORG/LIC", "www.X.com/A/b-1.0", "x.net/lic", "xorg/lic", "x.org:80/lic", "a.x.org/lic", "x.org.org/lic", "x.comorg/lic", "y.org/D.TXT", "x.org/licé", "x.com/us/legalcode", "x.org//lic",
		"x.org/s", "x.org/s/", "x.org/UP", "x.org/up", "localhost/lic", "x.com/a b", "x.edu/lic", "x.org/a~b", "x.org/lic//", "/lic", "user@x.org/lic", "x.io/lic", "x.de/lic", "x.co/lic", "x.orgs/lic", "x.org.uk/lic", "1.2.3.4/lic", "http://x.org/full",
		"x.telecom/lic", "x.borg/lic", "x.org.io/lic", "x.-com/lic", "com/lic", "x.com_/lic", ".com/lic", "-.org/lic", "..com/lic"}
	sfx := []string{"", "/", "//", "/legalcode", "/legalcode/", "/LEGALCODE", "/us", "/us/", "/us/legalcode", "/us/x", "/us/x/", "/us/legalcode/", ".", "./", "#f", "?q=1", "/?q", "-", "é", "/é", "&copy;", "(s)", "/(s)", ",", "/index.html", "/.."}
	wraps := [][2]string{{"", ""}, {"see ", " now"}, {"<", ">"}, {"(", ")"}, {"w\n", "\nw"}, {"q r s ", " u v"}, {"q r s\n", "\nq r s"}, {"copyright ", " q r s"}, {"", " q r s"}, {"q r s ", ""}, {"[t](", ")"}, {"<a href=\"", "\">"}, {"\"", "\""}, {"w ", " copyright w u v"}, {"", "q r s"}, {"u v", "."}}
	c.Space("urls", len(schemes)*len(hosts), fmt.Sprintf("%d schemes × %d hosts and paths × %d suffixes × %d contexts, for a set of 10 URLs that can be found, 21 that cannot, and 3 patterns", len(schemes), len(hosts), len(sfx), len(wraps)),
		func(w *eng.Worker, i int) {
			s := mustSet(w, list)
			for _, x := range sfx {
				u := schemes[i/len(hosts)] + hosts[i%len(hosts)] + x
				for _, wr := range wraps {
					s.try(w, o, wr[0]+u+wr[1])
				}
				s.try(w, o, u+" "+u)
				s.try(w, o, u+"\n"+u+" w "+u)
				s.try(w, o, "http://x.org/lic "+u+" http://y.org/d.txt")
			}
			s.close(w)
		})
	var ulens []int
	for n := 0; n <= 300; n++ {
		ulens = append(ulens, n)
	}
	utop := 16
	if c.Thorough {
		utop = 20
	}
	for k := 9; k <= utop; k++ {
		ulens = append(ulens, 1<<uint(k)-1, 1<<uint(k), 1<<uint(k)+1)
	}
	c.Space("long_urls", len(ulens), fmt.Sprintf("listed URLs, URLs in texts, hosts and extra path elements of every length up to 300 and around powers of two up to 2^%d", utop), func(w *eng.Worker, i int) {
		n := ulens[len(ulens)-1-i]
		x := strings.Repeat("a", n)
		s := mustSet(w, append(pats("q r s"), ref.License{ID: "A", Type: 4, URL: "x.org/lic"}, ref.License{ID: "B", Type: 8, URL: "x.org/" + x + "b"}, ref.License{ID: "C", Type: 16, URL: x + "y.com/d"},
			ref.License{ID: "D", Type: 32, URL: "x.org/" + strings.Repeat("d/", n) + "e"}))
		for _, u := range []string{"x.org/lic/" + x, "x.org/" + x + "b", x + "y.com/d", "x.org/" + strings.Repeat("d/", n) + "e", "x.org/lic/" + strings.Repeat("d/", n), "x.org/lic" + strings.Repeat("/", n), "x.org/" + x, "x.com/" + x + "b", x + "y.com/d/" + x, "x.org/" + x + "b/legalcode", x + ".org"} {
			for _, sf := range []string{"", "/", "/" + x, "/legalcode/" + x, "/legalcode"} {
				s.try(w, o, "http://"+u+sf)
				s.try(w, o, "see <https://"+strings.ToUpper(u)+sf+"> q r s")
			}
			s.try(w, o, "w http://"+u+"\nq r s http://"+u+"q r s")
		}
		s.try(w, o, strings.Repeat("http://x.org/lic http://y.org/d ", n/16)+"http://x.org/lic q r s")
		s.close(w)
	})
	// Words that occur in the paths of license URLs.
	elems := []string{"index.html", "index.htm", "index.php", "index", "deed", "deed.en", "deed.de_AT", "legalcode", "legalcode.txt", "legalcode.en", "plain", "us", "en", "en-us", "igo", "license", "licenses", "LICENSE", "LICENSE.txt", "license.html", "COPYING", "copying.md", "html", "txt", "1.0", "v2", "2.0.html", "raw", "rdf", "print", "default", "default.aspx", "home", "lic", "deep", "~a", "_", "#", "?", ".", "..", "", "%20", "a"}
	bases := []string{"x.org/lic", "www.x.com/a/b-1.0", "x.com/legalcode", "y.org/d.txt", "x.org/deep"}
	ends := []string{"", "/", ".html", ".txt", "#x", "."}
	c.Space("url_suffixes", len(elems)*len(elems), fmt.Sprintf("listed URLs followed by all sequences of 0..3 path elements from %q × %q, also with the \"www.\" prefix added or left out, upper case, and one element dropped", elems, ends), func(w *eng.Worker, i int) {
		s := mustSet(w, list)
		f := func(u string) {
			for bi, b := range bases {
				if bi >= 2 && strings.Count(u, "/") > 2 && !c.Thorough {
					break
				}
				for _, e := range ends {
					s.try(w, o, "see http://"+b+u+e+" w")
				}
				s.try(w, o, "HTTPS://"+strings.ToUpper(b+u)+"\nq r s")
				if strings.Count(u, "/") < 3 {
					s.try(w, o, "http://www."+b+u)
					s.try(w, o, "http://"+strings.TrimPrefix(b, "www.")+u)
					s.try(w, o, "http://"+b[:strings.Index(b, "/")]+u)
					s.try(w, o, "http://"+b+u+" http://"+b+u+"/ http://"+b)
				}
			}
		}
		if i < len(elems) {
			f("/" + elems[i])
			f("." + elems[i])
			f("-" + elems[i])
			f("/" + elems[i] + "/" + elems[i] + "/" + elems[i] + "/" + elems[i])
		}
		u := "/" + elems[i/len(elems)] + "/" + elems[i%len(elems)]
		f(u)
		for _, e := range elems {
			f(u + "/" + e)
		}
		s.close(w)
	})
	atoms := []string{"http://", "https://", "x.org", "x.com", "/lic", "/deep", "/", "/legalcode", " ", "\n", "q r s", ".", "w"}
	n := 6
	if c.Thorough {
		n = 7
	}
	for k := 1; k <= n; k++ {
		k := k
		sz := len(atoms)
		if k > 1 {
			sz = len(atoms) * len(atoms)
		}
		c.Space(fmt.Sprintf("url_atoms_%d", k), sz, fmt.Sprintf("all strings of %d atoms from %q", k, atoms), func(w *eng.Worker, i int) {
			s := mustSet(w, list)
			if k == 1 {
				s.try(w, o, atoms[i])
			} else {
				atomStrings(atoms, k-1, i%len(atoms), func(t string) { s.try(w, o, atoms[i/len(atoms)]+t) })
			}
			s.close(w)
		})
	}
}

// spaceURLOnly: sets without any pattern.
func spaceURLOnly(c *eng.Ctx, o Oracle) {
	c.Space("url_only", 4, "license lists with 0..3 URLs and no pattern × texts with URLs, words and copyright notices", func(w *eng.Worker, i int) {
		var list []ref.License
		for k := 0; k < i; k++ {
			list = append(list, ref.License{ID: fmt.Sprint("U", k), Type: 2, URL: fmt.Sprintf("x.org/l%d", k)})
		}
		s := mustSet(w, list)
		for _, t := range []string{"", "w", "w w", "copyright w", "©", "Copyright © 2020 w", "copyright copyright", "\n", "<a>"} {
			s.try(w, o, t)
			for k := 0; k < 4; k++ {
				for _, sep := range []string{" ", "\n", " w "} {
					s.try(w, o, fmt.Sprintf("%s%shttp://x.org/l%d", t, sep, k))
					s.try(w, o, fmt.Sprintf("https://x.org/l%d/%s%s", k, sep, t))
					s.try(w, o, fmt.Sprintf("https://x.org/l%d/ %s HTTP://X.org/L%d", k, t, (k+1)%4))
				}
			}
		}
		s.close(w)
	})
}

// spaceSoup: raw texts built from the tokenizer's special characters.
func spaceSoup(c *eng.Ctx, o Oracle) {
	atoms := []string{"a", "b", " ", "\n", "<", ">", "(c)", "&copy;", "©", "copyright", "&", ";", "{#", "}", "](#", ")", "(s)", "é", "\xff", "http://x.org/l", "/", "@", ".", "c"}
	n := 5
	if c.Thorough {
		n = 6
	}
	list := append(pats("a b", "b a c", "copyright a"), ref.License{ID: "U", Type: 4, URL: "x.org/l"})
	na := len(atoms)
	for k := 1; k <= n; k++ {
		k := k
		sz := na
		if k > 1 {
			sz = na * na
		}
		c.Space(fmt.Sprintf("soup_%d", k), sz, fmt.Sprintf("all strings of %d atoms from %q, also between matching texts", k, atoms), func(w *eng.Worker, i int) {
			s := mustSet(w, list)
			f := func(t string) {
				s.try(w, o, t)
				if k <= 3 {
					s.try(w, o, "a b"+t+"a b")
					s.try(w, o, "a b "+t+"\nb a c")
				}
			}
			if k == 1 {
				f(atoms[i])
			} else {
				atomStrings(atoms, k-1, i%na, func(t string) { f(atoms[i/na] + t) })
			}
			s.close(w)
		})
	}
	c.Space("bytes", 256, "all texts of one and two bytes, alone and between matching texts, and each byte repeated", func(w *eng.Worker, i int) {
		s := mustSet(w, list)
		one := string([]byte{byte(i)})
		s.try(w, o, one)
		for n := 2; n < 70; n++ {
			s.try(w, o, "a b"+strings.Repeat(one, n)+"a b")
		}
		for j := 0; j < 256; j++ {
			two := string([]byte{byte(i), byte(j)})
			s.try(w, o, two)
			s.try(w, o, "a b"+two+"a b")
			s.try(w, o, "a"+two+"b")
			s.try(w, o, "a b"+two)
			s.try(w, o, two+"a b")
			s.try(w, o, two+"http://x.org/l"+two)
			s.try(w, o, "w a b w"+two)
		}
		s.close(w)
	})
}

// spaceLists: license lists of many sizes, shared words, duplicate entries.
func spaceLists(c *eng.Ctx, o Oracle) {
	var sizes []int
	for n := 1; n <= 40; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 6000, 9000)
	if c.Thorough {
		sizes = append(sizes, 17000, 33000, 66000, 90000)
	}
	c.Space("lists", len(sizes), fmt.Sprintf("lists of %d sizes up to %d (distinct, prefix-nested, duplicate and URL entries) × a text for each entry and pairs of neighbours", len(sizes), sizes[len(sizes)-1]), func(w *eng.Worker, i int) {
		n := sizes[len(sizes)-1-i]
		var list []ref.License
		for k := 0; k < n; k++ {
			l := ref.License{ID: fmt.Sprintf("L%d", k), Type: uint(k % 512)}
			switch k % 4 {
			case 0, 1:
				l.LRE = fmt.Sprintf("begin w%d end", k)
			case 2:
				l.URL = fmt.Sprintf("x.org/l%d", k)
			case 3:
				l.LRE = fmt.Sprintf("begin w%d end tail%d", k-2, k) // extends an earlier one
				l.URL = fmt.Sprintf("x.org/l%d", k)
			}
			list = append(list, l)
		}
		if n > 4 && n < 2000 {
			list = append(list, ref.License{ID: "dup", Type: 2, LRE: list[0].LRE, URL: list[2].URL})
		}
		s := mustSet(w, list)
		step := 1
		if n > 3000 {
			step = n / 1500
		}
		for k := 0; k < n; k += step {
			s.try(w, o, fmt.Sprintf("x begin w%d end tail%d y http://x.org/l%d z", k, k+2, k))
			s.try(w, o, fmt.Sprintf("begin w%d end begin w%d end\nbegin w%d end tail%d", k, k+1, k-2, k))
		}
		s.close(w)
	})
}

// spaceScale: long texts and long patterns around powers of two.
func spaceScale(c *eng.Ctx, o Oracle) {
	var pads []int
	top := 20
	if c.Thorough {
		top = 24
	}
	for k := 0; k <= top; k++ {
		for _, d := range []int{-2, -1, 0, 1, 2} {
			if n := 1<<uint(k) + d; n >= 0 {
				pads = append(pads, n)
			}
		}
	}
	if !c.Thorough {
		pads = append(pads, 1<<21+1, 1<<22+1, 1<<23+1)
	}
	c.Space("padding", len(pads), fmt.Sprintf("matches and URLs after and between padding of each byte length 2^k-2..2^k+2, k<=%d, and up to %d, of spaces and of words", top, pads[len(pads)-1]), func(w *eng.Worker, i int) {
		n := pads[len(pads)-1-i]
		list := append(pats("q r s", "u v __3__ t"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
		s := mustSet(w, list)
		sp := strings.Repeat(" ", n)
		s.try(w, o, sp+"q r s")
		s.try(w, o, "q r s"+sp)
		s.try(w, o, "w"+sp+"q r s\nw http://x.org/lic"+sp+"u v w t copyright q r s")
		s.try(w, o, "u"+sp+"v"+sp+"t")
		s.try(w, o, strings.Repeat("w ", n/2)+"u v w w t http://x.org/lic w")
		s.try(w, o, "q r s "+strings.Repeat("w ", n/2)+"\nCopyright w\nq r s\n")
		s.try(w, o, strings.Repeat("x", n)+" q r s")
		s.try(w, o, "q r "+strings.Repeat("x", n)+"s")
		s.try(w, o, "<a "+strings.Repeat("x ", n/2)+"> q r s <"+sp)
		s.close(w)
	})
	var reps []int
	for n := 1; n <= 70; n++ {
		reps = append(reps, n)
	}
	reps = append(reps, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000)
	c.Space("repeats", len(reps), "n copies of matching texts, URLs and near-misses in one text, for n in 1..70 and around powers of two to 10000", func(w *eng.Worker, i int) {
		n := reps[len(reps)-1-i]
		list := append(pats("q r s", "u v __3__ t", "copyright k"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
		s := mustSet(w, list)
		for _, p := range []string{"q r s ", "q r s\n", "q r ", "q ", "u v ", "u v w w t ", "http://x.org/lic ", "q r s http://x.org/lic/\n", "copyright w q r s\n", "copyright ", "c ", "q q r s s ", "u v w w w w t "} {
			s.try(w, o, strings.Repeat(p, n))
			s.try(w, o, strings.Repeat(p, n)+"q r s")
			s.try(w, o, "w "+strings.Repeat(p, n)+"w")
		}
		s.close(w)
	})
	var lens []int
	for n := 2; n <= 40; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 70000)
	if c.Thorough {
		lens = append(lens, 131071, 131072, 131073, 300000)
	}
	c.Space("long_patterns", len(lens), "patterns of n distinct words (and with an optional or wildcard every 7 words) × the full text, the text short of or changed in one word at the start, middle and end", func(w *eng.Worker, i int) {
		n := lens[len(lens)-1-i]
		var ws []string
		for k := 0; k < n; k++ {
			ws = append(ws, fmt.Sprintf("w%dx", k))
		}
		lit := strings.Join(ws, " ")
		var mix, full, min []string
		for k, x := range ws {
			mix = append(mix, x)
			full = append(full, x)
			min = append(min, x)
			if k%7 == 2 && k < n-1 {
				mix = append(mix, "\n((opt))??\n")
				full = append(full, "opt")
			}
			if k%7 == 5 && k < n-1 {
				mix = append(mix, "__2__")
				full = append(full, "y y")
			}
		}
		s := mustSet(w, pats(lit, strings.Join(mix, " ")))
		s.try(w, o, lit)
		s.try(w, o, "y "+lit+" y")
		s.try(w, o, strings.Join(full, " "))
		s.try(w, o, "y "+strings.Join(full, "\n")+" y "+lit)
		for _, k := range []int{0, 1, n / 2, n - 2, n - 1} {
			if k < 0 {
				continue
			}
			u := append([]string{}, ws...)
			u[k] = "zzz"
			s.try(w, o, strings.Join(u, " "))
			s.try(w, o, strings.Join(u, " ")+" "+lit)
			u = append(append([]string{}, ws[:k]...), ws[k+1:]...)
			s.try(w, o, strings.Join(u, " "))
		}
		s.close(w)
	})
}
