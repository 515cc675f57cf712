package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// spaceSeams: corrected words between all kinds of gaps, and corrected words with accents.
func spaceSeams(c *eng.Ctx, o Oracle) {
	gaps := []string{" ", "-", "--", "-\n", "\n", "\n * ", "/", "&nbsp;", "<b>", " (", ")", "\u00ad", "-  \n  ", "."}
	k := len(gaps)
	pairs := [][2]string{{"non", "infringement"}, {"sub", "license"}, {"any", "copy"}, {"the", "rest"}, {"copy", "right"}, {"a", "bcd"}}
	c.Space("seams", k*k, fmt.Sprintf("%d words torn apart, whole or glued to the next × all triples of %d gaps (hyphens, breaks, tags, punctuation) within, after and behind, with a foreign word in between or not", len(pairs), k), func(w *eng.Worker, i int) {
		g1, g2 := gaps[i/k], gaps[i%k]
		for _, p := range pairs {
			s := mustSet(w, pats("q r "+p[0]+p[1]+" d e", "q r "+p[0]+" "+p[1]+" d", "r "+p[0]+p[1]+" __2__ delt e"))
			for _, g3 := range gaps {
				for _, t := range []string{
					p[0] + g1 + p[1] + g2 + "d" + g3 + "e",
					p[0] + g1 + p[1] + g2 + "x" + g3 + "d e",
					p[0] + p[1] + g1 + "d" + g2 + "e" + g3 + "f",
					p[0] + g1 + p[1] + g2 + "delt" + g3 + "e",
					p[0] + g1 + p[1] + g2 + "x" + g3 + "delta e",
					p[0] + g1 + p[1] + "delt" + g2 + "e" + g3,
					p[0] + g1 + p[1] + "s" + g2 + "de" + g3 + "lt e",
					p[0] + g1 + p[1][:2] + g2 + p[1][2:] + g3 + "d e",
				} {
					s.try(w, o, "q r "+t)
				}
			}
			s.close(w)
		}
	})
	words := []string{"cafe", "ceded", "aorta", "uni", "io", "modele", "a"}
	accents := []func(x byte) string{
		func(x byte) string { return string(x) },
		func(x byte) string { return map[byte]string{'a': "á", 'e': "è", 'i': "í", 'o': "ó", 'u': "ù"}[x] },
		func(x byte) string { return map[byte]string{'a': "À", 'e': "É", 'i': "Ì", 'o': "Ò", 'u': "Ú"}[x] },
		func(x byte) string { return string(x) + "\u0301" },
		func(x byte) string { return strings.ToUpper(string(x)) + "\u0300" },
	}
	n := len(words)
	c.Space("accents", n*n, fmt.Sprintf("patterns q r X Y s for all pairs of %d words with vowels × the words apart, glued, torn at every letter, one letter dropped, doubled or changed, each with every combination of plain, precomposed and combining accents on the first five vowels", n), func(w *eng.Worker, i int) {
		x, y := words[i/n], words[i%n]
		for _, p := range []string{"q r " + x + " " + y + " s", "q r " + x + y + " s"} {
			s := mustSet(w, pats(p))
			var ts []string
			xy := x + y
			ts = append(ts, xy, x+" "+y)
			for j := 1; j < len(xy); j++ {
				ts = append(ts, xy[:j]+" "+xy[j:])
			}
			for j := range xy {
				ts = append(ts, xy[:j]+xy[j+1:], xy[:j]+"e"+xy[j:], xy[:j]+"o"+xy[j+1:])
			}
			for j := range x {
				ts = append(ts, x[:j]+"e"+x[j+1:]+" "+y)
			}
			for _, t := range ts {
				var at []int
				for j := 0; j < len(t) && len(at) < 5; j++ {
					if strings.IndexByte("aeiou", t[j]) >= 0 {
						at = append(at, j)
					}
				}
				m := 1
				for range at {
					m *= len(accents)
				}
				step := 1
				if !c.Thorough && m > 625 {
					step = 7 // prime to the number of accents
				}
				for v := 0; v < m; v += step {
					var b strings.Builder
					b.WriteString("q r ")
					for j, y, q := 0, v, 0; j < len(t); j++ {
						if q < len(at) && at[q] == j {
							b.WriteString(accents[y%len(accents)](t[j]))
							y /= len(accents)
							q++
						} else {
							b.WriteByte(t[j])
						}
					}
					b.WriteString(" s")
					s.try(w, o, b.String())
				}
			}
			s.close(w)
		}
	})
}

// spaceEnds: what may stand at the end of a pattern.
func spaceEnds(c *eng.Ctx, o Oracle) {
	elems := []string{"a", "__5__", "\n((c d))??\n"}
	var seq []string
	for n := 0; n <= 3; n++ {
		for _, x := range seqs(elems, n, n) {
			seq = append(seq, strings.Join(x, " "))
		}
	}
	forms := []string{"q r\n((%s || %s ))\n", "q r\n((%s || %s ))??\n", "q r\n((%s || %s ))??\ne f g", "q r\n((%s || %s ))\n((e))??\n", "q r __4__ g\n((%s || %s ))\n", "q r\n((e\n((%s || %s ))??\n))??\n", "q r\n((%s\n((%s ))??\n))\n"}
	k := len(seq)
	ts := []string{"q r", "q r a", "q r a a", "q r a x a", "q r c d", "q r a c d", "q r a x c d a e f g", "q r e f g", "q r x x x e f g", "q r e a c d", "q r x g a a", "q r g x x x"}
	c.Space("ends", k, fmt.Sprintf("alternations of all pairs of %d sequences of at most 3 words, wildcards and optional parts, in %d positions at or near the end of a pattern: accepted or not, and %d texts", k, len(forms), len(ts)), func(w *eng.Worker, i int) {
		for _, b := range seq {
			for _, f := range forms {
				s := newSet(w, pats(fmt.Sprintf(f, seq[i], b)))
				if s == nil {
					continue
				}
				for _, t := range ts {
					s.try(w, o, t)
				}
				s.close(w)
			}
		}
	})
}

// spaceStraddle: constructs that cross a line end at a certain offset.
func spaceStraddle(c *eng.Ctx, o Oracle) {
	cores := []string{
		"q r Copyright\n(c) s", "q r Copyright \r\n  © s", "q r <a\nhref=x> s", "q r </b\n> s", "q r stuv-\nwxyz s", "q\nr\ns", "q r &copy;\n&copy; s", "q r {#a\n} s", "http://x.org/lic\n/y q r s", "q r [a](http://b\n.org) s",
		"q r notice(\ns) s", "Copyright 2020\nX\nq r s\nhttp://x.org/lic\n", "q r copy\u0301\nright s", "q r cafe\u0301s\n s",
	}
	list := append(pats("q r copyright s", "q r s", "q r stuvwxyz s", "q r notices s", "q r copy right s", "q r cafes s", "s x y z"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
	top := 16
	if c.Thorough {
		top = 20
	}
	lo := 9
	c.Space("straddle", (top-lo+1)*len(cores), fmt.Sprintf("%d texts with a construct that crosses a line end, so placed that each of its bytes in turn is at offset 2^k, k of %d..%d, after and before one line of spaces or words", len(cores), lo, top), func(w *eng.Worker, i int) {
		core := cores[i%len(cores)]
		k := uint(top - i/len(cores))
		s := mustSet(w, list)
		for d := -1; d <= len(core)+1; d++ {
			n := 1<<k - d
			for _, x := range []string{" ", "word ", "z"} {
				p := strings.Repeat(x, n/len(x)+1)[:n-1] + " "
				s.try(w, o, p+core+" s x y z\n"+core+"\n")
			}
		}
		s.close(w)
	})
}

// spaceDictionary: more words than a small integer counts.
func spaceDictionary(c *eng.Ctx, o Oracle) {
	sizes := []int{300, 33000, 66000}
	if c.Thorough {
		sizes = append(sizes, 132000, 264000)
	}
	c.Space("dictionary", len(sizes), fmt.Sprintf("lists of up to %d words × texts with words from everywhere in place of, before and after the words of short patterns listed first and last", sizes[len(sizes)-1]), func(w *eng.Worker, i int) {
		n := sizes[len(sizes)-1-i]
		word := func(k int) string {
			x := []byte("g")
			for _, d := range fmt.Sprintf("%06d", k) {
				x = append(x, byte('a'+d-'0'), byte('k'+d-'0')) // any two differ in two letters
			}
			return string(x)
		}
		var long []string
		for k := 0; k < n; k++ {
			long = append(long, word(k))
		}
		s := mustSet(w, pats("q r stuv\n((w))??\nx", "r q __2__ stuv w", strings.Join(long, " "), "q r stuv w w", word(7)+" "+word(n-9)+" r", "last of all"))
		var at []int
		for _, b := range []int{0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 17, 1 << 18, n} {
			for d := -24; d <= 24; d++ {
				if k := b + d; k >= 0 && k < n {
					at = append(at, k)
				}
			}
		}
		for _, k := range at {
			x := word(k)
			for _, t := range []string{"q r " + x, "q r " + x + " x", "q r stuv " + x, x + " r stuv x", "q " + x + " stuv x", "q r stuv x " + x, "r q " + x + " stuv w", x + " " + word((k+1)%n), word(7) + " " + word(n-9) + " " + x, word(7) + " " + x + " r", x + " of all", "last " + x + " all"} {
				s.try(w, o, t)
			}
		}
		s.try(w, o, strings.Join(long, " "))
		s.try(w, o, strings.Join(long[:n-1], " ")+" q r stuv x")
		s.close(w)
	})
}
