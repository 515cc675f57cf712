package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/old"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// everything runs all spaces of lists, options and texts with one oracle.
func everything(c *eng.Ctx, f Oracle) {
	spaceSmall(c, f)
	spacePairs(c, f)
	spaceSlop(c, f)
	spaceThreshold(c, f)
	spaceBlank(c, f)
	spaceOverlap(c, f)
	spaceURLs(c, f)
	spaceWords(c, f)
	spaceScale(c, f)
	spaceTestdata(c, f)
}

// spaceSmall: one license, all short word strings.
func spaceSmall(c *eng.Ctx, f Oracle) {
	ll, tl := 5, 6
	if c.Thorough {
		ll, tl = 6, 8
	}
	lics := seqs([]string{"ya", "yb", "___"}, 1, ll)
	texts := seqs([]string{"ya", "yb", "x"}, 0, tl)
	opts := []old.Options{{MinLength: 2, Threshold: 1, Slop: 1}, {MinLength: 1, Threshold: 60, Slop: 2}, {MinLength: 3, Threshold: 100, Slop: 3}}
	c.Space("small", len(lics), fmt.Sprintf("one license: all word strings of 1..%d over ya yb ___ × all texts of at most %d words over ya yb x × %d options", ll, tl, len(opts)), func(w *eng.Worker, i int) {
		s := newSet(w, texts1(lics[i]))
		for _, t := range texts {
			for _, o := range opts {
				s.try(w, f, t, o)
			}
		}
	})
	lics2 := seqs([]string{"ya", "yb", "yc"}, 3, 4)
	texts2 := seqs([]string{"ya", "yb", "yc", "___"}, 2, 5)
	c.Space("blank_text", len(lics2), "one license of 3..4 words over three letters and two of them around a blank × all texts of 2..5 words, blanks included", func(w *eng.Worker, i int) {
		fs := strings.Fields(lics2[i])
		s := newSet(w, texts1(lics2[i]))
		b := newSet(w, texts1(fs[0]+" "+fs[1]+" ___ "+fs[2]+" "+fs[len(fs)-1]))
		for _, t := range texts2 {
			s.try(w, f, t, old.Options{MinLength: 2, Threshold: 30, Slop: 1})
			b.try(w, f, t, old.Options{MinLength: 2, Threshold: 30, Slop: 1})
		}
	})
}

// spacePairs: two licenses sharing words.
func spacePairs(c *eng.Ctx, f Oracle) {
	lics := seqs([]string{"ya", "yb"}, 2, 4)
	tl := 6
	if c.Thorough {
		tl = 9
	}
	texts := seqs([]string{"ya", "yb"}, 0, tl)
	texts = append(texts, seqs([]string{"ya", "yb", "x"}, 5, 5)...)
	n := len(lics)
	c.Space("pairs", n*n, fmt.Sprintf("all ordered pairs of licenses of 2..4 words over ya yb × all texts of at most %d words over ya yb and of 5 with x", tl), func(w *eng.Worker, i int) {
		s := newSet(w, texts1(lics[i/n], lics[i%n]))
		for _, t := range texts {
			s.try(w, f, t, old.Options{MinLength: 2, Threshold: 50, Slop: 1})
		}
	})
}

// spaceSlop: gaps around the slop and the blank's 70 words.
func spaceSlop(c *eng.Ctx, f Oracle) {
	slops := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 69, 70, 71, 100}
	mins := []int{-3, 0, 1, 2, 3, 5, 9, 10, 11, 12}
	c.Space("slop", len(slops)*len(mins), fmt.Sprintf("a license of two parts of 1..13 words × a gap of 0..Slop+2 words in the text, in the license, or in both × %d slops × %d minimum lengths", len(slops), len(mins)), func(w *eng.Worker, i int) {
		o := old.Options{Slop: slops[i/len(mins)], MinLength: mins[i%len(mins)], Threshold: 1}
		sl := o.Slop
		if sl <= 0 {
			sl = 8
		}
		for _, n1 := range []int{1, 2, 3, 5, 9, 10, 11, 13} {
			for _, n2 := range []int{1, 2, 5, 9, 10, 11} {
				a, b := strings.Join(words(n1, "p"), " "), strings.Join(words(n2, "q"), " ")
				s := newSet(w, texts1(a+" "+b))
				s2 := newSet(w, texts1(a+" extra words here "+b))
				s3 := newSet(w, texts1(a+" ___ "+b))
				for _, g := range []int{0, 1, 2, sl - 1, sl, sl + 1, sl + 2, 69, 70, 71, 72} {
					if g < 0 {
						continue
					}
					t := a + " " + fill(g) + " " + b
					s.try(w, f, t, o)
					s2.try(w, f, t, o)
					s3.try(w, f, t, o)
					s.try(w, f, b+" "+fill(g)+" "+a, o)
					s3.try(w, f, "zz "+a+" "+fill(g)+" "+b+" "+fill(g)+" "+b+" zz "+a, o)
				}
			}
		}
	})
}

// spaceThreshold: how much of a license must be there.
func spaceThreshold(c *eng.Ctx, f Oracle) {
	ns := []int{1, 2, 3, 5, 9, 10, 11, 12, 20, 25, 30, 40, 100}
	c.Space("threshold", len(ns), fmt.Sprintf("licenses of %v words × texts with every length of prefix and suffix of them × thresholds 0..101", ns), func(w *eng.Worker, i int) {
		ws := words(ns[i], "t")
		s := newSet(w, texts1(strings.Join(ws, " ")))
		for k := 0; k <= ns[i]; k++ {
			for _, th := range []int{-1, 0, 1, 9, 10, 11, 20, 25, 33, 34, 39, 40, 41, 50, 60, 66, 67, 75, 90, 95, 99, 100, 101, 1000} {
				for _, ml := range []int{0, 1, 2, 5} {
					o := old.Options{Threshold: th, MinLength: ml}
					s.try(w, f, strings.Join(ws[:k], " "), o)
					s.try(w, f, "x "+strings.Join(ws[k:], " ")+" y", o)
					s.try(w, f, strings.Join(ws[:k], " ")+" x "+strings.Join(ws[k:], " "), o)
				}
			}
		}
	})
}

// spaceBlank: blanks near the start of a license.
func spaceBlank(c *eng.Ctx, f Oracle) {
	forms := []string{"copyright ___ A", "___ A", "copyright ___ all ___ A", "copyright by ___ A", "copyright ___ ___ A", "A ___ B", "A ___ in ___ B", "copyright ___ A ___ B ___", "A ___", "copyright ___ A ___ ___ B", "one two ___ A", "one two ___ three ___ A"}
	heads := []string{"", "copyright", "copyright by", "copyright G all", "copyright G copyright", "one two", "one two G three", "copyright copyright", "all G copyright", "A", "B copyright", "two", "x one two"}
	c.Space("blanks", len(forms)*len(heads), "12 licenses with blanks × 13 beginnings × gaps of 0..2, 8..9 and 68..72 words before and between two parts of 12 words", func(w *eng.Worker, i int) {
		a, b := strings.Join(words(12, "p"), " "), strings.Join(words(12, "q"), " ")
		sub := func(s string, g int) string {
			s = strings.ReplaceAll(s, "A", a)
			s = strings.ReplaceAll(s, "B", b)
			return strings.ReplaceAll(s, "G", fill(g))
		}
		s := newSet(w, texts1(sub(forms[i/len(heads)], 0)))
		h := heads[i%len(heads)]
		for _, g1 := range []int{0, 1, 2, 8, 9, 67, 68, 69, 70, 71, 72} {
			for _, g2 := range []int{0, 1, 2, 8, 9, 68, 69, 70, 71} {
				t := sub(h, min(g2, 5)) + " " + fill(g1) + " " + a + " " + fill(g2) + " " + b
				s.try(w, f, t, old.Options{})
				s.try(w, f, t, old.Options{MinLength: 2, Threshold: 10, Slop: 2})
				if g2 <= 2 {
					s.try(w, f, "zz "+t+" "+t, old.Options{})
					s.try(w, f, a+" "+t, old.Options{MinLength: 12, Threshold: 20, Slop: 1})
				}
			}
		}
	})
}

// spaceOverlap: several licenses claiming the same words.
func spaceOverlap(c *eng.Ctx, f Oracle) {
	p := words(8, "p")
	seg := func(i, j int) string { return strings.Join(p[i:j], " ") }
	var spans [][2]int
	for i := 0; i < 8; i++ {
		for j := i + 2; j <= 8; j++ {
			spans = append(spans, [2]int{i, j})
		}
	}
	n := len(spans)
	c.Space("overlap", n*n, fmt.Sprintf("all ordered triples (thorough) or pairs plus one of 4 of licenses that are stretches of an 8-word text (%d stretches), with and without words of their own × the text, plain, prefixed and doubled", n), func(w *eng.Worker, i int) {
		third := []int{0, 5, 13, n - 1}
		if c.Thorough {
			third = nil
			for k := range spans {
				third = append(third, k)
			}
		}
		a, b := spans[i/n], spans[i%n]
		for _, k := range third {
			d := spans[k]
			for v := 0; v < 3; v++ {
				l := texts1(seg(a[0], a[1]), seg(b[0], b[1]), seg(d[0], d[1]))
				if v == 1 {
					l[0].Text += " own words"
					l[1].Text = "other " + l[1].Text
				}
				if v == 2 {
					l[0], l[2] = l[2], ref.OldLicense{Name: "AA", URL: "x.org/l"}
				}
				s := newSet(w, l)
				for _, t := range []string{seg(0, 8), "x " + seg(0, 8) + " y", seg(0, 8) + " " + seg(0, 8), seg(0, 4) + " x " + seg(4, 8), seg(2, 8) + " " + seg(0, 5)} {
					s.try(w, f, t, old.Options{MinLength: 2, Threshold: 30, Slop: 1})
				}
			}
		}
	})
}

// spaceURLs: URL forms and the gaps they stand in.
func spaceURLs(c *eng.Ctx, f Oracle) {
	lic := strings.Join(words(11, "p"), " ")
	list := []ref.OldLicense{{Name: "MIT", Text: lic}, {Name: "BSD-U", URL: "x.org/lic"}, {Name: "CC", URL: "www.x.com/a/b-1.0"}, {Name: "GPL-3", URL: "x.org/lic/deep"}, {Name: "Other", URL: "y.org/d.txt"}, {Name: "Apache", Text: "the words of another license text are these ones here now and then", URL: "z.com/legalcode"}, {Name: "Zlib", URL: "y_1.x-y.org/p#f?q=1"}, {Name: "Unlicense", URL: "lic.org"}, {Name: "JSON", URL: "v.co"}}
	schemes := []string{"http://", "https://", "HTTP://", "Https://", "ftp://", "http:/", "", "xhttp://", "http://http://", "http:// "}
	hosts := []string{"x.org/lic", "www.x.com/a/b-1.0", "x.org/lic/deep", "y.org/d.txt", "y_1.x-y.org/p#f?q=1", "z.com/legalcode", "x.org", "X.ORG/LIC", "x.net/lic", "xcom/lic", "x.org:80/lic", "a.x.org/lic", "x.org/lics", "x.org/licé", "x.org//lic", "123.org/lic", "x.org/lic.org/lic", "lic.org", "v.co", "www.lic.org"}
	sfx := []string{"", "/", "//", "/legalcode", "/legalcode/", "/us", "/us/", "/us/legalcode", "/us/x", ".", "#f", "/123", "é", "/LegalCode"}
	wraps := [][2]string{{"", ""}, {"see ", " now"}, {"a. ", " 1"}, {"1 2 3 ", " 4 5 6"}, {"w w w\n", "\nw w"}, {lic + " ", ""}, {"", " " + lic}, {lic + " ", " " + lic}, {lic + " w ", " w " + lic}, {lic, lic}, {"(", ")"}, {"___ ", " ___"}, {lic + " 12 ", " 34 " + lic}, {"", " 99"}}
	c.Space("urls", len(schemes)*len(hosts), fmt.Sprintf("%d schemes × %d hosts × %d suffixes × %d contexts, one, two and three URLs", len(schemes), len(hosts), len(sfx), len(wraps)), func(w *eng.Worker, i int) {
		s := newSet(w, list)
		for _, x := range sfx {
			u := schemes[i/len(hosts)] + hosts[i%len(hosts)] + x
			for _, wr := range wraps {
				s.try(w, f, wr[0]+u+wr[1], old.Options{})
				s.try(w, f, wr[0]+u+" "+u+wr[1], old.Options{})
				s.try(w, f, wr[0]+"http://x.org/lic w "+u+"\nhttps://y.org/d.txt/ "+wr[1], old.Options{})
			}
		}
	})
	// URLs among the words of a license: inside a match they are part of it,
	// and are reported when the match is not.
	lens := []int{0, 1, 2, 4, 6, 11, 24}
	c.Space("urls_in_license", len(lens)*len(lens), fmt.Sprintf("licenses with a URL after and before %v words × the text, every beginning and end of it, halves apart, with a gap in it, twice, at the start of the text and not × 6 thresholds × 3 minimum lengths, the URL being in the list or not", lens), func(w *eng.Worker, i int) {
		a, b := words(lens[i/len(lens)], "p"), words(lens[i%len(lens)], "q")
		for _, u := range []string{"http://x.org/lic", "https://x.org/lic/", "http://none.org/lic", "see http://www.x.com/a/b-1.0/us now", "http://x.org/lic http://y.org/d.txt"} {
			all := append(append(append([]string{}, a...), strings.Fields(u)...), b...)
			text := strings.Join(all, " ")
			other := strings.Join(words(9, "o"), " ")
			s := newSet(w, append([]ref.OldLicense{{Name: "A", Text: text}, {Name: "B", Text: other + " http://x.org/lic"}, {Name: "C", Text: "http://x.org/lic " + other}}, list[1:5]...))
			for _, th := range []int{1, 40, 60, 80, 95, 100} {
				for _, ml := range []int{1, 5, 10} {
					o := old.Options{Threshold: th, MinLength: ml}
					for _, pre := range []string{"", "w ", "x y z t "} {
						for _, post := range []string{"", " w x y"} {
							s.try(w, f, pre+text+post, o)
							s.try(w, f, pre+text+" "+text+post, o)
							s.try(w, f, pre+u+" "+text+" "+u+post, o)
							s.try(w, f, pre+u+" w x y "+text+" w x y "+u+post, o)
							s.try(w, f, pre+other+" "+text+post, o)
							s.try(w, f, pre+text+" "+other+post, o)
							s.try(w, f, pre+strings.Join(a, " ")+" "+u+" w x "+strings.Join(b, " ")+post, o)
							s.try(w, f, pre+strings.Join(a, " ")+" w x "+u+" "+strings.Join(b, " ")+post, o)
							s.try(w, f, pre+strings.Join(a, " ")+" w x y z t u v "+u+" w x y z t u v "+strings.Join(b, " ")+post, o)
						}
						for k := 0; k <= len(all); k++ {
							s.try(w, f, pre+strings.Join(all[:k], " "), o)
							s.try(w, f, pre+strings.Join(all[k:], " "), o)
							s.try(w, f, pre+strings.Join(all[:k], " ")+" w "+strings.Join(all[k:], " "), o)
						}
					}
				}
			}
		}
	})
	atoms := []string{"http://", "x.org", "x.com", "/lic", "/", " ", "w", "1", lic, ".", "\n"}
	n := 4
	if c.Thorough {
		n = 6
	}
	na := len(atoms)
	c.Space("url_atoms", na*na, fmt.Sprintf("all strings of 2..%d of %d atoms", n, na), func(w *eng.Worker, i int) {
		s := newSet(w, list)
		var rec func(t string, k int)
		rec = func(t string, k int) {
			s.try(w, f, t, old.Options{})
			if k < n {
				for _, a := range atoms {
					rec(t+a, k+1)
				}
			}
		}
		rec(atoms[i/na]+atoms[i%na], 2)
	})
}

// spaceWords: how texts are read.
func spaceWords(c *eng.Ctx, f Oracle) {
	lic := []string{"alpha", "beta", "québec", "ii", "b", "delta", "x", "straße", "и", "q"}
	s0 := texts1(strings.Join(lic, " "), "alpha beta gamma delta ___ alpha beta gamma")
	o := old.Options{MinLength: 3, Threshold: 30, Slop: 2}
	// every code point between and inside words
	const step = 1 << 11
	c.Space("runes", 0x110000/step, "every code point between two words and inside one, in a 10-word license text", func(w *eng.Worker, i int) {
		s := newSet(w, s0)
		for r := rune(i * step); r < rune(i+1)*step; r++ {
			if r >= 0x20000 && r%64 != 0 && !c.Thorough {
				continue
			}
			x := string(r)
			s.try(w, f, "alpha beta"+x+"québec ii b delta x", o)
			s.try(w, f, "alpha beta québec i"+x+"i b delta x straße", o)
			s.try(w, f, x+" alpha beta gamma b"+x+" delta "+x, o)
		}
	})
	gaps := []string{" ", "", "\n", ".", ": ", ")", "(", ") ", "&amp;", "&ldquo;", "&rdquo; ", "&AMP;", "_", "__", "___", "____", "______", " ___ ", "\xff", "\x00", "\u0301", "1", "-", "&", ";"}
	n := 3
	if c.Thorough {
		n = 4
	}
	ng := len(gaps)
	c.Space("gaps", ng*ng, fmt.Sprintf("all ways to put %d of %d gap forms between and after words, list markers among them", n, ng), func(w *eng.Worker, i int) {
		s := newSet(w, s0)
		ws := []string{"alpha", "beta", "ii", "b", "gamma", "delta", "IV", "alpha", "Beta", "gamma"}
		var rec func(t string, k int)
		rec = func(t string, k int) {
			if k == n {
				s.try(w, f, t, o)
				s.try(w, f, t+" "+strings.Join(ws[k:], " "), o)
				return
			}
			for _, g := range gaps {
				rec(t+ws[k]+g, k+1)
				if k == n-1 {
					rec(t+g, k+1)
				}
			}
		}
		rec(ws[0]+gaps[i/ng]+ws[1]+gaps[i%ng], 2)
	})
	markers := strings.Fields("a b c d e f g h i j k l m n o p q r s t u v w x y z ii iii iv v vi vii viii ix x xi xii xiii xiv xv xvi xx aa A Q II Viii xiiii é")
	c.Space("markers", len(markers), "every list marker (and near-markers) before each of 12 following characters, in the text and in the license, at each place", func(w *eng.Worker, i int) {
		m := markers[i]
		base := words(8, "t")
		for _, p := range []string{".", ":", ")", ",", ";", "", " ", "\n", "-", " .", "。", "é"} {
			for k := 0; k <= len(base); k++ {
				with := strings.Join(base[:k], " ") + " " + m + p + " " + strings.Join(base[k:], " ")
				without := strings.Join(base, " ")
				a, b := newSet(w, texts1(with)), newSet(w, texts1(without))
				for _, t := range []string{with, without, "(" + with + ")", strings.Join(base[:k], " ") + "\n(" + m + p + strings.Join(base[k:], " ")} {
					a.try(w, f, t, o)
					b.try(w, f, t, o)
				}
			}
		}
	})
	c.Space("bytes", 256, "all texts of one and two bytes, alone and inside a license text", func(w *eng.Worker, i int) {
		s := newSet(w, s0)
		one := string([]byte{byte(i)})
		s.try(w, f, one, o)
		for j := 0; j < 256; j++ {
			two := string([]byte{byte(i), byte(j)})
			s.try(w, f, two, o)
			s.try(w, f, "alpha beta"+two+"québec ii", o)
			s.try(w, f, "alpha beta "+two+"amp; gamma delta", o)
		}
	})
}

// spaceScale: many licenses, long texts.
func spaceScale(c *eng.Ctx, f Oracle) {
	ns := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500}
	c.Space("many_licenses", len(ns), "lists of n licenses (text only, URL only, both, empty) in the order of the list and scattered × a text for each", func(w *eng.Worker, i int) {
		n := ns[len(ns)-1-i]
		var list []ref.OldLicense
		for k := 0; k < n; k++ {
			l := ref.OldLicense{Name: fmt.Sprintf("L%04d", k)}
			if k%4 != 1 {
				l.Text = "the common words of all licenses are " + strings.Join(words(k+6, "w")[k:], " ")
			}
			if k%4 == 1 || k%4 == 2 {
				l.URL = fmt.Sprintf("x.org/l%d", k)
			}
			if k%7 == 5 {
				l.Text, l.URL = "", ""
			}
			list = append(list, l)
		}
		s := newSet(w, list)
		for k := 0; k < n; k++ {
			t := "x the common words of all licenses are " + strings.Join(words(k+6, "w")[k:], " ") + " y " + fmt.Sprintf("see http://x.org/l%d z", k)
			s.try(w, f, t, old.Options{MinLength: 4})
			if k%8 == 0 {
				s.try(w, f, t+" "+t, old.Options{})
			}
		}
	})
	reps := []int{1, 2, 3, 5, 10, 20, 50, 100, 255, 256, 257, 1000}
	c.Space("repeats", len(reps), "n copies of a license, a near-miss and a URL in one text", func(w *eng.Worker, i int) {
		n := reps[i]
		lic := strings.Join(words(12, "p"), " ")
		s := newSet(w, append(texts1(lic, strings.Join(words(6, "p"), " ")+" own words are here and these"), ref.OldLicense{Name: "U", URL: "x.org/l"}))
		for _, p := range []string{lic + " ", lic + " zz\n", strings.Join(words(11, "p"), " ") + " ", "http://x.org/l w ", lic + " http://x.org/l/ ", "p ", "paaa paab "} {
			s.try(w, f, strings.Repeat(p, n), old.Options{})
			s.try(w, f, "w "+strings.Repeat(p, n)+lic, old.Options{MinLength: 2, Slop: 2, Threshold: 20})
		}
	})
	pads := []int{0, 1, 2, 3, 63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20}
	c.Space("padding", len(pads), "a license and a URL after n bytes of spaces, of words and of digits", func(w *eng.Worker, i int) {
		n := pads[i]
		lic := strings.Join(words(12, "p"), " ")
		s := newSet(w, append(texts1(lic), ref.OldLicense{Name: "U", URL: "x.org/l"}))
		for _, p := range []string{strings.Repeat(" ", n), strings.Repeat("w ", n/2), strings.Repeat("1", n), strings.Repeat("é", n/2)} {
			s.try(w, f, p+" "+lic+" see http://x.org/l now", old.Options{})
			s.try(w, f, lic+" "+p+" http://x.org/l "+p, old.Options{})
		}
	})
}
