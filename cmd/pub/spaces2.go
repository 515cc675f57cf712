package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// preambles are what files of some format begin with, or hold between their parts.
var preambles = []string{
	"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\x00", "\x00\x00\xfe\xff", "\x1a", "\x0c", "\x1b[0m", "\x1f\x8b\x08", "\x7fELF", "\xca\xfe\xba\xbe", "PK\x03\x04", "MZ", "\x89PNG\r\n\x1a\n", "BZh9", "\xff\xd8\xff",
	"#!/bin/sh\n", "#!/usr/bin/env python3\n# -*- coding: utf-8 -*-\n", "%PDF-1.4\n", "%!PS\n", "{\\rtf1\\ansi ", "<?xml version=\"1.0\"?>\n", "<!DOCTYPE html>\n", "<html><body>", "<!--\n", "-->\n", "<![CDATA[", "]]>", "<script>", "</script>", "<style>", "</style>", "<pre>\n", "</pre>\n",
	"From me Mon Jan 1\n", "MIME-Version: 1.0\n\n", "Content-Type: text/html\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA1\n\n", "-----BEGIN PGP SIGNATURE-----\n", "-----BEGIN CERTIFICATE-----\n", "---\ntitle: w\n---\n", "+++\n", "diff --git a/w b/w\n--- a/w\n+++ b/w\n@@ -1 +1 @@\n+", ">>>>>>> ", "<<<<<<< HEAD\n", "=======\n", "SPDX-License-Identifier: w\n", "/*!\n * ", " */\n", "\"\"\"", "'''", "#if 0\n", "#endif\n", "=pod\n", "=cut\n", "=begin\n", "__END__\n", "__DATA__\n", "\\documentclass{w}\n\\begin{document}\n", "\\end{document}\n", ".TH W 1\n.SH W\n", ".\\\" ", "dnl ", "rem ", "REM ", "@echo off\r\n", "\\input texinfo\n", "@c ", "--[[", "]]", "(*", "*)", "{-", "-}", "%{", "%}", "```\n", "~~~\n", "> ", "> > ", "| ", "* * *\n", "\n\n\n\n", "\r\r\n", "\u2028", "\u2029", "\u00a0", "\u200b", "\u00ad", "\u3000", "=?UTF-8?Q?", "=20\n", "&#10;", "&nbsp;", "%20", "\\n", "\\u0020", "END OF TERMS AND CONDITIONS\n", "---8<---\n", "$Id$", "$Log$", "@license ", "@copyright ",
}

// spacePreambles: matches after, between and before what files of many formats hold.
func spacePreambles(c *eng.Ctx, o Oracle) {
	list := append(pats("q r s", "u v __3__ t", "copyright k l", "k l m"), ref.License{ID: "U", Type: 4, URL: "x.org/lic"})
	n := len(preambles)
	c.Space("preambles", n, fmt.Sprintf("%d beginnings and delimiters of file formats, alone, in pairs, and before, after, inside and between matches, near-misses, notices and URLs", n), func(w *eng.Worker, i int) {
		s := mustSet(w, list)
		p := preambles[i]
		for _, x := range []string{"q r s", "q r", "u v w w t", "copyright w k l m", "http://x.org/lic", "(c) w\nq r s\n", "q r s q r s k l m", ""} {
			for _, t := range []string{p + x, x + p, p + x + p, x + p + x, p + "\n" + x, "\n" + p + x, " " + p + x + p + x + p, "w " + p + " w\n" + x, x + "\n" + p + "\nw w", strings.ReplaceAll(x, " ", p), strings.ReplaceAll(x, " ", "\n"+p), strings.ReplaceAll(x, " ", p+"\n"), strings.ReplaceAll(x, " ", " "+p+" "), "w w\n" + p + x} {
				s.try(w, o, t)
			}
			for _, p2 := range preambles {
				s.try(w, o, p+p2+x)
				s.try(w, o, p+x+p2)
				if x == "q r s" {
					s.try(w, o, p+x+p2+x)
					s.try(w, o, p+p2+"q"+p+"r"+p2+"s")
				}
			}
		}
		s.close(w)
	})
}

// spaceWide: states of many threads, and long patterns before wildcards.
func spaceWide(c *eng.Ctx, o Oracle) {
	var ns []int
	for n := 1; n <= 34; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 149, 150, 151, 200, 255, 256, 257, 300, 301, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2049)
	if c.Thorough {
		ns = append(ns, 4095, 4097, 8193, 16385)
	}
	forms := []string{"((a b || c d))\nk%d x", "a b\n((o))??\nk%d x", "a b __3__ k%d x", "((a b || c d))\n((o || p))??\nk%d\n((x || y))\nz"}
	extra := []string{"c d z", "a b z", "a b o z", "((a b || c d))\nk0 y", "c d o x"}
	const m = 5
	c.Space("wide_states", len(ns)*len(forms)*m, fmt.Sprintf("n patterns, n of %d sizes up to %d, that go on differently after one of two equal beginnings, in %d forms, and one more pattern first or last: automaton states of that many threads that differ in one", len(ns), ns[len(ns)-1], len(forms)), func(w *eng.Worker, i int) {
		n := ns[len(ns)-1-i/len(forms)/m]
		form := forms[i/m%len(forms)]
		if strings.Contains(form, "__") && n > 20 {
			return // the automaton has n³ states
		}
		var lres []string
		for k := 0; k < n; k++ {
			lres = append(lres, fmt.Sprintf(form, k))
		}
		for _, first := range []bool{false, true} {
			l := append(append([]string{}, lres...), extra[i%m])
			if first {
				l = append([]string{extra[i%m]}, lres...)
			}
			s := mustSet(w, pats(l...))
			for _, h := range []string{"a b", "c d", "a b o", "c d o"} {
				for _, k := range []int{0, n / 2, n - 1, n} {
					for _, t := range []string{"x", "y", "y z", "x z", "w"} {
						s.try(w, o, fmt.Sprintf("%s k%d %s", h, k, t))
						if k == 0 {
							s.try(w, o, fmt.Sprintf("%s w k%d %s", h, k, t))
						}
					}
				}
				s.try(w, o, h+" z")
				s.try(w, o, h+" x")
				s.try(w, o, h+" "+h+" z")
			}
			s.close(w)
		}
	})
	heads := []int{2, 3, 100, 1000, 10000, 32766, 32768, 33000, 65534, 65537, 66000}
	wild := []int{1, 5, 64, 257, 4097, 6000}
	c.Space("wild_after_long", len(heads)*len(wild), fmt.Sprintf("patterns of n words, n of %v, followed by a wildcard, N of %v (one of the two small), or by an optional, an alternation or both, and more words × gaps of 0, 1, N-1, N, N+1 words", heads, wild), func(w *eng.Worker, i int) {
		n, big := heads[len(heads)-1-i/len(wild)], wild[len(wild)-1-i%len(wild)]
		var ws []string
		for k := 0; k < n; k++ {
			ws = append(ws, fmt.Sprintf("w%dx", k))
		}
		h := strings.Join(ws, " ")
		for _, f := range []string{"%s __%d__ k l m n", "%s\n((__%d__ k || o p))\nl m n", "%s\n((o))??\n__%d__ k l m n", "%s\n((k __%d__ l))??\nm n"} {
			if f[3] != '_' && big > 1000 && n > 2 && n < 60000 {
				continue
			}
			s := mustSet(w, pats(fmt.Sprintf(f, h, big), "k l q"))
			for _, g := range []int{0, 1, big - 1, big, big + 1} {
				for _, pre := range []string{"", "k ", "o "} {
					t := h + " " + pre + strings.Repeat("y ", g)
					if pre == "" || n < 2000 && big < 1000 {
						for _, e := range []string{"k l m n", "l m n", "m n", "k l q m n"} {
							s.try(w, o, t+e)
						}
					} else {
						s.try(w, o, t+"k l m n")
						s.try(w, o, t+"l m n")
					}
				}
			}
			s.try(w, o, h+" o p l m n")
			s.try(w, o, h+" m n")
			s.close(w)
		}
	})
}

var stopWords = []string{"not", "no", "nor", "or", "and", "the", "a", "an", "of", "to", "in", "is", "be", "by", "any", "all", "this", "shall", "may", "without", "except", "unless", "non", "un", "c", "copyright", "http", "1", "s", "x", "strangeword"}

// spaceFar: near-misses by words that are easily overlooked, far into a text.
func spaceFar(c *eng.Ctx, o Oracle) {
	words := strings.Fields("you may copy it if these words are kept in every case")
	pat := strings.Join(words, " ")
	var near []string
	for _, x := range stopWords {
		for k := range words {
			ins := strings.Join(words[:k], " ") + " " + x + " " + strings.Join(words[k:], " ")
			rep := append([]string{}, words...)
			rep[k] = x
			near = append(near, ins, strings.Join(rep, " "))
		}
	}
	for k := range words {
		near = append(near, strings.Join(words[:k], " ")+" "+strings.Join(words[k+1:], " "), strings.Join(words[:k+1], " ")+" "+strings.Join(words[k:], " "))
		if k > 0 {
			sw := append([]string{}, words...)
			sw[k], sw[k-1] = sw[k-1], sw[k]
			near = append(near, strings.Join(sw, " "))
		}
	}
	var pads []int
	top := 14
	if c.Thorough {
		top = 19
	}
	for k := 0; k <= top; k++ {
		pads = append(pads, 1<<uint(k)-1, 1<<uint(k)+1)
	}
	pads = append(pads, 0, 100, 1000, 5000, 10000, 20000)
	lists := [][]ref.License{
		pats(pat, "not strange words"),
		pats(pat, strings.Join(stopWords, " "), "you may not copy it if"),
		pats("you may copy it __3__ these words\n((not))??\nare kept\n((in every case || at all))", strings.Join(stopWords, " ")),
		append(pats("you may __20__ case"), ref.License{ID: "U", URL: "x.org/lic"}),
	}
	c.Space("far_near_misses", len(pads)*len(lists), fmt.Sprintf("%d near-misses of a text of %d words (each of %d common words inserted, or in place of a word, at each place; words dropped, doubled, exchanged) after n unknown or known words, n up to %d; %d license lists", len(near), len(words), len(stopWords), 1<<uint(top), len(lists)), func(w *eng.Worker, i int) {
		n := pads[len(pads)-1-i/len(lists)]
		s := mustSet(w, lists[i%len(lists)])
		for f, fill := range []string{"w ", "not ", "w\n"} {
			p := strings.Repeat(fill, n)
			if n < 70 {
				for _, t := range near {
					s.try(w, o, p+t)
				}
				continue
			}
			for part := 0; part < 4; part++ {
				s.try(w, o, p+strings.Join(near[part*len(near)/4:(part+1)*len(near)/4], "\n")+"\n"+p)
			}
			if f == 0 {
				s.try(w, o, strings.Join(near, "\n")+"\n"+p)
				s.try(w, o, strings.Join(near, " w ")+" "+pat+" "+p+" http://x.org/lic "+pat)
			}
		}
		s.close(w)
	})
}

// spaceURLBytes: every byte at every place of a URL, and many domains.
func spaceURLBytes(c *eng.Ctx, o Oracle) {
	base := "http://x.org/lic/deep"
	c.Space("url_bytes", 256, "every byte inserted at each place of a URL, or in place of each byte, in the text, in the list, or in both", func(w *eng.Worker, i int) {
		b := string([]byte{byte(i)})
		list := append(pats("q r s"), ref.License{ID: "A", Type: 4, URL: "x.org/lic"}, ref.License{ID: "B", Type: 8, URL: "x.org/lic/deep"}, ref.License{ID: "C", Type: 2, URL: "x.org"})
		plain := mustSet(w, list)
		for p := 0; p <= len(base); p++ {
			us := []string{base[:p] + b + base[p:]}
			if p < len(base) {
				us = append(us, base[:p]+b+base[p+1:])
			}
			for _, u := range us {
				var s *Set
				if p >= 7 {
					s = mustSet(w, append(list[:len(list):len(list)], ref.License{ID: "D", Type: 16, URL: u[7:]}, ref.License{ID: "E", Type: 32, URL: strings.ToLower(u[7:])}))
				}
				for _, t := range []string{u, u + "/", "w " + u + " w", u + "/legalcode", u + "/us/", u + "\n" + u, "(" + u + ")", strings.ToUpper(u), "http://" + u, u + "q r s", u[:p] + b + b + u[p:]} {
					plain.try(w, o, t)
					if s != nil {
						s.try(w, o, t)
					}
				}
				if s != nil {
					s.try(w, o, base)
					s.close(w)
				}
			}
		}
		plain.close(w)
	})
	tlds := strings.Fields("org com net edu gov mil int info biz io dev app co ai me uk de fr eu ch at nl se no fi pl ru cn jp in br au ca us tv cc ly sh gg xyz tech cloud software foundation legal law site online page wiki google md html or og omc comm coms orgs orgx c o co. org. com. coop museum arpa onion local localhost test example invalid xn--p1ai")
	c.Space("domains", len(tlds), fmt.Sprintf("listed URLs in %d top-level domains, followed by further labels, ports and paths", len(tlds)), func(w *eng.Worker, i int) {
		var list []ref.License
		for k, t := range tlds {
			list = append(list, ref.License{ID: fmt.Sprint("T", k), Type: uint(k), URL: "x." + t + "/lic"}, ref.License{ID: fmt.Sprint("S", k), Type: uint(k), URL: "www.x-y." + t + "/a/lic.txt"}, ref.License{ID: fmt.Sprint("R", k), URL: t + "/lic"})
		}
		s := mustSet(w, append(list, pats("q r s")...))
		t := tlds[i]
		for _, h := range []string{"x." + t, "www.x-y." + t, t, "x." + strings.ToUpper(t), "x.y." + t, "x.org." + t, "x.com." + t, "x." + t + ".org", "x." + t + ".com", "x." + t + ":80", "x." + t + ":443", "me@x." + t, "x" + t, "x_" + t, "x-" + t, "." + t, "x.." + t, "x." + t + "."} {
			for _, p := range []string{"", "/", "/lic", "/a/lic.txt", "/lic/", "/lic/us", "/lic/legalcode", "/LIC", "//lic", "/lic?x=1", "/lic#x", "/lic?", "/lic&x", "lic", "/lic,", "/lic;", "/lic:", "/lic%20", "/lic'", "/lic+", "/lic~", "/lic!", "/lic*", "/lic$", "/lic\u00e9", "/~lic", "/%6cic"} {
				for _, sc := range []string{"http://", "https://", "HTTP://", "//", "www."} {
					s.try(w, o, sc+h+p)
					s.try(w, o, "w <"+sc+h+p+"> q r s")
				}
			}
		}
		s.close(w)
	})
}

// spaceCorrections: many corrections in one match, and corrections next to words that are read as others.
func spaceCorrections(c *eng.Ctx, o Oracle) {
	var ns []int
	for n := 3; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 10001)
	if c.Thorough {
		ns = append(ns, 32767, 32769, 65535, 65537, 131073)
	}
	c.Space("many_corrections", len(ns), fmt.Sprintf("a pattern of n distinct words, n of %d sizes up to %d, alone and with optionals and wildcards × every word, every second word, or all words but one misspelled, joined with its neighbour, or split, or all of these in turn; and n copies of a short text with a correction", len(ns), ns[len(ns)-1]), func(w *eng.Worker, i int) {
		n := ns[len(ns)-1-i]
		var ws []string
		for k := 0; k < n; k++ {
			x := []byte("g")
			for _, d := range fmt.Sprintf("%05d", k*7919%100000) {
				x = append(x, byte('a'+d-'0'), byte('k'+d-'0')) // any two differ in two letters
			}
			ws = append(ws, string(x))
		}
		var opt []string
		for k, x := range ws {
			opt = append(opt, x)
			if k%5 == 3 && k < n-1 {
				opt = append(opt, "\n((oo pp))??\n")
			}
			if k%7 == 5 && k < n-1 {
				opt = append(opt, "__2__")
			}
		}
		kinds := []func(x string) string{
			func(x string) string { return x + " " },
			func(x string) string { return x[:len(x)-1] + " " },
			func(x string) string { return x[:4] + "z" + x[4:] + " " },
			func(x string) string { return "z" + x[1:] + " " },
			func(x string) string { return x[:5] + " " + x[5:] + " " },
			func(x string) string { return x[:5] + "-\n" + x[5:] + " " },
			func(x string) string { return x },
			func(x string) string { return strings.ToUpper(x[:3]) + x[3:] + ".\n" },
		}
		for _, list := range [][]string{{strings.Join(ws, " ")}, {strings.Join(opt, " ")}, {strings.Join(ws, " "), strings.Join(opt, " ") + " end"}, {"q r stuv __3__ wxyz", "q r stuv"}} {
			s := mustSet(w, pats(list...))
			if list[0] == "q r stuv __3__ wxyz" {
				for _, x := range []string{"q r stu ", "q r st uv ", "q r stuvwxyz ", "q r stuvx ", "q r stuv a b wxy\n", "q r stuv a b c wx yz ", "q r stub wxyzq r stuv "} {
					s.try(w, o, strings.Repeat(x, n))
				}
				s.close(w)
				continue
			}
			for _, a := range kinds {
				for _, f := range []func(k int) bool{
					func(k int) bool { return true },
					func(k int) bool { return k%2 == 0 },
					func(k int) bool { return k != n/2 },
					func(k int) bool { return k >= n-3 },
				} {
					var t []byte
					for k, x := range ws {
						if k >= 2 && f(k) {
							t = append(t, a(x)...)
						} else {
							t = append(t, x+" "...)
						}
					}
					s.try(w, o, string(t))
					s.try(w, o, "w "+string(t)+"end of "+string(t))
				}
			}
			for shift := range kinds {
				var t []byte
				for k, x := range ws {
					if k >= 2 {
						t = append(t, kinds[(k+shift)%len(kinds)](x)...)
					} else {
						t = append(t, x+" "...)
					}
				}
				s.try(w, o, string(t))
				s.try(w, o, string(t)+"w\n"+strings.Join(ws, " "))
			}
			s.close(w)
		}
	})
	special := []string{"is", "are", "it", "them", "they", "the", "these", "this", "those", "copy", "copies", "copyright", "c", "notice(s)", "licence", "license", "2", "20", "http", "x", "cat", "and", "a", "ab"}
	n := len(special)
	c.Space("canonical", n*n, fmt.Sprintf("patterns q r X Y s for all pairs of %d words (words read as others and their originals, copyright, c, numbers, short words), alone, and with a wildcard or an optional × all texts q r X' Y' s of these words: apart, glued, with the space moved by one or two letters, broken by a hyphen, one letter dropped, doubled or changed at the seam", n), func(w *eng.Worker, i int) {
		x, y := special[i/n], special[i%n]
		for _, f := range []string{"q r %s %s s", "q r %s\n((%s ))??\ns", "q r %s __1__ %s s", "q r\n((%s || %s ))\ns"} {
			s := mustSet(w, pats(fmt.Sprintf(f, x, y)))
			for _, a := range special {
				for _, b := range special {
					for _, t := range []string{a + " " + b, a + b, a + "-\n" + b, a + "(" + b + ")", a + b[:1] + " " + b[1:], a[:len(a)-1] + " " + a[len(a)-1:] + b, a + b + "s", a + "s" + b, a + b[1:], a, a + b[:1] + "z" + b[1:]} {
						s.try(w, o, "q r "+t+" s")
					}
				}
			}
			s.close(w)
		}
	})
}
