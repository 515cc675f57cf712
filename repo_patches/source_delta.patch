From cddf2df3234dc4ee62065b3b1da61c749e9d54f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 01/26] fix: do not start a match inside the previous match

After recording a match, MultiLRE.Match resumed at the end of the match but
left the last word it had read in p[1], so the next phrase looked up began
with a word of the match just reported and m.Words[i-1:] overlapped it.
---
 internal/match/regexp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 3ce2189..9806e3f 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -206,6 +206,7 @@ func (re *MultiLRE) Match(text string) *Matches {
 				// Continue search at end of match.
 				i = end - 1 // loop will i++
 				p[0] = BadWord
+				p[1] = BadWord // words of this match cannot start the next one
 				continue
 			}
 		}
-- 
2.43.0


From 5aabf0458acb7c25c57c68d6fdd2e6bc1029b7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 02/26] fix: make scanners without any LRE usable

NewScanner accepted a license list with only URLs (or an empty one),
but the resulting Scanner panicked on its first Scan
because the empty MultiLRE had no dictionary.
---
 internal/match/regexp.go | 2 +-
 scan.go                  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 9806e3f..d865cc4 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -117,7 +117,7 @@ type phrase [2]WordID
 // if not, NewMultiLRE panics.
 func NewMultiLRE(list []*LRE) (_ *MultiLRE, err error) {
 	if len(list) == 0 {
-		return &MultiLRE{}, nil
+		return &MultiLRE{dict: new(Dict)}, nil
 	}
 
 	dict := list[0].dict
diff --git a/scan.go b/scan.go
index 108e12a..b6ae62e 100644
--- a/scan.go
+++ b/scan.go
@@ -89,6 +89,9 @@ func (s *Scanner) init(licenses []License) error {
 	if re == nil {
 		return errors.New("missing lre")
 	}
+	// If licenses listed only URLs, re has its own empty dictionary.
+	re.Dict().Insert("copyright")
+	re.Dict().Insert("http")
 	s.re = re
 	return nil
 }
-- 
2.43.0


From c67af419349d232fcf31bdf81c5016cac0314695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 03/26] fix: accept &copy; for an expected c
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

&copy; is canonicalized to copyright like (c) and ©,
but spell checking accepted only the latter two for an expected c.
---
 internal/match/rematch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 3dca29c..af84bdd 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -990,6 +990,10 @@ func canMisspell(want, have string) bool {
 	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©") {
 		return true
 	}
+	// Or it can be the HTML form of ©.
+	if want == "c" && have == "&copy;" {
+		return true
+	}
 
 	return false
 }
-- 
2.43.0


From 5251a2f492aa6839dff7e4302e224aa23c422432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 04/26] fix: drop combining grave and acute accents when
 folding
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

foldRune documented this but did not do it, so that decomposed
forms of words like Québec did not match.
---
 internal/match/dict.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa38505..bdaa1aa 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -234,6 +234,8 @@ func foldRune(r rune) rune {
 	}
 
 	switch r {
+	case '\u0300', '\u0301': // combining grave, acute
+		return -1
 	case 'Á', 'À':
 		return 'a'
 	case 'É', 'È':
-- 
2.43.0


From d1e5f105c4aa4a3b92b6165f2ee19cb2f9a67f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 05/26] fix: recognize license URLs with an upper-case scheme

urlScanRE accepts HTTP:// and Https://, but licenseURL trimmed the
scheme before lower-casing the URL, so those were never found.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index b6ae62e..6c1aa86 100644
--- a/scan.go
+++ b/scan.go
@@ -228,13 +228,13 @@ func (s *Scanner) Scan(text []byte) Coverage {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (s *Scanner) licenseURL(url string) (License, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, lower-case it.
+	// Then we trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	l, ok := s.urls[url]
 	if ok {
 		return l, true
-- 
2.43.0


From 9ada85a32494a0061f46b2b23c67b048bcb06eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 06/26] fix: do not report a match ending inside a split word

When a word of the text was split in two to follow the DFA and the state
between the two halves was a matching one, the match was recorded as ending
before the word, that is, without the half of it that completed the match.
---
 internal/match/rematch.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index af84bdd..fca863e 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -873,7 +873,7 @@ Words:
 				// have[:len(want)] matches want.
 				// Look to see if have[len(want):] can be the word after want.
 				rest := have[len(want):]
-				m2, delta2 := dfa.stateAt(dnext)
+				_, delta2 := dfa.stateAt(dnext)
 				next2 := int32(-1)
 				for j2 := 0; j2 < len(delta2); j2 += 2 {
 					dw2, dnext2 := WordID(delta2[j2]), delta2[j2+1]
@@ -884,10 +884,6 @@ Words:
 				if next2 >= 0 {
 					// Successfully split have into two words
 					// to drive the DFA forward two steps.
-					if m2 >= 0 {
-						match = m2
-						end = i
-					}
 					off = next2
 					continue Words
 				}
-- 
2.43.0


From 19801ed4538fa71386d2a9aacc9986d7fcb67fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 07/26] fix: reject wildcard counts that overflow int32

The count was silently truncated, turning __4294967297__ into __1__
and __2147483648__ into a negative count.
---
 internal/match/resyntax.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index a5d6820..1fa67f3 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -270,6 +270,9 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 				continue
 			}
 			n, err := strconv.Atoi(s[i+2 : j])
+			if err == nil && int(int32(n)) != n {
+				err = strconv.ErrRange
+			}
 			if err != nil {
 				return nil, reSyntaxError(s, i, errors.New("invalid wildcard count "+s[i:j+2]))
 			}
-- 
2.43.0


From fda0fb70713f83803ce281b6fe7107986754378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 08/26] fix: fold all case variants of a rune to the same rune
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

foldRune's walk to the smallest equivalent rune stopped early for runes with
three or more variants, so that for example å and Å, or ς and σ, were
different and matching was not case-insensitive for words using them.
---
 internal/match/dict.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index bdaa1aa..01fa7f9 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -223,6 +223,12 @@ func (d *Dict) split(text string, insert bool) []Word {
 // but that will require more thought about exactly what to do
 // and doing it efficiently. For now, the accents are enough.
 func foldRune(r rune) rune {
+	// SimpleFold steps up through the equivalent runes and then wraps around,
+	// so begin at the max one: it is the one directly before the min one.
+	for unicode.SimpleFold(r) > r {
+		r = unicode.SimpleFold(r)
+	}
+
 	// Iterate SimpleFold until we hit the min equivalent rune,
 	// which - for the ones we care about - is the upper case ASCII rune.
 	for {
-- 
2.43.0


From 769a009d74e2804ede5b1870522bbdf9be8c123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 09/26] fix: old: index license texts by their position in
 c.licenses

New used the position in the full list, which differs as soon as a
URL-only entry comes first: Cover then panicked or named another license.
---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index c53e53e..8ab6a93 100644
--- a/old/license.go
+++ b/old/license.go
@@ -101,7 +101,7 @@ func New(licenses []License) *Checker {
 		dict:     make(map[string]int32),
 		index:    make(map[phrase][]indexEntry),
 	}
-	for id, l := range licenses {
+	for _, l := range licenses {
 		if l.Text != "" {
 			next := len(c.licenses)
 			c.licenses = c.licenses[:next+1]
@@ -110,7 +110,7 @@ func New(licenses []License) *Checker {
 			cl.typ = licenseType(cl.name)
 			cl.text = l.Text
 			cl.doc = c.normalize([]byte(cl.text), true)
-			c.updateIndex(int32(id), cl.doc.words)
+			c.updateIndex(int32(next), cl.doc.words)
 		}
 		if l.URL != "" {
 			c.urls[l.URL] = l.Name
-- 
2.43.0


From 024b74e4eda77d64d1e6b5d959e274c99c99bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 10/26] fix: old: search the whole gap before a match for URLs

The gap was cut after its last word, which is before any digits, so
http://example.org/license-2.0 was missed when a match followed it.
---
 old/license.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/old/license.go b/old/license.go
index 8ab6a93..0cb962a 100644
--- a/old/license.go
+++ b/old/license.go
@@ -362,6 +362,9 @@ func (doc *document) findURLsBetween(c *Checker, matches []Match) []Match {
 		// Otherwise, the end will go right up to the start of the next match, and
 		// that will include all the text in the gap.
 		end := doc.endWordToEndByte(c, endWord)
+		if endWord < len(doc.words) {
+			end = int(doc.byteOff[endWord])
+		}
 		urlIndexes := urlRE.FindAllIndex(doc.text[start:end], -1)
 		if len(urlIndexes) == 0 {
 			continue
-- 
2.43.0


From 736d7722bb3404a8386bf2e2bc33fce31fee00b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 11/26] fix: old: recognize license URLs with an upper-case
 scheme or legalcode

---
 old/license.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/old/license.go b/old/license.go
index 0cb962a..3234ed0 100644
--- a/old/license.go
+++ b/old/license.go
@@ -391,6 +391,7 @@ func (c *Checker) licenseURL(url string) (string, bool) {
 	// We need to canonicalize the text for lookup.
 	// First, trim the leading http:// or https:// and the trailing /.
 	// Then we lower-case it.
+	url = strings.ToLower(url) // Also makes HTTP:// a known prefix.
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
-- 
2.43.0


From 45d39fce44eb12879a2ea212085b6374fa441c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 12/26] fix: old: do not count a matched blank twice

A text that itself has ___ after some other words got a Percent above 100.
---
 old/license.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/old/license.go b/old/license.go
index 3234ed0..f7b10d3 100644
--- a/old/license.go
+++ b/old/license.go
@@ -582,7 +582,7 @@ func (c *Checker) submatches(text []int32, opts Options) []submatch {
 					textGap = blankMax
 				}
 				if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {
-					if textGap == blankMax {
+					if textGap == blankMax && matchLicenseStart > prev.licenseEnd {
 						prev.matched++ // matched the blank
 					}
 					prev.end = end
-- 
2.43.0


From 6fb8822f2984c3ea7cd18c4a463a66844925c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 13/26] fix: old: report the location of the URL itself

A URL match lost trailing digits (LICENSE-2.0 became LICENSE), and took in
all text before it or after it at the start or end of the input.
---
 old/license.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/old/license.go b/old/license.go
index f7b10d3..97f324c 100644
--- a/old/license.go
+++ b/old/license.go
@@ -69,6 +69,8 @@ type document struct {
 	text    []byte  // Original text.
 	words   []int32 // Normalized words (indexes into c.words)
 	byteOff []int32 // ith byteOff is byte offset of ith word in original text.
+
+	urlOff map[int][2]int // byte offsets of license URLs, by their Match.Start word.
 }
 
 // A Checker matches a set of known licenses.
@@ -320,6 +322,11 @@ func (doc *document) toByteOffsets(c *Checker, matches []Match) {
 	for i := range matches {
 		m := &matches[i]
 		start := m.Start
+		if m.IsURL {
+			// Words exclude numerals, so they do not tell where a URL ends.
+			m.Start, m.End = doc.urlOff[start][0], doc.urlOff[start][1]
+			continue
+		}
 		if start == 0 {
 			m.Start = 0
 		} else {
@@ -372,6 +379,10 @@ func (doc *document) findURLsBetween(c *Checker, matches []Match) []Match {
 		for _, u := range urlIndexes {
 			u0, u1 := u[0]+start, u[1]+start
 			if name, ok := c.licenseURL(string(doc.text[u0:u1])); ok {
+				if doc.urlOff == nil {
+					doc.urlOff = make(map[int][2]int)
+				}
+				doc.urlOff[doc.wordOffset(u0)] = [2]int{u0, u1}
 				out = append(out, Match{
 					Name:    name,
 					Type:    licenseType(name),
-- 
2.43.0


From 2e7f32f68448d48acae329004e9ee9ebb239bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 14/26] fix: old: do not count a blank where the license has
 none

With Slop equal to blankMax, every gap was taken for a blank.
---
 old/license.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index 97f324c..52acd49 100644
--- a/old/license.go
+++ b/old/license.go
@@ -589,11 +589,12 @@ func (c *Checker) submatches(text []int32, opts Options) []submatch {
 			if i := byLicense[licenseID]; i >= 0 {
 				prev := &matches[i]
 				textGap := opts.Slop
-				if prev.licenseEnd < len(l.doc.words) && l.doc.words[prev.licenseEnd] == blankID {
+				blank := prev.licenseEnd < len(l.doc.words) && l.doc.words[prev.licenseEnd] == blankID
+				if blank {
 					textGap = blankMax
 				}
 				if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {
-					if textGap == blankMax && matchLicenseStart > prev.licenseEnd {
+					if blank && matchLicenseStart > prev.licenseEnd {
 						prev.matched++ // matched the blank
 					}
 					prev.end = end
-- 
2.43.0


From 23d82d950966c5fcf04f837d8489f28ca10deb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 15/26] fix: regenerate data.gen.go from licenses/BSD.lre

---
 data.gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.gen.go b/data.gen.go
index c472559..f3f75ce 100644
--- a/data.gen.go
+++ b/data.gen.go
@@ -9186,7 +9186,7 @@ parties intellectual property rights.
 `
 const license_BSD_4_Clause_UC_lre = `
 //**
-BSD 4-Clause (Univeristy of California-Specific)
+BSD 4-Clause (University of California-Specific)
 https://spdx.org/licenses/BSD-4-Clause-UC.json
 http://www.freebsd.org/copyright/license.html
 **//
-- 
2.43.0


From 78ea4f3a847cdb0e99f8c719765bb5cc5cb8ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 16/26] fix: gen_data: keep carriage returns in embedded
 templates

---
 gen_data.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gen_data.go b/gen_data.go
index cfa7a4d..5c1fd66 100644
--- a/gen_data.go
+++ b/gen_data.go
@@ -51,9 +51,10 @@ func main() {
 
 	out.Reset()
 	for _, file := range builtLRE {
-		fmt.Fprintf(out, "const %s = `%s`\n",
-			varName(file.Name+".lre"),
-			bytes.ReplaceAll(file.Data, []byte("`"), []byte("` + \"`\" + `")))
+		// A raw string literal cannot hold a backquote, and drops carriage returns.
+		data := bytes.ReplaceAll(file.Data, []byte("`"), []byte("` + \"`\" + `"))
+		data = bytes.ReplaceAll(data, []byte("\r"), []byte("` + \"\\r\" + `"))
+		fmt.Fprintf(out, "const %s = `%s`\n", varName(file.Name+".lre"), data)
 	}
 	code += out.String()
 
-- 
2.43.0


From 526746e442c85a9bf33968759118eb085ae2667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 17/26] fix: getspdx: reject templates with an unclosed
 optional part

---
 licenses/getspdx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 8ec7838..3e7df2a 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -380,6 +380,9 @@ func templateToLRE(file string, t string) string {
 		}
 	}
 	wrap(&buf, t[start:])
+	if len(optStart) > 0 {
+		panic("bad template")
+	}
 
 	data := buf.Bytes()
 	data = trailingSpaceRE.ReplaceAll(data, nil)
-- 
2.43.0


From 424297480e4f7b724b808e8f2a9fccc039ef99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 18/26] fix: getspdx: reject entries without a license ID or
 template

---
 licenses/getspdx.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 3e7df2a..ca1deda 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -205,6 +205,11 @@ func convert(file string) {
 	}
 
 	id := info.LicenseID
+	if id == "" {
+		log.Printf("%s: no license ID", file)
+		exitStatus = 1
+		return
+	}
 
 	if info.IsDeprecatedLicenseID {
 		if !isAll {
@@ -213,6 +218,12 @@ func convert(file string) {
 		return
 	}
 
+	if info.StandardLicenseTemplate == "" {
+		log.Printf("%s: no license template", file)
+		exitStatus = 1
+		return
+	}
+
 	// println("FILE", info.LicenseID)
 	var buf bytes.Buffer
 	fmt.Fprintf(&buf, "//**\n%s\nhttps://spdx.org/licenses/%s.json\n", info.Name, info.LicenseID)
-- 
2.43.0


From 6c9e3b73739d3b6e9261835cb1cda5d92ec66133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 19/26] fix: Type.Merge kept the bit below Unrestricted, which
 has no meaning

The loop over the exclusive bits ran past Unrestricted to bit 0, so
Type(0x1).Merge(Type(0x1)) was Type(0x1), although the result is
documented as made of the named bits, and other bits are dropped.
---
 license.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/license.go b/license.go
index bc810e1..12e91bf 100644
--- a/license.go
+++ b/license.go
@@ -170,7 +170,7 @@ func (t Type) Merge(u Type) Type {
 	}
 
 	var m Type
-	for bit := ShareServer; bit > 0; bit >>= 1 {
+	for bit := ShareServer; bit >= Unrestricted; bit >>= 1 {
 		if (t|u)&bit != 0 {
 			m |= bit
 			break
-- 
2.43.0


From d8d135f2f9de9328d845241fe14b2dbc944e6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 20/26] fix: scan texts of 2 GiB or more without panicking

Word offsets were kept in an int32, which wraps for offsets of 2 GiB and
more; Scan then sliced the text with a negative bound and panicked.
---
 internal/match/dict.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index 01fa7f9..9454d00 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -70,8 +70,8 @@ func (d *Dict) Words() []string {
 // A Word represents a single word found in a text.
 type Word struct {
 	ID WordID
-	Lo int32 // Word appears at text[Lo:Hi].
-	Hi int32
+	Lo int // Word appears at text[Lo:Hi].
+	Hi int
 }
 
 // InsertSplit splits text into a sequence of lowercase words,
@@ -96,7 +96,7 @@ func (d *Dict) split(text string, insert bool) []Word {
 	t := text
 	for t != "" {
 		var w []byte
-		var lo, hi int32
+		var lo, hi int
 		{
 			switch t[0] {
 			case '<':
@@ -113,8 +113,8 @@ func (d *Dict) split(text string, insert bool) []Word {
 				// Assume HTML entity is punctuation.
 				if size := htmlEntitySize(t); size > 0 {
 					if t[:size] == "&copy;" {
-						lo = int32(len(text) - len(t))
-						hi = lo + int32(size)
+						lo = len(text) - len(t)
+						hi = lo + size
 						w = copyright
 						t = t[size:]
 						goto Emit
@@ -141,7 +141,7 @@ func (d *Dict) split(text string, insert bool) []Word {
 			// (except © which is already a word by itself,
 			// even when it appears next to other text,
 			// like ©1996).
-			lo = int32(len(text) - len(t))
+			lo = len(text) - len(t)
 			if r != '©' {
 				for size < len(t) {
 					r, s := utf8.DecodeRuneInString(t[size:])
@@ -157,7 +157,7 @@ func (d *Dict) split(text string, insert bool) []Word {
 					size += 3
 				}
 			}
-			hi = lo + int32(size)
+			hi = lo + size
 			t = t[size:]
 
 			w = wbuf
-- 
2.43.0


From 16b5793cae3401402871d658cbae6e69207c23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 21/26] fix: old: cover texts of 2 GiB or more without
 panicking

Word offsets were kept in an int32, which wraps for offsets of 2 GiB and
more; a URL in that part made Cover panic on a negative slice bound.
---
 old/license.go   | 2 +-
 old/normalize.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/old/license.go b/old/license.go
index 52acd49..a7a9974 100644
--- a/old/license.go
+++ b/old/license.go
@@ -68,7 +68,7 @@ type license struct {
 type document struct {
 	text    []byte  // Original text.
 	words   []int32 // Normalized words (indexes into c.words)
-	byteOff []int32 // ith byteOff is byte offset of ith word in original text.
+	byteOff []int   // ith byteOff is byte offset of ith word in original text.
 
 	urlOff map[int][2]int // byte offsets of license URLs, by their Match.Start word.
 }
diff --git a/old/normalize.go b/old/normalize.go
index 59dc637..9a4b689 100644
--- a/old/normalize.go
+++ b/old/normalize.go
@@ -42,14 +42,14 @@ func (c *Checker) normalize(data []byte, updateDict bool) *document {
 		pos += wid
 	}
 	words := make([]int32, 0, 100)
-	indexes := make([]int32, 0, 100)
+	indexes := make([]int, 0, 100)
 	// Each iteration adds a word.
 	for pos < len(str) {
 		start := pos
 		const blank = "___" // fill in the blank wildcard
 		if strings.HasPrefix(str[pos:], blank) {
 			words = append(words, blankID)
-			indexes = append(indexes, int32(start))
+			indexes = append(indexes, start)
 			pos += len(blank)
 			continue
 		}
@@ -81,7 +81,7 @@ func (c *Checker) normalize(data []byte, updateDict bool) *document {
 					}
 				}
 				words = append(words, w)
-				indexes = append(indexes, int32(start))
+				indexes = append(indexes, start)
 			}
 		}
 	}
-- 
2.43.0


From b7f659be67df42bc08dabfad40905fa8a644b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:58 +0000
Subject: [PATCH 22/26] fix: let the converters wrap lines that are indented by
 more than 80 columns

---
 licenses/getcc.go   | 3 +++
 licenses/getspdx.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index dccefa7..ba1043f 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -358,6 +358,9 @@ func wrap(buf *bytes.Buffer, text string) {
 			}
 			if j < 0 {
 				j = Target - len(indent)
+				if j < 0 { // indented beyond Target
+					j = 0
+				}
 				for j < len(line) && line[j] != ' ' && line[j] != '\t' {
 					j++
 				}
diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index ca1deda..4a19a56 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -462,6 +462,9 @@ func wrap(buf *bytes.Buffer, text string) {
 			}
 			if j < 0 {
 				j = Target - len(indent)
+				if j < 0 { // indented beyond Target
+					j = 0
+				}
 				for j < len(line) && line[j] != ' ' && line[j] != '\t' {
 					j++
 				}
-- 
2.43.0


From 3320be4380f2b838bd4b47bda71c5837950be33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:13 +0000
Subject: [PATCH 23/26] fix: getspdx counts words of all scripts, so that it
 does not drop optional text it took for punctuation

---
 licenses/getspdx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 4a19a56..14fd118 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -277,7 +277,7 @@ func convert(file string) {
 
 var (
 	trailingSpaceRE = regexp.MustCompile(`(?m)[ \t]+$`)
-	wordRE          = regexp.MustCompile(`[\d\w]+`)
+	wordRE          = regexp.MustCompile(`[_\pL\pN\p{Mn}]+|©`) // in any script, as in LREs
 	blankRE         = regexp.MustCompile(`\n([.," \t]*\n){2,}`)
 )
 
-- 
2.43.0


From 47678078573e6ee6a5722b1f9159ad3214f381e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 24/26] fix: getspdx does not join the words around optional
 text that it leaves out

---
 licenses/getspdx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 14fd118..2135087 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -351,6 +351,9 @@ func templateToLRE(file string, t string) string {
 				// like name((s))??.
 				if len(w) == 0 || len(w) == 1 && w[0] == "s" {
 					buf.Truncate(start)
+					if t[i-1] == ' ' { // skipped above
+						buf.WriteByte(' ')
+					}
 				}
 			case strings.HasPrefix(tag, `<<var;`):
 				name := findAttr(tag, "name")
-- 
2.43.0


From 7687933cd38adf29566bb1035af2af994ca6b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:17 +0000
Subject: [PATCH 25/26] fix: getcc does not join the words on both sides of a
 line break or a table cell

---
 licenses/getcc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index ba1043f..d7263ef 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -232,7 +232,7 @@ func convert(id string) {
 			undoStack = append(undoStack, undo)
 		case xml.EndElement:
 			switch t.Name.Local {
-			case "p", "li", "div":
+			case "p", "li", "div", "br", "hr", "h4", "h5", "h6", "td", "th", "dt", "dd":
 				buf.WriteString("\n")
 			}
 			stack = stack[:len(stack)-1]
-- 
2.43.0


From 639b774bbc0a811688f34eec2a0f3d2d9df13e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:41 +0000
Subject: [PATCH 26/26] fix: gen_data: give licenses whose names differ only in
 punctuation different variables

---
 gen_data.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gen_data.go b/gen_data.go
index 5c1fd66..9d84f47 100644
--- a/gen_data.go
+++ b/gen_data.go
@@ -44,8 +44,16 @@ func main() {
 	code := outputTemplate
 	out := new(bytes.Buffer)
 	builtLRE := buildLRE(filesLRE)
+	vars := make(map[string]string) // license name to variable name
+	used := make(map[string]bool)
 	for _, file := range builtLRE {
-		fmt.Fprintf(out, "\t\t{ID: %q, %s LRE: %v},\n", file.Name, file.Type, varName(file.Name+".lre"))
+		v := varName(file.Name + ".lre")
+		for used[v] { // by a name that differs only in punctuation
+			v += "_"
+		}
+		used[v] = true
+		vars[file.Name] = v
+		fmt.Fprintf(out, "\t\t{ID: %q, %s LRE: %v},\n", file.Name, file.Type, v)
 	}
 	code = strings.Replace(code, "FILES_LIST", out.String(), -1)
 
@@ -54,7 +62,7 @@ func main() {
 		// A raw string literal cannot hold a backquote, and drops carriage returns.
 		data := bytes.ReplaceAll(file.Data, []byte("`"), []byte("` + \"`\" + `"))
 		data = bytes.ReplaceAll(data, []byte("\r"), []byte("` + \"\\r\" + `"))
-		fmt.Fprintf(out, "const %s = `%s`\n", varName(file.Name+".lre"), data)
+		fmt.Fprintf(out, "const %s = `%s`\n", vars[file.Name], data)
 	}
 	code += out.String()
 
-- 
2.43.0

