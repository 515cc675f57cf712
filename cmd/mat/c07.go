package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// splitCheck compares Split and InsertSplit with the reference on one text.
type splitter struct {
	known  *match.Dict // holds every canonical word below, and copyright
	fresh  *match.Dict
	nfresh int
}

var knownWords = []string{"a", "b", "ab", "as", "c", "copyright", "http", "is", "it", "the", "copy", "notice", "notices", "e", "1", "x", "amp", "s", "i", "o", "u", "ss"}

func newSplitter() *splitter {
	s := &splitter{known: new(match.Dict), fresh: new(match.Dict)}
	for _, w := range knownWords {
		s.known.Insert(w)
	}
	s.fresh.Insert("copyright")
	return s
}

func quoteTest(text string) string {
	return fmt.Sprintf(`package match

import "testing"

func TestReplay(t *testing.T) {
	const text = %q
	d := new(Dict)
	d.Insert("copyright")
	for _, w := range d.InsertSplit(text) {
		t.Logf("%%q %%q", d.Words()[w.ID], text[w.Lo:w.Hi])
	}
}
`, text)
}

// check returns the number of words.
func (s *splitter) check(w *eng.Worker, text string) int {
	want := ref.Tokenize(text, true)
	bad := func(what string, d *match.Dict, got []match.Word) {
		var l, r []string
		for _, g := range got {
			l = append(l, fmt.Sprintf("%q[%d:%d]", wordOf(d, g.ID), g.Lo, g.Hi))
		}
		for _, g := range want {
			r = append(r, fmt.Sprintf("%q[%d:%d]", g.W, g.Lo, g.Hi))
		}
		w.Fail(fmt.Sprintf("%q", text), quoteTest(text), "%s of %q = %v, want %v", what, text, l, r)
	}
	w.Evals++
	got := s.known.Split(text)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		id := s.known.Lookup(want[i].W)
		ok = got[i].ID == id && int(got[i].Lo) == want[i].Lo && int(got[i].Hi) == want[i].Hi
	}
	if !ok {
		bad("Split", s.known, got)
	}
	if len(s.known.Words()) != len(knownWords) {
		w.Fail(fmt.Sprintf("%q", text), "", "Split(%q) changed the dictionary", text)
	}
	if s.nfresh++; s.nfresh%4096 == 0 {
		s.fresh = new(match.Dict) // keep it small
		s.fresh.Insert("copyright")
	}
	got = s.fresh.InsertSplit(text)
	ok = len(got) == len(want)
	words := s.fresh.Words()
	for i := 0; ok && i < len(got); i++ {
		ok = got[i].ID >= 0 && int(got[i].ID) < len(words) && words[got[i].ID] == want[i].W && int(got[i].Lo) == want[i].Lo && int(got[i].Hi) == want[i].Hi
	}
	if !ok {
		bad("InsertSplit", s.fresh, got)
	}
	prev := 0
	for _, g := range got {
		if int(g.Lo) < prev || g.Hi <= g.Lo || int(g.Hi) > len(text) {
			bad("order of ranges in InsertSplit", s.fresh, got)
		}
		prev = int(g.Hi)
	}
	if len(want) > 0 {
		w.Nontrivial++
	}
	return len(want)
}

func wordOf(d *match.Dict, id match.WordID) string {
	if id >= 0 && int(id) < len(d.Words()) {
		return d.Words()[id]
	}
	return "?"
}

// alphabets are the parts of each special construct.
var alphabets = []struct {
	name  string
	atoms []string
	n, nt int // depth with and without more text around; thorough goes one deeper
}{
	{"tags", []string{"<", ">", "/", "a", "@", ":", " ", "\n", "\r"}, 7, 8},
	{"tags_bytes", []string{"<a", "</", "<", ">", "Z", "0", "!", "-", "\"", "=", "\n", "://", "@", " ", "é"}, 5, 6},
	{"entities", []string{"&", "#", "x", "X", ";", "a", "0", "F", "g", " "}, 6, 7},
	{"copy_entity", []string{"&", "copy", "COPY", ";", "&copy;", "©", "a", " ", "&amp;", "c"}, 5, 6},
	{"anchors", []string{"{", "#", "{#", "}", "a", " ", "\n", "\r", "\t"}, 6, 7},
	{"links", []string{"]", "(", "](", "http://", "https://", "mailto:", "file:", "#", ")", "a", " ", "\n", "[", "http:/", "!"}, 5, 6},
	{"formats", formats, 3, 3},
	{"copyright", []string{"(", ")", "c", "C", "©", "&copy;", "copyright", "Copyright", "s", " ", "\n", "a", "(c)", "(s)"}, 5, 6},
	{"plural", []string{"(s)", "(S)", "(s", "s)", "(", ")", "s", "notice", "a", "c", " ", "-"}, 5, 6},
	{"rewrites", []string{"are", "them", "they", "these", "this", "those", "copies", "https", "Https", "thISs", " ", "s", "(s)", "'"}, 4, 5},
	{"folding", []string{"é", "É", "e\u0301", "E\u0300", "\u0301", "\u0300", "à", "Ù", "ſ", "K", "ß", "ẞ", "İ", "ı", "a", "9", "٣", "Ǆ", "ǅ", " ", "\u0302", "ö", "\xc3", "\xa9"}, 4, 5},
	{"markup", []string{"<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "&lt;", "&gt;", "&nbsp;", "&#169;", "&#xA9;", "&COPY;", "&Copy;", "&copy", "a", " ", "<", ">", "\n"}, 4, 5},
	{"comments", []string{"/*", "*/", "//", "#", "--", "%", "\"", "@c", ";;", "\\", "`", "a", "-\n", "\n", " ", "(c)", "_", "*", "|"}, 4, 5},
	{"signs", []string{"(c )", "( c)", "[c]", "{c}", "(c.)", "(C)(R)", "(r)", "®", "™", "℗", "ⓒ", "Ⓒ", "\\(c\\)", "(с)", "c", "©", "copr.", "copyrighted", "copyrights", "copyright", " ", "(copyright)", "(s)"}, 4, 4},
	{"mixed", []string{"<", ">", "{#", "}", "](#", ")", "&", ";", "(c)", "a", " ", "é", "\n", "\xff", "/"}, 5, 6},
}

func init() {
	reg(&eng.Check{ID: "C07", Level: "exploration",
		Rule:        "every Unicode code point in 16 contexts, every text of one to three bytes, and all strings of bounded length over 14 alphabets made of the parts of the documented constructs; words, canonical spellings and ranges of Split and InsertSplit compared with a reference tokenizer; non-trivial: the text has a word",
		Assumptions: []string{"The reference uses the Unicode tables of the Go release in use, as the code does."},
		Run:         runC07})
}

func runC07(c *eng.Ctx) {
	const step = 1 << 10
	ctx := []string{"%s", "a%sb", "a %s b", "%sa", "a%s", "%s%s", "(%s)", "<%s>", "&%s;", "A%sé", "%s(s)", "a%s(s)", "{#%s}", "](#%s)", "<a %s>", "© %s ©", "c%s", "(c%s)", "&#%s;", "htt%sp", "the%s"}
	c.Space("runes", (unicode.MaxRune+1)/step, fmt.Sprintf("all code points (surrogates as encoded by Go) × %d contexts", len(ctx)), func(w *eng.Worker, i int) {
		s := newSplitter()
		for r := rune(i * step); r < rune(i+1)*step; r++ {
			for k, f := range ctx {
				// The rarer contexts only below U+3000 in the quick tier.
				if k >= 12 && r >= 0x3000 && !c.Thorough {
					break
				}
				s.check(w, strings.ReplaceAll(f, "%s", string(r)))
			}
		}
	})
	c.Space("words_upper", len(ref.Rewrites)+6, "documented synonyms and copyright forms in every combination of upper and lower case (up to 9 letters), alone, doubled and in context", func(w *eng.Worker, i int) {
		var l []string
		for x := range ref.Rewrites {
			l = append(l, x)
		}
		l = append(l, "copyright", "copy", "http", "the", "c", "(c)")
		sortStrings(l)
		s := newSplitter()
		x := l[i]
		for m := 0; m < 1<<uint(len(x)); m++ {
			b := []byte(x)
			for k := range b {
				if m>>uint(k)&1 != 0 && 'a' <= b[k] && b[k] <= 'z' {
					b[k] -= 32
				}
			}
			t := string(b)
			for _, f := range []string{"%", "% %", "a % b", "%s", "%(s)", "(%)", "%,% (c) %", "<%>", "&%;", "a%", "%\u0301", "© %"} {
				s.check(w, strings.ReplaceAll(f, "%", t))
			}
		}
	})
	// Only the five documented ways to begin a link target hide it.
	targets := []string{"http://", "https://", "mailto:", "file:", "#"}
	schemes := []string{"http:", "http:/", "https:/", "http//", "https", "mailto", "mail:", "file", "file/", "file://", "File:", "ftp://", "ftps://", "tel:", "data:", "git:", "git://", "ssh://", "news:", "javascript:", "urn:", "cid:", "about:", "www.", "//", "/", "./", "../", "?", "x.html", "x#y", "##", "<http://", "<#", "@", "\\#", "%23", "&#35;", "&", "!", " #", "\t#", "\n#", "\r#", "-", "*", "©", "é", "(#", "[", "]", "((", "1", "a", "httpx://", "xhttp://", "file :", "mailto :", "http ://", "h", "ht", ""}
	nt := len(targets)
	c.Space("link_targets", nt+len(schemes), fmt.Sprintf("the %d prefixes that hide a link target in every combination of upper and lower case, cut and extended, and %d others, each with 9 endings in 8 contexts", nt, len(schemes)), func(w *eng.Worker, i int) {
		s := newSplitter()
		f := func(x string) {
			for _, end := range []string{")", "a)", "a.b/c#d)", "a b)", "a", ") b)", "(a))", "\n)", "é@x:y)"} {
				for _, ctx := range []string{"%", "[a%", "[a% b", "a % b", "%%", "<a>%</a>", "{#%}", "[%"} {
					s.check(w, strings.ReplaceAll(ctx, "%", "]("+x+end))
				}
				s.check(w, "] ("+x+end+" b")
				s.check(w, "]\n("+x+end+" b")
				s.check(w, "]["+x+end+" b")
				s.check(w, "("+x+end+" b")
			}
		}
		if i >= nt {
			f(schemes[i-nt])
			return
		}
		x := targets[i]
		for m := 0; m < 1<<uint(len(x)); m++ {
			b := []byte(x)
			low := false
			for k := range b {
				if m>>uint(k)&1 != 0 {
					if b[k] < 'a' || b[k] > 'z' {
						low = true
						break
					}
					b[k] -= 32
				}
			}
			if !low {
				f(string(b))
			}
		}
		for k := 0; k <= len(x); k++ {
			f(x[:k])
			f(x[:k] + "a" + x[k:])
			f(x[:k] + " " + x[k:])
			if k < len(x) {
				f(x[:k] + x[k+1:])
				f(x[:k] + x[k:k+1] + x[k:])
			}
		}
	})
	c.Space("bytes2", 256, "all texts of one and two bytes, alone and between letters", func(w *eng.Worker, i int) {
		s := newSplitter()
		s.check(w, string([]byte{byte(i)}))
		for j := 0; j < 256; j++ {
			t := string([]byte{byte(i), byte(j)})
			s.check(w, t)
			s.check(w, "a"+t+"b")
			s.check(w, "<a"+t+">b")
			s.check(w, "a (c"+t)
		}
	})
	if c.Thorough {
		c.Space("bytes3", 65536, "all texts of three bytes", func(w *eng.Worker, i int) {
			s := newSplitter()
			for j := 0; j < 256; j++ {
				s.check(w, string([]byte{byte(i), byte(i >> 8), byte(j)}))
			}
		})
	}
	for _, a := range alphabets {
		n := a.nt
		if c.Thorough {
			n++
		}
		for k := 0; k <= n; k++ {
			k := k
			a := a
			c.Space(fmt.Sprintf("%s_%d", a.name, k), groups(a.atoms, k), fmt.Sprintf("all strings of %d atoms from %q, alone, and (up to length %d) between words", k, a.atoms, a.n-2), func(w *eng.Worker, i int) {
				s := newSplitter()
				strs(a.atoms, k, i, func(t string) {
					s.check(w, t)
					if k <= a.n-2 {
						s.check(w, "a"+t+"b")
						s.check(w, t+" <a> (c) x")
						s.check(w, "<i>"+t+"</i>")
					}
				})
				if w.WantSample() && i == groups(a.atoms, k)/2 {
					strs(a.atoms, k, i, func(t string) {
						if len(t) == 0 || !w.WantSample() {
							return
						}
						w.Sample(map[string]interface{}{"space": a.name, "text": fmt.Sprintf("%q", t), "words": fmt.Sprint(ref.Tokenize(t, true))})
					})
				}
			})
		}
	}
	spaceVocabulary(c)
	// Long constructs: there is no documented limit to any of them.
	var lens []int
	for n := 0; n <= 80; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537)
	c.Space("long", len(lens), "each construct with a body of n characters, n in 0..80 and around powers of two up to 65536", func(w *eng.Worker, i int) {
		n := lens[i]
		s := newSplitter()
		for _, f := range []string{"<a%>b", "<%", "<a %>b", "</a%>", "<a%@x>b", "<a %@x>b", "{#%}b", "{#%", "](#%)b", "](http://%)b", "](mailto:%", "&%;b", "&#%;b", "&#x%;", "&%", "%(s) b", "%(s)(s)", "(c)%(c)", "a%b", "©%©"} {
			for _, body := range []string{"x", "7", " ", "é", "\n", "<", "(", "x "} {
				s.check(w, strings.ReplaceAll(f, "%", strings.Repeat(body, n)))
			}
		}
	})
	c.Space("tag_newlines", 6, "tags with 0..5 line breaks (\\n, \\r, \\r\\n) at every position", func(w *eng.Worker, i int) {
		s := newSplitter()
		base := "<a b=\"c\" d>"
		var rec func(t string, from, left int)
		rec = func(t string, from, left int) {
			if left == 0 {
				s.check(w, "x"+t+"y")
				return
			}
			for p := from; p <= len(t); p++ {
				for _, nl := range []string{"\n", "\r", "\r\n"} {
					rec(t[:p]+nl+t[p:], p+len(nl), left-1)
				}
			}
		}
		rec(base, 0, min(i, 4))
	})
}

// Spellings that are often taken to be the same word (the SPDX list and others).
// The documentation lists the only ones that are.
const variants = "acknowledgement acknowledgment analogue analog analyse analyze artefact artifact authorisation authorization authorise authorize authorised authorized calibre caliber cancelled canceled capitalisations capitalizations catalogue catalog categorise categorize centre center emphasised emphasized favour favor favourite favorite fulfil fulfill fulfilment fulfillment initialise initialize judgement judgment labelling labeling labour labor licence license licences licenses licenced licensed licencing licensing licencee licensee licencees licensees licencor licensor licencors licensors licencable licensable licenceable licenseable licencer licenser maximise maximize modelled modeled modelling modeling offence offense optimise optimize organisation organization organise organize practise practice programme program programmes programs realise realize recognise recognize signalling signaling sublicence sublicense sublicences sublicenses sublicenced sublicensed sublicencing sublicensing sublicencee sublicensee sublicencor sublicensor sublicensable sublicencable utilisation utilization utilise utilize whilst while wilful willful noncommercial noncommercially commercial percent owner holder owners holders http https ftp httpd www copyright copyrights copyrighted copyleft copr copyrightable colour color colours behaviour behavior honour honor defence defense defences defenses cheque check grey gray disc disk theatre theater metre meter tyre tire travelled traveled cannot dont wont isnt hasnt its it's any all each every or and nor shall will must may might can could should would this that these those they them are is was were be been copies copy copyists copying source sources binary binaries form forms notice notices list lists condition conditions disclaimer disclaimers contributor contributors author authors holder's owner's warranty warranties merchantability damages damage liable liability software softwares document documents documentation documentations file files law laws right rights reserved version versions year years name names ampersand amp lt gt quot nbsp copy reg trade s c r tm inc corp ltd llc co gmbh incorporated corporation limited company foundation he she his her one two first second i ii iii iv v vi 1 2 3 4 1st 2nd email mail e-mail website web site url uri href"

func spaceVocabulary(c *eng.Ctx) {
	seen := map[string]bool{}
	var words []string
	add := func(text string) {
		for _, x := range strings.FieldsFunc(text, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) }) {
			x = strings.ToLower(x)
			if len(x) <= 30 && !seen[x] {
				seen[x] = true
				words = append(words, x)
			}
		}
	}
	add(variants)
	nv := len(words)
	for _, dir := range []string{"licenses/*", "testdata/*", "old/data/*", "README.md", "*.go", "internal/match/*.go"} {
		files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_REPO"), dir))
		for _, f := range files {
			data, _ := os.ReadFile(f)
			add(string(data))
		}
	}
	sortStrings(words[nv:])
	subs := [][2]string{{"c", "s"}, {"s", "c"}, {"s", "z"}, {"z", "s"}, {"our", "or"}, {"or", "our"}, {"re", "er"}, {"er", "re"}, {"mme", "m"}, {"gue", "g"}, {"ll", "l"}, {"l", "ll"}, {"ae", "e"}, {"oe", "e"}, {"e", ""}, {"", "e"}, {"ph", "f"}, {"k", "c"}, {"c", "k"}, {"gement", "gment"}, {"or", "er"}, {"er", "or"}, {"y", "ies"}, {"and", "n"}, {"m", "n"}, {"0", "o"}, {"1", "l"}}
	sfx := []string{"s", "es", "d", "ed", "r", "er", "or", "ee", "ees", "ors", "ing", "able", "ment", "al", "ly", "ally", "ies", "ist", "ists", "'s", "s'", "n", "ion", "-", ".", "e", "(s)", "(es)", "t", "ship", "y"}
	pre := []string{"sub", "re", "non", "un", "in", "co", "pre", "s", "e", "e-", "multi", "anti", "dual"}
	const per = 16
	c.Space("vocabulary", (len(words)+per-1)/per, fmt.Sprintf("%d words of the repository's licenses and documents and of lists of spelling variants × %d letter changes at each place, %d suffixes and %d prefixes, capitalised, doubled and next to each other", len(words), len(subs), len(sfx), len(pre)), func(w *eng.Worker, i int) {
		s := newSplitter()
		do := func(x string) {
			s.check(w, x+" "+strings.ToUpper(x)+" x"+x+" "+x+"x "+strings.Title(x)+"("+x+")")
		}
		for k := i * per; k < (i+1)*per && k < len(words); k++ {
			x := words[k]
			do(x)
			if k > 0 {
				do(words[k-1] + " " + x)
				do(words[k-1] + x)
			}
			for _, f := range sfx {
				do(x + f)
				do(strings.TrimSuffix(x, "e") + f)
			}
			for _, f := range pre {
				do(f + x)
			}
			for _, f := range subs {
				for p := 0; p+len(f[0]) <= len(x); p++ {
					if x[p:p+len(f[0])] != f[0] || f[0] == "" && p < len(x)-1 {
						continue
					}
					if f[0] == "" {
						p++
					}
					y := x[:p] + f[1] + x[p+len(f[0]):]
					do(y)
					if k < nv {
						for _, g := range sfx {
							do(y + g)
							do(strings.TrimSuffix(y, "e") + g)
						}
						for _, g := range pre {
							do(g + y)
						}
					}
					if f[0] == "" {
						break
					}
				}
			}
		}
	})
}
