// Package ref holds the reference models the checks compare the real code with.
//
// It imports nothing from google/licensecheck. Everything here is written from
// the package documentation and the comments in the source, in the most boring
// form available: whole strings, maps and recursion instead of incremental state.
package ref

import (
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"
)

// A Tok is one word of a text.
type Tok struct {
	W      string // canonical word
	Raw    string // folded, but not canonicalized, form of text[Lo:Hi]
	Lo, Hi int
}

// FoldRune is the documented folding: min of the SimpleFold orbit, graves and
// acutes stripped from vowels, combining grave and acute dropped, ( and ) dropped,
// ASCII moved to lower case. It returns "" for a dropped rune.
func FoldRune(r rune) string {
	lo := r
	for o := unicode.SimpleFold(r); o != r; o = unicode.SimpleFold(o) {
		if o < lo {
			lo = o
		}
	}
	if s, ok := foldSpecial[lo]; ok {
		return s
	}
	if 'A' <= lo && lo <= 'Z' {
		lo += 'a' - 'A'
	}
	return string(lo)
}

var foldSpecial = map[rune]string{
	'Á': "a", 'À': "a", 'É': "e", 'È': "e", 'Í': "i", 'Ì': "i", 'Ó': "o", 'Ò': "o", 'Ú': "u", 'Ù': "u",
	0x300: "", 0x301: "", '(': "", ')': "",
}

var foldCache [0x500]string

func init() {
	for r := range foldCache {
		foldCache[r] = FoldRune(rune(r))
	}
}

func foldOne(r rune) string {
	if uint(r) < uint(len(foldCache)) {
		return foldCache[r]
	}
	return FoldRune(r)
}

// Fold folds a whole string.
func Fold(s string) string {
	plain := true
	for i := 0; i < len(s); i++ {
		if c := s[i]; c >= 0x80 || 'A' <= c && c <= 'Z' || c == '(' || c == ')' {
			plain = false
			break
		}
	}
	if plain {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteString(foldOne(r))
	}
	return b.String()
}

// Rewrites are the documented word substitutions.
var Rewrites = map[string]string{
	"are": "is", "them": "it", "they": "it", "these": "the", "this": "the", "those": "the", "copies": "copy",
	"https": "http",
}

// The documented non-text constructs, as anchored regular expressions.
var (
	entityRE = regexp.MustCompile(`^&(?:#x[0-9A-Fa-f]+|#[0-9]+|[A-Za-z]+);`)
	anchorRE = regexp.MustCompile(`^\{#[^} \r\n]*\}`)
	linkRE   = regexp.MustCompile(`^\]\((?:http://|https://|mailto:|file:|#)[^) \t\r\n]*\)`)
	tagRE    = regexp.MustCompile(`^</?[A-Za-z][^<>]*>`)
)

// tag returns the size of the HTML tag at the start of t, or 0.
func tag(t string) int {
	m := tagRE.FindString(t)
	if m == "" {
		return 0
	}
	nl := 0
	for i := 0; i < len(m); i++ {
		switch m[i] {
		case '\n', '\r':
			nl++
		case '@': // <me@example.com>, unless in an attribute
			if !strings.Contains(m[:i], " ") {
				return 0
			}
		case ':': // <http://example.com>, unless in an attribute
			if m[i+1] == '/' && !strings.Contains(m[:i], " ") {
				return 0
			}
		}
	}
	if nl > 2 {
		return 0
	}
	return len(m)
}

func wordStart(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '©' }
func wordCont(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r)
}

// Tokenize splits text into words. A run of adjacent "copyright" words counts once
// if merge is set (that is, if the dictionary in use has the word "copyright").
func Tokenize(text string, merge bool) []Tok {
	toks := make([]Tok, 0, len(text)/4+2)
	add := func(w string, lo, hi int) {
		if merge && w == "copyright" && len(toks) > 0 && toks[len(toks)-1].W == w {
			return
		}
		toks = append(toks, Tok{W: w, Raw: Fold(text[lo:hi]), Lo: lo, Hi: hi})
	}
	for i := 0; i < len(text); {
		t := text[i:]
		n := 0
		switch t[0] {
		case '<':
			n = tag(t)
		case '{':
			n = len(anchorRE.FindString(t))
		case ']':
			n = len(linkRE.FindString(t))
		case '&':
			n = len(entityRE.FindString(t))
			if n > 0 && t[:n] == "&copy;" {
				add("copyright", i, i+n)
			}
		}
		if n > 0 {
			i += n
			continue
		}
		r, n := utf8.DecodeRuneInString(t)
		if !wordStart(r) {
			i += n
			continue
		}
		if r == '©' {
			add("copyright", i, i+n)
			i += n
			continue
		}
		for n < len(t) {
			r, s := utf8.DecodeRuneInString(t[n:])
			if !wordCont(r) {
				break
			}
			n += s
		}
		w := Fold(t[:n])
		if strings.HasPrefix(t[n:], "(s)") {
			w += "s"
			n += 3
		}
		lo, hi := i, i+n
		i += n
		if w == "c" && lo > 0 && text[lo-1] == '(' && hi < len(text) && text[hi] == ')' {
			add("copyright", lo-1, hi+1)
			continue
		}
		if c, ok := Rewrites[w]; ok {
			w = c
		}
		add(w, lo, hi)
	}
	return toks
}
