package ref

import (
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// The reference for the old package: the documented heuristics over plain word lists.

// An OldWord is one word of a text, in lower case; "___" is the blank.
type OldWord struct {
	W      string
	Lo, Hi int
}

const oldBlank = "___"

var oldMarkers = map[string]bool{}

func init() {
	for _, m := range strings.Fields("a b c d e f g h i j k l m n o p q r ii iii iv vi vii viii ix xi xii xiii xiv xv") {
		oldMarkers[m] = true
	}
}

var oldEscapes = []struct{ from, to string }{{"&ldquo;", "   \"   "}, {"&rdquo;", "   \"   "}, {"&amp;", "  &  "}}

// OldLower lowers the case rune by rune where that keeps the rune's size.
func OldLower(text string) string {
	var b strings.Builder
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		if r == utf8.RuneError && n == 1 {
			b.WriteByte('?')
		} else if l := string(unicode.ToLower(r)); len(l) == n {
			b.WriteString(l)
		} else {
			b.WriteString(text[i : i+n])
		}
		i += n
	}
	return b.String()
}

// OldWords splits a text into its words: runs of letters, in lower case, without list markers.
func OldWords(text string) []OldWord {
	s := OldLower(text)
	// Escapes do not overlap, so that the order of replacement does not matter.
	for _, e := range oldEscapes {
		s = strings.ReplaceAll(s, e.from, e.to)
	}
	var out []OldWord
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], oldBlank) {
			out = append(out, OldWord{oldBlank, i, i + 3})
			i += 3
			continue
		}
		j := i
		for j < len(s) {
			r, n := utf8.DecodeRuneInString(s[j:])
			if !unicode.IsLetter(r) {
				break
			}
			j += n
		}
		if j == i {
			_, n := utf8.DecodeRuneInString(s[i:])
			i += n
			continue
		}
		marker := oldMarkers[s[i:j]] && j < len(s) && strings.IndexByte(".:)", s[j]) >= 0
		if !marker {
			out = append(out, OldWord{s[i:j], i, j})
		}
		i = j
	}
	return out
}

// OldLicense is an entry of an old checker's list.
type OldLicense struct{ Name, Text, URL string }

// OldOptions mirror Options.
type OldOptions struct{ MinLength, Threshold, Slop int }

func (o OldOptions) fill() OldOptions {
	if o.MinLength <= 0 {
		o.MinLength = 10
	}
	if o.Threshold <= 0 {
		o.Threshold = 40
	}
	if o.Slop <= 0 {
		o.Slop = 8
	}
	return o
}

// An OldMatch is a match of the old checker.
type OldMatch struct {
	Name       string
	Percent    float64
	Start, End int // bytes
	IsURL      bool
	w0, w1     int // words
}

// OldChecker is the reference checker.
type OldChecker struct {
	lics []oldLic
	urls map[string]string
}

type oldLic struct {
	name  string
	words []string
}

// NewOld builds a reference checker.
func NewOld(list []OldLicense) *OldChecker {
	c := &OldChecker{urls: map[string]string{}}
	for _, l := range list {
		if l.Text != "" {
			ol := oldLic{name: l.Name}
			for _, w := range OldWords(l.Text) {
				ol.words = append(ol.words, w.W)
			}
			c.lics = append(c.lics, ol)
		}
		if l.URL != "" {
			c.urls[l.URL] = l.Name
		}
	}
	return c
}

// run is a run of text words [w0, w1) credited to a license.
type oldRun struct {
	lic, w0, w1 int
	licEnd      int
	matched     int
}

// runs finds the runs shared with each license and joins those that are close.
// Licenses do not affect each other here.
func (c *OldChecker) runs(text []string, o OldOptions) []oldRun {
	var out []oldRun
	for li := range c.lics {
		out = append(out, c.lics[li].runs(li, text, o)...)
	}
	return out
}

func common(a, b []string) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func (l *oldLic) runs(li int, text []string, o OldOptions) []oldRun {
	var out []oldRun
	for k := 0; k+2 <= len(text); k++ {
		var last *oldRun
		if len(out) > 0 {
			last = &out[len(out)-1]
			if k < last.w1 {
				continue
			}
		}
		// The longest run shared by text[k:] and any place of the license; the first such place.
		best, at := 0, 0
		for s := range l.words {
			if n := common(text[k:], l.words[s:]); n >= 2 && n > best {
				best, at = n, s
			}
		}
		if best < 2 || best < o.MinLength {
			continue
		}
		start, end := k, k+best
		if last != nil && at >= last.licEnd {
			// A gap in the text of at most Slop words, or 70 where the license has a blank.
			blank := last.licEnd < len(l.words) && l.words[last.licEnd] == oldBlank
			gap := o.Slop
			if blank {
				gap = 70
			}
			if start <= last.w1+gap {
				if blank && at > last.licEnd {
					last.matched++
				}
				last.matched += best
				last.w1 = end
				last.licEnd = at + best
				continue
			}
		}
		// Words before a blank right before the run may be up to 70 words back.
		floor := 0
		if last != nil {
			floor = last.w1
		}
		for at >= 2 && l.words[at-1] == oldBlank && l.words[at-2] != oldBlank {
			i := start - 1
			for i >= floor && i >= start-70 && text[i] != l.words[at-2] {
				i--
			}
			if i < floor || i < start-70 {
				break
			}
			start = i
			at -= 2
			best += 2
			for start > 0 && at > 0 && text[start-1] == l.words[at-1] {
				start--
				at--
				best++
			}
		}
		out = append(out, oldRun{li, start, end, at + best, best})
	}
	return out
}

var oldURLRE = regexp.MustCompile(`(?i)https?://([-a-z0-9_.]+)+(\.org|com)(/[-a-z0-9_.#?=]+)+/?`)

func (c *OldChecker) url(u string) (string, bool) {
	u = strings.ToLower(u)
	u = strings.TrimPrefix(strings.TrimPrefix(u, "http://"), "https://")
	u = strings.TrimSuffix(u, "/")
	u = strings.TrimSuffix(u, "/legalcode")
	if n, ok := c.urls[u]; ok {
		return n, true
	}
	if i := strings.LastIndex(u, "/"); i >= 0 {
		n, ok := c.urls[u[:i]]
		return n, ok
	}
	return "", false
}

// Cover is the reference for Checker.Cover. tie reports that two candidates with the
// same name start at the same word, whose order is not specified.
func (c *OldChecker) Cover(text string, opts OldOptions) (percent float64, list []OldMatch, tie bool) {
	o := opts.fill()
	words := OldWords(text)
	ws := make([]string, len(words))
	for i := range words {
		ws[i] = words[i].W
	}
	var cand []OldMatch
	for _, r := range c.runs(ws, o) {
		l := &c.lics[r.lic]
		cand = append(cand, OldMatch{Name: l.name, Percent: 100 * float64(r.matched) / float64(len(l.words)), w0: r.w0, w1: r.w1})
	}
	less := func(a, b OldMatch) bool { return a.w0 < b.w0 || a.w0 == b.w0 && a.Name < b.Name }
	sort.SliceStable(cand, func(i, j int) bool { return less(cand[i], cand[j]) })
	for i := 0; i+1 < len(cand); i++ {
		tie = tie || cand[i].w0 == cand[i+1].w0 && cand[i].Name == cand[i+1].Name
	}
	// Winnow: below the threshold, then each overlapping pair in order.
	dead := make([]bool, len(cand))
	for i := range cand {
		dead[i] = cand[i].Percent < float64(o.Threshold)
	}
	weight := func(m OldMatch) float64 { return m.Percent * float64(m.w1-m.w0) }
	for i := range cand {
		if dead[i] {
			continue
		}
		for j := range cand {
			if j == i || dead[j] || cand[i].w0 >= cand[j].w1 || cand[j].w0 >= cand[i].w1 {
				continue
			}
			if weight(cand[i]) > weight(cand[j]) {
				dead[j] = true
			} else {
				dead[i] = true
			}
		}
	}
	for i := range cand {
		if dead[i] {
			continue
		}
		m := cand[i]
		m.Start, m.End = words[m.w0].Lo, words[m.w1-1].Hi
		if words[m.w1-1].W == oldBlank {
			m.End = words[m.w1-1].Lo
		}
		if m.w0 == 0 {
			m.Start = 0
		}
		if m.w1 == len(words) {
			m.End = len(text)
		}
		list = append(list, m)
	}
	// URLs between matches: the gap runs from its first word to the next match.
	word := func(off int) int {
		return sort.Search(len(words), func(i int) bool { return words[i].Lo >= off })
	}
	var urls []OldMatch
	for i := 0; i <= len(list); i++ {
		w0, w1 := 0, len(words)
		if i > 0 {
			w0 = list[i-1].w1
		}
		end := len(text)
		if i < len(list) {
			w1 = list[i].w0
			if w1 < len(words) {
				end = words[w1].Lo
			}
		}
		if w1-w0 < 3 {
			continue
		}
		lo := words[w0].Lo
		for _, u := range oldURLRE.FindAllStringIndex(text[lo:end], -1) {
			a, b := lo+u[0], lo+u[1]
			if n, ok := c.url(text[a:b]); ok {
				urls = append(urls, OldMatch{Name: n, Percent: 100, Start: a, End: b, IsURL: true, w0: word(a), w1: word(b)})
			}
		}
	}
	list = append(list, urls...)
	sort.SliceStable(list, func(i, j int) bool { return less(list[i], list[j]) })
	// Percent: a URL stands for the gap it is in; neighbours share a gap half and half.
	n := 0
	for i, m := range list {
		a, b := m.w0, m.w1
		if m.IsURL {
			a, b = 0, len(words)
			if i > 0 {
				a = list[i-1].w1
				if list[i-1].IsURL {
					a = (m.w0 + list[i-1].w1) / 2
				}
			}
			if i+1 < len(list) {
				b = list[i+1].w0
				if list[i+1].IsURL {
					b = (m.w1 + list[i+1].w0) / 2
				}
			}
		}
		n += b - a
	}
	if len(words) > 0 {
		percent = 100 * float64(n) / float64(len(words))
	}
	return percent, list, tie
}

// OldRunsOnly reports the matches before winnowing, for the counters.
func (c *OldChecker) Runs(text string, opts OldOptions) int {
	var ws []string
	for _, w := range OldWords(text) {
		ws = append(ws, w.W)
	}
	return len(c.runs(ws, opts.fill()))
}
