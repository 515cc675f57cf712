package ref

import (
	"regexp"
	"strings"
)

// A License is one entry of a scanner's list.
type License struct {
	ID   string
	Type uint
	LRE  string
	URL  string
}

// A Match is one entry of a scan result.
type Match struct {
	ID         string
	Type       uint
	Start, End int
	IsURL      bool
}

// A Coverage is a scan result.
type Coverage struct {
	Percent float64
	Match   []Match
}

// A Scanner is the reference scanner.
type Scanner struct {
	M    *Model
	lres []License
	urls map[string]License
}

// NewScanner builds a reference scanner.
func NewScanner(list []License) (*Scanner, error) {
	s := &Scanner{urls: map[string]License{}}
	var pats []string
	for _, l := range list {
		if l.URL != "" {
			s.urls[l.URL] = l
		}
		if l.LRE != "" {
			s.lres = append(s.lres, l)
			pats = append(pats, l.LRE)
		}
	}
	m, err := NewModel(pats, "copyright", "http")
	if err != nil {
		return nil, err
	}
	s.M = m
	return s, nil
}

// LREs returns the entries that have a pattern, in order.
func (s *Scanner) LREs() []License { return s.lres }

var urlRE = regexp.MustCompile(`(?i)^https?://[-a-z0-9_.]+\.(org|com)(/[-a-z0-9_.#?=]+)+/?`)

// LookupURL finds the license a URL written in a text stands for.
func (s *Scanner) LookupURL(u string) (License, bool) {
	u = strings.ToLower(u)
	u = strings.TrimPrefix(strings.TrimPrefix(u, "http://"), "https://")
	u = strings.TrimSuffix(u, "/")
	u = strings.TrimSuffix(u, "/legalcode")
	if l, ok := s.urls[u]; ok {
		return l, true
	}
	if i := strings.LastIndex(u, "/"); i >= 0 {
		l, ok := s.urls[u[:i]]
		return l, ok
	}
	return License{}, false
}

// A Region is one reported match, in words and bytes.
type Region struct {
	Match
	W0, W1  int // words covered
	Core    int // first word of the pattern match itself (Core > W0 after a copyright notice)
	License int // index in LREs
}

// Scan is the reference for Scanner.Scan.
func (s *Scanner) Scan(text string) (cov Coverage, ambiguous bool) {
	toks := Tokenize(text, true)
	spans, amb := s.M.Matches(toks)
	regs := s.Regions(text, toks, spans)
	return Cover(toks, regs), amb
}

// Cover turns regions into a Coverage.
func Cover(toks []Tok, regs []Region) Coverage {
	var cov Coverage
	n := 0
	for _, r := range regs {
		cov.Match = append(cov.Match, r.Match)
		n += r.W1 - r.W0
	}
	if len(toks) > 0 {
		cov.Percent = 100 * float64(n) / float64(len(toks))
	}
	return cov
}

// Regions extends pattern matches over copyright notices and to line boundaries,
// and adds the license URLs found between them.
func (s *Scanner) Regions(text string, toks []Tok, spans []Span) []Region {
	var out []Region
	prev := 0 // first word after the previous match
	for _, sp := range spans {
		core := sp.Start
		start := core
		// Take in the earliest "copyright" among the 50 words before.
		for i := max(prev, core-50); i < core; i++ {
			if toks[i].W == "copyright" {
				start = i
				break
			}
		}
		out = s.addURLs(out, text, toks, prev, start)
		lo := toks[start].Lo
		if start == 0 {
			lo = 0
		} else if gap := text[toks[start-1].Hi:lo]; strings.Contains(gap, "\n") {
			lo = toks[start-1].Hi + strings.LastIndex(gap, "\n") + 1
		}
		hi := toks[sp.End-1].Hi
		if sp.End == len(toks) {
			hi = len(text)
		} else if gap := text[hi:toks[sp.End].Lo]; strings.Contains(gap, "\n") {
			hi += strings.Index(gap, "\n") + 1
		}
		l := s.lres[sp.ID]
		out = append(out, Region{Match: Match{l.ID, l.Type, lo, hi, false}, W0: start, W1: sp.End, Core: core, License: sp.ID})
		prev = sp.End
	}
	return s.addURLs(out, text, toks, prev, len(toks))
}

// addURLs appends the URLs that start in words [i, j) and end before word j.
func (s *Scanner) addURLs(out []Region, text string, toks []Tok, i, j int) []Region {
	for i < j {
		if toks[i].W != "http" {
			i++
			continue
		}
		u := urlRE.FindString(text[toks[i].Lo:])
		end := toks[i].Lo + len(u)
		if u == "" || j < len(toks) && end > toks[j].Lo {
			i++
			continue
		}
		l, ok := s.LookupURL(u)
		if !ok {
			i++
			continue
		}
		r := Region{Match: Match{l.ID, l.Type, toks[i].Lo, end, true}, W0: i, License: -1}
		for i < j && toks[i].Hi <= end {
			i++
		}
		r.W1 = i
		out = append(out, r)
	}
	return out
}

// Clone returns an equal scanner for use by another goroutine.
func (s *Scanner) Clone() *Scanner {
	c := *s
	c.M = s.M.Clone()
	return &c
}
