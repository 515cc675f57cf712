package ref

import (
	"fmt"
	"strconv"
	"strings"
)

// Op is the kind of an LRE syntax node.
type Op int

const (
	Empty Op = iota
	Words
	Concat
	Alt
	Wild
	Quest
)

// A Node is an LRE syntax tree.
type Node struct {
	Op   Op
	Subs []*Node
	W    []string
	N    int
}

// String prints the tree in a compact one-line form.
func (n *Node) String() string {
	switch n.Op {
	case Empty:
		return "ε"
	case Words:
		return strings.Join(n.W, " ")
	case Wild:
		return fmt.Sprintf("__%d__", n.N)
	case Quest:
		return "(" + n.Subs[0].String() + ")?"
	}
	sep := " "
	if n.Op == Alt {
		sep = "|"
	}
	var l []string
	for _, s := range n.Subs {
		l = append(l, s.String())
	}
	return "(" + strings.Join(l, sep) + ")"
}

// Source prints the tree as LRE source text, obeying the line rules.
func (n *Node) Source() string {
	var b strings.Builder
	n.source(&b)
	return b.String()
}

func (n *Node) source(b *strings.Builder) {
	nl := func() {
		if s := b.String(); s != "" && s[len(s)-1] != '\n' {
			b.WriteByte('\n')
		}
	}
	sp := func() {
		if s := b.String(); s != "" && s[len(s)-1] != '\n' && s[len(s)-1] != ' ' {
			b.WriteByte(' ')
		}
	}
	switch n.Op {
	case Empty:
		nl()
		b.WriteString("(( ))\n")
	case Words:
		sp()
		b.WriteString(strings.Join(n.W, " "))
	case Wild:
		sp()
		fmt.Fprintf(b, "__%d__", n.N)
	case Concat:
		for _, s := range n.Subs {
			if s.Op == Concat {
				nl()
				b.WriteString("((")
				s.source(b)
				b.WriteString("))\n")
				continue
			}
			s.source(b)
		}
	case Alt:
		nl()
		b.WriteString("((")
		for i, s := range n.Subs {
			if i > 0 {
				b.WriteString(" || ")
			}
			s.inner(b)
		}
		b.WriteString("))\n")
	case Quest:
		nl()
		b.WriteString("((")
		n.Subs[0].inner(b)
		b.WriteString("))??\n")
	}
}

// inner prints n as an operand inside a group.
func (n *Node) inner(b *strings.Builder) {
	var c strings.Builder
	n.source(&c)
	s := c.String()
	if strings.HasPrefix(s, "((") {
		b.WriteByte('\n')
	}
	b.WriteString(s)
}

// SyntaxErr says why a pattern is not an LRE.
type SyntaxErr struct{ Msg string }

func (e *SyntaxErr) Error() string { return e.Msg }

func errf(f string, a ...interface{}) error { return &SyntaxErr{fmt.Sprintf(f, a...)} }

type lexTok struct {
	kind string // "((", "||", "))", "??", "__", "text"
	text string
	n    int
	pos  int
}

// lex splits a pattern into operators and text, applying the line rules.
// Comments end a text run, so that words never join across them.
func lex(s string) ([]lexTok, error) {
	var out []lexTok
	start := 0
	depth := 0
	flush := func(i int) {
		if i > start {
			out = append(out, lexTok{kind: "text", text: s[start:i], pos: start})
		}
	}
	lineBefore := func(i int) string { // text before i on its line
		return s[strings.LastIndexByte(s[:i], '\n')+1 : i]
	}
	lineAfter := func(i int) string {
		if j := strings.IndexByte(s[i:], '\n'); j >= 0 {
			return s[i : i+j]
		}
		return s[i:]
	}
	i := 0
	for i < len(s) {
		two := s[i:min(i+2, len(s))]
		switch two {
		case "((":
			if strings.Trim(lineBefore(i), " \t") != "" {
				return nil, errf("%d: (( not at beginning of line", i)
			}
			flush(i)
			out = append(out, lexTok{kind: two, pos: i})
			depth++
		case "||":
			if depth <= 0 {
				return nil, errf("%d: || outside (( ))", i)
			}
			flush(i)
			out = append(out, lexTok{kind: two, pos: i})
		case "))":
			rest := strings.TrimLeft(lineAfter(i+2), " \t")
			if rest != "" && !strings.HasPrefix(rest, "??") {
				return nil, errf("%d: )) not at end of line", i)
			}
			flush(i)
			if depth <= 0 {
				return nil, errf("%d: unexpected ))", i)
			}
			depth--
			out = append(out, lexTok{kind: two, pos: i})
		case "??":
			if !strings.HasSuffix(strings.TrimRight(lineBefore(i), " \t"), "))") {
				return nil, errf("%d: ?? not preceded by ))", i)
			}
			if strings.Trim(lineAfter(i+2), " \t\r") != "" {
				return nil, errf("%d: ?? not at end of line", i)
			}
			flush(i)
			out = append(out, lexTok{kind: two, pos: i})
		case "__":
			j := i + 2
			for j < len(s) && '0' <= s[j] && s[j] <= '9' {
				j++
			}
			if j == i+2 || !strings.HasPrefix(s[j:], "__") {
				i++
				continue
			}
			n, err := strconv.ParseInt(s[i+2:j], 10, 32)
			if err != nil {
				return nil, errf("%d: invalid wildcard count", i)
			}
			flush(i)
			out = append(out, lexTok{kind: two, n: int(n), pos: i})
			i = j + 2
			start = i
			continue
		case "//":
			if !strings.HasPrefix(s[i:], "//**") {
				i++
				continue
			}
			j := strings.Index(s[i+4:], "**//")
			if j < 0 {
				return nil, errf("%d: unclosed comment", i)
			}
			flush(i)
			i += 4 + j + 4
			start = i
			continue
		default:
			i++
			continue
		}
		i += 2
		start = i
	}
	flush(len(s))
	return out, nil
}

type lreParser struct {
	toks  []lexTok
	i     int
	merge *bool // whether "copyright" is known to the dictionary yet
	seen  func(w string)
}

// ParseLRE parses a pattern. seen, if not nil, is called with every word
// in order of appearance.
func ParseLRE(s string, seen func(w string)) (*Node, error) {
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	m := true
	p := &lreParser{toks: toks, merge: &m, seen: seen}
	n, err := p.alt()
	if err != nil {
		return nil, err
	}
	if p.i < len(p.toks) {
		return nil, errf("unexpected ))")
	}
	return n, nil
}

// alt parses concat { || concat } up to )) or the end.
func (p *lreParser) alt() (*Node, error) {
	var subs []*Node
	for {
		n, err := p.concat()
		if err != nil {
			return nil, err
		}
		if n.Op == Alt && true {
			subs = append(subs, n.Subs...)
		} else {
			subs = append(subs, n)
		}
		if p.i < len(p.toks) && p.toks[p.i].kind == "||" {
			p.i++
			continue
		}
		break
	}
	if len(subs) == 1 {
		return subs[0], nil
	}
	return &Node{Op: Alt, Subs: subs}, nil
}

func (p *lreParser) concat() (*Node, error) {
	var items []*Node
	for p.i < len(p.toks) {
		t := p.toks[p.i]
		switch t.kind {
		case "||", "))":
			goto done
		case "text":
			p.i++
			var ws []string
			for _, w := range Tokenize(t.text, *p.merge) {
				ws = append(ws, w.W)
				if p.seen != nil {
					p.seen(w.W)
				}
			}
			if len(ws) == 0 {
				continue
			}
			if k := len(items); k > 0 && items[k-1].Op == Words {
				items[k-1] = &Node{Op: Words, W: append(append([]string{}, items[k-1].W...), ws...)}
			} else {
				items = append(items, &Node{Op: Words, W: ws})
			}
		case "__":
			p.i++
			items = append(items, &Node{Op: Wild, N: t.n})
		case "((":
			p.i++
			n, err := p.alt()
			if err != nil {
				return nil, err
			}
			if p.i >= len(p.toks) || p.toks[p.i].kind != "))" {
				return nil, errf("missing )) at end")
			}
			p.i++
			items = append(items, n)
		case "??":
			p.i++
			if len(items) == 0 {
				return nil, errf("missing argument to ??")
			}
			if k := len(items); items[k-1].Op != Quest {
				items[k-1] = &Node{Op: Quest, Subs: []*Node{items[k-1]}}
			}
		}
	}
done:
	switch len(items) {
	case 0:
		return &Node{Op: Empty}, nil
	case 1:
		return items[0], nil
	}
	c := &Node{Op: Concat}
	for _, n := range items {
		if n.Op == Concat {
			c.Subs = append(c.Subs, n.Subs...)
		} else {
			c.Subs = append(c.Subs, n)
		}
	}
	return c, nil
}

// CanBeEmpty reports whether n matches the empty text.
func (n *Node) CanBeEmpty() bool {
	switch n.Op {
	case Words:
		return len(n.W) == 0
	case Concat:
		for _, s := range n.Subs {
			if !s.CanBeEmpty() {
				return false
			}
		}
		return true
	case Alt:
		for _, s := range n.Subs {
			if s.CanBeEmpty() {
				return true
			}
		}
		return false
	}
	return true
}

const (
	endMark = "\x00end" // no (more) words
	anyMark = "\x00any" // a wildcard word
)

// Leading returns the set of first-two-word phrases of n's matches.
func (n *Node) Leading() map[[2]string]bool {
	switch n.Op {
	case Empty:
		return map[[2]string]bool{{endMark, endMark}: true}
	case Wild:
		return map[[2]string]bool{{endMark, endMark}: true, {anyMark, endMark}: true, {anyMark, anyMark}: true}
	case Words:
		w := append(append([]string{}, n.W...), endMark, endMark)
		return map[[2]string]bool{{w[0], w[1]}: true}
	case Quest:
		m := n.Subs[0].Leading()
		m[[2]string{endMark, endMark}] = true
		return m
	case Alt:
		m := map[[2]string]bool{}
		for _, s := range n.Subs {
			for p := range s.Leading() {
				m[p] = true
			}
		}
		return m
	}
	m := map[[2]string]bool{{endMark, endMark}: true}
	for _, s := range n.Subs {
		open := false
		for p := range m {
			open = open || p[1] == endMark
		}
		if !open {
			break
		}
		l := s.Leading()
		m2 := map[[2]string]bool{}
		for p := range m {
			for q := range l {
				switch {
				case p[1] != endMark:
					m2[p] = true
				case p[0] == endMark:
					m2[q] = true
				default:
					m2[[2]string{p[0], q[0]}] = true
				}
			}
		}
		m = m2
	}
	return m
}

// Valid reports whether n can be one of a scanner's patterns: every match must
// begin with two literal words.
func (n *Node) Valid() error {
	for p := range n.Leading() {
		switch {
		case p[0] == endMark:
			return errf("matches empty text")
		case p[0] == anyMark:
			return errf("begins with wildcard")
		case p[1] == endMark:
			return errf("matches single word")
		case p[1] == anyMark:
			return errf("second word is wildcard")
		}
	}
	return nil
}
