package ref

import (
	"sort"
	"strings"
)

// Denotational semantics: plain language membership, ignoring cuts.

// Ends returns the set of positions j such that n matches ws[i:j], for each i in from.
func (n *Node) Ends(ws []string, from map[int]bool) map[int]bool {
	switch n.Op {
	case Empty:
		return from
	case Words:
		out := map[int]bool{}
	Start:
		for i := range from {
			if i+len(n.W) > len(ws) {
				continue
			}
			for k, w := range n.W {
				if ws[i+k] != w {
					continue Start
				}
			}
			out[i+len(n.W)] = true
		}
		return out
	case Wild:
		out := map[int]bool{}
		for i := range from {
			for k := 0; k <= n.N && i+k <= len(ws); k++ {
				out[i+k] = true
			}
		}
		return out
	case Quest:
		out := map[int]bool{}
		for i := range from {
			out[i] = true
		}
		for i := range n.Subs[0].Ends(ws, from) {
			out[i] = true
		}
		return out
	case Alt:
		out := map[int]bool{}
		for _, s := range n.Subs {
			for i := range s.Ends(ws, from) {
				out[i] = true
			}
		}
		return out
	}
	for _, s := range n.Subs {
		from = s.Ends(ws, from)
	}
	return from
}

// Operational model: a set of threads per position, with cuts and spelling correction.

type opcode int8

const (
	iWord opcode = iota
	iAny
	iAlt
	iJump
	iCut
	iMatch
)

type instr struct {
	op  opcode
	arg int // word id, target pc, cut: index into cuts, match: license index
}

type cutRange struct{ lo, hi int } // pcs killed

type pend struct{ wild, trigger int }

// A Model recognizes a list of patterns.
type Model struct {
	Dict   []string
	ids    map[string]int
	Trees  []*Node
	prog   []instr
	ranges []cutRange
	Phrase map[[2]int]bool
	states map[string]*mstate
	start  *mstate
	Cuts   bool // some pattern has a cut

	// Transitions counts the distinct transitions explored so far.
	Transitions int
	// Visited and Steps count the configurations and moves explored by Justified.
	Visited, Steps int
}

type mstate struct {
	threads []int
	expect  []int // distinct expected words, in dictionary order
	isAny   bool
	match   int
	next    map[int]*mstate // by word id; -2 is a word only wildcards match
}

const anyID = -2

// ID returns the id of w in the dictionary, or -1.
func (m *Model) ID(w string) int {
	if id, ok := m.ids[w]; ok {
		return id
	}
	return -1
}

func (m *Model) insert(w string) int {
	if id, ok := m.ids[w]; ok {
		return id
	}
	m.ids[w] = len(m.Dict)
	m.Dict = append(m.Dict, w)
	return len(m.Dict) - 1
}

// NewModel builds the model of the given patterns.
// Words in first are put in the dictionary ahead of the patterns' words.
func NewModel(lres []string, first ...string) (*Model, error) {
	m := &Model{ids: map[string]int{}, Phrase: map[[2]int]bool{}, states: map[string]*mstate{}}
	for _, w := range first {
		m.insert(w)
	}
	var trailing []bool
	for _, s := range lres {
		t, err := ParseLRE(s, func(w string) { m.insert(w) })
		if err != nil {
			return nil, err
		}
		m.Trees = append(m.Trees, t)
		c := &comp{m: m, end: true}
		// compile early only to find the trailing wildcard error in parse order
		save := len(m.prog)
		c.node(t)
		m.prog = m.prog[:save]
		m.ranges = m.ranges[:0]
		trailing = append(trailing, c.trailing)
		if c.trailing {
			return nil, errf("wildcard with no required text following")
		}
	}
	_ = trailing
	for _, t := range m.Trees {
		if err := t.Valid(); err != nil {
			return nil, err
		}
		for p := range t.Leading() {
			m.Phrase[[2]int{m.ids[p[0]], m.ids[p[1]]}] = true
		}
	}
	for i, t := range m.Trees {
		alt := -1
		if i+1 < len(m.Trees) {
			alt = len(m.prog)
			m.prog = append(m.prog, instr{op: iAlt})
		}
		c := &comp{m: m, end: true}
		c.node(t)
		c.flush()
		m.prog = append(m.prog, instr{iMatch, i})
		if alt >= 0 {
			m.prog[alt].arg = len(m.prog)
		}
	}
	if len(m.prog) > 0 {
		m.start = m.state(m.closure([]int{0}))
	}
	m.Cuts = len(m.ranges) > 0
	return m, nil
}

// comp compiles one pattern.
type comp struct {
	m        *Model
	end      bool // at the end of the pattern: nothing required follows
	pending  []pend
	trailing bool
}

func (c *comp) emit(op opcode, arg int) int {
	c.m.prog = append(c.m.prog, instr{op, arg})
	return len(c.m.prog) - 1
}

func (c *comp) flush() {
	for _, p := range c.pending {
		c.emit(iCut, p.wild)
	}
	c.pending = nil
}

// literal notes that one more literal word has been matched.
func (c *comp) literal() {
	var keep []pend
	for _, p := range c.pending {
		p.trigger--
		if p.trigger == 0 {
			c.emit(iCut, p.wild)
		} else {
			keep = append(keep, p)
		}
	}
	c.pending = keep
}

// merge joins the cuts pending on two paths; the later trigger wins.
func merge(a, b []pend) []pend {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	best := map[int]int{}
	for _, p := range append(append([]pend{}, a...), b...) {
		if p.trigger > best[p.wild] {
			best[p.wild] = p.trigger
		}
	}
	var out []pend
	for w, t := range best {
		out = append(out, pend{w, t})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].wild < out[j].wild })
	return out
}

func (c *comp) node(n *Node) {
	switch n.Op {
	case Empty:
	case Words:
		for _, w := range n.W {
			c.emit(iWord, c.m.insert(w))
			c.literal()
		}
		if c.end {
			c.flush()
		}
	case Concat:
		last := len(n.Subs)
		if c.end {
			for last > 0 && n.Subs[last-1].CanBeEmpty() {
				last--
			}
		}
		for i, s := range n.Subs {
			c.end = i >= last
			c.node(s)
		}
	case Quest:
		alt := c.emit(iAlt, 0)
		before, end := c.pending, c.end
		c.node(n.Subs[0])
		if end {
			c.flush()
		}
		c.pending = merge(before, c.pending)
		c.m.prog[alt].arg = len(c.m.prog)
	case Alt:
		before, end := c.pending, c.end
		var after []pend
		var jumps []int
		for i, s := range n.Subs {
			alt := -1
			if i+1 < len(n.Subs) {
				alt = c.emit(iAlt, 0)
			}
			c.pending, c.end = before, end
			c.node(s)
			after = merge(after, c.pending)
			if alt >= 0 {
				jumps = append(jumps, c.emit(iJump, 0))
				c.m.prog[alt].arg = len(c.m.prog)
			}
		}
		c.pending = after
		for _, j := range jumps {
			c.m.prog[j].arg = len(c.m.prog)
		}
	case Wild:
		c.flush()
		if c.end {
			c.trailing = true
		}
		lo := len(c.m.prog)
		hi := lo + 2*n.N
		for k := 0; k < n.N; k++ {
			c.emit(iAlt, hi)
			c.emit(iAny, 0)
		}
		if n.N > 3 {
			c.m.ranges = append(c.m.ranges, cutRange{lo, hi})
			c.pending = []pend{{len(c.m.ranges) - 1, 3}}
		}
	}
}

// closure returns the sorted, cut set of threads reachable from pcs without input.
func (m *Model) closure(pcs []int) []int {
	seen := map[int]bool{}
	var cuts []int
	var add func(pc int)
	var out []int
	add = func(pc int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		switch in := m.prog[pc]; in.op {
		case iAlt:
			add(pc + 1)
			add(in.arg)
		case iJump:
			add(in.arg)
		case iCut:
			cuts = append(cuts, in.arg)
			add(pc + 1)
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		add(pc)
	}
	sort.Ints(out)
	keep := out[:0]
	for _, pc := range out {
		dead := false
		for _, c := range cuts {
			dead = dead || m.ranges[c].lo <= pc && pc <= m.ranges[c].hi
		}
		if !dead {
			keep = append(keep, pc)
		}
	}
	return keep
}

func (m *Model) state(threads []int) *mstate {
	if len(threads) == 0 {
		return nil
	}
	var kb strings.Builder
	for _, pc := range threads {
		kb.WriteByte(byte(pc))
		kb.WriteByte(byte(pc >> 8))
		kb.WriteByte(byte(pc >> 16))
		kb.WriteByte(byte(pc >> 24))
	}
	k := kb.String()
	if s := m.states[k]; s != nil {
		return s
	}
	s := &mstate{threads: threads, match: -1, next: map[int]*mstate{}}
	have := map[int]bool{}
	for _, pc := range threads {
		switch in := m.prog[pc]; in.op {
		case iAny:
			s.isAny = true
		case iWord:
			if !have[in.arg] {
				have[in.arg] = true
				s.expect = append(s.expect, in.arg)
			}
		case iMatch:
			if s.match < 0 || in.arg < s.match {
				s.match = in.arg
			}
		}
	}
	sort.Ints(s.expect)
	m.states[k] = s
	return s
}

// step returns the state after reading word id (or anyID) in s.
func (m *Model) step(s *mstate, id int) *mstate {
	if t, ok := s.next[id]; ok {
		return t
	}
	var to []int
	for _, pc := range s.threads {
		switch in := m.prog[pc]; in.op {
		case iAny:
			to = append(to, pc+1)
		case iWord:
			if in.arg == id {
				to = append(to, pc+1)
			}
		}
	}
	t := m.state(m.closure(to))
	s.next[id] = t
	m.Transitions++
	return t
}

// States returns the number of distinct states visited so far.
func (m *Model) States() int { return len(m.states) }

// Explore visits every reachable state of the model, up to max states,
// and reports whether it visited all of them.
func (m *Model) Explore(max int) bool {
	if m.start == nil {
		return true
	}
	done := map[*mstate]bool{m.start: true}
	work := []*mstate{m.start}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		if len(done) > max {
			return false
		}
		ids := s.expect
		if s.isAny {
			ids = append(append([]int{}, ids...), anyID)
		}
		for _, id := range ids {
			if t := m.step(s, id); t != nil && !done[t] {
				done[t] = true
				work = append(work, t)
			}
		}
	}
	return true
}

func (s *mstate) expects(id int) bool {
	for _, e := range s.expect {
		if e == id {
			return true
		}
	}
	return false
}

// Misspelled reports whether have can be read as a misspelling of want:
// one byte inserted, deleted or modified, with the longer one at least four bytes;
// or c for copyright and back.
func Misspelled(want, have string) bool {
	if len(want) >= 4 || len(have) >= 4 {
		if oneEdit(want, have) {
			return true
		}
	}
	if want == "c" || want == "copyright" {
		switch have {
		case "c", "copyright", "©", "&copy;":
			return true
		}
	}
	return false
}

// oneEdit reports whether a and b differ by at most one byte insertion, deletion or substitution.
func oneEdit(a, b string) bool {
	if a == b {
		return true
	}
	if len(a) > len(b) {
		a, b = b, a
	}
	if len(b)-len(a) > 1 {
		return false
	}
	// What the two do not share at the start and at the end is at most one byte.
	p := 0
	for p < len(a) && a[p] == b[p] {
		p++
	}
	q := 0
	for q < len(a) && a[len(a)-1-q] == b[len(b)-1-q] {
		q++
	}
	if len(a) == len(b) {
		return p+q >= len(a)-1
	}
	return p+q >= len(a)
}

// A MatchResult is a match attempt's outcome.
type MatchResult struct {
	ID, End   int  // ID < 0: no match
	Ambiguous bool // more than one correction was possible somewhere
}

// MatchAt runs the model at toks[i:].
func (m *Model) MatchAt(toks []Tok, i int) MatchResult {
	res := MatchResult{ID: -1}
	s := m.start
	for {
		if s.match >= 0 {
			res.ID, res.End = s.match, i
		}
		if i == len(toks) {
			return res
		}
		id := m.ID(toks[i].W)
		if id >= 0 && s.expects(id) {
			s = m.step(s, id)
			i++
			if s == nil {
				return res
			}
			continue
		}
		// Corrections.
		type choice struct {
			to *mstate
			n  int
		}
		var choices []choice
		have := toks[i].Raw
		have2 := ""
		if i+1 < len(toks) {
			have2 = toks[i+1].Raw
		}
		for _, e := range s.expect {
			want := m.Dict[e]
			if want == have+have2 {
				choices = append(choices, choice{m.step(s, e), 2})
			}
			if len(have) > len(want) && strings.HasPrefix(have, want) {
				rest := have[len(want):]
				if t := m.step(s, e); t != nil {
					if r := m.ID(rest); r >= 0 && t.expects(r) {
						choices = append(choices, choice{m.step(t, r), 1})
					} else if t.isAny {
						choices = append(choices, choice{m.step(t, anyID), 1})
					}
				}
			}
			if Misspelled(want, have) {
				choices = append(choices, choice{m.step(s, e), 1})
			}
		}
		if len(choices) > 0 {
			for _, c := range choices[1:] {
				if c != choices[0] {
					res.Ambiguous = true
				}
			}
			s = choices[0].to
			i += choices[0].n
			if i > len(toks) { // join of a last word with nothing
				i = len(toks)
			}
		} else if s.isAny {
			s = m.step(s, anyID)
			i++
		} else {
			return res
		}
		if s == nil {
			return res
		}
	}
}

// A Span is a match over words [Start, End).
type Span struct{ ID, Start, End int }

// Matches returns the leftmost-longest, non-overlapping matches.
func (m *Model) Matches(toks []Tok) (list []Span, ambiguous bool) {
	if m.start == nil {
		return nil, false
	}
	for i := 0; i+1 < len(toks); {
		if m.Phrase[[2]int{m.ID(toks[i].W), m.ID(toks[i+1].W)}] {
			r := m.MatchAt(toks, i)
			ambiguous = ambiguous || r.Ambiguous
			if r.ID >= 0 {
				list = append(list, Span{r.ID, i, r.End})
				i = r.End
				continue
			}
		}
		i++
	}
	return list, ambiguous
}

// Justified reports whether pattern k can match toks[s:e] when each word may be
// corrected in any of the documented ways, except the first two, which must be exact.
func (m *Model) Justified(k int, toks []Tok, s, e int) bool {
	if e-s < 2 || e > len(toks) {
		return false
	}
	// Threads of pattern k alone, without cuts, over readings of the text.
	// A reading position is (word index, consumed prefix length of that word).
	type pos struct{ i, off int }
	type cfg struct {
		pc int
		p  pos
	}
	lo, hi := m.patRange(k)
	_ = hi
	seen := map[cfg]bool{}
	found := false
	var visit func(c cfg)
	visit = func(c cfg) {
		m.Steps++
		if found || seen[c] {
			return
		}
		seen[c] = true
		m.Visited++
		in := m.prog[c.pc]
		switch in.op {
		case iAlt:
			visit(cfg{c.pc + 1, c.p})
			visit(cfg{in.arg, c.p})
			return
		case iJump:
			visit(cfg{in.arg, c.p})
			return
		case iCut:
			visit(cfg{c.pc + 1, c.p})
			return
		case iMatch:
			if c.p == (pos{e, 0}) {
				found = true
			}
			return
		}
		if c.p.i >= e {
			return
		}
		i := c.p.i
		if c.p.off > 0 { // rest of a split word: exactly a word, or anything for a wildcard
			rest := toks[i].Raw[c.p.off:]
			if in.op == iAny || m.Dict[in.arg] == rest {
				visit(cfg{c.pc + 1, pos{i + 1, 0}})
			}
			return
		}
		if in.op == iAny || m.Dict[in.arg] == toks[i].W {
			visit(cfg{c.pc + 1, pos{i + 1, 0}})
		}
		if i < s+2 {
			return // no correction of the first two words
		}
		have := toks[i].Raw
		if in.op == iWord {
			w := m.Dict[in.arg]
			if Misspelled(w, have) || i+1 == len(toks) && w == have {
				visit(cfg{c.pc + 1, pos{i + 1, 0}})
			}
			if i+1 < e && w == have+toks[i+1].Raw {
				visit(cfg{c.pc + 1, pos{i + 2, 0}})
			}
			if len(have) > len(w) && strings.HasPrefix(have, w) && w != "" {
				visit(cfg{c.pc + 1, pos{i, len(w)}})
			}
		} else {
			// A wildcard consumes a corrected word as one word.
			if i+1 < e && m.ID(have+toks[i+1].Raw) >= 0 {
				visit(cfg{c.pc + 1, pos{i + 2, 0}})
			}
			for n := 1; n < len(have); n++ {
				if m.ID(have[:n]) >= 0 {
					visit(cfg{c.pc + 1, pos{i, n}})
				}
			}
		}
	}
	visit(cfg{lo, pos{s, 0}})
	return found
}

// patRange returns the program range of pattern k.
func (m *Model) patRange(k int) (lo, hi int) {
	lo = 0
	for i := 0; i < k; i++ {
		lo = m.prog[lo].arg
	}
	if k+1 < len(m.Trees) {
		return lo + 1, m.prog[lo].arg
	}
	return lo, len(m.prog)
}

// Clone returns a model of the same patterns with its own (empty) set of states.
// A Model must not be used by several goroutines at once; clones may be.
func (m *Model) Clone() *Model {
	c := *m
	c.states = map[string]*mstate{}
	c.Transitions, c.Visited, c.Steps = 0, 0, 0
	if len(c.prog) > 0 {
		c.start = c.state(c.closure([]int{0}))
	}
	return &c
}
