package ref

// Texts spelled out from a pattern.

// A Pick fixes one choice of a pattern: part Node is read as choice K
// (Quest: 0 leave, 1 take; Alt: branch; Wild: number of words).
type Pick struct{ Node, K int }

// An Expander spells out the texts of one pattern.
type Expander struct {
	nodes  []*Node        // Quest, Alt and Wild nodes, in order
	index  map[*Node]int  // reverse
	needed map[int][]Pick // picks that make a node reachable
	root   *Node
}

// NewExpander prepares n.
func NewExpander(n *Node) *Expander {
	e := &Expander{index: map[*Node]int{}, needed: map[int][]Pick{}, root: n}
	var walk func(n *Node, path []Pick)
	walk = func(n *Node, path []Pick) {
		k := len(e.nodes)
		switch n.Op {
		case Quest, Alt, Wild:
			e.nodes = append(e.nodes, n)
			e.index[n] = k
			e.needed[k] = path
		}
		for i, s := range n.Subs {
			p := path
			switch n.Op {
			case Quest:
				p = append(append([]Pick{}, path...), Pick{k, 1})
			case Alt:
				p = append(append([]Pick{}, path...), Pick{k, i})
			}
			walk(s, p)
		}
	}
	walk(n, nil)
	return e
}

// Branches returns every single choice of the pattern: both readings of each
// optional part, each alternative, and wildcards of 0, 1, N-1 and N words.
func (e *Expander) Branches() []Pick {
	var out []Pick
	for i, n := range e.nodes {
		switch n.Op {
		case Quest:
			out = append(out, Pick{i, 0}, Pick{i, 1})
		case Alt:
			for k := range n.Subs {
				out = append(out, Pick{i, k})
			}
		case Wild:
			last := -1
			for _, k := range []int{0, 1, n.N - 1, n.N} {
				if k > last && k <= n.N {
					out = append(out, Pick{i, k})
					last = k
				}
			}
		}
	}
	return out
}

// Nodes returns the number of choices.
func (e *Expander) Nodes() int { return len(e.nodes) }

// Expand returns a text in which the given picks are made (and whatever makes
// them reachable), and everything else follows def: 0 leaves out all optional
// parts and wildcards, 1 takes everything with full wildcards, 2 takes optional
// parts, last alternatives and one word per wildcard.
func (e *Expander) Expand(def int, filler string, picks ...Pick) []string {
	sel := map[int]int{}
	for _, p := range picks {
		for _, q := range e.needed[p.Node] {
			sel[q.Node] = q.K
		}
	}
	for _, p := range picks {
		sel[p.Node] = p.K
	}
	var out []string
	var walk func(n *Node)
	walk = func(n *Node) {
		k, set := 0, false
		if i, ok := e.index[n]; ok {
			k, set = sel[i], false
			_, set = sel[i]
		}
		switch n.Op {
		case Words:
			out = append(out, n.W...)
		case Concat:
			for _, s := range n.Subs {
				walk(s)
			}
		case Quest:
			if !set && def > 0 || set && k == 1 {
				walk(n.Subs[0])
			}
		case Alt:
			if !set && def == 2 {
				k = len(n.Subs) - 1
			}
			walk(n.Subs[k])
		case Wild:
			if !set {
				switch def {
				case 1:
					k = n.N
				case 2:
					k = min(1, n.N)
				}
			}
			for i := 0; i < k; i++ {
				out = append(out, filler)
			}
		}
	}
	walk(e.root)
	return out
}
