package ref

import "fmt"

// Trees returns every LRE tree with at most size leaves-and-optionals over the
// given leaves, up to the equality of their normal forms.
func Trees(leaves []string, size int) []*Node {
	by := make([][]*Node, size+1)
	seen := map[string]bool{}
	add := func(n int, t *Node) {
		src := t.Source()
		norm, err := ParseLRE(src, nil)
		if err != nil {
			panic(fmt.Sprintf("%v: %q", err, src))
		}
		k := norm.String()
		if !seen[k] {
			seen[k] = true
			by[n] = append(by[n], norm)
		}
	}
	for _, l := range leaves {
		switch {
		case l == "":
			add(1, &Node{Op: Empty})
		case l[0] == '_':
			var n int
			fmt.Sscanf(l, "__%d__", &n)
			add(1, &Node{Op: Wild, N: n})
		default:
			add(1, &Node{Op: Words, W: []string{l}})
		}
	}
	for n := 2; n <= size; n++ {
		for _, t := range by[n-1] {
			if t.Op != Quest && t.Op != Empty {
				add(n, &Node{Op: Quest, Subs: []*Node{t}})
			}
		}
		for k := 1; k < n; k++ {
			for _, x := range by[k] {
				for _, y := range by[n-k] {
					add(n, &Node{Op: Concat, Subs: []*Node{x, y}})
				}
			}
			for _, x := range by[k] {
				for _, y := range by[n-k] {
					add(n, &Node{Op: Alt, Subs: []*Node{x, y}})
				}
			}
		}
	}
	var out []*Node
	for _, l := range by {
		out = append(out, l...)
	}
	return out
}

// TrailingWild reports whether the pattern has a wildcard with no required text following.
func TrailingWild(n *Node) bool {
	c := &comp{m: &Model{ids: map[string]int{}}, end: true}
	c.node(n)
	return c.trailing
}

// Unfinished reports whether s is a pattern but for missing )).
func Unfinished(s string) bool {
	_, err := ParseLRE(s, nil)
	return err != nil && err.Error() == "missing )) at end"
}
