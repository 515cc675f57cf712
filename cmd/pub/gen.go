package main

import (
	"sort"
	"strings"

	"github.com/google/licensecheck/verif/ref"
)

// texts calls f with every sequence of at most max words over alphabet,
// shortest first, joined by spaces, each with the given prefix.
func texts(alphabet []string, max int, prefix string, f func(string)) {
	idx := make([]int, max)
	var b strings.Builder
	for n := 0; n <= max; n++ {
		for i := range idx[:n] {
			idx[i] = 0
		}
		for {
			b.Reset()
			b.WriteString(prefix)
			for k := 0; k < n; k++ {
				if b.Len() > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(alphabet[idx[k]])
			}
			f(b.String())
			k := n - 1
			for k >= 0 {
				idx[k]++
				if idx[k] < len(alphabet) {
					break
				}
				idx[k] = 0
				k--
			}
			if k < 0 {
				break
			}
		}
	}
}

// seqs returns every sequence of min..max elements of alphabet, shortest first.
func seqs(alphabet []string, min, max int) [][]string {
	var out [][]string
	level := [][]string{{}}
	for n := 0; n <= max; n++ {
		if n >= min {
			out = append(out, level...)
		}
		var next [][]string
		for _, s := range level {
			for _, a := range alphabet {
				next = append(next, append(append([]string{}, s...), a))
			}
		}
		level = next
	}
	return out
}

// bytesUpTo calls f with every string of at most max atoms, shortest first.
func atomStrings(atoms []string, n int, first int, f func(string)) {
	// all strings of exactly n atoms whose first atom is atoms[first]
	idx := make([]int, n)
	var b strings.Builder
	idx[0] = first
	for {
		b.Reset()
		for _, i := range idx {
			b.WriteString(atoms[i])
		}
		f(b.String())
		k := n - 1
		for k >= 1 {
			idx[k]++
			if idx[k] < len(atoms) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 1 {
			return
		}
	}
}

// validPatterns returns the sources of valid patterns: trees that are valid
// themselves, and trees prefixed with "a b".
func validPatterns(leaves []string, size int) []string {
	var out []string
	seen := map[string]bool{}
	add := func(src string) {
		if seen[src] {
			return
		}
		seen[src] = true
		t, err := ref.ParseLRE(src, nil)
		if err != nil {
			panic(err)
		}
		if t.Valid() == nil {
			if _, err := ref.NewModel([]string{src}); err == nil {
				out = append(out, src)
			}
		}
	}
	for _, t := range ref.Trees(leaves, size) {
		add(t.Source())
		src := t.Source()
		if strings.HasPrefix(src, "((") {
			add("a b\n" + src)
		} else {
			add("a b " + src)
		}
	}
	return out
}

// edits returns every string one byte-edit away from s, using letters, plus some two-edit ones.
func edits(s string, letters string) []string {
	m := map[string]bool{}
	for i := 0; i < len(s); i++ {
		m[s[:i]+s[i+1:]] = true
		for _, c := range letters {
			m[s[:i]+string(c)+s[i+1:]] = true
		}
	}
	for i := 0; i <= len(s); i++ {
		for _, c := range letters {
			m[s[:i]+string(c)+s[i:]] = true
		}
	}
	return keys(m)
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		if len(out[i]) != len(out[j]) {
			return len(out[i]) < len(out[j])
		}
		return out[i] < out[j]
	})
	return out
}
