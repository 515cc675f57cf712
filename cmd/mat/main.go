// Command mat decides the properties of internal/match itself: the tokenizer,
// the dictionary and the pattern syntax. It uses only exported names of that package.
package main

import "github.com/google/licensecheck/verif/eng"

var checks []*eng.Check

func reg(c *eng.Check) { checks = append(checks, c) }

func main() { eng.Main(checks) }

// strs calls f with every string of exactly n atoms whose first two atoms are
// given by i (0 <= i < groups(atoms, n)).
func strs(atoms []string, n, i int, f func(string)) {
	if n == 0 {
		f("")
		return
	}
	buf := make([]byte, 0, 64)
	fixed := 1
	buf = append(buf, atoms[i%len(atoms)]...)
	if n >= 2 {
		fixed = 2
		buf = append(buf, atoms[i/len(atoms)]...)
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(string(buf))
			return
		}
		l := len(buf)
		for _, a := range atoms {
			buf = append(buf[:l], a...)
			rec(k + 1)
		}
		buf = buf[:l]
	}
	rec(fixed)
}

func groups(atoms []string, n int) int {
	switch n {
	case 0:
		return 1
	case 1:
		return len(atoms)
	}
	return len(atoms) * len(atoms)
}
