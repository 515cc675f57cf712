package main

import (
	"fmt"
	"strconv"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
)

// The documented types, in the documented order.
var typeNames = []string{"Unrestricted", "Notice", "ShareChanges", "ShareProgram", "ShareServer", "NonCommercial", "Discouraged"}
var typeBits = []lc.Type{lc.Unrestricted, lc.Notice, lc.ShareChanges, lc.ShareProgram, lc.ShareServer, lc.NonCommercial, lc.Discouraged}

// A kset is a known type as a set of indexes in typeNames.
type kset uint

func (k kset) real() lc.Type {
	var t lc.Type
	for i, b := range typeBits {
		if k>>uint(i)&1 != 0 {
			t |= b
		}
	}
	return t
}

func toKset(t lc.Type) (k kset, rest lc.Type) {
	for i, b := range typeBits {
		if t&b != 0 {
			k |= 1 << uint(i)
			t &^= b
		}
	}
	return k, t
}

// mergeRef is the documented Merge on known types.
func mergeRef(a, b kset) kset {
	if a == 0 || b == 0 {
		return 0
	}
	var m kset
	for i := 4; i >= 0; i-- {
		if (a|b)>>uint(i)&1 != 0 {
			m = 1 << uint(i)
			break
		}
	}
	m |= (a | b) & (1<<5 | 1<<6)
	if m&(1<<5) != 0 {
		m &^= 1
	}
	return m
}

func init() {
	reg(&eng.Check{ID: "C16", Level: "model_checking",
		Rule:        "all pairs of the 128 known types, and all triples; with unknown bits added to either side too; non-trivial: neither side Unknown",
		Assumptions: []string{"Bits without a documented name count as present (so the type is not Unknown), and are not in the result, which is made of the documented bits only."},
		Run: func(c *eng.Ctx) {
			c.Space("constants", 1, "the documented constants are distinct single bits", func(w *eng.Worker, i int) {
				w.Evals++
				w.Nontrivial++
				if lc.Unknown != 0 {
					w.Fail(nil, "", "Unknown = %d, want 0", lc.Unknown)
				}
				for i, b := range typeBits {
					if b == 0 || b&(b-1) != 0 {
						w.Fail(nil, "", "%s = %#x is not a single bit", typeNames[i], uint(b))
					}
					for j := range typeBits[:i] {
						if b <= typeBits[j] {
							w.Fail(nil, "", "%s and %s: values out of order or equal", typeNames[i], typeNames[j])
						}
					}
				}
			})
			c.Space("pairs", 128, "all pairs of known types, alone and with unknown bits", func(w *eng.Worker, i int) {
				a := kset(i)
				w.States++
				for b := kset(0); b < 128; b++ {
					w.Trans++
					w.Traces++
					w.Evals++
					if a != 0 && b != 0 {
						w.Nontrivial++
					}
					want := mergeRef(a, b)
					got := a.real().Merge(b.real())
					if got != want.real() {
						w.Fail(map[string]string{"t": fmt.Sprintf("%#x", uint(a.real())), "u": fmt.Sprintf("%#x", uint(b.real()))}, "",
							"%v.Merge(%v) = %v, want %v", a.real(), b.real(), got, want.real())
					}
					if w.WantSample() && a > 40 && b > 40 {
						w.Sample(fmt.Sprintf("%v.Merge(%v) = %v", a.real(), b.real(), got))
					}
					if a == 0 || b == 0 {
						continue
					}
					for _, x := range []lc.Type{1 << 8, 1 << 9, 1 << 31, 1 << 8 << 8} {
						for k := 0; k < 3; k++ {
							w.Evals++
							t, u := a.real(), b.real()
							if k != 1 {
								t |= x
							}
							if k != 0 {
								u |= x
							}
							if t.Merge(u) != want.real() {
								w.Fail(nil, "", "%v.Merge(%v) = %v, want %v", t, u, t.Merge(u), want.real())
							}
						}
					}
				}
			})
			bits := 10
			if c.Thorough {
				bits = 13
			}
			c.Space("all_types", 1<<uint(bits), fmt.Sprintf("all pairs of types below 2^%d, and with each higher bit in one or both", bits), func(w *eng.Worker, i int) {
				known := func(t lc.Type) kset {
					k, rest := toKset(t)
					if k == 0 && rest != 0 {
						k = 1 << 7 // something, but nothing known
					}
					return k
				}
				t := lc.Type(i)
				for u := lc.Type(0); u < 1<<uint(bits); u++ {
					w.Evals++
					w.Trans++
					if t != 0 && u != 0 {
						w.Nontrivial++
					}
					want := (mergeRef(known(t), known(u)) & 127).real()
					if got := t.Merge(u); got != want {
						w.Fail(nil, "", "%v.Merge(%v) = %v, want %v", t, u, got, want)
					}
				}
				for b := uint(bits); b < 64; b++ {
					for u := lc.Type(0); u < 256; u++ {
						for k := 1; k < 4; k++ {
							w.Evals++
							x, y := t, u
							if k&1 != 0 {
								x |= 1 << b
							}
							if k&2 != 0 {
								y |= 1 << b
							}
							want := (mergeRef(known(x), known(y)) & 127).real()
							if got := x.Merge(y); got != want {
								w.Fail(nil, "", "%v.Merge(%v) = %v, want %v", x, y, got, want)
							}
						}
					}
				}
			})
			c.Space("triples", 128, "all triples of known types: commutative, associative, nothing lost or invented", func(w *eng.Worker, i int) {
				t := kset(i).real()
				for b := kset(0); b < 128; b++ {
					u := b.real()
					tu := t.Merge(u)
					if tu != u.Merge(t) {
						w.Fail(nil, "", "Merge(%v, %v) is not commutative", t, u)
					}
					for d := kset(0); d < 128; d++ {
						v := d.real()
						w.Evals++
						w.Traces++
						w.Trans++
						if t != 0 && u != 0 && v != 0 {
							w.Nontrivial++
						}
						if x, y := tu.Merge(v), t.Merge(u.Merge(v)); x != y {
							w.Fail(nil, "", "Merge(%v, %v, %v) is not associative: %v, %v", t, u, v, x, y)
						}
					}
				}
			})
		}})

	reg(&eng.Check{ID: "C17", Level: "model_checking",
		Rule:        "all types with bits 0..15, all types of one or two bits, and all |-separated lists of up to 3 fields from an alphabet of good and bad fields; non-trivial: at least one bit, or at least one good field",
		Assumptions: []string{"The number in Type(number) is a Go integer literal without sign, as in the format String itself writes."},
		Run: func(c *eng.Ctx) {
			type one = lc.Type
			check := func(w *eng.Worker, t one) {
				w.Evals++
				w.States++
				w.Traces++
				if t != 0 {
					w.Nontrivial++
				}
				want := stringRef(t)
				got := t.String()
				if got != want {
					w.Fail(nil, "", "Type(%#x).String() = %q, want %q", uint(t), got, want)
				}
				back, err := lc.ParseType(got)
				if err != nil || back != t {
					w.Fail(nil, "", "ParseType(%q) = %#x, %v, want %#x", got, uint(back), err, uint(t))
				}
			}
			hi := 1 << 16
			if c.Thorough {
				hi = 1 << 26
			}
			c.Space("low_bits", 256, fmt.Sprintf("all types below %d", hi), func(w *eng.Worker, i int) {
				for t := i * hi / 256; t < (i+1)*hi/256; t++ {
					check(w, one(t))
				}
			})
			c.Space("high_bits", 64, "all types with one, two or three bits of 64, all complements, and known types with one unknown bit", func(w *eng.Worker, i int) {
				for j := 0; j <= i; j++ {
					for k := 0; k <= j; k++ {
						t := one(1)<<uint(i) | one(1)<<uint(j) | one(1)<<uint(k)
						check(w, t)
						check(w, ^t)
					}
				}
				for k := kset(0); k < 128; k++ {
					check(w, k.real()|1<<uint(i))
				}
			})
			atoms := append([]string{"Unknown", "", " ", "unrestricted", "NOTICE", "Notice ", " Notice", "Noticed", "Share", "ShareServerX", "Type", "Type(", "Type()", "Type(0)", "Type(1)", "Type(010)", "Type(0x10)", "Type(0X1F)", "Type(0b11)", "Type(0o17)", "Type(1_0)", "Type(0x_1)", "Type(-1)", "Type(+1)", "Type( 1)", "Type(1) ", "Type(1", "Type1)", "type(1)", "Type(x)", "Type(18446744073709551615)", "Type(18446744073709551616)", "Type(0xffffffffffffffff)", "Type(0x10000000000000000)", "Type(1.0)", "Type(1)Type(1)", "Type((1))", "0x1", "1", "Other", "Notice,Discouraged", "Type(08)"}, typeNames...)
			n := len(atoms)
			parse := func(w *eng.Worker, s string) {
				w.Evals++
				w.Traces++
				w.Trans += int64(1 + strings.Count(s, "|"))
				want, ok := parseRef(s)
				got, err := lc.ParseType(s)
				if ok {
					w.Nontrivial++
				}
				if (err == nil) != ok || got != want {
					w.Fail(map[string]string{"s": s}, "", "ParseType(%q) = %#x, %v, want %#x, ok=%v", s, uint(got), err, uint(want), ok)
				}
				if w.WantSample() {
					w.Sample(fmt.Sprintf("ParseType(%q) = %v, %v", s, got, err))
				}
				if ok && got.String() != stringRef(want) {
					w.Fail(nil, "", "ParseType(%q).String() = %q", s, got.String())
				}
			}
			c.Space("parse", n*n, fmt.Sprintf("all |-separated lists of 1..3 of %d fields, with extra separators", n), func(w *eng.Worker, i int) {
				a, b := atoms[i/n], atoms[i%n]
				if i%n == 0 {
					parse(w, a)
					parse(w, a+"|")
					parse(w, "|"+a)
					parse(w, a+"||"+a)
				}
				parse(w, a+"|"+b)
				parse(w, a+" | "+b)
				parse(w, a+","+b)
				parse(w, a+b)
				for _, d := range atoms {
					parse(w, a+"|"+b+"|"+d)
				}
			})
			c.Space("edits", len(typeNames)+1, "every one-byte edit of every name", func(w *eng.Worker, i int) {
				s := append([]string{"Unknown"}, typeNames...)[i]
				for _, e := range edits(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ|()0 \x00") {
					parse(w, e)
					parse(w, "Notice|"+e)
				}
			})
		}})
}

func stringRef(t lc.Type) string {
	if t == 0 {
		return "Unknown"
	}
	var l []string
	for i, b := range typeBits {
		if t&b != 0 {
			l = append(l, typeNames[i])
			t &^= b
		}
	}
	if t != 0 {
		l = append(l, fmt.Sprintf("Type(0x%x)", uint(t)))
	}
	return strings.Join(l, "|")
}

func parseRef(s string) (lc.Type, bool) {
	var t lc.Type
Fields:
	for _, f := range strings.Split(s, "|") {
		if f == "Unknown" {
			continue
		}
		for i, n := range typeNames {
			if f == n {
				t |= typeBits[i]
				continue Fields
			}
		}
		if len(f) > 6 && f[:5] == "Type(" && f[len(f)-1] == ')' {
			if n, err := strconv.ParseUint(f[5:len(f)-1], 0, 64); err == nil {
				t |= lc.Type(n)
				continue
			}
		}
		return 0, false
	}
	return t, true
}
