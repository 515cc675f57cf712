package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

func patTest(pat, text string) string {
	return fmt.Sprintf(`package match

import "testing"

func TestReplay(t *testing.T) {
	re, err := ParseLRE(new(Dict), "file", %q)
	if err != nil {
		t.Fatal(err)
	}
	m, err := NewMultiLRE([]*LRE{re})
	if err != nil {
		t.Fatal(err)
	}
	t.Logf("%%+v", m.Match(%q))
}
`, pat, text)
}

type patCase struct{ Pattern, Text string }

// operators at which a syntax error can be located.
var operators = []string{"((", "||", "))", "??", "__", "//**"}

// parse compares acceptance of one pattern and returns the real pattern and the
// reference's tree and model; nil if it is rejected. Huge wildcards are the
// caller's business: they must not be compiled.
func parse(w *eng.Worker, src string) (*match.LRE, *match.Dict, *ref.Node) {
	w.Evals++
	w.Traces++
	w.Trans++
	bad := func(format string, args ...interface{}) {
		w.Fail(patCase{fmt.Sprintf("%q", src), ""}, patTest(src, ""), "%s", fmt.Sprintf(format, args...))
	}
	want, rerr := ref.ParseLRE(src, nil)
	trailing := false
	if rerr == nil && ref.TrailingWild(want) {
		trailing = true
		rerr = fmt.Errorf("trailing wildcard")
	}
	d := new(match.Dict)
	re, err := match.ParseLRE(d, "file", src)
	if (err == nil) != (rerr == nil) {
		bad("ParseLRE(%q) error = %v, reference says %v", src, err, rerr)
	}
	if err != nil {
		if re != nil {
			bad("ParseLRE(%q) returns a pattern and error %v", src, err)
		}
		se, ok := err.(*match.SyntaxError)
		if !ok {
			if !trailing {
				bad("ParseLRE(%q) error is %T, want *SyntaxError", src, err)
			}
			return nil, nil, nil
		}
		off := se.Offset
		if off < 0 || off > len(src) || !strings.HasSuffix(src[:off], se.Context) {
			bad("ParseLRE(%q): error offset %d, context %q is not the text before it", src, off, se.Context)
		}
		if se.Err == "" || se.Error() == "" {
			bad("ParseLRE(%q): empty error message", src)
		}
		if off == len(src) && !ref.Unfinished(src) {
			// Only what is missing at the end is wrong there.
			bad("ParseLRE(%q): error %v is said to be at the end, reference says %v", src, err, rerr)
		}
		if off < len(src) {
			at := false
			for _, o := range operators {
				at = at || strings.HasPrefix(src[off:], o)
			}
			if !at {
				bad("ParseLRE(%q): error %v at offset %d is not at an operator", src, err, off)
			}
			// Nothing before it can be wrong already.
			if _, perr := ref.ParseLRE(src[:off], nil); perr != nil && !ref.Unfinished(src[:off]) {
				bad("ParseLRE(%q): error %v at offset %d, but there is one before that: %v", src, err, off, perr)
			}
		}
		return nil, nil, nil
	}
	return re, d, want
}

// language compares what an accepted pattern matches with the model and the denotation.
func language(w *eng.Worker, src string, re *match.LRE, tree *ref.Node, texts []string) {
	bad := func(text, format string, args ...interface{}) {
		w.Fail(patCase{fmt.Sprintf("%q", src), text}, patTest(src, text), "pattern %q, text %q: %s", src, text, fmt.Sprintf(format, args...))
	}
	m, err := match.NewMultiLRE([]*match.LRE{re})
	verr := tree.Valid()
	if (err == nil) != (verr == nil) {
		bad("", "NewMultiLRE error = %v, reference says %v", err, verr)
	}
	if err != nil {
		return
	}
	model, merr := ref.NewModel([]string{src})
	if merr != nil {
		bad("", "reference model: %v", merr)
	}
	hasCopyright := m.Dict().Lookup("copyright") >= 0
	for _, t := range texts {
		w.Evals++
		w.Traces++
		got := m.Match(t)
		toks := ref.Tokenize(t, hasCopyright)
		want, amb := model.Matches(toks)
		if !amb && !sameSpans(got.List, want) {
			bad(t, "matches %v, want %v", got.List, want)
		}
		if amb {
			w.Skipped++
		}
		if len(want) > 0 {
			w.Nontrivial++
		}
		// The denotation: the words read exactly, no cuts.
		ws := make([]string, len(toks))
		for i := range toks {
			ws[i] = toks[i].W
		}
		if corrections(m.Dict(), toks) {
			continue
		}
		var den []ref.Span
		for i := 0; i < len(ws); i++ {
			end := -1
			for e := range tree.Ends(ws, map[int]bool{i: true}) {
				if e > end {
					end = e
				}
			}
			if model.Cuts {
				continue
			}
			if end > i {
				den = append(den, ref.Span{ID: 0, Start: i, End: end})
				i = end - 1
			}
		}
		if model.Cuts {
			for _, x := range got.List {
				if !tree.Ends(ws, map[int]bool{x.Start: true})[x.End] {
					bad(t, "match %v is not in the pattern's language", x)
				}
			}
		} else if !sameSpans(got.List, den) {
			bad(t, "matches %v, the syntax denotes %v", got.List, den)
		}
	}
	w.States += int64(model.States())
	w.Trans += int64(model.Transitions)
}

// corrections reports whether some word might be read as a correction of another.
func corrections(d *match.Dict, toks []ref.Tok) bool {
	for _, x := range d.Words() {
		for i, t := range toks {
			if t.W == x {
				continue
			}
			if ref.Misspelled(x, t.Raw) || strings.HasPrefix(t.Raw, x) || i+1 < len(toks) && t.Raw+toks[i+1].Raw == x {
				return true
			}
		}
	}
	return false
}

func sameSpans(a []match.Match, b []ref.Span) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || a[i].Start != b[i].Start || a[i].End != b[i].End {
			return false
		}
	}
	return true
}

func wordTexts(alphabet []string, max int, prefix string) []string {
	out := []string{}
	level := []string{prefix}
	for n := 0; n <= max; n++ {
		out = append(out, level...)
		var next []string
		for _, t := range level {
			for _, a := range alphabet {
				next = append(next, strings.TrimSpace(t+" "+a))
			}
		}
		level = next
	}
	return out
}

func init() {
	reg(&eng.Check{ID: "C10", Level: "model_checking",
		Rule:        "all strings of bounded length over two alphabets of syntax tokens, and all small syntax trees in several source layouts: accepted exactly if the reference parser accepts them, errors located at an operator with nothing wrong before; every accepted pattern's matches on all short texts compared with the thread-set model and, where no wildcard cut or correction is involved, with plain language membership; non-trivial: texts with a match",
		Assumptions: []string{"Wildcard counts above 5000 are parsed in the check only where the pattern is otherwise malformed, because an accepted one takes memory in proportion."},
		Run:         runC10})
}

func runC10(c *eng.Ctx) {
	short := wordTexts([]string{"a", "b", "x"}, 3, "")
	after := wordTexts([]string{"a", "b", "x"}, 3, "q r")
	syn := func(name string, atoms []string, depth int, pre []string) {
		for k := 1; k <= depth; k++ {
			k := k
			c.Space(fmt.Sprintf("%s_%d", name, k), groups(atoms, k), fmt.Sprintf("all strings of %d tokens from %q, alone and after each of %q; language on all texts of up to 3 words over a b x", k, atoms, pre), func(w *eng.Worker, i int) {
				strs(atoms, k, i, func(src string) {
					re, _, tree := parse(w, src)
					if re != nil && tree.Valid() == nil {
						language(w, src, re, tree, short)
					}
					for _, p := range pre {
						if re, _, tree := parse(w, p+src); re != nil && (k < depth || len(src)%8 == 0) {
							w.Outcome("accepted")
							if w.WantSample() && k == 4 {
								w.Sample(map[string]string{"pattern": fmt.Sprintf("%q", p+src), "parsed": tree.String()})
							}
							language(w, p+src, re, tree, after)
						}
					}
				})
			})
		}
	}
	d1, d2 := 7, 5
	if c.Thorough {
		d1, d2 = 8, 6
	}
	syn("structure", []string{"a ", "b", "\n", "((", "))", "??", "||", "__2__", " "}, d1, []string{"q r "})
	syn("lexical", []string{"a", "(", "))", ")", "((", "?", "??", "|", "||", "_", "__", "3", "//**", "**//", "*", "/", " ", "\n", "\t", "\r\n"}, d2, []string{"q r ", "q r\n((a"})
	syn("words", []string{"copyright", "(c)", "©", " ", "__1__", "//** a **//", "\n((", "))\n", "||", "ab", "a", "b", "((a))??\n"}, 4, []string{"q r "})

	syn("bytes", []string{"(", "c", ")", "s", "<", ">", "/", "&", "copy;", "©", "{#", "}", "]", "http://", "#", " ", "\n", "é", "\xff", "\u0301", "a"}, d2-1, []string{"q r "})

	// Wildcard numbers.
	var nums []string
	for n := 0; n <= 40; n++ {
		nums = append(nums, fmt.Sprint(n))
	}
	nums = append(nums, "00", "007", "010", "099", "100", "255", "256", "257", "1000", "4096", "-1", "+1", "1_0", "0x10", "1e3", " 1", "1 ", "٣", "",
		"2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "4294967301", "6442450944", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551621", "99999999999999999999", "100000000000000000000000000000000000000")
	c.Space("wildcard_numbers", len(nums), "__N__ for every N in 0..40, leading zeros, signs, other digits, and numbers around 2^31, 2^32, 2^63, 2^64 and beyond: accepted or not, and the language on gaps of 0..44 words", func(w *eng.Worker, i int) {
		n := nums[i]
		var texts []string
		for g := 0; g <= 44; g++ {
			texts = append(texts, "q r"+strings.Repeat(" x", g)+" s", "q r"+strings.Repeat(" x", g)+" s t u v")
		}
		texts = append(texts, "q r __1__ s", "q r 007 s", "q r __ s")
		for _, f := range []string{"q r __%s__ s", "q r __%s__ s t u v", "q r _%s_ s", "q r __%s__", "q r ___%s___ s", "q r __%s__s t", "q r__%s__ s", "q r __%s____%s__ s", "q r\n((__%s__ s))??\nt", "q r\n((__%s__))??\ns"} {
			src := strings.ReplaceAll(f, "%s", n)
			if re, _, tree := parse(w, src); re != nil {
				language(w, src, re, tree, texts)
			}
		}
	})

	// Wide choices and long stretches.
	var wide []int
	for n := 1; n <= 40; n++ {
		wide = append(wide, n)
	}
	for n := 64; n <= 1<<16; n *= 2 {
		wide = append(wide, n-1, n, n+1)
	}
	c.Space("wide", len(wide), "choices of n words, alone, optional and repeated; comments, blanks, words, numbers and patterns of length n; n in 1..40 and around powers of 2 up to 2^16", func(w *eng.Worker, i int) {
		n := wide[i]
		list := []string{
			"q r //** " + strings.Repeat("x", n) + " **// a b",
			"q r //** " + strings.Repeat("(( ", n/3) + " **// a b",
			"q r //** " + strings.Repeat("x\n", n/2) + " **// a b //** y **//",
			"q r //** " + strings.Repeat("x", n) + " ** // a b",
			"q r a" + strings.Repeat(" ", n) + "b",
			"q r a" + strings.Repeat("\n", n) + "b",
			"q r\n((a))" + strings.Repeat("\n", n) + "b",
			"q r\n((a))" + strings.Repeat(" ", n) + "??" + strings.Repeat(" ", n) + "\nb",
			"q r\n" + strings.Repeat(" ", n) + "((a))\nb",
			"q r" + strings.Repeat(" ", n) + "((a))\nb",
			"q r a __" + strings.Repeat("0", n) + "1__ b",
			"q r a " + strings.Repeat("z", n) + " b",
			"q r a" + strings.Repeat(".", n) + "b",
		}
		long := strings.Repeat("z", n)
		texts := []string{"q r a b", "q r b", "q r a x b", "q r a x x b", "q r a " + long + " b", "q r", "q r c", "q r c b"}
		if n < 5000 {
			// Each choice, then what follows.
			var alt []string
			for k := 0; k < n; k++ {
				alt = append(alt, string(rune('a'+k%26))+strings.Repeat("k", k/26+1))
			}
			a := strings.Join(alt, " || ")
			list = append(list, "q r a "+strings.Join(alt, " ")+" b", "q r\n(("+strings.Join(alt, "))\n((")+"))\nb")
			if n <= 300 {
				list = append(list, "q r\n(("+a+"))\nb c", "q r\n(("+a+"))??\nb c", "q r\n(("+a+"))??\n(("+a+"))??\nb", "q r\n(("+a+"))\n(("+a+"))\nb", "q r\n(("+a+" || ))\nb c", "q r\n((("+a+"))??\nb c", "q r\n((\n(("+a+"))??\nx))??\nb c")
			}
			texts = append(texts, "q r b c", "q r "+alt[0]+" b c", "q r "+alt[n-1]+" b c", "q r "+alt[n/2]+" b c", "q r "+alt[n-1]+" "+alt[0]+" b", "q r a "+strings.Join(alt, " ")+" b", "q r "+strings.Join(alt, " ")+" b", "q r "+alt[0]+" x b c")
		}
		for _, src := range list {
			if re, _, tree := parse(w, src); re != nil {
				language(w, src, re, tree, texts)
			}
		}
	})

	// Syntax trees in several layouts.
	size, tl := 3, 5
	if c.Thorough {
		size, tl = 4, 6
	}
	leaves := []string{"a", "b", "a b", "__1__", "__2__", "__4__", ""}
	ts := ref.Trees(leaves, size)
	texts := wordTexts([]string{"a", "b", "x"}, tl, "q r")
	free := wordTexts([]string{"a", "b", "x"}, tl, "")
	c.Space("trees", len(ts), fmt.Sprintf("all syntax trees of at most %d leaves and optionals over %q, in 6 layouts, alone and after q r × all texts of up to %d words over a b x", size, leaves, tl), func(w *eng.Worker, i int) {
		src := ts[i].Source()
		pre := "q r\n"
		if !strings.HasPrefix(src, "((") {
			pre = "q r "
		}
		for k, l := range layouts(src) {
			tx := texts
			if k > 0 {
				tx = texts[:40]
			}
			if re, _, tree := parse(w, pre+l); re != nil {
				language(w, pre+l, re, tree, tx)
				if k > 0 && tree.String() != mustTree(pre+src).String() {
					w.Fail(patCase{l, ""}, "", "the reference reads %q and %q differently", src, l)
				}
			}
			if re, _, tree := parse(w, l); re != nil && tree.Valid() == nil {
				if k == 0 {
					language(w, l, re, tree, free)
				} else {
					language(w, l, re, tree, free[:40])
				}
			}
		}
	})
	// What stands next to an operator.
	var near []string
	for b := 0; b < 256; b++ {
		near = append(near, string([]byte{byte(b)}))
	}
	near = append(near, "\u0085", "\u00a0", "\u2028", "\u2003", "\ufeff", "\u0300", "é", "世")
	blank := []string{" ", "\t", "\n", "\r", "\v", "\f", "\x00", "\u0085", "\u00a0", "\u2028", "a"}
	for _, x := range blank {
		for _, y := range blank {
			near = append(near, x+y)
			for _, z := range blank {
				near = append(near, x+y+z)
			}
		}
	}
	spots := []string{"q r%s((a))\nb", "q r\n%s((a))\nb", "q r\n((%sa))\nb", "q r\n((a%s))\nb", "q r\n((a))%sb", "q r\n((a))%s??\nb", "q r\n((a))??%sb", "q r\n((a %s|| x))\nb", "q r\n((a ||%s x))\nb",
		"q r %s__1__ b", "q r __1__%s b", "q r __%s1__ b", "q r __1%s__ b", "q r %s//** a **// b", "q r //** a **//%s b", "q r //**%s**// b", "q r\n((a))\n%s((x))\nb", "q r\n((a))%s))\nb", "%s((a))\nb x", "q r\n((a b))%s", "%sq r a"}
	c.Space("neighbours", len(spots), "every byte, other white space, and every string of 2 and 3 kinds of blanks, at each place next to an operator", func(w *eng.Worker, i int) {
		for _, x := range near {
			src := strings.Replace(spots[i], "%s", x, 1)
			if re, _, tree := parse(w, src); re != nil {
				language(w, src, re, tree, []string{"q r a b", "q r b", "q r x b", "q r a x b", "q r a", "a b x", "q r x x b"})
			}
		}
	})

	// Deep nesting and long patterns.
	var deep []int
	for n := 1; n <= 40; n++ {
		deep = append(deep, n)
	}
	deep = append(deep, 64, 100, 255, 256, 257, 1000)
	c.Space("nesting", len(deep), "groups, optionals and alternations nested or repeated n times, for n in 1..40 and up to 1000", func(w *eng.Worker, i int) {
		n := deep[i]
		for _, src := range []string{
			"q r\n" + strings.Repeat("((\n", n) + "a" + strings.Repeat("))\n", n),
			"q r\n" + strings.Repeat("((\n", n) + "a" + strings.Repeat("))??\n", n) + "b",
			"q r\n((" + strings.Repeat("a ||", n) + " b))\nx",
			"q r\n" + strings.Repeat("((a || b\n", n) + strings.Repeat("))\n", n),
			"q r\n" + strings.Repeat("((a))??\n", n) + "b",
			"q r " + strings.Repeat("//** x **// ", n) + "a",
			"q r " + strings.Repeat("a ", n) + "b",
			"q r " + strings.Repeat("((\n", n) + "a" + strings.Repeat("))\n", n),
			"q r\n" + strings.Repeat("((\n", n) + "a" + strings.Repeat("))\n", n-1),
			"q r\n" + strings.Repeat("((\n", n) + "a" + strings.Repeat("))\n", n+1),
			"q r\n" + strings.Repeat("((", n) + "a" + strings.Repeat("))", n),
			"q r __1__ " + strings.Repeat("__1__ ", n) + "b",
		} {
			if n > 100 && strings.Contains(src, "__1__") {
				continue
			}
			re, _, tree := parse(w, src)
			if re == nil {
				continue
			}
			tx := []string{"q r a", "q r b", "q r a b", "q r a a b", "q r x", "q r b x", "q r" + strings.Repeat(" a", n) + " b", "q r" + strings.Repeat(" a", n+1) + " b", "q r" + strings.Repeat(" a", n-1) + " b x", "q r" + strings.Repeat(" x", n+1) + " b", "q r" + strings.Repeat(" x", n+2) + " b"}
			language(w, src, re, tree, tx)
		}
	})
}

func mustTree(src string) *ref.Node {
	t, err := ref.ParseLRE(src, nil)
	if err != nil {
		panic(fmt.Sprintf("%v: %q", err, src))
	}
	return t
}

// layouts returns src and the same pattern written differently.
func layouts(src string) []string {
	out := []string{src}
	out = append(out, strings.ReplaceAll(src, "\n", "\n\n \t"))                                      // more blank lines
	out = append(out, strings.ReplaceAll(strings.ReplaceAll(src, "a", "A,"), "b", "\"B\""))          // case and punctuation
	out = append(out, strings.ReplaceAll(strings.ReplaceAll(src, "))", "\n))"), " ", "  "))          // )) on its own line
	out = append(out, strings.ReplaceAll(src, "a", "a //** (( || )) __9__ b **//"))                  // comments
	out = append(out, strings.ReplaceAll(strings.ReplaceAll(src, "||", "\n||\n"), "??", "  ??  \t")) // spread out
	return out
}
