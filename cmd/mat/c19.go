package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

func sortStrings(l []string) { sort.Strings(l) }

// A dictOp is one operation; the model is the list of words in order of insertion.
type dictOp struct {
	op  string // insert, lookup, words, split, insertsplit
	arg string
}

func (o dictOp) String() string { return fmt.Sprintf("%s(%q)", o.op, o.arg) }

var dictOps = []dictOp{
	{"insert", "a"}, {"insert", "b"}, {"insert", "copyright"}, {"insert", ""}, {"insert", "A"}, {"insert", "©"},
	{"split", "a b"}, {"split", "Copyright © a"}, {"split", "x the"},
	{"insertsplit", "a b a"}, {"insertsplit", "(c) Copyright x"}, {"insertsplit", "these"}, {"insertsplit", "A <b> é"}, {"insertsplit", ""},
}

var probes = []string{"a", "b", "copyright", "", "A", "©", "x", "the", "these", "e", "é", "c", "ab"}

type dictModel struct{ list []string }

func (m *dictModel) lookup(w string) int {
	for i, x := range m.list {
		if x == w {
			return i
		}
	}
	return -1
}

func (m *dictModel) insert(w string) int {
	if i := m.lookup(w); i >= 0 {
		return i
	}
	m.list = append(m.list, w)
	return len(m.list) - 1
}

// one runs one operation and compares its answer.
func (m *dictModel) one(w *eng.Worker, d *match.Dict, o dictOp) {
	short := fmt.Sprintf("%s of a text of %d bytes", o.op, len(o.arg))
	if o.op == "insert" {
		if got, want := int(d.Insert(o.arg)), m.insert(o.arg); got != want {
			w.Fail(len(o.arg), "", "%s = %d, want %d", short, got, want)
		}
		return
	}
	var got []match.Word
	if o.op == "split" {
		got = d.Split(o.arg)
	} else {
		got = d.InsertSplit(o.arg)
	}
	toks := ref.Tokenize(o.arg, true)
	if len(got) != len(toks) {
		w.Fail(len(o.arg), "", "%s gives %d words, want %d", short, len(got), len(toks))
	}
	for i, t := range toks {
		id := m.lookup(t.W)
		if o.op == "insertsplit" {
			id = m.insert(t.W)
		}
		if int(got[i].ID) != id || int(got[i].Lo) != t.Lo || int(got[i].Hi) != t.Hi {
			w.Fail(len(o.arg), "", "%s: word %d is %+v, want %d at [%d,%d)", short, i, got[i], id, t.Lo, t.Hi)
		}
	}
}

// apply runs one operation on both and compares the answers and the state.
func (m *dictModel) apply(w *eng.Worker, d *match.Dict, o dictOp, hist []dictOp) {
	bad := func(format string, args ...interface{}) {
		w.Fail(map[string]interface{}{"history": fmt.Sprint(hist)}, "", "after %v: %s", hist, fmt.Sprintf(format, args...))
	}
	switch o.op {
	case "insert":
		got, want := int(d.Insert(o.arg)), m.insert(o.arg)
		if got != want {
			bad("Insert(%q) = %d, want %d", o.arg, got, want)
		}
	case "split", "insertsplit":
		merge := o.op == "insertsplit" || m.lookup("copyright") >= 0
		toks := ref.Tokenize(o.arg, merge)
		var got []match.Word
		if o.op == "split" {
			got = d.Split(o.arg)
		} else {
			got = d.InsertSplit(o.arg)
		}
		if len(got) != len(toks) {
			bad("%v gives %d words, want %d", o, len(got), len(toks))
		}
		for i, t := range toks {
			id := m.lookup(t.W)
			if o.op == "insertsplit" {
				id = m.insert(t.W)
			}
			if int(got[i].ID) != id || int(got[i].Lo) != t.Lo || int(got[i].Hi) != t.Hi {
				bad("%v: word %d is %+v, want %d at [%d,%d)", o, i, got[i], id, t.Lo, t.Hi)
			}
		}
	}
	words := d.Words()
	if len(words) != len(m.list) {
		bad("Words() = %q, want %q", words, m.list)
	}
	for i := range words {
		if words[i] != m.list[i] {
			bad("Words() = %q, want %q", words, m.list)
		}
	}
	for _, p := range probes {
		if got, want := int(d.Lookup(p)), m.lookup(p); got != want {
			bad("Lookup(%q) = %d, want %d", p, got, want)
		}
	}
}

func init() {
	reg(&eng.Check{ID: "C19", Level: "model_checking",
		Rule:        "all sequences of up to a bounded number of operations (Insert, Split, InsertSplit) on an empty dictionary, with every answer, the word list and lookups of 13 probe words compared with a list model after each; the same over patterns compiled with a shared dictionary; and dictionaries of many words; non-trivial: all",
		Assumptions: []string{"Without insertion, repeated copyright signs merge only if the word copyright is known, as Split cannot know it otherwise."},
		Run:         runC19})
}

func runC19(c *eng.Ctx) {
	depth := 6
	if c.Thorough {
		depth = 7
	}
	n := len(dictOps)
	states := map[string]bool{}
	c.Space("histories", n*n, fmt.Sprintf("all histories of 1..%d of %d operations", depth, n), func(w *eng.Worker, i int) {
		seen := map[string]bool{}
		var rec func(hist []dictOp)
		rec = func(hist []dictOp) {
			d, m := new(match.Dict), &dictModel{}
			for k, o := range hist {
				if k == len(hist)-1 {
					m.apply(w, d, o, hist)
				} else { // already checked as a shorter history
					m.quick(d, o)
				}
			}
			w.Evals++
			w.Nontrivial++
			w.Trans++
			w.Traces++
			seen[fmt.Sprintf("%q", m.list)] = true
			if len(hist) == depth {
				return
			}
			for _, o := range dictOps {
				rec(append(hist[:len(hist):len(hist)], o))
			}
		}
		if i%n == 0 {
			d, m := new(match.Dict), &dictModel{}
			m.apply(w, d, dictOps[i/n], []dictOp{dictOps[i/n]})
		}
		rec([]dictOp{dictOps[i/n], dictOps[i%n]})
		c.Lock(func() {
			for s := range seen {
				states[s] = true
			}
		})
		if w.WantSample() && i%37 == 5 {
			w.Sample(fmt.Sprint([]dictOp{dictOps[i/n], dictOps[i%n]}))
		}
	})
	c.AddModel(int64(len(states)), 0, 0)
	sizes := []int{1, 2, 3, 7, 8, 9, 100, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 1 << 20}
	if c.Thorough {
		sizes = append(sizes, 1<<22, 1<<24)
	}
	c.Space("many", len(sizes), "dictionaries of n words, inserted one by one and by splitting; all looked up again; the words as a text split again", func(w *eng.Worker, i int) {
		n := sizes[i]
		d, d2 := new(match.Dict), new(match.Dict)
		var text strings.Builder
		for k := 0; k < n; k++ {
			x := fmt.Sprintf("w%d", k)
			w.Evals++
			if got := d.Insert(x); int(got) != k {
				w.Fail(n, "", "Insert of word %d = %d", k, got)
			}
			text.WriteString(x)
			text.WriteByte(' ')
		}
		for j, got := range d2.InsertSplit(text.String()) {
			if int(got.ID) != j {
				w.Fail(n, "", "InsertSplit: word %d has number %d", j, got.ID)
			}
		}
		got := d.Split(text.String())
		if len(got) != n || len(d.Words()) != n || len(d2.Words()) != n {
			w.Fail(n, "", "Split of %d words gives %d; dictionaries have %d and %d", n, len(got), len(d.Words()), len(d2.Words()))
		}
		for k := 0; k < n; k++ {
			x := fmt.Sprintf("w%d", k)
			w.Evals++
			w.Trans++
			w.Traces++
			if int(d.Lookup(x)) != k || int(d2.Lookup(x)) != k || d.Words()[k] != x || d2.Words()[k] != x || int(got[k].ID) != k || d.Insert(x) != match.WordID(k) {
				w.Fail(n, "", "word %d of %d: Lookup %d, %d, Split %d", k, n, d.Lookup(x), d2.Lookup(x), got[k].ID)
			}
		}
		w.Nontrivial++
		w.States += int64(n)
	})
	spaceWordPairs(c)
	var lens []int
	for n := 1; n <= 300; n++ {
		lens = append(lens, n)
	}
	top := 17
	if c.Thorough {
		top = 22
	}
	for k := 9; k <= top; k++ {
		lens = append(lens, 1<<uint(k)-1, 1<<uint(k), 1<<uint(k)+1)
	}
	c.Space("long_words", len(lens), fmt.Sprintf("words of each length 1..300 and around powers of two up to 2^%d that differ only in the first, middle or last letter, of four kinds of letters, inserted and split in every order of ways", top), func(w *eng.Worker, i int) {
		n := lens[len(lens)-1-i]
		for _, unit := range []string{"a", "7", "ж", "ab"} {
			base := strings.Repeat(unit, n)
			var ws []string
			for _, p := range []string{"", "z"} {
				for _, q := range []string{"", "z", "zz"} {
					ws = append(ws, p+base+q, p+base[:len(base)/2/len(unit)*len(unit)]+"z"+base[len(base)/2/len(unit)*len(unit):]+q)
				}
			}
			for way := 0; way < 4; way++ {
				d, m := new(match.Dict), &dictModel{}
				for k, x := range ws {
					ins := "insert"
					if (k+way)%2 == 0 {
						ins = "insertsplit"
					}
					ops := []dictOp{{"split", x}, {ins, x}, {"split", x + " " + strings.ToUpper(x) + "\n" + x}}
					if way >= 2 {
						ops = []dictOp{{ins, x}, {"insert", x}, {"insertsplit", "(" + x + ") " + x}}
					}
					for _, o := range ops {
						w.Evals++
						w.Nontrivial++
						w.Trans++
						m.one(w, d, o)
					}
				}
				for k, x := range m.list {
					if int(d.Lookup(x)) != k || d.Words()[k] != x {
						w.Fail(n, "", "dictionary of words of about %d letters: Lookup of word %d = %d", n, k, d.Lookup(x))
					}
				}
				if len(d.Words()) != len(m.list) {
					w.Fail(n, "", "dictionary of words of about %d letters has %d words, want %d", n, len(d.Words()), len(m.list))
				}
				w.Traces++
			}
		}
	})
	// Matching and compiling through a shared dictionary.
	pats := []string{"a b c", "a b\n((c || d))", "copyright x __2__ a b", "a b __5__ c d e", "b a (c)", "e f\n((g))??", "a b ((", "x y __3__"}
	texts := []string{"a b c z", "new words here a b c", "Copyright (c) copyright x q a b", "é (c) © <b>", "a b q q c d e f g", ""}
	c.Space("shared", 1<<uint(len(pats)), "every set of patterns parsed with one dictionary (valid and malformed), then matched on texts with unknown words: parsing only adds, matching never changes it, numbers stay", func(w *eng.Worker, i int) {
		d := new(match.Dict)
		var lres []*match.LRE
		var before []string
		stable := func(what string) {
			ws := d.Words()
			if len(ws) < len(before) {
				w.Fail(i, "", "%s removed words: %q to %q", what, before, ws)
			}
			for k := range before {
				if ws[k] != before[k] {
					w.Fail(i, "", "%s renumbered words: %q to %q", what, before, ws)
				}
			}
			seen := map[string]bool{}
			for k, x := range ws {
				if seen[x] || int(d.Lookup(x)) != k {
					w.Fail(i, "", "%s: word %q at %d, Lookup %d", what, x, k, d.Lookup(x))
				}
				seen[x] = true
			}
			before = append([]string{}, ws...)
		}
		for k, p := range pats {
			if i>>uint(k)&1 == 0 {
				continue
			}
			l, err := match.ParseLRE(d, fmt.Sprint("file", k), p)
			w.Evals++
			w.Trans++
			w.Traces++
			stable("ParseLRE")
			if err == nil {
				if l.Dict() != d || l.File() != fmt.Sprint("file", k) {
					w.Fail(i, "", "Dict or File of pattern %d is not what was passed", k)
				}
				lres = append(lres, l)
			}
		}
		re, err := match.NewMultiLRE(lres)
		if err != nil {
			w.Fail(i, "", "NewMultiLRE: %v", err)
		}
		if len(lres) > 0 && re.Dict() != d {
			w.Fail(i, "", "MultiLRE.Dict is not the shared dictionary")
		}
		n := len(re.Dict().Words())
		for _, t := range texts {
			w.Evals++
			w.Trans++
			w.Traces++
			m := re.Match(t)
			stable("Match")
			if len(re.Dict().Words()) != n || m.Text != t {
				w.Fail(i, "", "Match(%q) changed the dictionary or the text", t)
			}
			toks := ref.Tokenize(t, re.Dict().Lookup("copyright") >= 0)
			if len(m.Words) != len(toks) {
				w.Fail(i, "", "Match(%q) has %d words, want %d", t, len(m.Words), len(toks))
			}
			for k, x := range m.Words {
				if x.ID != re.Dict().Lookup(toks[k].W) || int(x.Lo) != toks[k].Lo || int(x.Hi) != toks[k].Hi {
					w.Fail(i, "", "Match(%q): word %d is %+v, want %v", t, k, x, toks[k])
				}
			}
		}
		w.Nontrivial++
	})
}

func (m *dictModel) quick(d *match.Dict, o dictOp) {
	switch o.op {
	case "insert":
		d.Insert(o.arg)
		m.insert(o.arg)
	case "split":
		d.Split(o.arg)
	case "insertsplit":
		d.InsertSplit(o.arg)
		for _, t := range ref.Tokenize(o.arg, true) {
			m.insert(t.W)
		}
	}
}
