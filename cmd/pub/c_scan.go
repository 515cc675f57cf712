package main

import (
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

// everything runs all spaces of license lists and texts with one oracle.
func everything(c *eng.Ctx, o Oracle) {
	spaceURLOnly(c, o)
	spaceIdentity(c, o)
	spaceTrees(c, o)
	spaceHeads(c, o)
	spaceTails(c, o)
	spacePairs(c, o)
	spaceCuts(c, o)
	spaceWild(c, o)
	spaceSpelling(c, o)
	spaceCopyright(c, o)
	spaceGaps(c, o)
	spaceURLs(c, o)
	spaceURLBytes(c, o)
	spaceSoup(c, o)
	spaceLists(c, o)
	spaceScale(c, o)
	spacePreambles(c, o)
	spaceWide(c, o)
	spaceFar(c, o)
	spaceCorrections(c, o)
	spaceSeams(c, o)
	spaceEnds(c, o)
	spaceStraddle(c, o)
	spaceDictionary(c, o)
	spaceBuiltin(c, o)
	spaceBuiltinURLs(c, o)
}

const scanRule = "all license lists and texts of the listed bounded spaces: small syntax trees × short texts, literal pairs and triples, wildcard cuts and limits, spelling edits, joins and splits, copyright notices and gaps, URL forms, special characters, list sizes, lengths, and the built-in list with every expansion of its templates in several layouts; non-trivial: the text holds the first two words of some pattern (or the oracle's own trigger)"

var scanAssume = []string{"Texts in which the reference finds two different possible corrections of one word are compared for soundness only (counted as skipped_ambiguous)."}

func scanCheck(id, level string, o Oracle) {
	reg(&eng.Check{ID: id, Level: level, Rule: scanRule, Assumptions: scanAssume, Run: func(c *eng.Ctx) { everything(c, o) }})
}

// oExtents: where Scan and the reference report the same licenses, their byte ranges agree.
func oExtents(w *eng.Worker, s *Set, text string, toks []ref.Tok, got ref.Coverage) {
	spans, amb := s.Ref.M.Matches(toks)
	if amb {
		w.Skipped++
		return
	}
	want := ref.Cover(toks, s.Ref.Regions(text, toks, spans))
	var x, y []ref.Match
	for _, m := range got.Match {
		if !m.IsURL {
			x = append(x, m)
		}
	}
	for _, m := range want.Match {
		if !m.IsURL {
			y = append(y, m)
		}
	}
	if len(x) != len(y) {
		w.Skipped++
		return
	}
	for i := range x {
		if x[i].ID != y[i].ID {
			w.Skipped++
			return
		}
	}
	w.Traces++
	for i := range x {
		if x[i].Start != y[i].Start || x[i].End != y[i].End {
			s.fail(w, text, got, &want, "match %d is [%d,%d), want [%d,%d)", i, x[i].Start, x[i].End, y[i].Start, y[i].End)
		}
	}
}

func init() {
	scanCheck("C01", "model_checking", all(oSound, oStruct))
	scanCheck("C02", "model_checking", oMatches)
	scanCheck("C03", "exploration", oStruct)
	scanCheck("C04", "exploration", oPercent)
	scanCheck("C05", "model_checking", oExtents)
	scanCheck("C06", "model_checking", oURLs)
	scanCheck("C09", "model_checking", all(oMatches, oSound))
	scanCheck("C20", "model_checking", all(oMatches, oSound))
}
