#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 manifest.py"""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
REF = "Trusts the reference model in ref/, written from the documentation and compared with the real code on every case; complete within the stated bounds, nothing beyond them."
SCAN = "bounded exhaustive enumeration of license lists and texts on the real scanner, against "
checks = {
 "C01": ("model_checking", SCAN + "an explicit-state search for a justifying parse", REF),
 "C02": ("model_checking", SCAN + "an explicit-state thread-set model of all patterns", REF),
 "C03": ("exploration", SCAN + "structural invariants of the result", "Complete within the stated bounds; the invariants need no model."),
 "C04": ("exploration", SCAN + "a recount of the covered words", "Trusts the reference tokenizer (decided by C07)."),
 "C05": ("model_checking", SCAN + "an explicit-state model's match positions and the documented extents", REF),
 "C06": ("model_checking", SCAN + "an explicit-state model of matches and the documented URL rule", REF),
 "C07": ("exploration", "bounded exhaustive enumeration of texts (all runes in contexts, all short strings of special tokens) on the real tokenizer, against a reference tokenizer", REF),
 "C08": ("model_checking", "exhaustive enumeration of layout and spelling variants at every position of small and built-in texts, on the real scanner", "Metamorphic: both sides come from the real code; which variants keep the words is stated by construction."),
 "C09": ("model_checking", SCAN + "an explicit-state model with the documented corrections", REF),
 "C10": ("model_checking", "bounded exhaustive enumeration of pattern token strings and syntax trees on the real parser and matcher, against a reference parser, a denotational and an explicit-state model", REF),
 "C11": ("model_checking", "bounded exhaustive enumeration of license lists, against the reference's acceptance rule and model", REF),
 "C12": ("model_checking", "all operation histories of NewScanner, Scan, BuiltinLicenses and caller mutations up to a depth, on the real code", "Answers compared with those of a fresh scanner; complete up to the stated depth."),
 "C13": ("model_checking", "stateless exploration of all goroutine schedules of the instrumented real code up to a preemption bound", "Interleavings at statement granularity up to the preemption bound, all of them at synchronization points; a separate free run under the race detector supports it."),
 "C14": ("model_checking", "exhaustive first-use histories in fresh processes and enumeration of texts, Scan against NewScanner(BuiltinLicenses())", "Both sides come from the real code."),
 "C15": ("model_checking", "enumeration of all expansions of every built-in pattern, scanned and checked against the explicit-state model of the whole list", REF),
 "C16": ("model_checking", "exhaustive: all pairs and triples of license types", "Complete for all combinations of the named bits."),
 "C17": ("model_checking", "exhaustive: all types, all token strings up to a bound", "Complete for all combinations of named bits and for short names."),
 "C18": ("exploration", "exhaustive comparison of every embedded pattern with an independent expansion, and the real generator on all small template directories", "Trusts the independent template expansion."),
 "C19": ("model_checking", "all operation sequences on a dictionary up to a depth, against a map model", "Complete up to the stated depth."),
 "C20": ("model_checking", SCAN + "an explicit-state model with wildcard cuts", REF),
 "C21": ("model_checking", "bounded exhaustive enumeration of license lists, options, texts and call histories on the old checker", "Invariants need no model."),
 "C22": ("model_checking", "bounded exhaustive enumeration of license lists, options and texts on the old checker, against a reference", REF),
 "C23": ("model_checking", "exhaustive enumeration of contexts, offsets and list sizes around small matches on the real scanner", "Metamorphic: both sides come from the real code."),
 "C24": ("model_checking", "explicit-state model of the converters' effect on a file tree, every transition (database state, file state, command line, fault, truncation) replayed on the real programs in a scratch directory", "The go command they start at the end is a stand-in; reads fail by absence, bad content or truncation only."),
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = {}
done = {d for d in ("pub", "mat", "old", "sys", "conc") if os.path.isdir("cmd/" + d)}
where = {"C07": "mat", "C10": "mat", "C19": "mat", "C21": "old", "C22": "old", "C18": "sys", "C24": "sys", "C13": "conc"}
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if where.get(p, "pub") not in done:
        out["not_applicable"].append({"property": p, "reason": "The check is still being built."})
        continue
    level, tech, note = checks[p]
    out["checks"].append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": level, "level_note": note})
out["notes"] = "No hooks in /repo: the checks use the public API, internal/match (the framework's module path lies below google/licensecheck) and, for C13, a build overlay made from /repo's current tree."
json.dump(out, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
