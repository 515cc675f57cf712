package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
)

func init() {
	reg(&eng.Check{ID: "C24", Level: "model_checking",
		Rule: "A state is the content of the scratch tree (database, patterns, test data); a transition is one invocation of the real converter, whose effect on the tree and exit status is compared with the model's set of allowed effects. A trace is one history of invocations. Evaluations are invocations and converted patterns checked; non-trivial are those where the database holds a fault, a pattern exists already, or a pattern is written.",
		Assumptions: []string{
			"The go command that the converters start at the end is a stand-in whose exit status is chosen.",
			"Reads fail only by absence or by wrong content; writes fail only when the target is a directory.",
		},
		Run: c24})
}

const absent = "\x00absent"

// values is a set of allowed contents of one path.
type values map[string]bool

func (v values) String() string {
	var s []string
	for k := range v {
		if k == absent {
			k = "(absent)"
		}
		s = append(s, fmt.Sprintf("%.40q", k))
	}
	sort.Strings(s)
	return strings.Join(s, " or ")
}

// An input is the state of one license in the database.
type input struct {
	Kind string
	// files below licenses/ that make it
	Files map[string]string
	// What a conversion request for it means:
	Skip   bool   // deprecated or excluded: nothing is written
	Err    bool   // it must be reported
	MayErr bool   // it may be reported
	Fatal  bool   // it may end the run
	ID     string // license written
	Short  bool   // it must be reported if a pattern would be written
	NoText bool   // pattern may be written, but the missing text must be reported
	Text   string
}

type tool struct {
	name  string
	prog  string
	dirs  []string          // directories that must exist
	conv  map[string]string // input kind and ID to the pattern it gives
	all   bool              // the name "all" is special
	inLic string
}

type command struct {
	Flags []string
	Args  []string
	GoRC  int
}

func (c command) force() bool {
	for _, f := range c.Flags {
		if f == "-f" || f == "-f=true" {
			return true
		}
	}
	return false
}

// step gives the allowed contents after the command, for the paths that may change,
// and whether it must or may report an error.
func (t *tool) step(db map[string]input, fs map[string]string, c command) (cur map[string]values, mustErr, mayErr bool) {
	cur = map[string]values{}
	get := func(p string) values {
		if v := cur[p]; v != nil {
			return v
		}
		s, ok := fs[p]
		if !ok {
			if _, isDir := fs[p+"/"]; isDir {
				return values{"\x00dir": true}
			}
			s = absent
		}
		return values{s: true}
	}
	if c.GoRC != 0 {
		mustErr = true
	}
	if len(c.Args) == 0 {
		return cur, true, true
	}
	for _, d := range t.dirs {
		if _, ok := fs["licenses/"+d+"/"]; !ok {
			return cur, true, true
		}
	}
	args := c.Args
	if t.all && len(args) == 1 && args[0] == "all" {
		args = nil
		for name, in := range db {
			if len(in.Files) > 0 {
				args = append(args, name)
			}
		}
		sort.Strings(args)
	}
	dead := false // the run may have ended
	for _, name := range args {
		name = strings.TrimSuffix(strings.TrimPrefix(name, "_spdx/json/details/"), ".json")
		in, ok := db[name]
		if !ok || len(in.Files) == 0 {
			mustErr = true
			continue
		}
		mustErr = mustErr || in.Err
		mayErr = mayErr || in.MayErr
		if in.Skip || in.ID == "" {
			dead = dead || in.Fatal
			continue
		}
		// A usable license: write the pattern.
		p := "licenses/" + in.ID + ".lre"
		old := get(p)
		if in.Short {
			mayErr = true
			mustErr = mustErr || c.force() || len(old) == 1 && old[absent]
			continue
		}
		pat := t.conv[in.Kind+" "+in.ID]
		now := values{}
		writes := false
		for v := range old {
			switch {
			case v == "\x00dir":
				now[v] = true
				if c.force() {
					mustErr = true
				}
				continue
			case v == absent || c.force():
				now[pat] = true
				writes = true
				if dead || in.NoText {
					now[v] = true
				}
			default:
				now[v] = true
			}
		}
		cur[p] = now
		if writes && in.NoText {
			mustErr = true
		}
		if in.NoText {
			mayErr = true
			continue
		}
		// The test data that goes with it.
		tp := "testdata/licenses/" + in.ID + ".txt"
		tv := values{in.Text: true}
		for v := range get(tp) {
			tv[v] = true
		}
		cur[tp] = tv
		sp := "testdata/" + in.ID + ".t1"
		sv := values{}
		for v := range get(sp) {
			sv[v] = true
			if v == absent {
				sv["0%\nscan\n100%\n"+in.ID+" 100% 0,$\n\n"+in.Text] = true
			}
		}
		cur[sp] = sv
	}
	return cur, mustErr, mayErr || mustErr
}

// history is a case: a scratch tree and commands.
type history struct {
	Tool  string
	Files map[string]string
	Cmds  []command
}

type c24run struct {
	p      pool
	bin    string
	mu     sync.Mutex
	states map[string]bool
}

func envFor(dir string, rc int) []string {
	return []string{"PATH=" + filepath.Join(dir, fmt.Sprintf("bin%d", rc)), "HOME=" + dir, "TMPDIR=" + dir}
}

// play runs a history and checks every step.
func (r *c24run) play(w *eng.Worker, t *tool, db map[string]input, pre map[string]string, cmds []command) {
	dir := r.p.get()
	defer r.p.put(dir)
	files := map[string]string{}
	for _, in := range db {
		for k, v := range in.Files {
			files["licenses/"+k] = v
		}
	}
	for k, v := range pre {
		if v == absent {
			delete(files, k)
			continue
		}
		files[k] = v
	}
	for _, d := range []string{"licenses/", "testdata/licenses/"} {
		files[d] = ""
	}
	for _, d := range t.dirs {
		if pre["licenses/"+d+"/"] != absent && pre["licenses/"+d] == "" {
			files["licenses/"+d+"/"] = ""
		}
	}
	root := filepath.Join(dir, "x")
	os.Mkdir(root, 0777)
	write(root, files)
	for rc := 0; rc < 2; rc++ {
		os.Symlink(filepath.Join(r.bin, fmt.Sprintf("bin%d", rc)), filepath.Join(dir, fmt.Sprintf("bin%d", rc)))
	}
	fs := snapshot(root)
	cs := history{t.name, files, cmds}
	for i, c := range cmds {
		w.Evals++
		w.Trans++
		cur, mustErr, mayErr := t.step(db, fs, c)
		res := run(filepath.Join(root, "licenses"), envFor(dir, c.GoRC), t.prog, append(append([]string{}, c.Flags...), c.Args...)...)
		after := snapshot(root)
		say := func(format string, args ...interface{}) {
			w.Fail(cs, "", "%s %s %s (command %d, exit status %d): %s\nstderr: %s", t.name, strings.Join(c.Flags, " "), strings.Join(c.Args, " "), i+1, res.Code, fmt.Sprintf(format, args...), res.Stderr)
		}
		changed := false
		for _, m := range []map[string]string{fs, after} {
			for p := range m {
				want := cur[p]
				old, had := fs[p]
				if !had {
					old = absent
				}
				if want == nil {
					want = values{old: true}
				}
				got, ok := after[p]
				if !ok {
					got = absent
				}
				if !want[got] && !want["\x00dir"] {
					say("%s is %.60q, want %v", p, got, want)
				}
				if got != old {
					changed = true
				}
			}
		}
		for p, want := range cur {
			if _, ok := after[p]; !ok && !want[absent] {
				if _, isDir := after[p+"/"]; !isDir {
					say("%s was not written", p)
				}
			}
		}
		if mustErr && res.Code == 0 {
			say("a missing or unusable input was not reported")
		}
		if !mayErr && res.Code != 0 {
			say("reports an error for usable inputs")
		}
		if changed || mustErr || len(pre) > 0 {
			w.Nontrivial++
		}
		w.Outcome(fmt.Sprintf("exit %d, changed %v", res.Code, changed))
		r.state(w, fs)
		r.state(w, after)
		fs = after
	}
	w.Traces++
	if w.WantSample() && len(cmds) > 1 {
		var names []string
		for k := range files {
			names = append(names, k)
		}
		sort.Strings(names)
		w.Sample(map[string]interface{}{"tool": t.name, "files": names, "commands": cmds})
	}
}

func (r *c24run) state(w *eng.Worker, fs map[string]string) {
	var ks []string
	for k := range fs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := hash64()
	for _, k := range ks {
		h.add(k)
		h.add(fs[k])
	}
	key := fmt.Sprint(h.sum())
	r.mu.Lock()
	if !r.states[key] {
		r.states[key] = true
		w.States++
	}
	r.mu.Unlock()
}

type hasher struct{ a, b uint64 }

func hash64() *hasher { return &hasher{14695981039346656037, 1099511628211} }
func (h *hasher) add(s string) {
	for i := 0; i < len(s); i++ {
		h.a = (h.a ^ uint64(s[i])) * 1099511628211
		h.b = h.b*6364136223846793005 + uint64(s[i]) + 1442695040888963407
	}
	h.a = (h.a ^ 0x1ff) * 1099511628211
	h.b = h.b*6364136223846793005 + 7
}
func (h *hasher) sum() [2]uint64 { return [2]uint64{h.a, h.b} }

// ---- SPDX ----

func spdxJSON(id, tmpl string, deprecated bool) string {
	b, err := json.Marshal(map[string]interface{}{
		"isDeprecatedLicenseId":   deprecated,
		"licenseText":             "the text",
		"standardLicenseTemplate": tmpl,
		"name":                    "Name of " + id,
		"licenseId":               id,
		"seeAlso":                 []string{"https://example.com/" + id},
		"isOsiApproved":           false,
	})
	if err != nil {
		fatal(err)
	}
	return string(b)
}

var spdxKinds = []string{"ok", "absent", "truncated", "notext", "deprecated", "noid", "notemplate", "openTag", "unknownTag", "strayEnd", "openOptional", "wrongType", "deprecatedBad", "array", "other"}

// spdxInput makes the database entry for id. Excluded licenses are those in the converter's own documentation.
func spdxInput(id, kind string, excluded bool) input {
	tmpl := "License <<beginOptional>>of kind<<endOptional>> " + id + " permits\n\n   everything to <<var;name=\"who\";original=\"anyone at all\";match=\".+\">> in the world.\n"
	in := input{Kind: kind, ID: id, Text: "License of kind " + id + " permits everything to anyone at all in the world."}
	js := spdxJSON(id, tmpl, false)
	bad := func(t string) {
		js = spdxJSON(id, t, false)
		in.Err, in.Fatal, in.ID = true, true, ""
	}
	switch kind {
	case "ok":
	case "absent":
		return input{Kind: kind}
	case "truncated":
		js = js[:len(js)-1]
		in.Err, in.ID = true, ""
	case "notext":
		in.NoText = true
	case "deprecated":
		js = spdxJSON(id, tmpl, true)
		in.Skip = true
	case "deprecatedBad":
		js = spdxJSON(id, tmpl+"<<", true)
		in.Skip, in.MayErr, in.Fatal = true, true, true
	case "noid":
		js = spdxJSON("", tmpl, false)
		in.Err, in.ID = true, ""
	case "notemplate":
		js = spdxJSON(id, "", false)
		in.Err, in.Fatal, in.ID = true, true, ""
	case "openTag":
		bad(tmpl + "<<var;name=")
	case "unknownTag":
		bad("start <<begin>> " + tmpl)
	case "strayEnd":
		bad(tmpl + "<<endOptional>> end")
	case "openOptional":
		bad(tmpl + "<<beginOptional>> never closed")
	case "wrongType":
		js = strings.Replace(js, `"licenseText":"the text"`, `"licenseText":5`, 1)
		in.Err, in.ID = true, ""
	case "array":
		js = "[" + js + "]"
		in.Err, in.ID = true, ""
	case "other":
		// The file of one name holds the license of another.
		in.ID = "Other-" + id
		js = spdxJSON(in.ID, tmpl, false)
	default:
		fatal(kind)
	}
	if excluded {
		in.Skip = true
		if in.Fatal || in.Err && in.Kind != "truncated" && in.Kind != "noid" && in.Kind != "wrongType" && in.Kind != "array" {
			in.Err, in.MayErr = false, true
		}
	}
	text := in.Text
	if text == "" {
		text = "text"
	}
	tid := in.ID
	if tid == "" {
		tid = id
	}
	in.Files = map[string]string{"_spdx/json/details/" + id + ".json": js}
	if kind != "notext" {
		in.Files["_spdx/text/"+tid+".txt"] = text
		in.Files["_spdx/text/.txt"] = text
	}
	return in
}

// excludeList is the documented list of licenses that the SPDX converter must not write.
var excludeList = strings.Fields(`
AGPL-1.0-only AGPL-1.0-or-later AGPL-3.0-only AGPL-3.0-or-later CAL-1.0-Combined-Work-Exception BSD-1-Clause BSD-1-Clause-Clear
BSD-2-Clause BSD-2-Clause-FreeBSD BSD-2-Clause-Patent BSD-2-Clause-Views BSD-3-Clause BSD-3-Clause-Attribution BSD-3-Clause-Clear
BSD-3-Clause-LBNL BSD-3-Clause-No-Nuclear-License BSD-3-Clause-No-Nuclear-License-2014 BSD-3-Clause-No-Nuclear-Warranty
BSD-3-Clause-NoTrademark BSD-3-Clause-Open-MPI BSD-4-Clause BSD-4-Clause-UC BSD-Protection BSD-Source-Code GFDL-1.1-invariants-only
GFDL-1.1-invariants-or-later GFDL-1.1-no-invariants-only GFDL-1.1-no-invariants-or-later GFDL-1.1-only GFDL-1.1-or-later
GFDL-1.2-invariants-only GFDL-1.2-invariants-or-later GFDL-1.2-no-invariants-only GFDL-1.2-no-invariants-or-later GFDL-1.2-only
GFDL-1.2-or-later GFDL-1.3-invariants-only GFDL-1.3-invariants-or-later GFDL-1.3-no-invariants-only GFDL-1.3-no-invariants-or-later
GFDL-1.3-only GFDL-1.3-or-later GPL-1.0-only GPL-1.0-or-later GPL-2.0-Or-3.0 GPL-2.0-only GPL-2.0-or-later GPL-3.0-only
GPL-3.0-or-later HPND-sell-variant LGPL-2.0-only LGPL-2.0-or-later LGPL-2.1-only LGPL-2.1-or-later LGPL-3.0-only LGPL-3.0-or-later
MIT MIT-0 MITNFA MIT-NoAd MPL-2.0-no-copyleft-exception OFL-1.0-RFN OFL-1.0-no-RFN OFL-1.1-RFN OFL-1.1-no-RFN`)

// A frag is a piece of a database template and of the text it stands for.
type frag struct{ t, x string }

var spdxFrags = []frag{
	{"Alpha beta gamma", "Alpha beta gamma"},
	{"<<beginOptional>>delta epsilon<<endOptional>>", "delta epsilon"},
	{"<<beginOptional>> one\n  two <<beginOptional>>three<<endOptional>> four <<endOptional>>", "one two three four"},
	{`<<var;name="org";original="the holders";match=".+">> said`, "the holders said"},
	{`<<var;name="long";original="a b c d e f g h";match=".+">> more`, "a b c d e f g h more"},
	{`<<var;name="bullet";original="1.";match=".{0,20}">>`, "1."},
	{`<<var;name="bullet";original="*";match=".{0,20}">>`, "*"},
	{`<<var;name="nm";original="name";match=".+">>`, "name"},
	{"((zeta)) || eta // theta ?? __ iota (((k)))", "((zeta)) || eta // theta ?? __ iota (((k)))"},
	{strings.Repeat("kappa lambda ", 15), strings.Repeat("kappa lambda ", 15)},
	{"mu\n\n , \n\n\n nu", "mu nu"},
	{strings.Repeat("longword", 14) + " x", strings.Repeat("longword", 14) + " x"},
	{"\n      indented lines\n        and more " + strings.Repeat("of this ", 12), "indented lines and more " + strings.Repeat("of this ", 12)},
	{"<<beginOptional>>;<<endOptional>>", ";"},
}

// rareFrags are pieces that templates have now and then.
var rareFrags = []frag{
	{"<<beginOptional>>\u7248\u6743\u6240\u6709<<endOptional>> foo", "\u7248\u6743\u6240\u6709 foo"},
	{"<<beginOptional>>\u043f\u0440\u0430\u0432\u0430<<endOptional>>", "\u043f\u0440\u0430\u0432\u0430"},
	{"<<beginOptional>>\u00e9t\u00e9 \u00e0<<endOptional>> bar", "\u00e9t\u00e9 \u00e0 bar"},
	{"<<beginOptional>>\u00a9<<endOptional>> 2020 bar", "\u00a9 2020 bar"},
	{"<<beginOptional>>&copy;<<endOptional>> 2021 bar", "&copy; 2021 bar"},
	{"x\n" + strings.Repeat(" ", 100) + "far indented " + strings.Repeat("words ", 20), "x far indented " + strings.Repeat("words ", 20)},
	{"before\n" + strings.Repeat(" ", 90) + "\nafter", "before after"},
	{"before\n" + strings.Repeat("\t", 81) + "tabs", "before tabs"},
	{"before\n" + strings.Repeat(" ", 80) + "eighty " + strings.Repeat("w", 90), "before eighty " + strings.Repeat("w", 90)},
	{`<<var;name="ru";original="` + strings.Repeat("\u0441\u043b\u043e\u0432\u043e ", 9) + `";match=".+">> ends here now`, strings.Repeat("\u0441\u043b\u043e\u0432\u043e ", 9) + " ends here now"},
	{"in this own title<<beginOptional>>s<<endOptional>> name<<beginOptional>>(s)<<endOptional>> here", "in this own titles name(s) here"},
	{"<<<beginOptional>>http<<endOptional>>> angle", "<http> angle"},
	{`<<var;name="bullet";original="(a)";match=".{0,20}">> point`, "(a) point"},
	{`<<var;name="bullet";original="1.2.3.4.5.6";match=".{0,20}">> point`, "1.2.3.4.5.6 point"},
	{`<<var;name="bullet";original="iv)";match=".{0,20}">> point`, "iv) point"},
	{`<<var;name="one";original="single";match=".+">> point of it`, "single point of it"},
	{`<<var;name="five";original="a b c d e";match=".+">> point of it`, "a b c d e point of it"},
	{`<<var;name="line";original="two
lines of it with more than six words";match=".+">> point of it`, "two lines of it with more than six words point of it"},
	{`<<var;name="none";original="";match=".*">> point of it`, "point of it"},
	{"a__b c___d ____ e||f g///h i???j k)))l m(((n", "a__b c___d ____ e||f g///h i???j k)))l m(((n"},
	{"//** not a comment **// text", "//** not a comment **// text"},
	{"tail spaces   \t \n\t mixed", "tail spaces mixed"},
	{"crlf\r\nline\r\n\r\nend", "crlf line end"},
	{"<<beginOptional>>" + strings.Repeat("long optional text ", 12) + "<<endOptional>>", strings.Repeat("long optional text ", 12)},
	{"<<beginOptional>><<beginOptional>>deep<<endOptional>><<endOptional>> down", "deep down"},
	{"<<beginOptional>>one <<beginOptional>>,<<endOptional>> two<<endOptional>>", "one, two"},
	{"<<beginOptional>>with " + `<<var;name="v";original="some thing";match=".+">>` + " after it<<endOptional>> end", "with some thing after it end"},
	{"\u00abquoted\u00bb \u2014 caf\u00e9 na\u00efve Stra\u00dfe", "\u00abquoted\u00bb \u2014 caf\u00e9 na\u00efve Stra\u00dfe"},
	{strings.Repeat("\u00e9", 100) + " accents " + strings.Repeat("\u7248 ", 60), strings.Repeat("\u00e9", 100) + " accents " + strings.Repeat("\u7248 ", 60)},
}

const copyVar = `<<var;name="copyright";original="Copyright (c) <year> <owner>";match=".+">>`

// ---- Creative Commons ----

var ccKinds = []string{"ok", "absent", "truncated", "notext", "spdxtext", "short", "badEntity", "unbalanced"}

const filler = "You may reproduce and share the licensed material in whole or in part and produce reproduce and share adapted material under the terms of this public license. "

func ccFile(id string) string {
	s := strings.ToLower(strings.TrimPrefix(id, "CC-"))
	i := strings.IndexAny(s, "0123456789")
	if i > 0 {
		s = s[:i-1] + strings.ReplaceAll(s[i-1:], "-", "_")
	}
	return s
}

func ccPage(id, body string) string {
	return "<html><head><title>not wanted</title></head><body><div id=\"deed-license\"><h2>" + id + " title</h2></div>\n" +
		"<div id=\"deed-main-content\">" + body + "</div></body></html>"
}

func ccInput(id, kind string) input {
	body := "<p>" + strings.Repeat(filler, 8) + "</p><ol><li>First item for " + id + ".</li><li>Second item.</li></ol>"
	in := input{Kind: kind, ID: id, Text: id + " title " + strings.Repeat(filler, 8) + "1. First item for " + id + ". 2. Second item."}
	page := ccPage(id, body)
	f := ccFile(id)
	in.Files = map[string]string{}
	switch kind {
	case "absent":
		return input{Kind: kind}
	case "truncated":
		page = page[:len(page)-len("</body></html>")]
		in.Err, in.ID = true, ""
	case "unbalanced":
		page = strings.Replace(page, "</p>", "</p></q>", 1)
		in.Err, in.ID = true, ""
	case "badEntity":
		page = page[:len(page)-3]
		in.Err, in.ID = true, ""
	case "short":
		page = ccPage(id, "<p>too short</p>")
		in.Short = true
	case "notext":
		in.NoText = true
	case "spdxtext":
		in.Files["_spdx/text/"+id+".txt"] = in.Text
	case "ok":
		in.Files["_cc/docroot/legalcode/"+f+".txt"] = in.Text
		in.Files["_spdx/text/"+id+".txt"] = "another text"
	}
	in.Files["_cc/docroot/legalcode/"+f+".html"] = page
	if kind != "notext" && kind != "spdxtext" {
		in.Files["_cc/docroot/legalcode/"+f+".txt"] = in.Text
	}
	return in
}

var ccFrags = []frag{
	{"<p>alpha beta</p>", "alpha beta"},
	{"<p class=\"shaded\">gamma</p>", "gamma"},
	{"<blockquote>delta epsilon</blockquote>", "delta epsilon"},
	{"<h3>heading</h3>", "heading"},
	{"<ol><li>one two</li><li>three</li></ol>", "1. one two 2. three"},
	{"<div class=\"fineprint\">fine print</div>", "fine print"},
	{"<ul><li>a <b>bold</b> word</li></ul>", "* a bold word"},
	{"<p>((zeta)) eta <i>theta</i></p>", "((zeta)) eta theta"},
	{"<p>x<br>y &amp; z</p>", "x y & z"},
	{"<p>For the avoidance of doubt, do.</p>", "For the avoidance of doubt, do."},
	{"<p>" + strings.Repeat("kappa lambda ", 15) + "</p>", strings.Repeat("kappa lambda ", 15)},
}

// rareCC are pieces that pages have now and then.
var rareCC = []frag{
	{"<p>caf\u00e9 &eacute;t&eacute; na&iuml;ve &copy; 2020 &mdash; &ldquo;quoted&rdquo; &nbsp; &#167; &#xe9; end</p>", "caf\u00e9 \u00e9t\u00e9 na\u00efve \u00a9 2020 \u2014 \u201cquoted\u201d \u00a0 \u00a7 \u00e9 end"},
	{"<p>\u7248\u6743\u6240\u6709 \u043f\u0440\u0430\u0432\u0430</p>", "\u7248\u6743\u6240\u6709 \u043f\u0440\u0430\u0432\u0430"},
	{"<!-- a comment --><p>after a comment</p>", "after a comment"},
	{"<p>text<!-- inner -->more</p>", "textmore"},
	{"<![CDATA[cdata words]]>", "cdata words"},
	{"<p align=\"center\"><b>centered bold</b></p>", "centered bold"},
	{"<p align=\"center\"><a href=\"x\">centered link</a></p>", "centered link"},
	{"<div class=\"shaded\"><p>shaded inside</p></div>", "shaded inside"},
	{"<div class=\"summary\">in short</div>", "in short"},
	{"<div><div><div>deep down</div></div></div>", "deep down"},
	{"<h1>one</h1><h2>two</h2><h3>three</h3><h4>four</h4>", "one two three four"},
	{"<table><tr><td>cell one</td><td> cell two</td></tr></table>", "cell one cell two"},
	{"<ol><li><p>inner <b>bold</b></p></li><li><ol><li>nested one</li><li>nested two</li></ol></li></ol>", "1. inner bold 2. a. nested one b. nested two"},
	{"<ol><li><b>Term</b> means that</li></ol><p>closing words</p>", "1. Term means that closing words"},
	{"<ol type=\"a\"><li>item words here<p>For the avoidance of doubt, item.</p></li></ol>", "a. item words here b. For the avoidance of doubt, item."},
	{"<p>" + strings.Repeat("longword", 14) + " x</p>", strings.Repeat("longword", 14) + " x"},
	{"<p>before\n" + strings.Repeat(" ", 100) + "far indented " + strings.Repeat("words ", 20) + "</p>", "before far indented " + strings.Repeat("words ", 20)},
	{"<p>before\n" + strings.Repeat("\t", 85) + "\nafter</p>", "before after"},
	{"<p>\n\n\n  spaced \n\n\n out \n\n</p>", "spaced out"},
	{"<p>crlf\r\nline</p>", "crlf line"},
	{"<p>a((b c))d ((e)) ((( f )))</p>", "a((b c))d ((e)) ((( f )))"},
	{"<p>see http://example.com/a/b and <a href=\"http://example.com/x\">the link</a>.</p>", "see http://example.com/a/b and the link."},
	{"<hr/><br/><img src=\"x\"/><p>after void elements</p>", "after void elements"},
	{"<p>one<br/>two<hr/>three</p>", "one two three"},
	{"<blockquote><p>quoted paragraph</p><p>another</p></blockquote>", "quoted paragraph another"},
	{"<p class=\"shaded\" align=\"center\">both kinds</p>", "both kinds"},
	{"<p>notice(s) &lt;tag&gt; 100% a_b x-y</p>", "notice(s) <tag> 100% a_b x-y"},
}

func c24(c *eng.Ctx) {
	scratch := scratchDir(c, "C24")
	defer os.RemoveAll(scratch)
	r := &c24run{p: newPool(scratch), bin: filepath.Join(scratch, "bin"), states: map[string]bool{}}
	for rc := 0; rc < 2; rc++ {
		d := filepath.Join(r.bin, fmt.Sprintf("bin%d", rc))
		os.MkdirAll(d, 0777)
		if err := os.WriteFile(filepath.Join(d, "go"), []byte(fmt.Sprintf("#!/bin/sh\nexit %d\n", rc)), 0777); err != nil {
			fatal(err)
		}
	}
	spdx := &tool{name: "getspdx", prog: build(scratch, "licenses/getspdx.go"), dirs: []string{"_spdx"}, conv: map[string]string{}, all: true}
	cc := &tool{name: "getcc", prog: build(scratch, "licenses/getcc.go"), dirs: []string{"_spdx", "_cc"}, conv: map[string]string{}}
	ids := []string{"Aa-1.0", "Bb-2.0"}
	ccids := []string{"CC-BY-9.0", "CC-BY-SA-8.0-ZZ"}

	// 1. What single conversions give, and that it is what the database says.
	r.contents(c, spdx, cc, ids, ccids)
	if c.Failed() {
		return
	}

	// 2. One command, from every state of the database and of the existing files.
	r.histories(c, spdx, ids, spdxKinds, func(id, kind string) input { return spdxInput(id, kind, false) })
	r.histories(c, cc, ccids, ccKinds, ccInput)

	r.names(c, spdx, cc)
	if c.Failed() {
		return
	}

	// 3. Excluded licenses.
	c.Space("excluded", len(excludeList), "every excluded license with every kind of database entry, requested by name, by file, with others and with all, with and without -f and an existing pattern", func(w *eng.Worker, i int) {
		id := excludeList[i]
		for _, kind := range spdxKinds {
			if kind == "other" || kind == "absent" {
				continue
			}
			db := map[string]input{id: spdxInput(id, kind, true), ids[0]: spdxInput(ids[0], "ok", false)}
			for _, pre := range []map[string]string{nil, {"licenses/" + id + ".lre": "hand made\n"}} {
				for _, args := range [][]string{{id}, {"all"}, {ids[0], id}, {"_spdx/json/details/" + id + ".json"}} {
					for _, fl := range [][]string{nil, {"-f"}} {
						if !c.Thorough && kind != "ok" && (len(args) == 2 || fl == nil) {
							continue
						}
						r.play(w, spdx, db, pre, []command{{fl, args, 0}})
					}
				}
			}
		}
	})

	// 4. Every truncation of a database file.
	js := spdxInput(ids[0], "ok", false).Files["_spdx/json/details/"+ids[0]+".json"]
	c.Space("truncated_json", len(js), "every proper prefix of an SPDX entry", func(w *eng.Worker, i int) {
		in := spdxInput(ids[0], "truncated", false)
		in.Files["_spdx/json/details/"+ids[0]+".json"] = js[:i]
		db := map[string]input{ids[0]: in, ids[1]: spdxInput(ids[1], "ok", false)}
		r.play(w, spdx, db, nil, []command{{nil, []string{ids[0], ids[1]}, 0}})
		r.play(w, spdx, db, map[string]string{"licenses/" + ids[0] + ".lre": "hand made\n"}, []command{{[]string{"-f"}, []string{"all"}, 0}})
	})
	page := ccInput(ccids[0], "ok").Files["_cc/docroot/legalcode/"+ccFile(ccids[0])+".html"]
	c.Space("truncated_html", len(page), "every proper prefix of a Creative Commons page", func(w *eng.Worker, i int) {
		in := ccInput(ccids[0], "truncated")
		in.Files["_cc/docroot/legalcode/"+ccFile(ccids[0])+".html"] = page[:i]
		db := map[string]input{ccids[0]: in, ccids[1]: ccInput(ccids[1], "ok")}
		r.play(w, cc, db, nil, []command{{nil, []string{ccids[0], ccids[1]}, 0}})
		r.play(w, cc, db, map[string]string{"licenses/" + ccids[0] + ".lre": "hand made\n"}, []command{{[]string{"-f"}, []string{ccids[0]}, 0}})
	})
}

func (r *c24run) histories(c *eng.Ctx, t *tool, ids, kinds []string, mk func(id, kind string) input) {
	a, b := ids[0], ids[1]
	argss := [][]string{{a}, {b}, {a, b}, {b, a}, {a, a}, {"Missing-1"}, {a, "Missing-1"}, {"Missing-1", a}, {"all"}, {"all", a}, {}}
	if t.all {
		argss = append(argss, []string{"_spdx/json/details/" + a + ".json"})
	}
	flags := [][]string{nil, {"-f"}}
	pats := []string{absent, "hand made\n", "", "\x00dir"}
	second := []string{"ok", kinds[2], "absent", "notext", "deprecated"}
	if !t.all {
		second = []string{"ok", "truncated", "absent", "notext", "short"}
	}
	if !c.Thorough {
		second = []string{second[0], second[1], second[3]}
	}
	mkPre := func(id, pat string, m map[string]string) {
		switch pat {
		case absent:
		case "\x00dir":
			m["licenses/"+id+".lre/"] = ""
		default:
			m["licenses/"+id+".lre"] = pat
			if pat == "" {
				// An empty file must stay empty; so must the old test data.
				m["testdata/licenses/"+id+".txt"] = "old text"
			} else {
				m["testdata/"+id+".t1"] = "hand made test"
			}
		}
	}
	c.Space(t.name+"_commands", len(kinds)*len(second)*len(pats), fmt.Sprintf("every database of two licenses (first of %d kinds, second of %d), pattern file of the first absent, present, empty or a directory, of the second absent or present, %d argument lists, with and without -f, go generate succeeding or failing", len(kinds), len(second), len(argss)), func(w *eng.Worker, i int) {
		k1, k2, p1 := kinds[i%len(kinds)], second[i/len(kinds)%len(second)], pats[i/len(kinds)/len(second)]
		db := map[string]input{a: mk(a, k1), b: mk(b, k2)}
		for _, p2 := range pats[:2] {
			pre := map[string]string{}
			mkPre(a, p1, pre)
			mkPre(b, p2, pre)
			for _, args := range argss {
				for _, fl := range flags {
					for rc := 0; rc < 2; rc++ {
						if rc == 1 && (p2 != absent || len(args) != 1) {
							continue
						}
						r.play(w, t, db, pre, []command{{fl, args, rc}})
					}
				}
			}
		}
	})
	// Histories of two (thorough: three) commands.
	depth := 2
	if c.Thorough {
		depth = 3
	}
	var cmds []command
	for _, args := range [][]string{{a}, {b, a}, {"all"}, {a, "Missing-1"}} {
		for _, fl := range flags {
			cmds = append(cmds, command{fl, args, 0})
		}
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(cmds)
	}
	c.Space(t.name+"_histories", len(kinds)*len(pats), fmt.Sprintf("every history of %d of %d commands, first license of any kind and with any state of its pattern file", depth, len(cmds)), func(w *eng.Worker, i int) {
		db := map[string]input{a: mk(a, kinds[i%len(kinds)]), b: mk(b, "ok")}
		pre := map[string]string{}
		mkPre(a, pats[i/len(kinds)], pre)
		for h := 0; h < n; h++ {
			var cs []command
			for k, x := 0, h; k < depth; k, x = k+1, x/len(cmds) {
				cs = append(cs, cmds[x%len(cmds)])
			}
			r.play(w, t, db, pre, cs)
		}
	})
	// The database itself is missing, or not a directory.
	c.Space(t.name+"_nodb", 2*len(t.dirs), "a database directory missing or a file", func(w *eng.Worker, i int) {
		d := t.dirs[i/2]
		for _, args := range argss {
			pre := map[string]string{}
			db := map[string]input{a: mk(a, "ok"), b: mk(b, "ok")}
			for name, in := range db {
				for f := range in.Files {
					if strings.HasPrefix(f, d+"/") {
						delete(in.Files, f)
					}
				}
				db[name] = in
			}
			if i%2 == 0 {
				pre["licenses/"+d+"/"] = absent
			} else {
				pre["licenses/"+d] = "a file"
			}
			for _, fl := range flags {
				r.play(w, t, db, pre, []command{{fl, args, 0}})
			}
		}
	})
}

// single runs one conversion on a database of one license.
func (r *c24run) single(t *tool, in input, id string) (string, error) {
	dir := r.p.get()
	defer r.p.put(dir)
	files := map[string]string{"licenses/": "", "testdata/licenses/": "", "licenses/_spdx/": "", "licenses/_cc/": ""}
	for k, v := range in.Files {
		files["licenses/"+k] = v
	}
	root := filepath.Join(dir, "x")
	os.Mkdir(root, 0777)
	write(root, files)
	os.Symlink(filepath.Join(r.bin, "bin0"), filepath.Join(dir, "bin0"))
	res := run(filepath.Join(root, "licenses"), envFor(dir, 0), t.prog, id)
	data, err := os.ReadFile(filepath.Join(root, "licenses", in.ID+".lre"))
	if err != nil {
		return "", fmt.Errorf("%s %s writes no pattern: %s", t.name, id, res.Stderr)
	}
	if res.Code != 0 && !in.NoText {
		return "", fmt.Errorf("%s %s fails: %s", t.name, id, res.Stderr)
	}
	return string(data), nil
}

// matchesText checks that the pattern matches text as a whole.
func matchesText(id, pat, text string) error {
	s, err := licensecheck.NewScanner([]licensecheck.License{{ID: id, LRE: pat}})
	if err != nil {
		return fmt.Errorf("the pattern is not usable: %v", err)
	}
	cov := s.Scan([]byte(text))
	if len(cov.Match) != 1 || cov.Match[0].ID != id || cov.Percent != 100 {
		return fmt.Errorf("the pattern does not match the license's own text: %+v", cov)
	}
	return nil
}

// names converts licenses of many names, among others of similar names.
func (r *c24run) names(c *eng.Ctx, spdx, cc *tool) {
	excluded := map[string]bool{}
	for _, id := range excludeList {
		excluded[id] = true
	}
	type group struct {
		t   *tool
		ids []string
	}
	var groups []group
	add := func(t *tool, ids ...string) {
		for len(ids) > 0 {
			k := len(ids)
			if k > 16 {
				k = 16
			}
			groups = append(groups, group{t, ids[:k]})
			ids = ids[k:]
		}
	}
	for _, base := range []string{"AA", "aa", "Bb-2.0", "C-1", "GPL-9.0", "9.0-x", "all-1.0", "f", "X11", "a.b"} {
		var ids []string
		for _, e := range []string{"", "+", "-only", "-or-later", "-1.0", ".0", "-with-exception", "-x", "X", "_x", "-no-x", "++", "1", "-json"} {
			ids = append(ids, base+e)
		}
		add(spdx, ids...)
	}
	add(spdx, "AA", "aA", "Aa", "aa", "AA-1.0", "AA-1.00", "AA-1", "AA-10", "AA-01.0", "AA.1.0", "AA1.0")
	add(spdx, "all", "ALL", "All", "alls", "json", "text", "details", "spdx", "_spdx")
	files, _ := filepath.Glob(filepath.Join(repo(), "licenses", "*.lre"))
	var ids []string
	for _, f := range files {
		ids = append(ids, strings.TrimSuffix(filepath.Base(f), ".lre"))
	}
	add(spdx, ids...)
	for _, k := range []string{"CC-BY", "CC-BY-SA", "CC-BY-NC", "CC-BY-ND", "CC-BY-NC-SA", "CC-BY-NC-ND", "CC-BY-ND-NC", "CC-SA", "CC-NC", "CC0", "CC-PDM", "BY", "CC-devnations", "CC-sampling+"} {
		for _, j := range []string{"", "-de", "-DE", "-IGO", "-Us", "-at-x", "-scotland"} {
			var ids []string
			for _, v := range []string{"1.0", "2.0", "2.1", "2.5", "3.0", "4.0", "10.0", "7"} {
				ids = append(ids, k+"-"+v+j)
			}
			add(cc, ids...)
		}
	}
	var mu sync.Mutex
	c.Space("names", len(groups), "licenses of many names (with suffixes, in other letter cases, of all committed patterns, of all kinds, versions and jurisdictions) in databases of up to 16 similar names: each requested alone, all in both orders, with -f and without, with and without an existing pattern: each pattern is what the license alone gives, and matches its text", func(w *eng.Worker, g int) {
		t := groups[g].t
		tt := *t
		tt.conv = map[string]string{}
		db := map[string]input{}
		for _, id := range groups[g].ids {
			var in input
			if t == spdx {
				in = spdxInput(id, "ok", excluded[id])
			} else {
				in = ccInput(id, "ok")
			}
			db[id] = in
			if in.Skip || t.all && id == "all" {
				continue
			}
			pat, err := r.single(t, in, id)
			if err == nil {
				err = matchesText(in.ID, pat, in.Text)
			}
			w.Evals++
			if err != nil {
				w.Fail(in, "", "%s: %v\npattern: %s", id, err, pat)
			}
			tt.conv["ok "+in.ID] = pat
			mu.Lock()
			t.conv["ok "+in.ID] = pat
			mu.Unlock()
		}
		if t.all && len(db["all"].Files) > 0 {
			pat, err := r.single(t, db["all"], "_spdx/json/details/all.json")
			if err != nil {
				w.Fail(db["all"], "", "all: %v\npattern: %s", err, pat)
			}
			tt.conv["ok all"] = pat
		}
		list := groups[g].ids
		var back []string
		for i := range list {
			back = append(back, list[len(list)-1-i])
		}
		argss := [][]string{list, back}
		if t.all {
			argss = append(argss, []string{"all"})
		}
		for i, id := range list {
			argss = append(argss, []string{id})
			if t.all {
				argss = append(argss, []string{"_spdx/json/details/" + id + ".json"})
			}
			pre := map[string]string{"licenses/" + id + ".lre": "hand made\n", "testdata/" + id + ".t1": "hand made test"}
			r.play(w, &tt, db, pre, []command{{nil, list, 0}, {nil, []string{list[(i+1)%len(list)]}, 0}, {[]string{"-f"}, []string{id}, 0}})
		}
		for _, args := range argss {
			r.play(w, &tt, db, nil, []command{{nil, args, 0}, {[]string{"-f"}, args, 0}})
		}
	})
}

// contents runs single conversions, keeps their results and checks them against the database.
func (r *c24run) contents(c *eng.Ctx, spdx, cc *tool, ids, ccids []string) {
	c.Space("single", 1, "one conversion of each usable kind", func(w *eng.Worker, i int) {
		for _, id := range ids {
			for _, kind := range []string{"ok", "notext", "other"} {
				in := spdxInput(id, kind, false)
				pat, err := r.single(spdx, in, id)
				if err == nil {
					err = matchesText(in.ID, pat, in.Text)
				}
				w.Evals++
				w.Nontrivial++
				if err != nil {
					w.Fail(in, "", "%v\npattern: %s", err, pat)
				}
				spdx.conv[kind+" "+in.ID] = pat
			}
		}
		for _, id := range ccids {
			for _, kind := range []string{"ok", "notext", "spdxtext"} {
				in := ccInput(id, kind)
				pat, err := r.single(cc, in, id)
				if err == nil {
					err = matchesText(in.ID, pat, in.Text)
				}
				w.Evals++
				w.Nontrivial++
				if err != nil {
					w.Fail(in, "", "%v\npattern: %s", err, pat)
				}
				cc.conv[kind+" "+in.ID] = pat
			}
		}
	})
	if c.Failed() {
		return
	}

	// All sequences of template fragments, converted by one run over the whole database per first fragment.
	type item struct{ id, tmpl, text string }
	depth := 3
	if c.Thorough {
		depth = 4
	}
	nf := len(spdxFrags)
	seps := []string{" ", "\n", "\n\n  "}
	r.batch(c, "spdx_templates", nf*len(seps), fmt.Sprintf("every database template of up to %d of %d fragments, with and without a copyright line, three separators", depth, nf), func(g int, add func(id string, files map[string]string, text string)) {
		sep := seps[g/nf]
		var seq []int
		var rec func(k int)
		num := 0
		rec = func(k int) {
			var t, x []string
			for _, f := range seq {
				t = append(t, spdxFrags[f].t)
				x = append(x, spdxFrags[f].x)
			}
			for _, cp := range []bool{false, true} {
				num++
				id := fmt.Sprintf("T-%d", num)
				tm, tx := strings.Join(t, sep)+sep+"the end", strings.Join(x, " ")+" the end"
				if cp {
					tm, tx = copyVar+"\n\n"+tm, "Copyright (c) 2020 Someone\n\n"+tx
				}
				add(id, map[string]string{"_spdx/json/details/" + id + ".json": spdxJSON(id, tm, false), "_spdx/text/" + id + ".txt": tx}, tx)
			}
			if k == 0 {
				return
			}
			for f := range spdxFrags {
				seq = append(seq, f)
				rec(k - 1)
				seq = seq[:len(seq)-1]
			}
		}
		seq = append(seq, g%nf)
		rec(depth - 1)
	}, spdx, matchesText)
	rare := rareFrags
	all := append(append([]frag{}, rare...), spdxFrags...)
	r.batch(c, "spdx_rare", len(rare)*len(seps), fmt.Sprintf("every database template with one of %d rarer fragments (scripts, accents, signs, far indentation, long words, bullets, runs of operators) before, after and between %d fragments, three separators", len(rare), len(all)), func(g int, add func(id string, files map[string]string, text string)) {
		sep, f := seps[g/len(rare)], rare[g%len(rare)]
		num := 0
		put := func(fs ...frag) {
			var t, x []string
			for _, f := range fs {
				t, x = append(t, f.t), append(x, f.x)
			}
			num++
			id := fmt.Sprintf("T-%d", num)
			tm, tx := "This is"+sep+strings.Join(t, sep)+sep+"the end", "This is "+strings.Join(x, " ")+" the end"
			add(id, map[string]string{"_spdx/json/details/" + id + ".json": spdxJSON(id, tm, false), "_spdx/text/" + id + ".txt": tx}, tx)
		}
		put(f)
		for _, o := range all {
			put(f, o)
			put(o, f)
			put(o, f, o)
		}
	}, spdx, matchesText)
	// There is no limit to the length of a piece.
	var plens []int
	for n := 0; n <= 140; n++ {
		plens = append(plens, n)
	}
	plens = append(plens, 199, 255, 256, 257, 300, 499, 500, 511, 512, 513, 999, 1000)
	nwords := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " w%c%c%d", 'a'+i%26, 'a'+i/26%26, i)
		}
		return strings.TrimPrefix(b.String(), " ")
	}
	r.batch(c, "spdx_lengths", 16, fmt.Sprintf("variable parts, optional parts, words, lines, indentations, runs of parts and nestings of each of %d lengths up to %d", len(plens), plens[len(plens)-1]), func(g int, add func(id string, files map[string]string, text string)) {
		for k := g; k < len(plens); k += 16 {
			n := plens[k]
			v := nwords(n)
			tx := [][2]string{
				{`start of the text <<var;name="x";original="` + v + `";match=".+">> then the rest`, "start of the text " + v + " then the rest"},
				{"start of the text <<beginOptional>>" + v + "<<endOptional>> then the rest", "start of the text " + v + " then the rest"},
				{"start of the text " + v + " <<beginOptional>>end<<endOptional>>", "start of the text " + v + " end"},
				{"start of the text " + strings.Repeat("q", n) + " then the rest", "start of the text " + strings.Repeat("q", n) + " then the rest"},
				{"start of the text\n" + strings.Repeat(" ", n) + v, "start of the text " + v},
				{"start of the text " + strings.Repeat("\n", n) + " end", "start of the text end"},
				{"start of the text " + strings.Repeat("<<beginOptional>>part<<endOptional>> x ", n) + "end", "start of the text " + strings.Repeat("part x ", n) + "end"},
			}
			if n <= 10 {
				tx = append(tx, [2]string{`start of the text <<var;name="bullet";original="` + strings.Repeat("i.", n) + `";match=".{0,20}">> then the rest`, "start of the text " + strings.Repeat("i.", n) + " then the rest"})
			}
			if n <= 60 {
				tx = append(tx, [2]string{"start of the text " + strings.Repeat("<<beginOptional>>a ", n) + strings.Repeat("b<<endOptional>> ", n) + "end", "start of the text " + strings.Repeat("a ", n) + strings.Repeat("b ", n) + "end"})
			}
			for j, p := range tx {
				id := fmt.Sprintf("L-%d-%d", n, j)
				add(id, map[string]string{"_spdx/json/details/" + id + ".json": spdxJSON(id, p[0], false), "_spdx/text/" + id + ".txt": p[1]}, p[1])
			}
		}
	}, spdx, matchesText)
	r.batch(c, "cc_lengths", 16, fmt.Sprintf("paragraphs, list items, words, lines, indentations, lists and nestings of each of %d lengths up to %d", len(plens), plens[len(plens)-1]), func(g int, add func(id string, files map[string]string, text string)) {
		for k := g; k < len(plens); k += 16 {
			n := plens[k]
			v := nwords(n)
			tx := [][2]string{
				{"<p>start " + v + "</p>", "start " + v},
				{"<ol><li>" + v + "</li><li>last</li></ol>", "1. " + v + " 2. last"},
				{"<blockquote>" + v + "</blockquote>end", v + " end"},
				{"<p>" + strings.Repeat("q", n) + " end</p>", strings.Repeat("q", n) + " end"},
				{"<p>start\n" + strings.Repeat(" ", n) + v + "</p>", "start " + v},
				{"<p>start" + strings.Repeat("\n", n) + " end</p>", "start end"},
				{"<ol>" + strings.Repeat("<li>item here</li>", n) + "</ol>end", strings.Repeat("1. item here ", n) + "end"},
				{strings.Repeat("<div>a ", n) + strings.Repeat("b</div> ", n) + "end", strings.Repeat("a ", n) + strings.Repeat("b ", n) + "end"},
			}
			for j, p := range tx {
				id := fmt.Sprintf("CC-L%d-%d.0", n, j)
				text := id + " title " + strings.Repeat(filler, 8) + p[1]
				add(id, map[string]string{"_cc/docroot/legalcode/" + ccFile(id) + ".html": ccPage(id, "<p>"+strings.Repeat(filler, 8)+"</p>"+p[0]), "_cc/docroot/legalcode/" + ccFile(id) + ".txt": text}, text)
			}
		}
	}, cc, matchesText)
	nc := len(ccFrags)
	r.batch(c, "cc_pages", nc, fmt.Sprintf("every page of up to %d of %d fragments", depth, nc), func(g int, add func(id string, files map[string]string, text string)) {
		var seq []int
		num := 0
		var rec func(k int)
		rec = func(k int) {
			num++
			id := fmt.Sprintf("CC-X%d-9.0", num)
			body, text := "<p>"+strings.Repeat(filler, 8)+"</p>", id+" title "+strings.Repeat(filler, 8)
			for _, f := range seq {
				body += "\n" + ccFrags[f].t
				text += "\n" + ccFrags[f].x
			}
			add(id, map[string]string{"_cc/docroot/legalcode/" + ccFile(id) + ".html": ccPage(id, body), "_cc/docroot/legalcode/" + ccFile(id) + ".txt": text}, text)
			if k == 0 {
				return
			}
			for f := range ccFrags {
				seq = append(seq, f)
				rec(k - 1)
				seq = seq[:len(seq)-1]
			}
		}
		seq = append(seq, g)
		rec(depth - 1)
	}, cc, matchesText)
	ccAll := append(append([]frag{}, rareCC...), ccFrags...)
	r.batch(c, "cc_rare", len(rareCC), fmt.Sprintf("every page with one of %d rarer fragments (entities, scripts, comments, nested elements, tables, far indentation, signs) before, after and between %d fragments", len(rareCC), len(ccAll)), func(g int, add func(id string, files map[string]string, text string)) {
		num := 0
		put := func(fs ...frag) {
			num++
			id := fmt.Sprintf("CC-X%d-9.0", num)
			body, text := "<p>"+strings.Repeat(filler, 8)+"</p>", id+" title "+strings.Repeat(filler, 8)
			for _, f := range fs {
				body += "\n" + f.t
				text += "\n" + f.x
			}
			add(id, map[string]string{"_cc/docroot/legalcode/" + ccFile(id) + ".html": ccPage(id, body), "_cc/docroot/legalcode/" + ccFile(id) + ".txt": text}, text)
		}
		put(rareCC[g])
		for _, o := range ccAll {
			put(rareCC[g], o)
			put(o, rareCC[g])
			put(o, rareCC[g], o)
		}
	}, cc, matchesText)
	// Pages of the two forms, in every order of six in one command.
	r.batch(c, "cc_forms", 2, fmt.Sprintf("all sequences of 6 pages of the old and the new form, with text outside the license in both, with each of %d fragments", len(ccAll)), func(g int, add func(id string, files map[string]string, text string)) {
		num := 0
		for seq := 0; seq < 64; seq++ {
			for k := 0; k < 6; k++ {
				num++
				id := fmt.Sprintf("CC-Y%d-9.0", num)
				f := ccAll[(num*2+g)%len(ccAll)]
				old := seq>>uint(k)&1 == 1
				page, text := "", "title "+id+" "
				if old {
					page = "<html><head><title>not wanted</title></head><body><div class=\"menu\">menu outside</div><p>words outside</p>\n" +
						"<h2>title " + id + "</h2>\n<p align=\"left\"><b>left outside</b></p><p align=\"center\"><b>bold heading</b></p>\n" +
						"<div class=\"text\"><p>" + strings.Repeat(filler, 8) + "</p>" + f.t + "</div><div id=\"foot\">foot outside</div></body></html>"
					text += "bold heading " + strings.Repeat(filler, 8) + "\n" + f.x
				} else {
					page = "<html><head><title>not wanted</title></head><body><div class=\"text\">text outside</div><p align=\"center\"><b>bold outside</b> <a href=\"x\">link outside</a></p>\n" +
						"<div id=\"deed-license\"><h2>title " + id + "</h2></div>\n" +
						"<div id=\"deed-main-content\"><p>" + strings.Repeat(filler, 8) + "</p>" + f.t + "</div><div class=\"text\">foot outside</div></body></html>"
					text += strings.Repeat(filler, 8) + "\n" + f.x
				}
				add(id, map[string]string{"_cc/docroot/legalcode/" + ccFile(id) + ".html": page, "_cc/docroot/legalcode/" + ccFile(id) + ".txt": text}, text)
			}
		}
	}, cc, matchesText)
}

// batch converts many licenses in one run of the tool and checks each result.
func (r *c24run) batch(c *eng.Ctx, name string, n int, bound string, gen func(g int, add func(id string, files map[string]string, text string)), t *tool, matches func(id, pat, text string) error) {
	c.Space(name, n, bound, func(w *eng.Worker, g int) {
		dir := r.p.get()
		defer r.p.put(dir)
		root := filepath.Join(dir, "x")
		os.Mkdir(root, 0777)
		write(root, map[string]string{"licenses/": "", "testdata/licenses/": "", "licenses/_spdx/": "", "licenses/_cc/": ""})
		os.Symlink(filepath.Join(r.bin, "bin0"), filepath.Join(dir, "bin0"))
		var ids []string
		texts := map[string]string{}
		srcs := map[string]map[string]string{}
		gen(g, func(id string, files map[string]string, text string) {
			m := map[string]string{}
			for k, v := range files {
				m["licenses/"+k] = v
			}
			write(root, m)
			ids = append(ids, id)
			texts[id] = text
			srcs[id] = files
		})
		for len(ids) > 0 {
			k := 500
			if k > len(ids) {
				k = len(ids)
			}
			res := run(filepath.Join(root, "licenses"), envFor(dir, 0), t.prog, ids[:k]...)
			if res.Code != 0 {
				w.Fail(ids[:k], "", "%s fails on usable inputs: %s", t.name, res.Stderr)
			}
			for _, id := range ids[:k] {
				w.Evals++
				w.Nontrivial++
				w.Trans++
				cs := map[string]interface{}{"tool": t.name, "id": id, "files": srcs[id]}
				data, err := os.ReadFile(filepath.Join(root, "licenses", id+".lre"))
				if err != nil {
					w.Fail(cs, "", "%s wrote no pattern for %s", t.name, id)
				}
				pat := string(data)
				if !strings.HasPrefix(pat, "//**") || !strings.HasSuffix(pat, "\n") {
					w.Fail(cs, "", "%s: the pattern is cut: %q", t.name, pat)
				}
				if !usable(pat) {
					// Documented: the result may need manual adjustment.
					w.Skipped++
					w.Outcome("needs adjustment")
					continue
				}
				w.Outcome("usable")
				if err := matches(id, pat, texts[id]); err != nil {
					w.Fail(cs, "", "%s: %v\npattern: %s\ntext: %s", t.name, err, pat, texts[id])
				}
			}
			ids = ids[k:]
		}
	})
}

// usable reports whether the reference accepts the pattern.
func usable(pat string) bool {
	n, err := ref.ParseLRE(pat, func(string) {})
	return err == nil && n.Valid() == nil
}
