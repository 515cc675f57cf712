package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"text/template"

	"github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
)

func init() {
	reg(&eng.Check{ID: "C18", Level: "exploration",
		Rule: "An evaluation is one built-in entry compared with an independent expansion of the template it comes from, or one run of the real generator on a synthetic directory of templates compared with the output known by construction. All are distinct; those of directories that hold a usable template or an error are non-trivial.",
		Assumptions: []string{
			"The independent expansion uses text/template from the Go library, as the generator does.",
			"File names of synthetic directories have the shape of license IDs.",
		},
		Run: c18})
}

type entry struct {
	ID   string
	Type licensecheck.Type
	LRE  string
}

// typeNames gives the constants by name, from their documentation.
var typeNames = map[string]licensecheck.Type{
	"Unknown": licensecheck.Unknown, "NonCommercial": licensecheck.NonCommercial, "Discouraged": licensecheck.Discouraged,
	"ShareChanges": licensecheck.ShareChanges, "ShareProgram": licensecheck.ShareProgram, "ShareServer": licensecheck.ShareServer,
	"Notice": licensecheck.Notice, "Unrestricted": licensecheck.Unrestricted,
}

func parseTypeRef(s string) (licensecheck.Type, error) {
	var t licensecheck.Type
	for _, f := range strings.Split(s, "|") {
		v, ok := typeNames[f]
		if !ok {
			return 0, fmt.Errorf("unknown license type %s", f)
		}
		t |= v
	}
	return t, nil
}

// order sorts by name, but the variants of BSD-4-Clause and of GFDL come before what they vary.
func order(ids []string) {
	for i := range ids {
		for j := i; j > 0 && before(ids[j], ids[j-1]); j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
}

func before(a, b string) bool {
	for _, p := range []string{"BSD-4-Clause", "GFDL-"} {
		if strings.HasPrefix(a, p) && strings.HasPrefix(b, p) {
			return a > b
		}
	}
	return a < b
}

// expand expands a directory of templates independently.
func expand(dir string) ([]entry, error) {
	names, err := filepath.Glob(filepath.Join(dir, "*.lre"))
	if err != nil || len(names) == 0 {
		return nil, fmt.Errorf("no templates: %v", err)
	}
	var typ licensecheck.Type
	funcs := template.FuncMap{
		"list": func(xs ...interface{}) []interface{} {
			out := []interface{}{}
			for _, x := range xs {
				if l, ok := x.([]interface{}); ok {
					out = append(out, l...)
				} else {
					out = append(out, x)
				}
			}
			return out
		},
		"Type": func(s string) (string, error) {
			t, err := parseTypeRef(s)
			if err == nil {
				typ = t
			}
			return "", err
		},
	}
	set := template.New("all").Funcs(funcs)
	for _, name := range names {
		data, err := os.ReadFile(name)
		if err != nil {
			return nil, err
		}
		if _, err := set.New(filepath.Base(name)).Parse(string(data)); err != nil {
			return nil, err
		}
	}
	var ids []string
	by := map[string]entry{}
	for _, t := range set.Templates() {
		if !strings.HasSuffix(t.Name(), ".lre") {
			continue
		}
		typ = 0
		var b bytes.Buffer
		if err := t.Execute(&b, nil); err != nil {
			return nil, err
		}
		if strings.TrimSpace(b.String()) == "" {
			continue
		}
		id := strings.TrimSuffix(t.Name(), ".lre")
		ids = append(ids, id)
		by[id] = entry{id, typ, b.String()}
	}
	order(ids)
	var out []entry
	for _, id := range ids {
		out = append(out, by[id])
	}
	return out, nil
}

// readGenerated evaluates the declarations of a generated file.
func readGenerated(src []byte) ([]entry, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "data.gen.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != "licensecheck" {
		return nil, fmt.Errorf("package %s", f.Name.Name)
	}
	decls := map[string]ast.Expr{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			return nil, fmt.Errorf("unexpected declaration")
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok || len(v.Names) != len(v.Values) {
				return nil, fmt.Errorf("unexpected declaration")
			}
			for i, n := range v.Names {
				if decls[n.Name] != nil {
					return nil, fmt.Errorf("%s declared twice", n.Name)
				}
				decls[n.Name] = v.Values[i]
			}
		}
	}
	var str func(e ast.Expr, depth int) (string, error)
	str = func(e ast.Expr, depth int) (string, error) {
		if depth > 100000 {
			return "", fmt.Errorf("too deep")
		}
		switch e := e.(type) {
		case *ast.BasicLit:
			if e.Kind != token.STRING {
				return "", fmt.Errorf("not a string: %s", e.Value)
			}
			return strconv.Unquote(e.Value)
		case *ast.ParenExpr:
			return str(e.X, depth+1)
		case *ast.Ident:
			if d := decls[e.Name]; d != nil {
				return str(d, depth+1)
			}
		case *ast.BinaryExpr:
			if e.Op != token.ADD {
				break
			}
			x, err := str(e.X, depth+1)
			if err != nil {
				return "", err
			}
			y, err := str(e.Y, depth+1)
			return x + y, err
		}
		return "", fmt.Errorf("not a string")
	}
	var typ func(e ast.Expr) (licensecheck.Type, error)
	typ = func(e ast.Expr) (licensecheck.Type, error) {
		switch e := e.(type) {
		case *ast.Ident:
			if v, ok := typeNames[e.Name]; ok {
				return v, nil
			}
			return 0, fmt.Errorf("type %s", e.Name)
		case *ast.ParenExpr:
			return typ(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.OR || e.Op == token.ADD {
				x, err := typ(e.X)
				if err != nil {
					return 0, err
				}
				y, err := typ(e.Y)
				return x | y, err
			}
		}
		return 0, fmt.Errorf("bad type")
	}
	lit, ok := decls["builtinLREs"].(*ast.CompositeLit)
	if !ok {
		return nil, fmt.Errorf("no list")
	}
	var out []entry
	for _, e := range lit.Elts {
		c, ok := e.(*ast.CompositeLit)
		if !ok {
			return nil, fmt.Errorf("bad entry")
		}
		var ent entry
		seen := map[string]bool{}
		for _, kv := range c.Elts {
			kv, ok := kv.(*ast.KeyValueExpr)
			if !ok {
				return nil, fmt.Errorf("bad entry")
			}
			k := kv.Key.(*ast.Ident).Name
			if seen[k] {
				return nil, fmt.Errorf("field %s twice", k)
			}
			seen[k] = true
			var err error
			switch k {
			case "ID":
				ent.ID, err = str(kv.Value, 0)
			case "LRE":
				ent.LRE, err = str(kv.Value, 0)
			case "Type":
				ent.Type, err = typ(kv.Value)
			default:
				err = fmt.Errorf("field %s", k)
			}
			if err != nil {
				return nil, err
			}
		}
		out = append(out, ent)
	}
	return out, nil
}

func compare(got, want []entry) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return fmt.Sprintf("entry %d missing: want %q", i, want[i].ID)
		}
		if i >= len(want) {
			return fmt.Sprintf("entry %d not wanted: %q", i, got[i].ID)
		}
		g, w := got[i], want[i]
		if g.ID != w.ID {
			return fmt.Sprintf("entry %d is %q, want %q", i, g.ID, w.ID)
		}
		if g.Type != w.Type {
			return fmt.Sprintf("%s has type %d, want %d", g.ID, int(g.Type), int(w.Type))
		}
		if g.LRE != w.LRE {
			k := 0
			for k < len(g.LRE) && k < len(w.LRE) && g.LRE[k] == w.LRE[k] {
				k++
			}
			return fmt.Sprintf("%s: text differs from byte %d: %.60q, want %.60q", g.ID, k, g.LRE[k:], w.LRE[k:])
		}
	}
	return ""
}

// A kind is one content of a template file.
type kind struct {
	name  string
	text  string  // file content; ID is replaced by the license ID
	makes []entry // entries it produces, with "ID" replaced likewise
	bad   bool    // the generator must refuse it
	maybe bool    // the generator may refuse it, or embed it exactly
	need  string  // helper template that must be defined by another file
	defs  string  // helper template it defines
}

var kinds []kind

func init() {
	e := func(t licensecheck.Type, text string) []entry { return []entry{{"ID", t, text}} }
	N, S := licensecheck.Notice, licensecheck.ShareProgram
	kinds = []kind{
		{name: "plain", text: "alpha ID beta\n", makes: e(0, "alpha ID beta\n")},
		{name: "typed", text: "{{Type \"Notice\"}}\ngamma ID\n", makes: e(N, "\ngamma ID\n")},
		{name: "helper", text: "{{define \"h\"}}{{Type \"ShareProgram\"}}help {{.}}{{end}}\n\t\n", defs: "h"},
		{name: "uses", text: "x {{template \"h\" list \"a\" (list 1 \"b\")}} y", makes: e(S, "x help [a 1 b] y"), need: "h"},
		{name: "badtype", text: "{{Type \"Bogus\"}}x", bad: true},
		{name: "twice", text: "{{Type \"Notice\"}}x{{Type \"ShareProgram\"}} ID", makes: e(S, "x ID")},
		{name: "retype", text: "{{Type \"Notice\"}}{{Type \"Unknown\"}}x", makes: e(0, "x")},
		{name: "empty", text: ""},
		{name: "blank", text: " \n\t\r\n"},
		{name: "comment", text: "{{/* only a comment */}}\n"},
		{name: "onlytype", text: "{{Type \"Notice\"}}\n"},
		{name: "subs", text: "{{define \"ID-b.lre\"}}{{Type \"Notice\"}}sub b{{end}}{{define \"ID-a.lre\"}}sub a{{end}}{{define \"zz\"}}no{{end}}", makes: []entry{{"ID-b", N, "sub b"}, {"ID-a", 0, "sub a"}}},
		{name: "subemain", text: "{{define \"ID-b.lre\"}} {{end}}{{Type \"Notice\"}}main", makes: e(N, "main")},
		{name: "syntax", text: "a {{", bad: true},
		{name: "syntax2", text: "a {{end}} b", bad: true},
		{name: "undefined", text: "a {{template \"nowhere\"}}", bad: true},
		{name: "nofunc", text: "a {{nofunc 1}}", bad: true},
		{name: "late", text: "text first {{index (list 1) 5}}", bad: true},
		{name: "lateType", text: "text first {{Type \"notice\"}}", bad: true},
		{name: "quote", text: "`a``b`` ```\n`", makes: e(0, "`a``b`` ```\n`")},
		{name: "onequote", text: "`", makes: e(0, "`")},
		{name: "quotes", text: "\" + \" \\ \\n ${} %d %s %v %% ' FILES_LIST ` + \"`\" + `", makes: e(0, "\" + \" \\ \\n ${} %d %s %v %% ' FILES_LIST ` + \"`\" + `")},
		{name: "cr", text: "a\r\nb\rc\r", makes: e(0, "a\r\nb\rc\r")},
		{name: "space", text: "  a \t \n\n\n   b  \n  ", makes: e(0, "  a \t \n\n\n   b  \n  ")},
		{name: "unicode", text: "é世界\u2028\u00a0", makes: e(0, "é世界\u2028\u00a0")},
		{name: "code", text: "/* ( */ // ) package x; const y = 1 }\n", makes: e(0, "/* ( */ // ) package x; const y = 1 }\n")},
		{name: "bom", text: "\ufeffabc \ufeff", makes: e(0, "\ufeffabc \ufeff"), maybe: true},
		{name: "nul", text: "a\x00b", makes: e(0, "a\x00b"), maybe: true},
		{name: "bytes", text: "a\xff\xc0b", makes: e(0, "a\xff\xc0b"), maybe: true},
		{name: "ctl", text: "\x01\x02 \x7f \v\f", makes: e(0, "\x01\x02 \x7f \v\f"), maybe: true},
		{name: "trim", text: "a  {{- /* c */ -}}  b {{if true}}c{{else}}d{{end}}", makes: e(0, "ab c")},
		{name: "long", text: strings.Repeat(strings.Repeat("word \n", 60)+"`q` \n", 20), makes: e(0, strings.Repeat(strings.Repeat("word \n", 60)+"`q` \n", 20))},
	}
}

func (k kind) sub(id string) (string, []entry) {
	var es []entry
	for _, e := range k.makes {
		es = append(es, entry{strings.ReplaceAll(e.ID, "ID", id), e.Type, strings.ReplaceAll(e.LRE, "ID", id)})
	}
	return strings.ReplaceAll(k.text, "ID", id), es
}

type genCase struct {
	Files map[string]string
	Out   string
	Pre   bool
}

func c18(c *eng.Ctx) {
	scratch := scratchDir(c, "C18")
	defer os.RemoveAll(scratch)
	gen := build(scratch, "gen_data.go")
	p := newPool(scratch)
	tmp := filepath.Join(scratch, "tmp")
	os.MkdirAll(tmp, 0777)
	env := []string{"TMPDIR=" + tmp, "PATH=" + os.Getenv("PATH"), "HOME=" + tmp}

	// 1. The committed data.
	want, err := expand(filepath.Join(repo(), "licenses"))
	if err != nil {
		c.Report("committed", nil, "the license templates do not expand: %v", err)
		return
	}
	var built []entry
	for _, l := range licensecheck.BuiltinLicenses() {
		if l.LRE != "" {
			built = append(built, entry{l.ID, l.Type, l.LRE})
		}
	}
	c.Note("builtin_entries", len(built))
	n := len(want)
	if len(built) > n {
		n = len(built)
	}
	c.Space("committed", n, "every entry of the built-in list against the independent expansion of licenses/*.lre", func(w *eng.Worker, i int) {
		w.Evals++
		w.Nontrivial++
		var g, e []entry
		if i < len(built) {
			g = built[i : i+1]
		}
		if i < len(want) {
			e = want[i : i+1]
		}
		if d := compare(g, e); d != "" {
			w.Fail(i, "", "the built-in list is not what the license directory gives: at position %d: %s", i, d)
		}
		if w.WantSample() && i%97 == 0 {
			w.Sample(map[string]interface{}{"entry": built[i].ID, "type": fmt.Sprint(built[i].Type), "bytes": len(built[i].LRE)})
		}
	})

	// gen runs the generator in dir; ok says whether it wrote the output.
	runGen := func(dir string, cs genCase) (result, []entry, map[string]string, error) {
		args := []string{}
		out := "data.gen.go"
		if cs.Out != "" {
			args = append(args, "-o", cs.Out)
			out = cs.Out
		}
		before := snapshot(dir)
		r := run(dir, env, gen, args...)
		after := snapshot(dir)
		src, wrote := after[out]
		if old, had := before[out]; had && old == src {
			wrote = false
		}
		for _, d := range diff(before, after) {
			if d != out+" created" && d != out+" changed" {
				return r, nil, after, fmt.Errorf("the generator touched another file: %s", d)
			}
		}
		if r.Code != 0 {
			if wrote {
				return r, nil, after, fmt.Errorf("the generator failed (%s) and left output behind", r.Stderr)
			}
			return r, nil, after, nil
		}
		if !wrote {
			return r, nil, after, fmt.Errorf("the generator succeeded without writing %s", out)
		}
		es, err := readGenerated([]byte(src))
		if err != nil {
			return r, nil, after, fmt.Errorf("the generated file is not usable: %v", err)
		}
		return r, es, after, nil
	}

	c.Space("generator_on_repo", 1, "the real generator on the repository's license directory", func(w *eng.Worker, i int) {
		w.Evals++
		w.Nontrivial++
		out := filepath.Join(tmp, "data.gen.go")
		r := run(repo(), env, gen, "-o", out)
		if r.Code != 0 {
			w.Fail(nil, "", "the generator fails on the repository: %s", r.Stderr)
		}
		src, err := os.ReadFile(out)
		if err != nil {
			w.Fail(nil, "", "the generator wrote nothing: %v", err)
		}
		es, err := readGenerated(src)
		if err != nil {
			w.Fail(nil, "", "the generated file is not usable: %v", err)
		}
		if d := compare(es, built); d != "" {
			w.Fail(nil, "", "generator output is not the built-in list: %s", d)
		}
	})

	check := func(w *eng.Worker, cs genCase, want []entry, bad, maybe bool) {
		dir := p.get()
		defer p.put(dir)
		os.MkdirAll(filepath.Join(dir, "licenses"), 0777)
		fs := map[string]string{}
		for k, v := range cs.Files {
			fs["licenses/"+k] = v
		}
		if cs.Pre {
			o := cs.Out
			if o == "" {
				o = "data.gen.go"
			}
			fs[o] = "old output\n"
		}
		write(dir, fs)
		w.Evals++
		if bad || len(want) > 0 {
			w.Nontrivial++
		}
		r, es, _, err := runGen(dir, cs)
		if err != nil {
			w.Fail(cs, "", "%v", err)
		}
		if r.Code != 0 {
			w.Outcome("refused")
			if !bad && !maybe {
				w.Fail(cs, "", "the generator refuses usable templates: %s", r.Stderr)
			}
			return
		}
		w.Outcome(fmt.Sprintf("%d entries", len(es)))
		if bad {
			w.Fail(cs, "", "the generator accepts an unusable template")
		}
		if d := compare(es, want); d != "" {
			w.Fail(cs, "", "wrong output: %s", d)
		}
		if w.WantSample() && len(es) > 1 {
			w.Sample(map[string]interface{}{"files": cs.Files, "entries": len(es)})
		}
	}

	// 2. All directories of up to three files, each of any kind.
	names := []string{"M-1.0", "BSD-4-Clause", "Z"}
	if c.Thorough {
		names = []string{"M-1.0", "BSD-4-Clause", "Z", "GFDL-1.1"}
	}
	dirs := func(w *eng.Worker, ks []int) {
		cs := genCase{Files: map[string]string{}}
		var want []entry
		bad, maybe := false, false
		defs := map[string]bool{}
		for _, k := range ks {
			if k < len(kinds) && kinds[k].defs != "" {
				defs[kinds[k].defs] = true
			}
		}
		sum, files := 0, 0
		for i, k := range ks {
			sum += k
			if k >= len(kinds) {
				continue
			}
			files++
			kd := kinds[k]
			text, es := kd.sub(names[i])
			cs.Files[names[i]+".lre"] = text
			want = append(want, es...)
			bad = bad || kd.bad || kd.need != "" && !defs[kd.need]
			maybe = maybe || kd.maybe
		}
		if files == 0 {
			bad = true
		}
		cs.Pre = sum%2 == 0
		if sum%3 == 0 {
			cs.Out = "other.go"
		}
		by := map[string]entry{}
		var ids []string
		for _, e := range want {
			ids = append(ids, e.ID)
			by[e.ID] = e
		}
		order(ids)
		for i, id := range ids {
			want[i] = by[id]
		}
		check(w, cs, want, bad, maybe)
	}
	// short is the alphabet of the third and fourth file.
	short := 24
	if c.Thorough {
		short = len(kinds)
	}
	nk := len(kinds) + 1
	c.Space("directories", nk*nk, fmt.Sprintf("every directory of up to %d templates, the first two of any of %d kinds, the third of %d of them, with and without an old output", len(names), len(kinds), short), func(w *eng.Worker, i int) {
		a, b := i/nk, i%nk
		dirs(w, []int{a, b, len(kinds)})
		for k := 0; k < short; k++ {
			dirs(w, []int{a, b, k})
			if len(names) > 3 {
				for l := 0; l < 12; l++ {
					dirs(w, []int{a, b, k, l})
				}
			}
		}
	})

	// 3. Every type, in every order of its names (up to three names), in one file among neighbours.
	all := []string{"NonCommercial", "Discouraged", "ShareChanges", "ShareProgram", "ShareServer", "Notice", "Unrestricted"}
	c.Space("types", 8, "every set of type names as the type of one of 16 files, each followed by a file without a type; all orders of three names", func(w *eng.Worker, g int) {
		cs := genCase{Files: map[string]string{}}
		var want []entry
		var ids []string
		by := map[string]entry{}
		add := func(id, typ string) {
			t, err := parseTypeRef(typ)
			if err != nil {
				fatal(err)
			}
			cs.Files[id+".lre"] = fmt.Sprintf("{{Type %q}}%s", typ, "t "+id)
			by[id] = entry{id, t, "t " + id}
			ids = append(ids, id)
			id += "-none"
			cs.Files[id+".lre"] = "n " + id
			by[id] = entry{id, 0, "n " + id}
			ids = append(ids, id)
		}
		if g < 7 {
			for set := g * 16; set < g*16+32 && set < 128; set++ {
				var ns []string
				for b, n := range all {
					if set>>b&1 != 0 {
						ns = append(ns, n)
					}
				}
				if len(ns) > 0 {
					add(fmt.Sprintf("T%03d", set), strings.Join(ns, "|"))
				}
			}
		} else {
			for i, a := range all {
				for j, b := range all {
					for k, d := range all {
						add(fmt.Sprintf("O%d%d%d", i, j, k), a+"|"+b+"|"+d)
					}
				}
			}
		}
		order(ids)
		for _, id := range ids {
			want = append(want, by[id])
		}
		check(w, cs, want, false, false)
	})

	// 4. The order of names.
	words := []string{"A", "BSD-3-Clause", "BSD-4-Clause", "BSD-4-Clause-UC", "BSD-4-ClauseX", "BSD-5", "GFDL", "GFDL-1.1-invariants", "GFDL-1.1-no-invariants", "GFDL-1.2", "GPL-2.0+", "a", "Z.1"}
	c.Space("order", 1<<8, fmt.Sprintf("every non-empty subset of %d names", len(words)), func(w *eng.Worker, i int) {
		for j := 0; j < 1<<(len(words)-8); j++ {
			set := j<<8 | i
			if set == 0 {
				continue
			}
			cs := genCase{Files: map[string]string{"notes.txt": "{{ not a template", "x.lre.bak": "no"}}
			var ids []string
			for b, n := range words {
				if set>>b&1 != 0 {
					ids = append(ids, n)
					cs.Files[n+".lre"] = "text of " + n
				}
			}
			order(ids)
			var want []entry
			for _, id := range ids {
				want = append(want, entry{id, 0, "text of " + id})
			}
			check(w, cs, want, false, false)
		}
	})

	// 5. The order of many names at once: all of the license directory and their kin.
	c.Space("families", 10, "directories of the names of all committed templates, with each digit replaced by d, and with endings, in one run", func(w *eng.Worker, d int) {
		cs := genCase{Files: map[string]string{}}
		files, _ := filepath.Glob(filepath.Join(repo(), "licenses", "*.lre"))
		seen := map[string]bool{}
		var ids []string
		for _, f := range files {
			id := strings.TrimSuffix(filepath.Base(f), ".lre")
			with := strings.Map(func(r rune) rune {
				if '0' <= r && r <= '9' {
					return rune('0' + d)
				}
				return r
			}, id)
			for _, base := range []string{id, with} {
				for _, e := range []string{"", "-x", "X", "-UC", "-no-x", "-invariants", fmt.Sprintf("-%d", d), fmt.Sprintf(".%d", d), fmt.Sprint(d)} {
					n := base + e
					if seen[n] {
						continue
					}
					seen[n] = true
					ids = append(ids, n)
					cs.Files[n+".lre"] = "text of " + n
				}
			}
		}
		order(ids)
		var want []entry
		for _, id := range ids {
			want = append(want, entry{id, 0, "text of " + id})
		}
		check(w, cs, want, false, false)
		w.Outcome(fmt.Sprintf("%d names", len(ids)))
	})

	// Names of every shape.
	const shapes = "aZ1.-+_"
	c.Space("names", len(shapes)*len(shapes)+1, "every name of up to 5 characters of "+shapes+", and longer ones with up to 12 parts, hundreds in each directory, many differing in punctuation only", func(w *eng.Worker, g int) {
		var all []string
		var rec func(id string, k int)
		rec = func(id string, k int) {
			all = append(all, id)
			if k > 0 {
				for _, r := range shapes {
					rec(id+string(r), k-1)
				}
			}
		}
		if g > 0 {
			rec(shapes[(g-1)/len(shapes):][:1]+shapes[(g-1)%len(shapes):][:1], 3)
		} else {
			all = append(all, "")
			for _, r := range shapes {
				all = append(all, string(r))
				for n := 2; n <= 12; n++ {
					all = append(all, "q"+strings.Repeat("x"+string(r), n), strings.Repeat("Y"+string(r)+"2", n)+"-w", strings.Repeat(string(r), n)+"v", "lre.lre"+strings.Repeat(string(r), n))
				}
			}
		}
		for len(all) > 0 {
			cs := genCase{Files: map[string]string{}}
			seen := map[string]bool{}
			var ids, rest []string
			for _, n := range all {
				if !seen[n] {
					seen[n] = true
					ids = append(ids, n)
					cs.Files[n+".lre"] = fmt.Sprintf("{{Type \"Notice\"}}text of %q", n)
				} else {
					rest = append(rest, n)
				}
			}
			all = rest
			order(ids)
			var want []entry
			for _, id := range ids {
				want = append(want, entry{id, licensecheck.Notice, fmt.Sprintf("text of %q", id)})
			}
			check(w, cs, want, false, false)
		}
	})

	// The list function: values that extend each other.
	type step struct {
		src string
		val []interface{}
	}
	next := func(vars []step) []step {
		var out []step
		for n := 0; n <= 5; n++ {
			src, val := "list", []interface{}(nil)
			for k := 0; k < n; k++ {
				src += fmt.Sprintf(" %d", 10*len(vars)+k)
				val = append(val, 10*len(vars)+k)
			}
			out = append(out, step{src, val})
		}
		x := fmt.Sprintf("x%d", len(vars))
		for i, a := range vars {
			out = append(out, step{fmt.Sprintf("list $v%d %q", i, x), append(append([]interface{}{}, a.val...), x)}, step{fmt.Sprintf("list %q $v%d", x, i), append([]interface{}{x}, a.val...)})
			for k, b := range vars {
				out = append(out, step{fmt.Sprintf("list $v%d $v%d", i, k), append(append([]interface{}{}, a.val...), b.val...)})
			}
		}
		return out
	}
	first := next(nil)
	second := len(next(first[:1]))
	steps := 4
	if c.Thorough {
		steps = 5
	}
	c.Space("lists", len(first)*second, fmt.Sprintf("every sequence of %d variables, each a list of 0..5 values, an earlier one extended at either end, or two of them together; all printed at the end and inside another template", steps), func(w *eng.Worker, g int) {
		cs := genCase{Files: map[string]string{"help.lre": "{{define \"show\"}}<{{range .}}{{.}},{{end}}{{len .}}>{{end}}"}}
		var want []entry
		flush := func() {
			var ids []string
			by := map[string]entry{}
			for _, e := range want {
				ids = append(ids, e.ID)
				by[e.ID] = e
			}
			order(ids)
			for i, id := range ids {
				want[i] = by[id]
			}
			if len(want) > 0 {
				check(w, cs, want, false, false)
			}
			cs.Files = map[string]string{"help.lre": cs.Files["help.lre"]}
			want = nil
		}
		var rec func(vars []step)
		rec = func(vars []step) {
			if len(vars) < steps {
				for _, v := range next(vars) {
					rec(append(vars[:len(vars):len(vars)], v))
				}
				return
			}
			id := fmt.Sprintf("L%d", len(want))
			src, text := "", ""
			for i, v := range vars {
				src += fmt.Sprintf("{{$v%d := %s}}", i, v.src)
			}
			for i, v := range vars {
				src += fmt.Sprintf("{{$v%d}} {{template \"show\" $v%d}}\n", i, i)
				text += fmt.Sprint(v.val) + " <"
				for _, x := range v.val {
					text += fmt.Sprint(x) + ","
				}
				text += fmt.Sprint(len(v.val)) + ">\n"
			}
			cs.Files[id+".lre"] = src
			want = append(want, entry{id, 0, text})
			if len(want) == 400 {
				flush()
			}
		}
		v1 := first[g/second]
		rec([]step{v1, next([]step{v1})[g%second]})
		flush()
	})

	// 6. Type expressions, well-formed and not.
	atoms := []string{"Notice", "ShareProgram", "Unknown", "|", ",", " ", "notice", "Unrestricted", "+", "0", "\n", "\t", "/"}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	na := len(atoms)
	c.Space("type_expressions", na*na, fmt.Sprintf("every type expression of up to %d of %d atoms: accepted with its meaning if well-formed, refused if not", depth, na), func(w *eng.Worker, i int) {
		var rec func(t string, k int)
		rec = func(t string, k int) {
			typ, err := parseTypeRef(t)
			cs := genCase{Files: map[string]string{"A.lre": fmt.Sprintf("{{Type %q}}a", t), "B.lre": "b"}}
			check(w, cs, []entry{{"A", typ, "a"}, {"B", 0, "b"}}, err != nil, false)
			if k < depth {
				for _, a := range atoms {
					rec(t+a, k+1)
				}
			}
		}
		if i%na == 0 {
			t := atoms[i/na]
			typ, err := parseTypeRef(t)
			check(w, genCase{Files: map[string]string{"A.lre": fmt.Sprintf("{{Type %q}}a", t)}}, []entry{{"A", typ, "a"}}, err != nil, false)
		}
		rec(atoms[i/na]+atoms[i%na], 2)
	})
	sanity()
}

// sanity makes sure order is a total order on the names used (the property needs no more).
func sanity() {
	ids := []string{"GFDL-1", "BSD-4-Clause-UC", "BSD-4-Clause", "A"}
	got := append([]string{}, ids...)
	order(got)
	if !reflect.DeepEqual(got, []string{"A", "BSD-4-Clause-UC", "BSD-4-Clause", "GFDL-1"}) || sort.StringsAreSorted(got) {
		fatal("order", got)
	}
}
