// Command worker runs one controlled execution of concurrent calls. It is
// built by conc against instrumented copies of the code under test.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/old"
	"github.com/google/licensecheck/verif/vs"
)

// A Job is one execution. Threads are lists of operations such as "B2" (Scan
// on text 2 with the built-in scanner).
type Job struct {
	Threads [][]string
	Texts   []string
	List    []lc.License
	Prefix  []int
	Plan    []vs.Switch
	Free    bool // do not control the schedule
	Batches [][]string
	Lists   [][]lc.License
}

// Answer is what came out.
type Answer struct {
	Results [][]string
	vs.Result
}

var (
	custom *lc.Scanner
	multi  *match.MultiLRE
	lres   []*match.LRE
	dict   *match.Dict
	oldChk *old.Checker
)

func prepare(j *Job) {
	need := map[byte]bool{}
	for _, t := range j.Threads {
		for _, op := range t {
			need[op[0]] = true
		}
	}
	if need['C'] || need['V'] {
		s, err := lc.NewScanner(j.List)
		if err != nil {
			fatal(err)
		}
		custom = s
	}
	if need['M'] || need['D'] || need['R'] {
		dict = new(match.Dict)
		for _, l := range j.List {
			if l.LRE == "" {
				continue
			}
			re, err := match.ParseLRE(dict, l.ID, l.LRE)
			if err != nil {
				fatal(err)
			}
			lres = append(lres, re)
		}
		m, err := match.NewMultiLRE(lres)
		if err != nil {
			fatal(err)
		}
		multi = m
	}
	if need['O'] || need['P'] || need['W'] {
		oldChk = old.New(oldList(j))
	}
}

func oldList(j *Job) []old.License {
	var ls []old.License
	for _, l := range j.List {
		t := "the text of " + l.ID + " says alpha beta gamma " + l.ID
		if l.LRE == "" {
			t = ""
		}
		ls = append(ls, old.License{Name: l.ID, Text: t, URL: l.URL})
	}
	return ls
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
}

// do runs one operation. What it returns is formatted when all threads are
// done: package fmt keeps buffers in a pool, which would order the calls.
func do(j *Job, op string) (out interface{}) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	k := 0
	if len(op) > 1 {
		k, _ = strconv.Atoi(op[1:])
	}
	switch op[0] {
	case 'U', 'V': // many texts
		var all []lc.Coverage
		for _, t := range j.Batches[k] {
			vs.Turn()
			if op[0] == 'U' {
				all = append(all, lc.Scan([]byte(t)))
			} else {
				all = append(all, custom.Scan([]byte(t)))
			}
		}
		return all
	case 'W':
		var all []interface{}
		for i, t := range j.Batches[k] {
			vs.Turn()
			c, ok := oldChk.Cover([]byte(t), oldOpts[i%len(oldOpts)])
			all = append(all, c, ok)
		}
		return all
	case 'Y': // many lists
		var all []interface{}
		for _, l := range j.Lists {
			vs.Turn()
			s, err := lc.NewScanner(l)
			all = append(all, err)
			if err == nil {
				all = append(all, s.Scan([]byte("alpha beta gamma copyright these notices")))
			}
		}
		return all
	}
	text := j.Texts[k]
	switch op[0] {
	case 'B': // the built-in scanner
		return lc.Scan([]byte(text))
	case 'L': // BuiltinLicenses; the caller changes its copy
		list := lc.BuiltinLicenses()
		l := append([]lc.License{}, list...)
		for i := range list {
			list[i] = lc.License{ID: "changed"}
		}
		return l
	case 'N': // a scanner of the built-in licenses
		s, err := lc.NewScanner(lc.BuiltinLicenses())
		if err != nil {
			return err.Error()
		}
		return s.Scan([]byte(text))
	case 'X': // a new scanner of the custom list
		s, err := lc.NewScanner(j.List)
		if err != nil {
			return err.Error()
		}
		return s.Scan([]byte(text))
	case 'E': // a list that is refused
		_, err := lc.NewScanner([]lc.License{{ID: "bad", LRE: "((" + text}})
		return err
	case 'C': // the shared custom scanner
		return custom.Scan([]byte(text))
	case 'M': // the shared MultiLRE
		return *multi.Match(text)
	case 'R': // a shared LRE, compiled lazily
		if lreMatch == nil {
			return ""
		}
		return lreMatch(lres[k%len(lres)], text)
	case 'D': // lookups in the shared Dict
		return []interface{}{dict.Split(text), dict.Lookup("alpha"), dict.Lookup("zzz"), append([]string{}, dict.Words()...)}
	case 'O': // a shared old Checker
		c, ok := oldChk.Cover([]byte(text), old.Options{MinLength: 3, Threshold: 40, Slop: 8})
		return []interface{}{c, ok}
	case 'P': // the same with the default options
		c, ok := oldChk.Cover([]byte(text), old.Options{})
		return []interface{}{c, ok}
	case 'Q': // a new old Checker
		c, ok := old.New(oldList(j)).Cover([]byte(text), old.Options{MinLength: 3, Threshold: 40, Slop: 8})
		return []interface{}{c, ok}
	}
	return "?"
}

var oldOpts = []old.Options{{MinLength: 3, Threshold: 40, Slop: 8}, {}, {MinLength: 1, Threshold: 1, Slop: 1}, {MinLength: -1, Threshold: 100}}

// lreMatch calls the unexported LRE.match, if the instrumented copy offers it.
var lreMatch func(re *match.LRE, text string) bool

func main() {
	var j Job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fatal(err)
	}
	prepare(&j)
	var a Answer
	var fns []func()
	var outs [][]interface{}
	for i, ops := range j.Threads {
		i, ops := i, ops
		a.Results = append(a.Results, make([]string, len(ops)))
		outs = append(outs, make([]interface{}, len(ops)))
		fns = append(fns, func() {
			for k, op := range ops {
				outs[i][k] = do(&j, op)
			}
		})
	}
	if j.Free {
		done := make(chan bool)
		start := make(chan bool)
		for _, f := range fns {
			f := f
			go func() { <-start; f(); done <- true }()
		}
		close(start)
		for range fns {
			<-done
		}
	} else {
		a.Result = vs.Run(fns, j.Prefix, j.Plan)
	}
	if a.Deadlock {
		a.Results = nil
	}
	for i := range a.Results {
		for k, x := range outs[i] {
			a.Results[i][k] = fmt.Sprintf("%+v", x)
		}
	}
	json.NewEncoder(os.Stdout).Encode(&a)
}
