// Package conc decides that calls are safe for concurrent use, by running
// the real code under a deterministic scheduler in all schedules.
package conc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verif/eng"
	"github.com/google/licensecheck/verif/ref"
	"github.com/google/licensecheck/verif/vs"
)

type job struct {
	Threads [][]string
	Texts   []string
	List    []lc.License
	Prefix  []int
	Plan    []vs.Switch
	Free    bool
	Batches [][]string
	Lists   [][]lc.License
}

type answer struct {
	Results [][]string
	vs.Result
}

type outcome struct {
	answer
	Race     bool
	Crash    bool
	Diverged bool
	Foreign  bool // goroutines from before the controlled execution still run
	Stderr   string
}

func (j job) key() string {
	b, _ := json.Marshal(j.Threads)
	return string(b)
}

// runWorker runs one execution.
func runWorker(bin string, j job) outcome {
	in, _ := json.Marshal(j)
	cmd := exec.Command(bin)
	cmd.Env = []string{"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=7", "GOMAXPROCS=2", "GOGC=off"}
	if j.Free {
		cmd.Env = []string{"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=7"}
	}
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	killed := false
	t := time.AfterFunc(100*time.Second, func() { killed = true; cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	var o outcome
	o.Stderr = errb.String()
	if len(o.Stderr) > 3000 {
		o.Stderr = o.Stderr[:3000]
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		switch {
		case killed:
			o.Deadlock = true
			o.Stderr = "no progress\n" + o.Stderr
		case ok && ee.ExitCode() == 66 || strings.Contains(o.Stderr, "DATA RACE"):
			o.Race = true
		case ok && ee.ExitCode() == 4:
			o.Diverged = true
		case ok && ee.ExitCode() == 5:
			o.Foreign = true
		case ok && ee.ExitCode() == 3:
			fatal("worker:", o.Stderr)
		default:
			o.Crash = true
		}
		return o
	}
	if err := json.Unmarshal(out.Bytes(), &o.answer); err != nil {
		fatal("worker answer:", err, out.String())
	}
	return o
}

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(3)
}

// setup holds what every scenario shares.
type setup struct {
	dir              string
	sync, stmt, free string // worker programs
	chans            string
	hook             bool
	texts            []string
	list             []lc.License
	batches          [][]string
	lists            [][]lc.License
	mu               sync.Mutex
	alone            map[string]string // result of each operation made alone
	hurry            time.Time         // from then on, 40 schedules per scenario are enough
}

func repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func trybuild(out string, args ...string) string {
	cmd := exec.Command("go", append([]string{"build", "-o", out}, args...)...)
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Sprint(err, " ", string(b))
	}
	return ""
}

func gobuild(out string, args ...string) {
	if msg := trybuild(out, args...); msg != "" {
		fatal("building the worker:", msg)
	}
}

// manyTexts makes many texts of all kinds from words of the lists, in four batches.
func manyTexts(words, notices, urls []string) [][]string {
	var b [4][]string
	atoms := append(append(append([]string{}, words...), notices...), urls...)
	atoms = append(atoms, " ", "\n", "\r\n", "<b>", "&copy;", "(c) ", "copyright ", "copyright w ", "é", "\xff", ".", "(s)", "https://", "wholly strange ", "{#a}", "](#b)", "\x00", "\ufeff")
	for _, x := range atoms {
		b[0] = append(b[0], x)
		for _, y := range atoms {
			b[0] = append(b[0], x+" "+y, x+y)
		}
	}
	for _, x := range append(append([]string{}, words...), urls...) {
		for _, sep := range []string{" ", "\n", " w w w w w\n", "\ncopyright w\n"} {
			for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 17, 33, 65, 130} {
				b[1] = append(b[1], strings.Repeat(x+sep, n))
			}
			b[1] = append(b[1], strings.Repeat(strings.Join(atoms, sep)+sep, 3))
		}
		// Each word missing, doubled, and each letter changed.
		f := strings.Fields(x)
		for i := range f {
			g := append(append([]string{}, f[:i]...), f[i+1:]...)
			b[1] = append(b[1], strings.Join(g, " "), strings.Join(f[:i+1], " ")+" "+strings.Join(f[i:], " "), strings.Join(f[:i+1], "")+" "+strings.Join(f[i+1:], " "))
		}
		for i := range x {
			b[1] = append(b[1], x[:i]+"x"+x[i+1:], x[:i]+x[i+1:], x[:i]+"-\n"+x[i:], strings.ToUpper(x[:i])+x[i:])
		}
	}
	for k := uint(1); k <= 18; k++ {
		n := 2
		if k > 14 {
			n = 3
		}
		for _, pad := range []string{"w ", " ", "\n", "é", "http://x.org/a ", "copyright "} {
			if n == 3 && (pad != "w " || k%2 == 1) {
				continue // long ones, in batches of their own
			}
			p := strings.Repeat(pad, 1<<k/len(pad)+1)
			b[n] = append(b[n], p+words[0], words[0]+"\n"+p, p+urls[0]+" "+words[0]+" "+p)
		}
	}
	// Package regexp keeps its machines in a pool, which orders calls: texts with
	// URLs go into batches of their own.
	var out [][]string
	for _, l := range b {
		var with, without []string
		for _, t := range l {
			if strings.Contains(strings.ToLower(t), "http") {
				with = append(with, t)
			} else {
				without = append(without, t)
			}
		}
		out = append(out, without, with)
	}
	return out
}

// inputs sets the lists and texts of the scenarios. It returns the built-in licenses to keep.
func (s *setup) inputs(name string) map[string]bool {
	if name == "conc-old" {
		s.list = []lc.License{{ID: "Alpha", LRE: "x"}, {ID: "BSD-Beta", LRE: "x", URL: "example.com/license-b"}, {ID: "Apache-Gamma", URL: "example.com/license-a"}}
		s.texts = []string{
			"the text of Alpha says alpha beta gamma Alpha",
			"The text of BSD-Beta says alpha beta gamma BSD-Beta. See https://example.com/License-A/legalcode for unknown words standing here http://example.com/license-b",
			"wholly strange words which nobody knows yet",
			"",
			"the text of alpha new words says alpha beta gamma alpha the text of BSD says other strange things",
			"nothing of it is known",
		}
		s.batches = manyTexts([]string{s.texts[0], s.texts[4], "The text of BSD-Beta says alpha beta gamma BSD-Beta"}, []string{"nobody knows"}, []string{"http://example.com/license-b", "https://EXAMPLE.com/license-a/legalcode"})
		return map[string]bool{}
	}
	s.list = []lc.License{
		{ID: "Custom-A", Type: lc.Notice, LRE: "alpha beta gamma delta"},
		{ID: "Custom-B", Type: lc.ShareProgram, LRE: "alpha beta\n((gamma || __3__ omega))\nepsilon\n((zeta eta))??"},
		{ID: "Custom-C", LRE: "copyright theta __5__ iota kappa //** note **//"},
		{ID: "Custom-A", URL: "example.com/license-a"},
	}
	s.texts = []string{
		"alpha beta gamma delta",
		"Copyright 2020 Me\nalpha beta one two OMEGA epsilon zeta eta http://example.com/License-A/ more",
		"nothing to see",
		"",
	}
	s.batches = manyTexts([]string{"alpha beta gamma delta", "alpha beta one two omega epsilon zeta eta", "copyright theta one two iota kappa"}, []string{"alpha", "gamma delta", "alphabeta gamma"}, []string{"http://example.com/License-A/", "https://example.com/license-a/us/legalcode"})
	for _, x := range [][]string{
		{"alpha beta gamma", "alpha beta\n((gamma || delta))\nepsilon", "http://x.org/a"},
		{"copyright (c) __5__ all rights", "//** comment **// these notice(s) __10__ them they\n((a b c))??\nd e f", "e f g"},
		{"alpha beta gamma", "alpha beta gamma", "http://x.org/a", "http://x.org/a"},
		{"http://x.org/a", "http://x.org/b"},
		{},
		{"alpha beta ((", "x y z"}, {"alpha"}, {"__3__ alpha beta"}, {"alpha beta __99999999999__ x"}, {"alpha beta //** x"}, {"alpha beta __5__"},
	} {
		var l []lc.License
		for i, p := range x {
			e := lc.License{ID: fmt.Sprint("L", i), Type: lc.Type(i), LRE: p}
			if strings.HasPrefix(p, "http://") {
				e.LRE, e.URL = "", p[7:]
			}
			l = append(l, e)
		}
		s.lists = append(s.lists, l)
	}
	s.lists = append(s.lists, s.list)
	// Three small built-in licenses, and a text of each.
	type small struct {
		id, text string
	}
	var ss []small
	seen := map[string]bool{}
	for _, l := range lc.BuiltinLicenses() {
		if l.LRE == "" || seen[l.ID] {
			continue
		}
		seen[l.ID] = true
		n, err := ref.ParseLRE(l.LRE, func(string) {})
		if err != nil {
			continue
		}
		ws := ref.NewExpander(n).Expand(2, "filler")
		if len(ws) > 25 {
			ss = append(ss, small{l.ID, strings.Join(ws, " ")})
		}
	}
	sort.Slice(ss, func(i, j int) bool {
		if len(ss[i].text) != len(ss[j].text) {
			return len(ss[i].text) < len(ss[j].text)
		}
		return ss[i].id < ss[j].id
	})
	keep := map[string]bool{}
	for i := 0; i < len(ss) && i < 3; i++ {
		keep[ss[i].id] = true
		if i < 2 {
			s.texts = append(s.texts, ss[i].text)
		}
	}
	s.texts = append(s.texts, "See http://www.opensource.org/licenses/mit-license.php and (c) 2020 "+s.texts[4]+" https://creativecommons.org/licenses/by/4.0/legalcode")
	if len(s.texts) != 7 {
		fatal("no small built-in licenses")
	}
	return keep
}

func newSetup(c *eng.Ctx, name string) *setup {
	s := &setup{alone: map[string]string{}}
	keep := s.inputs(name)
	dir := filepath.Join(c.Dir(), ".build", name)
	s.dir = dir
	os.RemoveAll(dir + "-sync")
	os.RemoveAll(dir + "-stmt")
	os.MkdirAll(dir+"-sync", 0777)
	os.MkdirAll(dir+"-stmt", 0777)
	ov, chans, hook, _, err := instrument(repo(), dir+"-sync", false, keep)
	ov2, _, _, n, err2 := instrument(repo(), dir+"-stmt", true, keep)
	if err == nil {
		err = err2
	}
	if err != nil {
		chans = "code that cannot be rewritten: " + err.Error()
	}
	s.chans, s.hook = chans, hook
	tags := "-tags=none"
	if hook {
		tags = "-tags=lrehook"
	}
	c.Note("instrumented_statements", n)
	c.Note("lazy_LRE_scenarios", hook)
	var wg sync.WaitGroup
	wg.Add(2)
	var bad1, bad2 string
	s.sync, s.stmt, s.free = dir+"-sync/worker", dir+"-stmt/worker", dir+"-free"
	go func() {
		defer wg.Done()
		if err != nil {
			return
		}
		bad1 = trybuild(s.sync, "-race", tags, "-overlay", ov, "./cmd/conc/worker")
	}()
	go func() {
		defer wg.Done()
		if err == nil {
			bad2 = trybuild(s.stmt, tags, "-overlay", ov2, "./cmd/conc/worker")
		}
	}()
	wg.Wait()
	if s.chans == "" && bad1+bad2 != "" {
		s.chans = "code that cannot be rewritten: " + bad1 + bad2
	}
	if s.chans != "" {
		gobuild(s.free, "-race", "./cmd/conc/worker")
	} else {
		probe := []string{"C0", "B0", "M0", "O1"}
		if name == "conc-old" {
			probe = []string{"O0", "P1"}
		}
		for _, op := range probe {
			if runWorker(s.stmt, s.job([]string{op})).Foreign {
				s.chans = "initialization: goroutines that stay"
				gobuild(s.free, "-race", "./cmd/conc/worker")
				break
			}
		}
	}
	return s
}

func (s *setup) job(threads ...[]string) job {
	j := job{Threads: threads, Texts: s.texts, List: s.list}
	for _, t := range threads {
		for _, op := range t {
			if strings.Contains("UVWY", op[:1]) {
				j.Batches, j.Lists = s.batches, s.lists
			}
		}
	}
	return j
}

// want is what op returns alone.
func (s *setup) want(w *eng.Worker, op string) string {
	s.mu.Lock()
	r, ok := s.alone[op]
	s.mu.Unlock()
	if ok {
		return r
	}
	o := runWorker(s.stmt, s.job([]string{op}))
	if o.Crash || o.Deadlock || o.Race || len(o.Results) != 1 {
		w.Fail(op, "", "%s alone does not return: %s", op, o.Stderr)
	}
	r = o.Results[0][0]
	if strings.HasPrefix(r, "panic") {
		w.Fail(op, "", "%s alone: %s", op, r)
	}
	s.mu.Lock()
	s.alone[op] = r
	s.mu.Unlock()
	return r
}

// wrong says what is wrong with an outcome; "" if nothing is.
func (s *setup) wrong(w *eng.Worker, j job, o outcome) string {
	switch {
	case o.Race:
		return "data race\n" + o.Stderr
	case o.Deadlock:
		return "deadlock " + o.Stderr
	case o.Crash:
		return "crash\n" + o.Stderr
	}
	for i, t := range j.Threads {
		for k, op := range t {
			if want := s.want(w, op); o.Results[i][k] != want {
				return fmt.Sprintf("thread %d: %s returned\n%.800s\nbut alone\n%.800s", i, op, o.Results[i][k], want)
			}
		}
	}
	return ""
}

// judge checks one outcome. A violation is believed when the same schedule shows one again.
func (s *setup) judge(w *eng.Worker, j job, o outcome, bin string) {
	w.Evals++
	if o.Diverged || o.Foreign {
		w.Skipped++
		w.C.Incomplete("an execution did not follow its prefix: " + j.key())
		return
	}
	w.Traces++
	if len(o.Order) > len(j.Threads) {
		w.Nontrivial++
	}
	w.Outcome(fmt.Sprintf("%d hand-overs", len(o.Order)))
	msg := s.wrong(w, j, o)
	if msg == "" {
		return
	}
	again := 0
	for i := 0; i < 5; i++ {
		if p := runWorker(bin, j); !p.Diverged && s.wrong(w, j, p) != "" {
			again++
		}
	}
	if again == 0 {
		w.C.Incomplete("a failure did not come again: " + j.key() + ": " + msg)
		return
	}
	cs := map[string]interface{}{"threads": j.Threads, "prefix": j.Prefix, "plan": j.Plan, "texts": j.Texts, "program": filepath.Base(filepath.Dir(bin))}
	w.Fail(cs, "", "%s\n(again in %d of 5 runs of the same schedule)", msg, again)
}

// same reports whether two executions of one schedule agree.
func same(a, b outcome) bool {
	return reflect.DeepEqual(a.answer, b.answer) && a.Race == b.Race && a.Crash == b.Crash
}

// allSync explores all schedules of j at synchronization operations.
// It returns false if the cap was reached; then all schedules up to some
// number of preemptions have been explored.
func (s *setup) allSync(w *eng.Worker, j job, limit int) (bound int, complete bool) {
	type item struct {
		picks []int // the choices of an earlier execution; shared
		at    int   // follow them so far, and then
		k     int   // choose this
	}
	now := []item{{nil, -1, 0}}
	var later []item
	n := 0
	cut := false
	for {
		for len(now) > 0 {
			it := now[len(now)-1]
			now = now[:len(now)-1]
			if n >= limit || n >= 40 && time.Now().After(s.hurry) || time.Now().After(w.C.Deadline()) {
				return bound, false
			}
			n++
			j.Prefix = nil
			if it.at >= 0 {
				j.Prefix = append(append([]int{}, it.picks[:it.at]...), it.k)
			}
			o := runWorker(s.sync, j)
			s.judge(w, j, o, s.sync)
			if n <= 2 && !o.Diverged {
				if !same(o, runWorker(s.sync, j)) {
					w.C.Incomplete("two runs of one schedule differ: " + j.key())
				}
				w.Outcome("schedules replayed twice")
			}
			if o.Diverged || o.Foreign {
				continue
			}
			picks := make([]int, len(o.Trace))
			for i, d := range o.Trace {
				picks[i] = d.Pick
			}
			for i := len(j.Prefix); i < len(o.Trace); i++ {
				w.States++
				d := o.Trace[i]
				w.Trans += int64(d.N)
				for k := 1; k < d.N; k++ {
					it := item{picks, i, k}
					if d.CanRun {
						later = append(later, it)
					} else {
						now = append(now, it)
					}
				}
			}
			if keep := 50 * limit; len(now)+len(later) > 2*keep+1000 {
				cut = true
				now, later = spread(now, keep), spread(later, keep)
			}
		}
		if len(later) == 0 {
			return bound, !cut
		}
		bound++
		if len(later) > limit-n {
			cut = true
			later = spread(later, limit-n) // or the last ones would use up the limit
		}
		now, later = later, nil
	}
}

// spread takes n of l, evenly.
func spread[T any](l []T, n int) []T {
	if len(l) <= n {
		return l
	}
	var r []T
	for i := 0; i < n; i++ {
		r = append(r, l[i*len(l)/n])
	}
	return r
}

func (s *setup) clean() {
	os.RemoveAll(s.dir + "-sync")
	os.RemoveAll(s.dir + "-stmt")
	os.Remove(s.dir + "-free")
}

// freeSpace is for code that the scheduler cannot control;
// all that is left is to let it run.
func (s *setup) freeSpace(c *eng.Ctx, ops []string) {
	c.Incomplete("the code uses what the scheduler does not control, at " + s.chans + ": free runs only")
	c.Space("free", len(ops)*len(ops), "pairs of calls, free runs under the race detector", func(w *eng.Worker, i int) {
		j := s.job([]string{ops[i/len(ops)]}, []string{ops[i%len(ops)]}, []string{ops[i/len(ops)]})
		j.Free = true
		o := runWorker(s.free, j)
		w.Evals++
		if o.Race || o.Crash || o.Deadlock {
			w.Fail(j, "", "%s", o.Stderr)
		}
	})
}

// syncSpace explores all schedules of the scenarios at synchronization operations.
func (s *setup) syncSpace(c *eng.Ctx, scen []job, limit int, what string) {
	var mu sync.Mutex
	cut := 0
	minBound := 1 << 30
	s.hurry = time.Now().Add(120 * time.Second)
	if c.Thorough {
		s.hurry = c.Deadline()
	}
	c.Space("sync_schedules", len(scen), fmt.Sprintf("all interleavings at synchronization operations of: %s (at most %d schedules each, fewest preemptions first), under the race detector", what, limit), func(w *eng.Worker, i int) {
		b, ok := s.allSync(w, scen[i], limit)
		if !ok {
			mu.Lock()
			cut++
			if b < minBound {
				minBound = b
			}
			mu.Unlock()
		}
		if w.WantSample() {
			w.Sample(map[string]interface{}{"threads": scen[i].Threads, "schedules": w.Evals})
		}
	})
	if cut > 0 {
		c.Incomplete(fmt.Sprintf("%d scenarios have more than %d schedules; of these, all with fewer than %d preemptions are explored", cut, limit, minBound))
	}
}

// batchSpace explores schedules of long sequences of calls.
func (s *setup) batchSpace(c *eng.Ctx, pairs [][]string) {
	n := 0
	for _, b := range s.batches {
		n += len(b)
	}
	limit := 24
	s.hurry = c.Deadline()
	if c.Thorough {
		limit = 400
	}
	var mu sync.Mutex
	cut := 0
	c.Space("batches", len(pairs), fmt.Sprintf("pairs of threads that scan some of %d texts of all kinds, or make %d scanners, one after the other, a text by one thread, then the same by the other: all schedules at synchronization operations (at most %d, fewest preemptions first), under the race detector", n, len(s.lists), limit), func(w *eng.Worker, i int) {
		if _, ok := s.allSync(w, s.job(pairs[i][:1], pairs[i][1:]), limit); !ok {
			mu.Lock()
			cut++
			mu.Unlock()
		}
	})
	if cut > 0 {
		c.Note("batches_cut", cut)
	}
}

// stmtSpace explores all schedules with one preemption at a statement.
// It returns the number of statements of each thread.
func (s *setup) stmtSpace(c *eng.Ctx, st []job) map[string][]int {
	const group = 64
	type unit struct {
		j     job
		first int
		lo    int
	}
	var units []unit
	total := map[string][]int{}
	for _, j := range st {
		o := runWorker(s.stmt, j)
		steps := make([]int, len(j.Threads))
		copy(steps, o.Steps)
		total[j.key()] = steps
		for f := range j.Threads {
			// The number of steps of a thread that runs first.
			jj := j
			jj.Prefix = []int{f}
			o := runWorker(s.stmt, jj)
			if len(o.Steps) <= f {
				steps[f] = group
			} else {
				steps[f] = o.Steps[f]
			}
			for lo := 1; lo <= steps[f]; lo += group {
				units = append(units, unit{j, f, lo})
			}
			if j.Threads[0][0] == j.Threads[1][0] {
				break // the same by symmetry
			}
		}
	}
	sort.SliceStable(units, func(a, b int) bool { return units[a].lo < units[b].lo })
	c.Note("statement_steps", total)
	c.Space("statement_schedules", len(units), fmt.Sprintf("every schedule with one preemption, at any executed statement, of %d pairs of calls; groups of %d preemption points", len(st), group), func(w *eng.Worker, i int) {
		u := units[i]
		for k := u.lo; k < u.lo+group && k <= total[u.j.key()][u.first]; k++ {
			j := u.j
			j.Prefix = []int{u.first}
			j.Plan = []vs.Switch{{Thread: u.first, Step: k, To: 1 - u.first}}
			o := runWorker(s.stmt, j)
			w.States++
			w.Trans += 2
			s.judge(w, j, o, s.stmt)
		}
	})
	return total
}

// Scanners decides C13.
func Scanners(c *eng.Ctx) {
	s := newSetup(c, "conc")
	defer s.clean()
	ops := []string{"B4", "B6", "B3", "L", "N6", "X1", "E0", "C0", "C1", "M1", "D1", "O1"}
	if s.hook {
		ops = append(ops, "R1", "R0")
	}
	if s.chans != "" {
		s.freeSpace(c, ops)
		return
	}

	// 1. Synchronization level, under the race detector.
	var scen []job
	for i, a := range ops {
		for _, b := range ops[i:] {
			scen = append(scen, s.job([]string{a}, []string{b}))
		}
	}
	for _, a := range []string{"B4", "B6", "L", "N6", "C1"} {
		for _, b := range []string{"B4", "L", "C0", "X1"} {
			scen = append(scen, s.job([]string{a, b}, []string{b, a}))
		}
	}
	three := []string{"B4", "B6", "L", "N6", "C0", "C1", "X1"}
	if s.hook {
		three = append(three, "R1")
	}
	for i, a := range three {
		for k, b := range three[i:] {
			for _, d := range three[i+k:] {
				scen = append(scen, s.job([]string{a}, []string{b}, []string{d}))
			}
		}
	}
	limit := 1000
	if c.Thorough {
		limit = 20000
		for _, a := range []string{"B4", "N6", "C1", "R1"} {
			if a == "R1" && !s.hook {
				continue
			}
			scen = append(scen, s.job([]string{a}, []string{a}, []string{a}, []string{a}))
			scen = append(scen, s.job([]string{a, a}, []string{a, "L"}, []string{"C0", a}))
		}
	}
	s.batchSpace(c, [][]string{{"V0", "V0"}, {"V1", "V1"}, {"V2", "V2"}, {"V3", "V3"}, {"V4", "V4"}, {"V5", "V5"}, {"V6", "V6"}, {"U0", "U0"}, {"U2", "U2"}, {"U3", "U3"}, {"U4", "U4"}, {"U6", "U6"}, {"Y0", "Y0"}, {"V0", "V2"}, {"U2", "Y0"}, {"V2", "U2"}, {"V2", "Y0"}})
	s.syncSpace(c, scen, limit, fmt.Sprintf("every pair of %d calls, pairs of two-call threads, triples of %d calls", len(ops), len(three)))

	// 2. Statement level: one preemption anywhere (thorough: two).
	var st []job
	base := []string{"B4", "L", "N5", "X1", "C1", "M1", "O1"}
	if s.hook {
		base = append(base, "R1")
	}
	for i, a := range base {
		st = append(st, s.job([]string{a}, []string{a}))
		if i > 0 && c.Thorough {
			st = append(st, s.job([]string{a}, []string{base[0]}))
		}
	}
	total := s.stmtSpace(c, st)
	if !c.Thorough {
		return
	}

	// Two preemptions, for the calls with few statements.
	type pair struct {
		j    job
		f, k int
	}
	var pairs []pair
	for _, a := range []string{"C3", "C2", "L", "C0", "M3", "R3"} {
		if a == "R3" && !s.hook {
			continue
		}
		j := s.job([]string{a}, []string{a})
		o := runWorker(s.stmt, j)
		if len(o.Steps) < 2 || o.Steps[0]*o.Steps[1] > 700000 {
			continue
		}
		total[j.key()] = o.Steps
		for k := 1; k <= o.Steps[0]; k++ {
			pairs = append(pairs, pair{j, 0, k})
		}
	}
	c.Space("statement_schedules_2", len(pairs), "every schedule with two preemptions, at any executed statements, of the pairs of equal calls with few statements; groups by the first preemption point", func(w *eng.Worker, i int) {
		u := pairs[i]
		for m := 1; m <= total[u.j.key()][1]+1; m++ {
			j := u.j
			j.Prefix = []int{u.f}
			j.Plan = []vs.Switch{{Thread: u.f, Step: u.k, To: 1 - u.f}, {Thread: 1 - u.f, Step: m, To: u.f}}
			o := runWorker(s.stmt, j)
			w.States++
			w.Trans += 3
			s.judge(w, j, o, s.stmt)
		}
	})
}

// Checkers decides the part of C21 about concurrent calls.
func Checkers(c *eng.Ctx) {
	s := newSetup(c, "conc-old")
	defer s.clean()
	ops := []string{"O0", "O1", "O2", "O3", "O4", "O5", "P1", "P2", "P4", "Q1", "Q4"}
	if s.chans != "" {
		s.freeSpace(c, ops)
		return
	}
	var scen []job
	for i, a := range ops {
		for _, b := range ops[i:] {
			scen = append(scen, s.job([]string{a}, []string{b}))
			scen = append(scen, s.job([]string{a, b}, []string{b, a}))
		}
	}
	for i, a := range ops[:5] {
		for k, b := range ops[i:5] {
			for _, d := range ops[i+k : 5] {
				scen = append(scen, s.job([]string{a}, []string{b}, []string{d}))
			}
		}
	}
	limit := 300
	if c.Thorough {
		limit = 20000
	}
	s.batchSpace(c, [][]string{{"W0", "W0"}, {"W1", "W1"}, {"W2", "W2"}, {"W3", "W3"}, {"W4", "W4"}, {"W5", "W5"}, {"W6", "W6"}, {"W0", "W2"}, {"W2", "W4"}})
	s.syncSpace(c, scen, limit, fmt.Sprintf("every pair of %d calls on shared and new old checkers, pairs of two-call threads, triples of 5 calls", len(ops)))
	var st []job
	for i, a := range ops {
		st = append(st, s.job([]string{a}, []string{a}))
		if c.Thorough {
			for _, b := range ops[i+1:] {
				st = append(st, s.job([]string{a}, []string{b}))
			}
		}
	}
	s.stmtSpace(c, st)
}
