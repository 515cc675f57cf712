// Package eng runs bounded exhaustive explorations: finite, index-addressed
// spaces of cases, each decided by a deterministic function.
package eng

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Check decides one property.
type Check struct {
	ID    string
	Level string // model_checking, exploration or fault_enumeration
	Rule  string // how cases are made and which are non-trivial
	// Assumptions go to the evidence file.
	Assumptions []string
	Run         func(c *Ctx)
}

// Ctx is the state of one run of a check.
type Ctx struct {
	Check    *Check
	Thorough bool
	Tier     string
	Seed     int64

	evals, nontrivial     int64
	states, trans, traces int64
	skipped               int64
	deadline              time.Time
	mu                    sync.Mutex
	spaces                []spaceInfo
	samples               []interface{}
	bad                   *Failure
	incomplete            bool
	notes                 map[string]interface{}
	onlySpace             string
	onlyIndex             int
	outcomes              map[string]int64
	cur                   string
	workers               []*Worker
}

type spaceInfo struct {
	Name     string  `json:"name"`
	Size     int     `json:"cases_or_groups"`
	Done     int64   `json:"done"`
	Evals    int64   `json:"evaluations"`
	Complete bool    `json:"complete"`
	Bound    string  `json:"bound,omitempty"`
	WallS    float64 `json:"wall_s"`
}

// Failure describes one violation.
type Failure struct {
	Property string      `json:"property"`
	Space    string      `json:"space"`
	Index    int         `json:"index"`
	Tier     string      `json:"tier"`
	Message  string      `json:"message"`
	Case     interface{} `json:"case,omitempty"`
	Test     string      `json:"-"` // plain Go test
}

// A Worker runs the cases of a space, one at a time.
type Worker struct {
	C     *Ctx
	space string
	index int64
	since int64 // unix nano when the current index started
	// Local counters, added up at the end of each index.
	Evals, Nontrivial, States, Trans, Traces, Skipped int64
	Outcomes                                          map[string]int64
	fail                                              *Failure
}

type failNow struct{ f *Failure }

// Fail reports a violation for the current index and abandons it.
func (w *Worker) Fail(cs interface{}, test string, format string, args ...interface{}) {
	panic(failNow{&Failure{Message: fmt.Sprintf(format, args...), Case: cs, Test: test}})
}

// Alive says that the case makes progress.
func (w *Worker) Alive() { atomic.StoreInt64(&w.since, time.Now().UnixNano()) }

// Outcome counts one observed outcome class.
func (w *Worker) Outcome(s string) {
	if w.Outcomes == nil {
		w.Outcomes = map[string]int64{}
	}
	w.Outcomes[s]++
}

// Sample records a sample case (the first few are kept).
func (w *Worker) Sample(v interface{}) {
	c := w.C
	if data, err := json.Marshal(v); err != nil || len(data) > 3000 {
		if len(data) > 3000 {
			data = data[:3000]
		}
		v = strings.ToValidUTF8(string(data), "") + " [...]"
	}
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// WantSample reports whether more samples are wanted.
func (w *Worker) WantSample() bool { return len(w.C.samples) < 12 }

// Note adds a measured fact to the evidence.
func (c *Ctx) Note(k string, v interface{}) {
	c.mu.Lock()
	c.notes[k] = v
	c.mu.Unlock()
}

// AddModel adds to the model's counts.
func (c *Ctx) AddModel(states, trans, traces int64) {
	atomic.AddInt64(&c.states, states)
	atomic.AddInt64(&c.trans, trans)
	atomic.AddInt64(&c.traces, traces)
}

// Lock runs f alone.
func (c *Ctx) Lock(f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f()
}

// Failed reports whether a violation has been found.
func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.bad != nil
}

// Incomplete records that something was cut short.
func (c *Ctx) Incomplete(why string) {
	c.mu.Lock()
	c.incomplete = true
	c.notes["incomplete_"+strconv.Itoa(len(c.notes))] = why
	c.mu.Unlock()
}

// Space explores indexes 0..n-1 with f, in parallel, smallest index first.
// bound says in words what the space contains.
func (c *Ctx) Space(name string, n int, bound string, f func(w *Worker, i int)) {
	if c.onlySpace != "" && c.onlySpace != name || c.Failed() {
		return
	}
	t0 := time.Now()
	lo, hi := 0, n
	if c.onlySpace != "" {
		lo, hi = c.onlyIndex, c.onlyIndex+1
	}
	next := int64(lo - 1)
	minBad := int64(1) << 60
	var done int64
	var evals0 = atomic.LoadInt64(&c.evals)
	nw := runtime.NumCPU()
	if nw > hi-lo {
		nw = hi - lo
	}
	var wg sync.WaitGroup
	ws := make([]*Worker, nw)
	for k := range ws {
		ws[k] = &Worker{C: c, space: name, index: -1}
	}
	c.mu.Lock()
	c.workers = ws
	c.mu.Unlock()
	cut := int32(0)
	for _, w := range ws {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= int64(hi) || i > atomic.LoadInt64(&minBad) {
					break
				}
				if time.Now().After(c.deadline) {
					atomic.StoreInt32(&cut, 1)
					break
				}
				fl := w.one(int(i), f)
				atomic.AddInt64(&done, 1)
				if fl != nil {
					c.mu.Lock()
					if i < minBad {
						atomic.StoreInt64(&minBad, i)
						fl.Property, fl.Space, fl.Index, fl.Tier = c.Check.ID, name, int(i), c.Tier
						c.bad = fl
					}
					c.mu.Unlock()
				}
			}
			atomic.StoreInt64(&w.since, 0)
		}()
	}
	wg.Wait()
	c.mu.Lock()
	defer c.mu.Unlock()
	if cut != 0 {
		c.incomplete = true
	}
	c.spaces = append(c.spaces, spaceInfo{name, n, done, atomic.LoadInt64(&c.evals) - evals0, done == int64(n), bound, time.Since(t0).Seconds()})
}

func (w *Worker) one(i int, f func(w *Worker, i int)) (fl *Failure) {
	atomic.StoreInt64(&w.index, int64(i))
	atomic.StoreInt64(&w.since, time.Now().UnixNano())
	w.Evals, w.Nontrivial, w.States, w.Trans, w.Traces, w.Skipped = 0, 0, 0, 0, 0, 0
	w.Outcomes = nil
	defer func() {
		c := w.C
		atomic.AddInt64(&c.evals, w.Evals)
		atomic.AddInt64(&c.nontrivial, w.Nontrivial)
		atomic.AddInt64(&c.states, w.States)
		atomic.AddInt64(&c.trans, w.Trans)
		atomic.AddInt64(&c.traces, w.Traces)
		atomic.AddInt64(&c.skipped, w.Skipped)
		if w.Outcomes != nil {
			c.mu.Lock()
			for k, v := range w.Outcomes {
				c.outcomes[k] += v
			}
			c.mu.Unlock()
		}
		if e := recover(); e != nil {
			if fn, ok := e.(failNow); ok {
				fl = fn.f
				return
			}
			fl = &Failure{Message: fmt.Sprintf("panic: %v\n%s", e, debug.Stack())}
		}
	}()
	f(w, i)
	return nil
}

// watch ends the run if one case makes no progress for far longer than any takes.
func (c *Ctx) watch(limit time.Duration) {
	for {
		time.Sleep(time.Second)
		c.mu.Lock()
		ws := c.workers
		c.mu.Unlock()
		for _, w := range ws {
			s := atomic.LoadInt64(&w.since)
			if s != 0 && time.Since(time.Unix(0, s)) > limit {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				c.bad = &Failure{Property: c.Check.ID, Space: w.space, Index: int(w.index), Tier: c.Tier,
					Message: fmt.Sprintf("no answer after %v\n%s", limit, buf)}
				c.finish(time.Now())
			}
		}
	}
}

var (
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagSeed   = flag.Int64("seed", 1, "seed (no check uses random choices)")
	flagDir    = flag.String("dir", "/verif", "framework directory")
	flagReplay = flag.String("replay", "", "replay `file`")
	flagBudget = flag.Int("budget", 0, "internal deadline in seconds")
	flagList   = flag.Bool("list", false, "list checks")
	t0         = time.Now()
)

// Main runs one of the given checks.
func Main(checks []*Check) {
	flag.Parse()
	debug.SetGCPercent(400)
	if *flagList {
		for _, k := range checks {
			fmt.Println(k.ID)
		}
		return
	}
	c := &Ctx{Tier: *flagTier, Seed: *flagSeed, notes: map[string]interface{}{}, outcomes: map[string]int64{}}
	id := flag.Arg(0)
	if *flagReplay != "" {
		data, err := os.ReadFile(*flagReplay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var f Failure
		if err := json.Unmarshal(data, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		id, c.onlySpace, c.onlyIndex = f.Property, f.Space, f.Index
		if f.Tier != "" {
			c.Tier = f.Tier
		}
	}
	c.Thorough = c.Tier == "thorough"
	for _, k := range checks {
		if k.ID == id {
			c.Check = k
		}
	}
	if c.Check == nil {
		fmt.Fprintf(os.Stderr, "no check %q here\n", id)
		os.Exit(3)
	}
	budget := *flagBudget
	if budget == 0 {
		budget = 400
		if c.Thorough {
			budget = 3000
		}
	}
	c.deadline = t0.Add(time.Duration(budget) * time.Second)
	limit := 170 * time.Second
	if c.Thorough {
		limit = 600 * time.Second
	}
	go c.watch(limit)
	c.Check.Run(c)
	c.finish(time.Now())
}

// Deadline is when the run must stop exploring.
func (c *Ctx) Deadline() time.Time { return c.deadline }

// Dir is the framework directory.
func (c *Ctx) Dir() string { return *flagDir }

// Report records a violation found outside a Space.
func (c *Ctx) Report(space string, cs interface{}, format string, args ...interface{}) {
	c.mu.Lock()
	if c.bad == nil {
		c.bad = &Failure{Property: c.Check.ID, Space: space, Tier: c.Tier, Message: fmt.Sprintf(format, args...), Case: cs}
	}
	c.mu.Unlock()
}

var finishing int32

func (c *Ctx) finish(now time.Time) {
	if !atomic.CompareAndSwapInt32(&finishing, 0, 1) {
		select {}
	}
	code := 0
	viol := 0
	f := c.bad
	if f != nil {
		viol, code = 1, 1
	}
	cov := map[string]interface{}{}
	for k, v := range c.notes {
		cov[k] = v
	}
	complete := !c.incomplete && f == nil
	cov["exhaustive"] = complete
	cov["spaces"] = c.spaces
	cov["evaluations"] = c.evals
	cov["distinct_nontrivial"] = c.nontrivial
	cov["rule"] = c.Check.Rule
	if len(c.samples) > 0 {
		cov["samples"] = c.samples
	} else {
		cov["samples"] = []string{}
	}
	if c.skipped > 0 {
		cov["skipped_ambiguous"] = c.skipped
	}
	if len(c.outcomes) > 0 {
		keys := make([]string, 0, len(c.outcomes))
		for k := range c.outcomes {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return c.outcomes[keys[i]] > c.outcomes[keys[j]] })
		cov["distinct_outcomes"] = len(keys)
		if len(keys) > 24 {
			keys = keys[:24]
		}
		m := map[string]int64{}
		for _, k := range keys {
			m[k] = c.outcomes[k]
		}
		cov["outcomes"] = m
	}
	if c.Check.Level == "model_checking" {
		cov["states"] = c.states
		cov["transitions"] = c.trans
		cov["traces_validated_against_impl"] = c.traces
	}
	ev := map[string]interface{}{
		"property": c.Check.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Check.Level,
		"coverage": cov, "assumptions": c.Check.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	if c.onlySpace == "" {
		os.MkdirAll(filepath.Join(*flagDir, "evidence"), 0777)
		data, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(*flagDir, "evidence", c.Check.ID+".json"), append(data, '\n'), 0666)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s %s: evaluations=%d nontrivial=%d states=%d transitions=%d traces=%d skipped=%d complete=%v %.1fs\n",
		c.Check.ID, c.Tier, c.evals, c.nontrivial, c.states, c.trans, c.traces, c.skipped, complete, time.Since(t0).Seconds())
	for _, s := range c.spaces {
		fmt.Printf("  %-28s %d/%d groups, %d evaluations, %.1fs\n", s.Name, s.Done, s.Size, s.Evals, s.WallS)
	}
	if f != nil {
		path := *flagReplay
		if path == "" {
			dir := filepath.Join(*flagDir, "replays", c.Check.ID)
			os.MkdirAll(dir, 0777)
			path = filepath.Join(dir, "case.json")
			data, err := json.MarshalIndent(f, "", " ")
			if err != nil {
				f.Case = fmt.Sprint(f.Case)
				data, _ = json.MarshalIndent(f, "", " ")
			}
			os.WriteFile(path, data, 0666)
			tp := filepath.Join(dir, "replay_test.go.txt")
			os.Remove(tp)
			if f.Test != "" {
				os.WriteFile(tp, []byte(f.Test), 0666)
			}
		}
		msg := f.Message
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		fmt.Printf("%s\n  in space %s, index %d\n", msg, f.Space, f.Index)
		if data, err := json.Marshal(f.Case); err == nil && f.Case != nil {
			s := string(data)
			if len(s) > 2000 {
				s = s[:2000] + "..."
			}
			fmt.Println("  case:", strings.TrimSpace(s))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, path)
	}
	os.Exit(code)
}
