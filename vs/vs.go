// Package vs is a deterministic scheduler: it runs one goroutine at a time and
// switches between them only at Yield, Block and Point, as a plan says.
// Instrumented copies of the code under test import it.
package vs

import (
	"os"
	"reflect"
	"sync"
	"time"
)

type thread struct {
	id    int
	wake  chan int // -1: run; else: do that one of waits
	ack   chan struct{}
	done  bool
	on    uintptr // what it waits for; 0 if runnable
	steps int     // points passed
	waits []Comm  // the channel operations it waits for
	got   int     // which of them was done; -1 if none
	since int     // when it began to wait
	own   bool    // one of the threads given to Run
}

// A Decision is one scheduling choice.
type Decision struct {
	N      int  // how many threads could run
	Pick   int  // which one was picked; 0 is the current thread if it can go on
	CanRun bool // whether the current thread could go on
}

// A Switch is a planned preemption: when the thread passes its Step-th point, To runs instead.
type Switch struct{ Thread, Step, To int }

// State of the current execution. Only the running thread touches it.
var (
	active   bool
	threads  []*thread
	cur      *thread
	prefix   []int
	trace    []Decision
	plan     []Switch
	order    []int
	deadlock bool
	finished chan struct{}
	all      sync.WaitGroup
	steps    [][]int // points passed by every thread at every switch
)

// Active reports whether a controlled execution is running.
//
//go:norace
func Active() bool { return active }

// Result of a controlled execution.
type Result struct {
	Trace    []Decision
	Order    []int // threads in the order they got to run
	Steps    []int // points passed by each thread
	Deadlock bool
}

// Run runs the functions as threads 0, 1, and so on. Scheduling choices follow
// prefix (index into the runnable threads, current one first) and then stay
// with the current thread; planned switches happen besides.
//
//go:norace
func Run(fns []func(), pre []int, pl []Switch) Result {
	for i := 0; foreign.Load() > 0; i++ {
		if i == 500 {
			os.Stderr.WriteString("vs: goroutines started before still run\n")
			os.Exit(5)
		}
		time.Sleep(time.Millisecond)
	}
	prefix, plan = pre, pl
	finished = make(chan struct{}, 1)
	for _, f := range fns {
		spawn(f, true)
	}
	active = true
	cur = nil
	next(nil)
	raceOff()
	<-finished
	raceOn()
	if !deadlock {
		all.Wait()
	}
	active = false
	r := Result{Trace: trace, Order: order, Deadlock: deadlock}
	for _, t := range threads {
		r.Steps = append(r.Steps, t.steps)
	}
	return r
}

//go:norace
func spawn(f func(), own bool) *thread {
	t := &thread{id: len(threads), wake: make(chan int, 1), ack: make(chan struct{}, 1), own: own}
	threads = append(threads, t)
	if own {
		all.Add(1)
	}
	go body(t, f)
	return t
}

//go:norace
func body(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	defer end(t)
	f()
}

//go:norace
func end(t *thread) {
	if t.own {
		all.Done() // orders this thread before Run's return only
	}
	t.done = true
	next(t)
}

// next lets some thread run; t is the current one (nil at the start).
//
//go:norace
func next(t *thread) {
	var can []*thread
	canRun := t != nil && !t.done && t.on == 0
	if canRun {
		can = append(can, t)
	}
	left := false
	for _, u := range threads {
		if u.done {
			continue
		}
		left = left || u.own // others may wait for work for ever
		if u != t && u.on == 0 {
			can = append(can, u)
		}
	}
	if len(can) == 0 {
		deadlock = left
		raceOff()
		finished <- struct{}{}
		raceOn()
		if t != nil && !t.done {
			park(t)
		}
		return
	}
	k := 0
	if len(can) > 1 {
		if i := len(trace); i < len(prefix) {
			k = prefix[i]
			if k >= len(can) {
				diverged()
			}
		}
		trace = append(trace, Decision{len(can), k, canRun})
	}
	to(t, can[k])
}

// diverged ends the process: the execution did not follow its recorded prefix.
func diverged() {
	os.Stderr.WriteString("vs: the plan does not fit the execution\n")
	os.Exit(4)
}

// to hands over from t to u.
//
//go:norace
func to(t, u *thread) {
	if t == u {
		return
	}
	cur = u
	order = append(order, u.id)
	raceOff()
	u.wake <- -1
	raceOn()
	if t != nil && !t.done {
		park(t)
	}
}

//go:norace
func park(t *thread) {
	if t == nil {
		return
	}
	raceOff()
	for {
		n := <-t.wake
		if n < 0 {
			break
		}
		raceOn()
		t.waits[n].do()
		raceOff()
		t.ack <- struct{}{}
	}
	raceOn()
}

// Yield is a synchronization operation: any thread may run next.
//
//go:norace
func Yield() {
	if active {
		next(cur)
	}
}

// Block waits until Wake(on); other threads run.
//
//go:norace
func Block(on uintptr) {
	if !active {
		panic("vs: blocks forever")
	}
	cur.on = on
	next(cur)
}

// Wake makes every thread waiting for on runnable.
//
//go:norace
func Wake(on uintptr) {
	for _, t := range threads {
		if t.on == on {
			t.on = 0
		}
	}
}

// Point is a statement: the plan may switch here.
//
//go:norace
func Point() {
	if !active {
		return
	}
	t := cur
	t.steps++
	if len(plan) > 0 && plan[0].Thread == t.id && plan[0].Step == t.steps {
		p := plan[0]
		plan = plan[1:]
		u := threads[p.To]
		if !u.done && u.on == 0 {
			to(t, u)
		}
	}
}

// Turn hands over to the next thread that can run, in turn.
//
//go:norace
func Turn() {
	if !active {
		return
	}
	t := cur
	for i := 1; i < len(threads); i++ {
		if u := threads[(t.id+i)%len(threads)]; !u.done && u.on == 0 {
			to(t, u)
			return
		}
	}
}

// Choose makes a free choice among n.
//
//go:norace
func Choose(n int) int {
	if !active {
		return 0
	}
	k := 0
	if i := len(trace); i < len(prefix) {
		k = prefix[i]
	}
	trace = append(trace, Decision{n, k, false})
	return k
}

// Go starts a thread.
//
//go:norace
func Go(f func()) {
	if !active {
		foreign.Add(1)
		go func() {
			defer foreign.Add(-1)
			f()
		}()
		return
	}
	spawn(f, false)
	Yield()
}

// GoCall starts a thread that calls fn.
func GoCall(fn interface{}, args ...interface{}) { goCall(fn, false, args) }

// GoCallSlice is GoCall for a call whose last argument is a slice for the variadic parameters.
func GoCallSlice(fn interface{}, args ...interface{}) { goCall(fn, true, args) }

func goCall(fn interface{}, slice bool, args []interface{}) {
	if f, ok := fn.(func()); ok {
		Go(f)
		return
	}
	v := reflect.ValueOf(fn)
	var in []reflect.Value
	for i, a := range args {
		n := v.Type().NumIn()
		var t reflect.Type
		if v.Type().IsVariadic() && !slice && i >= n-1 {
			t = v.Type().In(n - 1).Elem()
		} else {
			t = v.Type().In(i)
		}
		if a == nil {
			in = append(in, reflect.Zero(t))
			continue
		}
		x := reflect.ValueOf(a)
		if !x.Type().AssignableTo(t) {
			x = x.Convert(t) // an untyped constant
		}
		in = append(in, x)
	}
	Go(func() {
		if slice {
			v.CallSlice(in)
		} else {
			v.Call(in)
		}
	})
}
