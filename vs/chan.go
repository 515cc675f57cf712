package vs

import (
	"reflect"
	"sync/atomic"
	"unsafe"
)

// Channel operations. The channels are real ones and so is every transfer,
// for the race detector's sake; the scheduler decides when one happens and
// between whom, and never lets a real operation block for long.

// A Comm is a channel operation: a *Rx or a *Tx.
type Comm interface {
	key() unsafe.Pointer // which channel
	send() bool
	ends() (n, max int)
	do() // the real operation
	sel() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// Rx receives from C.
type Rx[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

//go:norace
func (r *Rx[T]) key() unsafe.Pointer { return reflect.ValueOf(r.c).UnsafePointer() }

//go:norace
func (r *Rx[T]) send() bool { return false }

//go:norace
func (r *Rx[T]) ends() (n, max int) { return len(r.c), cap(r.c) }
func (r *Rx[T]) do()                { r.V, r.OK = <-r.c }
func (r *Rx[T]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (r *Rx[T]) got(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}

// Tx sends V on C.
type Tx[T any] struct {
	c chan<- T
	v T
}

//go:norace
func (s *Tx[T]) key() unsafe.Pointer { return reflect.ValueOf(s.c).UnsafePointer() }

//go:norace
func (s *Tx[T]) send() bool { return true }

//go:norace
func (s *Tx[T]) ends() (n, max int) { return len(s.c), cap(s.c) }
func (s *Tx[T]) do()                { s.c <- s.v }
func (s *Tx[T]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *Tx[T]) got(v reflect.Value, ok bool) {}

// RecvCase is the case <-c of a select.
func RecvCase[T any](c <-chan T) *Rx[T] { return &Rx[T]{c: c} }

// SendCase is the case c <- v of a select.
func SendCase[T any](c chan<- T) func(v T) *Tx[T] {
	return func(v T) *Tx[T] { return &Tx[T]{c, v} }
}

// Send is c <- v.
func Send[T any](c chan<- T) func(v T) {
	return func(v T) { Select(false, &Tx[T]{c, v}) }
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	r := &Rx[T]{c: c}
	Select(false, r)
	return r.V
}

// Recv2 is <-c in a place with two values.
func Recv2[T any](c <-chan T) (T, bool) {
	r := &Rx[T]{c: c}
	Select(false, r)
	return r.V, r.OK
}

// closedAt is where in a channel the runtime notes that it is closed.
var closedAt = func() uintptr {
	const words = 12
	c := make(chan int)
	at := (*[words]uint32)(reflect.ValueOf(c).UnsafePointer())
	before := *at
	close(c)
	n := -1
	for i, w := range *at {
		if w != before[i] {
			if n >= 0 || before[i] != 0 || w != 1 {
				panic("vs: channels are not as they were")
			}
			n = i
		}
	}
	if n < 0 {
		panic("vs: channels are not as they were")
	}
	return 4 * uintptr(n)
}()

var arrivals int

//go:norace
func isClosed(c unsafe.Pointer) bool {
	return c != nil && *(*uint32)(unsafe.Add(c, closedAt)) != 0
}

// Close is close(c).
func Close[T any](c chan<- T) {
	Yield()
	close(c)
	wakeAll(reflect.ValueOf(c).UnsafePointer())
}

//go:norace
func wakeAll(k unsafe.Pointer) {
	if !active {
		return
	}
	for _, t := range threads {
		for _, w := range t.waits {
			if w.key() == k {
				t.on = 0 // it tries again
			}
		}
	}
}

// chanWait is what a thread waiting for channels waits for.
const chanWait = 1

// partner finds the thread that has waited longest to do the opposite of c.
//
//go:norace
func partner(k unsafe.Pointer, send bool) (p *thread, n int) {
	for _, t := range threads {
		if t.done || t.on != chanWait || p != nil && t.since > p.since {
			continue
		}
		for i, w := range t.waits {
			if w.send() == send && w.key() == k {
				p, n = t, i
				break
			}
		}
	}
	return p, n
}

//go:norace
func ready(c Comm) bool {
	k := c.key()
	if k == nil {
		return false // a nil channel
	}
	if isClosed(k) {
		return true
	}
	n, max := c.ends()
	if c.send() && n < max || !c.send() && n > 0 {
		return true
	}
	if max > 0 {
		return false
	}
	p, _ := partner(k, !c.send())
	return p != nil
}

// transfer lets the waiting thread p do its n-th operation now.
//
//go:norace
func transfer(p *thread, n int, meanwhile func()) {
	raceOff()
	p.wake <- n
	raceOn()
	if meanwhile != nil {
		meanwhile()
	}
	raceOff()
	<-p.ack
	raceOn()
	p.got = n
	p.on = 0
}

//go:norace
func complete(c Comm) {
	k := c.key()
	_, max := c.ends()
	if isClosed(k) {
		c.do()
		return
	}
	p, n := partner(k, !c.send())
	if max == 0 {
		transfer(p, n, c.do)
		return
	}
	c.do()
	if p != nil {
		transfer(p, n, nil)
	}
}

// Select is a select statement; it returns the number of the case, or -1 for the default.
//
//go:norace
func Select(def bool, cases ...Comm) int {
	if !active {
		return really(def, cases)
	}
	Yield()
	for {
		var can []int
		for i, c := range cases {
			if ready(c) {
				can = append(can, i)
			}
		}
		if len(can) > 0 {
			k := can[0]
			if len(can) > 1 {
				k = can[Choose(len(can))]
			}
			complete(cases[k])
			return k
		}
		if def {
			return -1
		}
		t := cur
		arrivals++
		t.waits, t.since, t.got = cases, arrivals, -1
		t.on = chanWait
		next(t)
		t.waits = nil
		if t.got >= 0 {
			return t.got
		}
	}
}

func really(def bool, cases []Comm) int {
	if len(cases) == 1 && !def {
		cases[0].do()
		return 0
	}
	var l []reflect.SelectCase
	for _, c := range cases {
		l = append(l, c.sel())
	}
	if def {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(l)
	if i == len(cases) {
		return -1
	}
	cases[i].got(v, ok)
	return i
}

// Goroutines started before the controlled execution that still run: they are
// out of the scheduler's hands.
var foreign atomic.Int64
