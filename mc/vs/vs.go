// Package vs runs code whose concurrency operations were rewritten by
// cmd/instr under a controlled scheduler: exactly one thread runs at any time,
// and every choice of which one goes on, and of which ready case a select
// takes, is made by the explorer. Outside of Run, all operations are native.
package vs

import (
	"fmt"
	"reflect"
	"runtime/debug"
)

type thread struct {
	id   int
	name string
	wake chan struct{}
	pred func() bool // blocked until true
	what string      // what it is blocked on
	done bool
}

type run struct {
	choose   func(n int) int
	bound    int
	preempts int
	threads  []*thread
	cur      *thread
	steps    int
	switches int
	fin      chan struct{}
	ended    bool
	res      Result
	closed   map[uintptr]bool
	waiting  []*waiter // parties waiting on unbuffered channels
	events   []string
}

// Result tells how a run ended.
type Result struct {
	Steps, Switches, Threads int
	Deadlock                 bool     // the main thread cannot go on
	Left                     []string // threads that cannot go on after it ended
	Panic                    string
	Endless                  bool
}

var cur *run

// MaxSteps bounds the steps of a run.
const MaxSteps = 200000

// Run runs main, and all threads it starts, to their end. The explorer is
// asked to choose; it is charged for at most bound preemptions.
func Run(choose func(n int) int, bound int, main func()) Result {
	r := &run{choose: choose, bound: bound, fin: make(chan struct{}), closed: map[uintptr]bool{}}
	cur = r
	t := r.spawn("main", main)
	r.cur = t
	t.wake <- struct{}{}
	<-r.fin
	cur = nil
	r.res.Steps, r.res.Switches, r.res.Threads = r.steps, r.switches, len(r.threads)
	return r.res
}

// Active is true within Run.
func Active() bool { return cur != nil }

// Step is the number of steps the run took so far.
func Step() int { return cur.steps }

func (r *run) spawn(name string, f func()) *thread {
	t := &thread{id: len(r.threads), name: name, wake: make(chan struct{}, 1)}
	r.threads = append(r.threads, t)
	go func() {
		<-t.wake
		defer func() {
			if e := recover(); e != nil && !r.ended {
				r.res.Panic = fmt.Sprintf("thread %s: %v\n%s", t.name, e, debug.Stack())
				r.end()
				return
			}
			if !r.ended {
				t.done = true
				r.next(t)
			}
		}()
		f()
	}()
	return t
}

func (r *run) end() {
	if !r.ended {
		r.ended = true
		close(r.fin)
	}
}

func (t *thread) enabled() bool { return !t.done && (t.pred == nil || t.pred()) }

// next passes control on; it returns once t is chosen again.
func (r *run) next(t *thread) {
	if r.ended {
		select {} // abandoned
	}
	if r.steps++; r.steps > MaxSteps {
		r.res.Endless = true
		r.end()
		select {}
	}
	self := t.enabled()
	var opts [16]*thread
	n := 0
	if self {
		opts[0] = t
		n = 1
	}
	if !self || r.preempts < r.bound {
		for i := range r.threads {
			o := r.threads[(t.id+1+i)%len(r.threads)]
			if o != t && n < len(opts) && o.enabled() {
				opts[n] = o
				n++
			}
		}
	}
	if n == 0 {
		for _, o := range r.threads {
			if !o.done {
				r.res.Left = append(r.res.Left, o.name+" blocked on "+o.what)
				r.res.Deadlock = r.res.Deadlock || o.id == 0
			}
		}
		r.end()
		if t.done {
			return
		}
		select {}
	}
	if left := r.bound - r.preempts; Delays && n > left+1 {
		n = left + 1
	}
	i := 0
	if n > 1 {
		i = r.choose(n)
	}
	o := opts[i]
	if o == t {
		return
	}
	if Delays {
		r.preempts += i
	} else if self {
		r.preempts++
	}
	r.switches++
	r.cur = o
	o.wake <- struct{}{}
	if !t.done {
		<-t.wake
	}
}

// Yield is a point where any other thread may go on.
func Yield() {
	if r := cur; r != nil {
		r.next(r.cur)
	}
}

// Delays makes the bound be one on delays: when a thread blocks, the next one
// in order goes on, and every thread that is skipped is charged for, too.
var Delays bool

// Coarse makes switches happen at synchronization only, not at any statement.
var Coarse bool

// Point precedes every statement.
func Point() {
	if r := cur; r != nil && !Coarse {
		r.next(r.cur)
	}
}

// Quiet is true if no other thread can go on.
func Quiet() bool {
	for _, t := range cur.threads {
		if t != cur.cur && t.enabled() {
			return false
		}
	}
	return true
}

// Await blocks until pred holds.
func Await(what string, pred func() bool) {
	r := cur
	if r == nil {
		panic("vs: Await outside of Run")
	}
	t := r.cur
	for {
		t.pred, t.what = pred, what
		r.next(t)
		t.pred = nil
		if pred() {
			return
		}
	}
}

// Go starts a thread.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a named thread.
func GoNamed(name string, f func()) {
	r := cur
	if r == nil {
		go f()
		return
	}
	if name == "" {
		name = fmt.Sprint("goroutine ", len(r.threads))
	}
	r.spawn(name, f)
	Yield()
}

// Live is the number of threads that have not ended.
func Live() (n int) {
	for _, t := range cur.threads {
		if !t.done {
			n++
		}
	}
	return n
}

// waiter is a thread waiting to pass a value on an unbuffered channel.
type waiter struct {
	ch   uintptr
	send bool
	val  interface{}
	done bool
	i    int // the case taken
}

func chid(ch interface{}) uintptr { return reflect.ValueOf(ch).Pointer() }

func (r *run) find(ch uintptr, send bool) *waiter {
	for _, w := range r.waiting {
		if w.ch == ch && w.send == send && !w.done {
			return w
		}
	}
	return nil
}

// Case is a communication of a Select.
type Case interface {
	ready(r *run) bool
	do(r *run)
	offer(r *run, group *[]*waiter, i int)
	taken(w *waiter)
	native() reflect.SelectCase
	set(v reflect.Value, ok bool)
}

// RecvCase receives.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

// SendCase sends.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// CaseRecv makes a case that receives.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

// CaseSend makes a case that sends.
func CaseSend[T any](ch chan<- T, v T) *SendCase[T] { return &SendCase[T]{ch, v} }

func (c *RecvCase[T]) ready(r *run) bool {
	if c.ch == nil {
		return false
	}
	return len(c.ch) > 0 || r.closed[chid(c.ch)] || cap(c.ch) == 0 && r.find(chid(c.ch), true) != nil
}

func (c *RecvCase[T]) do(r *run) {
	if cap(c.ch) == 0 && !r.closed[chid(c.ch)] {
		w := r.find(chid(c.ch), true)
		w.done = true
		c.V, _ = w.val.(T)
		c.Ok = true
		return
	}
	c.V, c.Ok = <-c.ch
}

func (c *RecvCase[T]) offer(r *run, group *[]*waiter, i int) {
	if c.ch != nil && cap(c.ch) == 0 {
		*group = append(*group, &waiter{ch: chid(c.ch), i: i})
	}
}

func (c *RecvCase[T]) taken(w *waiter) { c.V, _ = w.val.(T); c.Ok = true }

func (c *RecvCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RecvCase[T]) set(v reflect.Value, ok bool) {
	if c.Ok = ok; ok {
		c.V, _ = v.Interface().(T)
	}
}

func (c *SendCase[T]) ready(r *run) bool {
	if c.ch == nil {
		return false
	}
	if r.closed[chid(c.ch)] {
		return true // panics
	}
	if cap(c.ch) == 0 {
		return r.find(chid(c.ch), false) != nil
	}
	return len(c.ch) < cap(c.ch)
}

func (c *SendCase[T]) do(r *run) {
	if cap(c.ch) == 0 && !r.closed[chid(c.ch)] {
		w := r.find(chid(c.ch), false)
		w.done, w.val = true, c.v
		return
	}
	c.ch <- c.v
}

func (c *SendCase[T]) offer(r *run, group *[]*waiter, i int) {
	if c.ch != nil && cap(c.ch) == 0 {
		*group = append(*group, &waiter{ch: chid(c.ch), send: true, val: c.v, i: i})
	}
}

func (c *SendCase[T]) taken(w *waiter) {}

func (c *SendCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(c.v)}
}

func (c *SendCase[T]) set(v reflect.Value, ok bool) {}

// Select does one of the given communications, -1 if there is a default and
// none is ready.
func Select(def bool, cases ...Case) int {
	r := cur
	if r == nil {
		var ncs []reflect.SelectCase
		for _, c := range cases {
			ncs = append(ncs, c.native())
		}
		if def {
			ncs = append(ncs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(ncs)
		if i == len(cases) {
			return -1
		}
		cases[i].set(v, ok)
		return i
	}
	Yield()
	var ready []int
	poll := func() bool {
		ready = ready[:0]
		for i, c := range cases {
			if c.ready(r) {
				ready = append(ready, i)
			}
		}
		return len(ready) > 0
	}
	if !poll() {
		if def {
			return -1
		}
		// offer to whoever comes
		var group []*waiter
		for i, c := range cases {
			c.offer(r, &group, i)
		}
		r.waiting = append(r.waiting, group...)
		taken := func() *waiter {
			for _, w := range group {
				if w.done {
					// the other offers are void
					for _, o := range group {
						o.done = true
					}
					return w
				}
			}
			return nil
		}
		what := "select"
		if len(cases) == 1 {
			what = fmt.Sprintf("%T", cases[0])
		}
		var by *waiter
		Await(what, func() bool {
			if by == nil {
				by = taken()
			}
			return by != nil || poll()
		})
		// withdraw
		rest := r.waiting[:0]
		for _, w := range r.waiting {
			mine := false
			for _, g := range group {
				mine = mine || g == w
			}
			if !mine {
				rest = append(rest, w)
			}
		}
		r.waiting = rest
		if by != nil {
			cases[by.i].taken(by)
			return by.i
		}
	}
	k := 0
	if len(ready) > 1 {
		k = r.choose(len(ready))
	}
	cases[ready[k]].do(r)
	return ready[k]
}

// Recv receives from a channel.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from a channel.
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	c := CaseRecv(ch)
	Select(false, c)
	return c.V, c.Ok
}

// Send sends to a channel.
func Send[T any](ch chan<- T, v T) {
	if cur == nil {
		ch <- v
		return
	}
	Select(false, CaseSend(ch, v))
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	r := cur
	if r == nil {
		close(ch)
		return
	}
	Yield()
	close(ch) // panics if nil or closed
	r.closed[chid(ch)] = true
}
