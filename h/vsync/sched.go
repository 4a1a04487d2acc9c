// Package vsync replaces "sync" in the code under test. Between Start and
// the end of execution all the threads are run one at a time, and what thread
// runs next is chosen by the controller at each point where a thread calls
// to synchronization object or to the file. Otherwise it's usual "sync".
//
// Hand-offs between the threads are hidden from the race detector, and
// the happens-before edges that real objects make are declared explicitly,
// so the detector sees races of each explored schedule precisely.
package vsync

import (
	"fmt"
	"runtime/debug"
	"time"
)

// request of the thread to the controller
type request struct {
	what    string
	enabled func() bool // nil - always
	do      func()      // performed by the controller
	sched   bool        // other thread can be chosen at this point
	done    bool        // thread is finished
}

type thread struct {
	id    int
	wake  chan struct{}
	req   request
	tok   byte // release of the thread to the controller
	begin *int // where to put the clock at the next point
	ended bool
}

// Run is one controlled execution.
type Run struct {
	threads []*thread
	cur     *thread
	ctl     chan *thread
	abort   bool
	timer   *time.Timer

	// results
	Panic    string // panic of a thread
	Deadlock string // all the threads are blocked
	Misuse   string // wrong use of synchronization object
	Lost     bool   // a thread does not come to the controller
	Horizon  bool   // too many steps
	Points   int
	Clock    int // counter of marks
	Trace    []string
	Tracing  bool
}

type abortSig struct{}

// active is current controlled execution.
var active *Run

//go:norace
func current() *Run { return active }

//go:norace
func setActive(r *Run) { active = r }

//go:norace
func (r *Run) me() *thread { return r.cur }

//go:norace
func (r *Run) aborted() bool { return r.abort }

// call passes request of current thread to the controller and waits for
// permission to go on.
func (r *Run) call(req request) {
	var t = r.me()
	if r.aborted() {
		panic(abortSig{})
	}
	t.setReq(&req)
	r.handoff(t)
	if r.aborted() {
		panic(abortSig{})
	}
}

// setReq puts request, controller could look at the previous one.
//
//go:norace
func (t *thread) setReq(req *request) { t.req = *req }

func (r *Run) handoff(t *thread) {
	raceReleaseMerge(&t.tok)
	raceDisable()
	r.ctl <- t
	<-t.wake
	raceEnable()
}

// Point is a place where other thread can be chosen.
func Point(what string) {
	if r := current(); r != nil {
		r.call(request{what: what, sched: true})
	}
}

// Begin marks beginning of operation: inv receives the clock when the thread
// goes through its first point, everything before is local for the thread.
func Begin(inv *int) {
	if r := current(); r != nil {
		var t = r.me()
		r.call(request{what: "mark", do: func() { t.begin = inv }})
	}
}

// End marks the end of operation, other thread is not chosen here.
func End(inv, ret *int) {
	if r := current(); r != nil {
		var t = r.me()
		r.call(request{what: "mark", do: func() {
			if t.begin != nil {
				r.Clock++
				*t.begin, t.begin = r.Clock, nil
			}
			r.Clock++
			*ret = r.Clock
		}})
	}
}

//go:norace
func readBool(p *bool) bool { return *p }

const (
	lostTime = 20 * time.Second
	horizon  = 20000
)

// Start runs given functions as threads. Function choose(n, free) returns
// number of the thread in the list of enabled ones, free means that running
// thread can not go on.
func Start(tracing bool, choose func(n int, free bool) int, list ...func()) (r *Run) {
	r = &Run{ctl: make(chan *thread), Tracing: tracing}
	var outer = active // exploration of subtree can be inside of interrupted run
	setActive(r)
	defer setActive(outer)
	for i, f := range list {
		var t = &thread{id: i, wake: make(chan struct{})}
		t.req = request{what: "start"}
		r.threads = append(r.threads, t)
		go r.body(t, f)
	}
	defer func() {
		if x := recover(); x != nil { // choice is not possible
			r.stop()
			panic(x)
		}
	}()
	r.timer = time.NewTimer(lostTime)
	defer r.timer.Stop()
	// everything before the first point is local for the thread
	for _, t := range r.threads {
		for !t.ended && !t.req.sched && (t.req.enabled == nil || t.req.enabled()) {
			if !r.step(t) {
				return
			}
		}
	}
	var prev *thread
	for {
		// enabled threads, the running one is the first
		var en []*thread
		var left int
		var free = true
		if prev != nil && !prev.ended {
			if prev.req.enabled == nil || prev.req.enabled() {
				en, free = append(en, prev), false
			}
		}
		for _, t := range r.threads {
			if t.ended {
				continue
			}
			left++
			if t != prev && (t.req.enabled == nil || t.req.enabled()) {
				en = append(en, t)
			}
		}
		if left == 0 {
			return
		}
		if len(en) == 0 {
			for _, t := range r.threads {
				if !t.ended {
					r.Deadlock += fmt.Sprintf(" thread %d at %s;", t.id, t.req.what)
				}
			}
			r.stop()
			return
		}
		var k int
		if free || prev.req.sched {
			if len(en) > 1 {
				k = choose(len(en), free)
			}
		}
		prev = en[k]
		if !r.step(prev) {
			return
		}
	}
}

// step performs request of the thread and waits for the next one. Returns
// false if the execution is finished.
func (r *Run) step(t *thread) bool {
	if t.req.sched && t.begin != nil {
		r.Clock++
		*t.begin, t.begin = r.Clock, nil
	}
	if t.req.do != nil {
		t.req.do()
	}
	if r.Misuse != "" {
		r.stop()
		return false
	}
	if r.Tracing && t.req.what != "mark" {
		r.Trace = append(r.Trace, fmt.Sprintf("%d:%s", t.id, t.req.what))
	}
	if r.Points++; r.Points > horizon {
		r.Horizon = true
		r.stop()
		return false
	}
	r.setCur(t)
	raceDisable()
	t.wake <- struct{}{}
	if !r.timer.Stop() {
		select {
		case <-r.timer.C:
		default:
		}
	}
	r.timer.Reset(lostTime)
	var got bool
	select {
	case t = <-r.ctl:
		got = true
	case <-r.timer.C:
	}
	raceEnable()
	if !got {
		r.Lost = true
		return false
	}
	raceAcquire(&t.tok)
	if t.req.done {
		t.ended = true
		if r.Panic != "" {
			r.stop()
			return false
		}
	}
	return true
}

//go:norace
func (r *Run) setCur(t *thread) { r.cur = t }

//go:norace
func (r *Run) setAbort() { r.abort = true }

// stop unwinds all the threads.
func (r *Run) stop() {
	setActive(r)
	r.setAbort()
	for _, t := range r.threads {
		if t.ended {
			continue
		}
		r.setCur(t)
		raceDisable()
		t.wake <- struct{}{}
		var t2 = <-r.ctl
		raceEnable()
		raceAcquire(&t2.tok)
		t.ended = true
	}
}

func (r *Run) body(t *thread, f func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(abortSig); !ok && !r.aborted() {
				r.Panic = fmt.Sprintf("panic in thread %d: %v\n%s", t.id, x, debug.Stack())
			}
		}
		t.setReq(&request{what: "end", done: true})
		raceReleaseMerge(&t.tok)
		raceDisable()
		r.ctl <- t
		raceEnable()
	}()
	if !r.aborted() {
		f()
	}
}

// ThreadID returns number of the running thread, or -1 out of execution.
//
//go:norace
func ThreadID() int {
	if active == nil || active.cur == nil {
		return -1
	}
	return active.cur.id
}
