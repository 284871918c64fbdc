// Package sched runs goroutines one at a time under a given schedule. Code
// instrumented with calls of Y can be preempted at each of them.
package sched

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"
)

// Fine makes every instrumented statement a scheduling point, not only I/O.
var Fine bool

var (
	on     bool
	free   atomic.Bool
	ths    []*thr
	cur    *thr
	steps  int
	next   int
	points []Point
	trace  []uint8
	left   atomic.Int32
	fin    chan struct{}
)

type thr struct {
	id   int
	wake chan struct{}
	done bool
	end  int
	pan  string
}

// Point is a preemption: before step Step the control goes to thread To.
type Point struct{ Step, To int }

// Result tells what a run did.
type Result struct {
	Steps  int
	End    []int   // the step at which each thread ended
	At     []uint8 // the thread that arrived at each step
	Pan    string
	Stuck  bool // a thread blocked; the rest of the run was not controlled
	Locked bool // the threads never ended
}

// Y is a scheduling point at a statement.
func Y() {
	if on && Fine {
		step()
	}
}

// YIO is a scheduling point at an I/O operation.
func YIO() {
	if on {
		step()
	}
}

func step() {
	if free.Load() {
		return
	}
	s := steps
	steps++
	trace = append(trace, uint8(cur.id))
	if next < len(points) && points[next].Step == s {
		to := points[next].To
		next++
		if t := ths[to]; !t.done && t != cur {
			me := cur
			give(t)
			<-me.wake
		}
	}
}

func give(t *thr) {
	cur = t
	select {
	case t.wake <- struct{}{}:
	default:
	}
}

func (t *thr) run(f func()) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 3000)
			buf = buf[:runtime.Stack(buf, false)]
			t.pan = fmt.Sprintf("thread %d panics: %v\n%s", t.id, x, buf)
		}
		if left.Add(-1) == 0 {
			t.end = steps
			close(fin)
			return
		}
		if free.Load() {
			return
		}
		t.done = true
		t.end = steps
		for i := 1; i < len(ths); i++ {
			if o := ths[(t.id+i)%len(ths)]; !o.done {
				give(o)
				return
			}
		}
	}()
	<-t.wake
	f()
}

// Run executes the threads, starting with the given one, preempting at pts.
// When the running thread ends the next one in ring order continues.
func Run(fs []func(), first int, pts []Point) Result {
	ths = make([]*thr, len(fs))
	steps, next, points = 0, 0, pts
	trace = trace[:0]
	fin = make(chan struct{})
	left.Store(int32(len(fs)))
	free.Store(false)
	on = true
	for i := range fs {
		ths[i] = &thr{id: i, wake: make(chan struct{}, 1)}
	}
	cur = ths[first]
	mine, done := ths, fin
	for i, f := range fs {
		go mine[i].run(f)
	}
	mine[first].wake <- struct{}{}
	var res Result
	tick := time.NewTimer(300 * time.Millisecond)
	defer tick.Stop()
	select {
	case <-done:
	case <-tick.C:
		// Either slow or blocked: from here on everything may run.
		free.Store(true)
		res.Stuck = true
		for _, t := range mine {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			res.Locked = true
			return res
		}
	}
	on = false
	res.Steps = steps
	res.At = append([]uint8(nil), trace...)
	for _, t := range mine {
		res.End = append(res.End, t.end)
		if t.pan != "" {
			res.Pan = t.pan
		}
	}
	return res
}

// Explore runs every schedule with at most bound preemptions, from every
// first thread. visit returns false to stop.
func Explore(n int, bound int, mk func() []func(), visit func(first int, pts []Point, r Result) bool) (runs int) {
	var rec func(first int, pts []Point) bool
	rec = func(first int, pts []Point) bool {
		r := Run(mk(), first, pts)
		for i := 0; i < 2 && r.Stuck && !r.Locked; i++ {
			if !visit(first, pts, r) {
				return false
			}
			r = Run(mk(), first, pts)
			runs++
		}
		runs++
		if !visit(first, pts, r) {
			return false
		}
		if r.Stuck || len(pts) == bound {
			return true
		}
		from := 0
		if len(pts) > 0 {
			from = pts[len(pts)-1].Step + 1
		}
		for s := from; s < r.Steps; s++ {
			for to := 0; to < n; to++ {
				if r.End[to] <= s || int(r.At[s]) == to {
					continue
				}
				if !rec(first, append(pts[:len(pts):len(pts)], Point{s, to})) {
					return false
				}
			}
		}
		return true
	}
	for f := 0; f < n; f++ {
		if !rec(f, nil) {
			break
		}
	}
	return runs
}
