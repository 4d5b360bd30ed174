// Package zzv is linked into the instrumented copy of the code under test: it is
// the controlled scheduler (one point before every statement), and the counter of
// the work done.
//
// All of it is invisible to the race detector (go:norace, no synchronization but
// plain words on one processor), so that its hand-offs order nothing: a race
// between two threads is reported whatever the schedule.
package zzv

import (
	"runtime"
	"unsafe"
)

// Steps counts the statements executed when no exploration is going on; over Limit, if
// that is not zero, the next one panics with OverLimit.
var Steps, Limit int64

// OverLimit is the panic of a run that goes over the limit.
const OverLimit = "zzv: more steps than the limit"

// Resets set the package variables of the code under test to their initial values.
var resets []func()

// AddReset registers a reset function.
func AddReset(f func()) { resets = append(resets, f) }

// Reset resets the package variables.
func Reset() {
	for _, f := range resets {
		f()
	}
}

const (
	maxThreads = 4
	maxPoints  = 1 << 20
)

// MaxPoints is how long an execution can be.
const MaxPoints = maxPoints

// Dev is a deviation from the default schedule: at the At-th point, go to the Alt-th other enabled thread.
type Dev struct{ At, Alt int }

// Point is what the explorer needs to know about a point.
type Point struct {
	Others  uint8 // how many other threads are enabled
	Running bool  // the running thread could go on
	Sync    bool  // in front of a synchronization operation
	Thread  uint8
	Site    int32 // where in the program
}

// What can go wrong with the control.
const (
	Fine = iota
	TooLong
	Diverged
	Stuck
)

var (
	active  bool
	turn    int
	n       int // points so far
	threads int
	done    [maxThreads]bool
	blocked int // consecutive blocked steps
	devs    []Dev
	di      int
	points  [maxPoints]Point
	free    bool // let everybody run
	dead    bool // deadlock
	bad     int
	site    int32
)

// P is a scheduling point without a number.
//
//go:norace
func P() { At(0) }

// At is a scheduling point.
//
//go:norace
func At(where int32) {
	if !active {
		Steps++
		if Steps > Limit && Limit > 0 {
			panic(OverLimit)
		}
		return
	}
	site = where
	point(false)
}

// Sync is a scheduling point in front of or after a synchronization operation.
//
//go:norace
func Sync() {
	if active {
		point(true)
	}
}

//go:norace
func point(sync bool) {
	if free {
		return
	}
	me := turn
	idx := n
	if idx >= maxPoints {
		bad = TooLong
		free = true
		return
	}
	n++
	o := others(me)
	blocked = 0
	points[idx] = Point{uint8(o), true, sync, uint8(me), site}
	if di < len(devs) && devs[di].At == idx {
		alt := devs[di].Alt
		di++
		if alt > o {
			bad = Diverged
			return
		}
		handOff(me, other(me, alt))
	}
}

//go:norace
func others(me int) int {
	k := 0
	for i := 0; i < threads; i++ {
		if i != me && !done[i] {
			k++
		}
	}
	return k
}

// other returns the k-th (from 1) other thread that is not done, round robin from me.
//
//go:norace
func other(me, k int) int {
	for d := 1; d < threads; d++ {
		i := (me + d) % threads
		if !done[i] {
			k--
			if k == 0 {
				return i
			}
		}
	}
	return -1
}

//go:norace
func handOff(me, to int) {
	turn = to
	for turn != me && !free {
		runtime.Gosched()
	}
}

// Block is called by a thread that cannot go on until another one does something.
//
//go:norace
func Block() {
	if dead {
		panic("zzv: deadlock")
	}
	if !active || free {
		runtime.Gosched()
		return
	}
	me := turn
	blocked++
	if blocked > 3*threads || others(me) == 0 {
		dead = true
		free = true
		panic("zzv: deadlock")
	}
	handOff(me, other(me, 1))
}

//go:norace
func finish(me int) {
	done[me] = true
	if free {
		return
	}
	o := others(me)
	if o == 0 {
		return
	}
	idx := n
	if idx >= maxPoints {
		bad = TooLong
		free = true
		return
	}
	n++
	// The first of the others is the default
	points[idx] = Point{uint8(o - 1), false, false, uint8(me), 0}
	k := 1
	if di < len(devs) && devs[di].At == idx {
		k = 1 + devs[di].Alt
		di++
		if k > o {
			bad = Diverged
			k = 1
		}
	}
	blocked = 0
	turn = other(me, k)
}

//go:norace
func start(me int) {
	for turn != me && !free {
		runtime.Gosched()
	}
}

// Execution is one complete execution.
type Execution struct {
	Points   []Point
	Deadlock bool
	Bad      int // not Fine: the exploration was not in control, no verdict
	Panics   []interface{}
}

var panics [maxThreads]interface{}

// Run executes the bodies under a schedule. They run one at a time. The choice of the first one
// is point 0. The points are valid until the next run.
func Run(bodies []func(), ds []Dev) Execution {
	active, n, threads, done, blocked, devs, di, free, dead, bad = true, 1, len(bodies), [maxThreads]bool{}, 0, ds, 0, false, false, Fine
	panics = [maxThreads]interface{}{}
	join := make(chan int, len(bodies))
	points[0] = Point{uint8(len(bodies) - 1), false, false, 0, 0}
	first := 0
	if len(ds) > 0 && ds[0].At == 0 {
		first = ds[0].Alt
		di = 1
	}
	turn = -1
	for i := range bodies {
		go thread(i, bodies[i], join)
	}
	turn = first
	for range bodies {
		<-join
	}
	return end()
}

//go:norace
func end() Execution {
	active = false
	ex := Execution{Points: points[:n], Deadlock: dead, Bad: bad}
	if di != len(devs) && bad == Fine {
		ex.Bad = Diverged
	}
	for _, p := range panics {
		if p != nil {
			ex.Panics = append(ex.Panics, p)
		}
	}
	return ex
}

//go:norace
func thread(i int, body func(), join chan int) {
	start(i)
	run(i, body)
	finish(i)
	join <- i
}

//go:norace
func run(i int, body func()) {
	defer caught(i)
	body()
}

//go:norace
func caught(i int) {
	if r := recover(); r != nil {
		panics[i] = r
	}
}

// Release lets every thread run freely: the exploration lost control of one.
//
//go:norace
func Release() {
	bad = Stuck
	free = true
}

// Progress is how many points were passed in this execution.
//
//go:norace
func Progress() int { return n }

// hchan is how the runtime begins a channel.
type hchan struct {
	qcount, dataqsiz uint
	buf              unsafe.Pointer
	elemsize         uint16
	closed           uint32
}

// knows: closed tells which channels are closed.
var knows = func() bool {
	a, b := make(chan int, 1), make(chan int, 1)
	close(a)
	c := make(chan struct{})
	d := make(chan struct{})
	close(d)
	return closed(a) && !closed(b) && !closed(c) && closed(d)
}()

//go:norace
func closed[T any](c chan T) bool {
	h := *(**hchan)(unsafe.Pointer(&c))
	return h != nil && h.closed != 0
}

//go:norace
func both[T any, C chan<- T | <-chan T](c C) chan T { return *(*chan T)(unsafe.Pointer(&c)) }

// wait lets the other threads run while a channel is not ready.
//
//go:norace
func wait[T any](c chan T, send bool) {
	if !active {
		return
	}
	Sync()
	for !free {
		if closed(c) || len(c) > 0 && !send || len(c) < cap(c) && send {
			return
		}
		if !knows || send && cap(c) == 0 {
			// Meeting another thread is beyond this
			bad = Stuck
			free = true
			return
		}
		Block()
	}
	if dead {
		panic("zzv: deadlock")
	}
}

// WaitSend returns when a channel can be sent to.
//
//go:norace
func WaitSend[T any](c chan<- T) { wait(both[T](c), true) }

// WaitRecv returns when a channel can be received from.
//
//go:norace
func WaitRecv[T any](c <-chan T) { wait(both[T](c), false) }

// Recv receives from a channel.
func Recv[T any](c <-chan T) T {
	WaitRecv(c)
	return <-c
}

// Recv2 receives from a channel.
func Recv2[T any](c <-chan T) (T, bool) {
	WaitRecv(c)
	v, ok := <-c
	return v, ok
}
