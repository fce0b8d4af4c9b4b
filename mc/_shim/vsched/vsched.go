// Package vsched runs a handful of goroutines one at a time and decides, at every
// scheduling point, which one goes on. Its hand-overs are invisible to the race
// detector, so that only the synchronisation of the code under test counts.
package vsched

import (
	"fmt"
	"runtime/debug"
)

const (
	ready = iota
	blocked
	done
)

const maxThreads = 16

type thread struct {
	wake   chan struct{}
	state  int
	waitOn any
	fn     func()
	panicv string
	exit   byte // address for the final happens-before edge
}

// Dec is one decision: which of N alternatives was taken.
type Dec struct {
	Chosen, N int
}

// Result is what one execution did.
type Result struct {
	Trace       []Dec
	Steps       int
	Preemptions int
	Deadlock    string
	Panics      []string
	Diverged    bool
	Endless     bool
}

const maxSteps = 200000

var (
	active   bool
	extra    bool
	bound    int
	threads  [maxThreads]*thread
	n        int
	cur      int
	prefix   []int
	res      Result
	mainWake = make(chan struct{}, 1)
)

//go:norace
func pick(alts int) int {
	if alts <= 1 {
		return 0
	}
	c := 0
	if i := len(res.Trace); i < len(prefix) {
		c = prefix[i]
		if c >= alts {
			res.Diverged = true
			c = 0
		}
	}
	res.Trace = append(res.Trace, Dec{c, alts})
	return c
}

// Active reports whether a controlled execution is under way.
//
//go:norace
func Active() bool { return active }

// Choose lets the exploration take one of k values (an answer of the environment).
//
//go:norace
func Choose(k int) int {
	if !active {
		return 0
	}
	return pick(k)
}

// Point is a scheduling point.
//
//go:norace
func Point() {
	if !active {
		return
	}
	point()
}

// PointX is a scheduling point in a package whose points are off by default.
//
//go:norace
func PointX() {
	if !active || !extra {
		return
	}
	point()
}

//go:norace
func point() {
	res.Steps++
	if res.Steps > maxSteps {
		res.Endless = true
		bound = 0
		if res.Steps > 20*maxSteps {
			panic("vsched: endless execution")
		}
		if res.Steps%1000 != 0 { // let the others run now and then
			return
		}
		switchTo(nextReady(cur))
		return
	}
	if res.Preemptions >= bound {
		return
	}
	var alts [maxThreads]int
	k := 0
	for i := 0; i < n; i++ {
		if i != cur && threads[i].state == ready {
			alts[k] = i
			k++
		}
	}
	if k == 0 {
		return
	}
	c := pick(k + 1)
	if c == 0 {
		return
	}
	res.Preemptions++
	switchTo(alts[c-1])
}

//go:norace
func nextReady(from int) int {
	for d := 1; d <= n; d++ {
		if i := (from + d) % n; threads[i].state == ready {
			return i
		}
	}
	return from
}

//go:norace
func switchTo(i int) {
	if i == cur {
		return
	}
	self := threads[cur]
	cur = i
	raceOff()
	threads[i].wake <- struct{}{}
	<-self.wake
	raceOn()
}

// leave gives up the processor for good or until woken; the caller has changed its state.
//
//go:norace
func leave(wait bool) {
	self := threads[cur]
	var alts [maxThreads]int
	k := 0
	unfinished := false
	for i := 0; i < n; i++ {
		if threads[i].state == ready {
			alts[k] = i
			k++
		}
		unfinished = unfinished || threads[i].state != done
	}
	if k == 0 {
		if unfinished {
			for i := 0; i < n; i++ {
				if threads[i].state == blocked {
					res.Deadlock += fmt.Sprintf("thread %d waits for %T; ", i, threads[i].waitOn)
				}
			}
		}
		raceOff()
		mainWake <- struct{}{}
		if wait {
			<-self.wake // never
		}
		raceOn()
		return
	}
	next := alts[pick(k)]
	cur = next
	raceOff()
	threads[next].wake <- struct{}{}
	if wait {
		<-self.wake
	}
	raceOn()
}

// Block waits until somebody calls Wake with the same object. Outside of a
// controlled execution nobody could ever wake us.
//
//go:norace
func Block(on any) {
	if !active {
		panic("vsched: deadlock: " + fmt.Sprintf("%T", on) + " is held and nobody runs who could release it")
	}
	t := threads[cur]
	t.state, t.waitOn = blocked, on
	leave(true)
}

// Wake makes the threads that wait for an object runnable again.
//
//go:norace
func Wake(on any) {
	if !active {
		return
	}
	for i := 0; i < n; i++ {
		if threads[i].state == blocked && threads[i].waitOn == on {
			threads[i].state, threads[i].waitOn = ready, nil
		}
	}
}

// Go starts a goroutine of the code under test.
//
//go:norace
func Go(f func()) {
	if !active || n >= maxThreads {
		go f()
		return
	}
	start(f)
	point()
}

//go:norace
func start(f func()) {
	t := &thread{wake: make(chan struct{}, 1), fn: f}
	threads[n] = t
	n++
	go t.run()
}

//go:norace
func (t *thread) run() {
	raceOff()
	<-t.wake
	raceOn()
	t.body()
	t.state = done
	Release(&t.exit)
	leave(false)
}

//go:norace
func (t *thread) body() {
	defer t.recover()
	t.fn()
}

//go:norace
func (t *thread) recover() {
	if r := recover(); r != nil {
		t.panicv = fmt.Sprintf("%v\n%s", r, debug.Stack())
	}
}

// Run executes the functions as threads under the schedule given by choices and
// then, for the rest of the execution, without preemptions.
//
//go:norace
func Run(preemptions int, more bool, choices []int, fns []func()) Result {
	res = Result{}
	draws = 0
	bound, extra, prefix, n = preemptions, more, choices, 0
	for _, f := range fns {
		start(f)
	}
	active = true
	cur = pick(n)
	raceOff()
	threads[cur].wake <- struct{}{}
	<-mainWake
	raceOn()
	active = false
	for i := 0; i < n; i++ {
		t := threads[i]
		if t.state == done {
			Acquire(&t.exit)
		}
		if t.panicv != "" {
			res.Panics = append(res.Panics, t.panicv)
		}
		threads[i] = nil
	}
	return res
}

// Scripted makes random draws decisions of the exploration: each takes its
// lowest, highest or a middle value.
var Scripted bool

// Wide makes every draw take so many values that any way of choosing one of a few
// things by it can choose each of them.
var Wide bool

var draws int

// Draws is the number of scripted draws so far.
//
//go:norace
func Draws() int { return draws }

// DrawN answers a draw from 0..n-1 in wide mode.
//
//go:norace
func DrawN(n uint64) (uint64, bool) {
	if !active || !Scripted || !Wide || n == 0 || n > 64 {
		return 0, false
	}
	draws++
	if draws > 4 {
		return 0, false
	}
	return uint64(pick(int(n))), true
}

// Raw tells whether raw random bits were drawn, of which only some values are tried.
//
//go:norace
func Raw() bool { return raw }

var raw bool

// DrawFrac answers a draw from n equal parts of an interval in wide mode.
//
//go:norace
func DrawFrac(n uint64) (uint64, bool) {
	v, ok := DrawN(n)
	if ok {
		raw = true
	}
	return v, ok
}

// DrawBits answers a draw of so many random bits in wide mode: 0..15 in the lowest
// bits and at every other place where generators cut numbers out of random bits (above
// bit 31 and 32, below bit 53, at the top). Further draws are left to the source.
//
//go:norace
func DrawBits(bits uint) (uint64, bool) {
	if !active || !Scripted || !Wide {
		return 0, false
	}
	raw = true
	draws++
	if draws > 1 {
		return 0, false
	}
	at := []uint{0, bits - 4}
	if bits > 36 {
		at = append(at, 31, 32)
	}
	if bits > 53 {
		at = append(at, 49)
	}
	i := uint(pick(16 * len(at)))
	return uint64(i%16) << at[i/16], true
}

// Draw is the scripted answer of the random source, or -1 for the real one.
//
//go:norace
func Draw() int {
	if !active || !Scripted || Wide {
		return -1
	}
	draws++
	if draws > 12 {
		return -1 // rejection sampling may go on for ever
	}
	return pick(3)
}
