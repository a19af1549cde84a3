//go:build go1.22

// Package simrt is the run-time half of the simulator. The build step copies
// it into the scratch copy of the repository and rewrites the repository's
// code to call it: step hooks, seeded map iteration, the file-system and
// network shim, virtual time and simulated tasks and locks.
//
// Outside a World (package initialisation, harness code) everything passes
// straight through.
package simrt

import (
	"os"
	"runtime"
	"strconv"
	"time"
)

// Rand is the only source of randomness: splitmix64.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rand) Bool(num, den int) bool { return r.Intn(den) < num }

// Task is one simulated thread of control.
type Task struct {
	id   int
	ch   chan struct{}
	done bool
	cond func() bool // blocked until true
	root bool
	sel  bool // waiting in a select
	ext  bool // waiting for a channel the simulator does not control

	gone  chan struct{}
	stuck bool // stopped for good by os.Exit
}

// World is one simulated execution.
type World struct {
	Steps    int64 // virtual time: one step per executed function or loop body
	MaxSteps int64
	// Exhausted: the step budget ran out (hang, livelock).
	Exhausted bool
	Deadlock  bool
	Exited    bool // os.Exit was called
	ExitCode  int
	Panic     any
	PanicStk  string

	SwitchDen int // switch tasks with probability 1/SwitchDen at every step; 0: only when blocked
	Switches  int64
	Trace     uint64 // hash of the schedule
	LeakedGo  int    // tasks still alive at the end

	rng   *Rand
	clock time.Duration

	tasks []*Task
	cur   *Task
	dead  bool
	over  bool // only the leftovers of dead tasks run

	progress int64 // counts everything that could make a select ready
	idle     int   // looks at selects since the last step
	roots    int   // tasks not started by the code under test that still run
	timers   []*timer

	fin chan struct{}

	Process bool // the world is the whole process

	Epoch time.Duration // offset of the virtual clock at the start

	// Fs decides file-system and network faults; nil: none.
	Fs FaultFn
}

// FaultFn is asked before every shimmed operation; a non-nil error is returned
// by the operation instead of performing it.
type FaultFn func(op, path string) error

var w *World

// MapSeed orders map iteration outside worlds (package initialisation).
var mapRng = func() *Rand {
	s, _ := strconv.ParseUint(os.Getenv("VERIF_SIM_MAPSEED"), 10, 64)
	return NewRand(s)
}()

// SetMapSeed reseeds map iteration order.
func SetMapSeed(s uint64) { mapRng = NewRand(s) }

// Y is the step hook.
func Y() {
	if w == nil {
		return
	}
	w.step()
}

func (w *World) step() {
	if w.dead {
		return
	}
	w.Steps++
	w.idle = 0
	if w.Steps > w.MaxSteps {
		w.Exhausted = true
		w.kill()
	}
	if w.SwitchDen > 0 && len(w.tasks) > 1 && w.rng.Intn(w.SwitchDen) == 0 {
		w.reschedule()
	}
}

// Charge lets the harness charge virtual time for I/O.
func Charge(n int64) {
	if w != nil && !w.dead {
		w.Steps += n
	}
}

// Current returns the running world.
func Current() *World { return w }

func (w *World) kill() {
	w.dead = true
	runtime.Goexit()
}

// Run executes the task functions as simulated tasks until all of them have
// finished, or the world dies (budget exhausted, deadlock, exit, panic).
func Run(nw *World, seed uint64, fns ...func()) {
	if w != nil {
		panic("simrt: nested world")
	}
	nw.rng = NewRand(seed)
	nw.fin = make(chan struct{}, 1)
	if nw.MaxSteps == 0 {
		nw.MaxSteps = 50_000_000
	}
	w = nw
	for _, f := range fns {
		nw.spawn(f).root = true
		nw.roots++
	}
	first := nw.tasks[0]
	if len(nw.tasks) > 1 && nw.SwitchDen > 0 {
		first = nw.tasks[nw.rng.Intn(len(nw.tasks))]
	}
	nw.cur = first
	first.ch <- struct{}{}
	<-nw.fin
	nw.dead = true
	for _, t := range nw.tasks {
		if !t.done {
			nw.LeakedGo++
		}
	}
	nw.over = true
	nw.reap()
	w = nil
}

// reap ends the tasks that are still suspended, one after the other, so that
// they do not keep what they refer to alive. What their deferred functions do
// no longer counts: in a dead world nothing blocks and no time passes.
func (w *World) reap() {
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.done || t.stuck {
			continue
		}
		w.cur = t
		select {
		case t.ch <- struct{}{}:
		default:
			continue
		}
		limit := time.NewTimer(200 * time.Millisecond)
		select {
		case <-t.gone:
		case <-limit.C:
		}
		limit.Stop()
	}
	w.timers = nil
	unbuffered = nil
}

func (w *World) spawn(f func()) *Task {
	t := &Task{id: len(w.tasks), ch: make(chan struct{}, 1), gone: make(chan struct{})}
	w.tasks = append(w.tasks, t)
	go func() {
		defer close(t.gone)
		<-t.ch
		if w.dead {
			return
		}
		ok := false
		defer func() {
			if !ok {
				if r := recover(); r != nil && !w.over {
					buf := make([]byte, 16<<10)
					w.Panic = r
					w.PanicStk = string(buf[:runtime.Stack(buf, false)])
					w.dead = true
				}
			}
			t.done = true
			w.progress++
			if t.root {
				w.roots--
				if w.roots == 0 {
					// whatever the code left running in the background is cut off
					w.dead = true
				}
			}
			if !w.over {
				w.next()
			}
		}()
		f()
		ok = true
	}()
	return t
}

// next hands over after the current task finished or the world died.
func (w *World) next() {
	if w.dead {
		select {
		case w.fin <- struct{}{}:
		default:
		}
		return
	}
	t := w.pick()
	if t == nil {
		for _, t := range w.tasks {
			if !t.done {
				w.Deadlock = true
			}
		}
		w.dead = true
		w.fin <- struct{}{}
		return
	}
	w.cur = t
	t.ch <- struct{}{}
}

func (w *World) pick() *Task {
	for {
		if len(w.timers) > 0 {
			w.fire()
		}
		if t := w.runnable(); t != nil {
			return t
		}
		if w.advance() {
			continue
		}
		// a select or an uncontrolled channel may become ready in real time
		ext := false
		for _, t := range w.tasks {
			if !t.done && (t.ext || t.sel) {
				ext = true
			}
		}
		if !ext || w.idle > 20000 {
			return nil
		}
		w.idle++
		if w.idle > 4 {
			time.Sleep(100 * time.Microsecond)
		}
		w.progress++ // let selects look again
	}
}

func (w *World) runnable() *Task {
	var rs []*Task
	n := len(w.tasks)
	o := 0
	if n > 2 {
		o = w.rng.Intn(n) // no task is always first to get what several wait for
	}
	for i := range w.tasks {
		t := w.tasks[(i+o)%n]
		if t.done {
			continue
		}
		if t.cond != nil {
			if !t.cond() {
				continue
			}
			// what it waited for has happened, whatever the others do now
			t.cond = nil
			w.progress++
		}
		rs = append(rs, t)
	}
	if len(rs) == 0 {
		return nil
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return rs[w.rng.Intn(len(rs))]
}

func (w *World) reschedule() {
	me := w.cur
	t := w.pick()
	if t == nil {
		w.Deadlock = true
		w.kill()
	}
	if t == me {
		return
	}
	w.Switches++
	w.Trace = (w.Trace ^ uint64(t.id+1) ^ uint64(w.Steps)<<8) * 0x100000001b3
	w.cur = t
	t.ch <- struct{}{}
	<-me.ch
	if w.dead {
		runtime.Goexit()
	}
}

// Block suspends the current task until cond holds.
func Block(cond func() bool) {
	if w == nil {
		if !cond() {
			panic("simrt: Block outside a world")
		}
		return
	}
	block(false, cond)
}

// block suspends the current task until cond has held once; cond may act.
func block(ext bool, cond func() bool) {
	if w.dead {
		return
	}
	if cond() {
		w.progress++
		return
	}
	w.Steps++
	if w.Steps > w.MaxSteps {
		w.Exhausted = true
		w.kill()
	}
	me := w.cur
	me.ext = ext
	me.cond = cond
	w.reschedule()
	me.ext = false
	w.progress++
}

// Go starts a simulated task (rewritten go statement).
func Go(f func()) {
	if w == nil || w.dead {
		go f()
		return
	}
	w.spawn(f)
}

// Exit is os.Exit.
func Exit(code int) {
	if w == nil || w.Process {
		os.Exit(code)
	}
	w.Exited = true
	w.ExitCode = code
	w.dead = true
	w.cur.stuck = true
	w.next()
	select {} // no deferred function runs any more
}

// Stop ends the world from inside (harness: the simulated client gave up).
func Stop() {
	if w != nil {
		w.kill()
	}
}

// virtual time

var epoch = time.Date(2023, 1, 2, 3, 4, 5, 0, time.UTC)

func Now() time.Time {
	if w == nil {
		return time.Now()
	}
	return epoch.Add(w.Epoch + w.clock + time.Duration(w.Steps)*time.Microsecond)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if w == nil {
		time.Sleep(d)
		return
	}
	if w.dead {
		return
	}
	over := false
	w.addTimer(d, func() { over = true })
	block(false, func() bool { return over })
}

// Jump moves the virtual clock (fault: clock jump).
func Jump(d time.Duration) {
	if w != nil {
		w.clock += d
	}
}

// Clock returns the virtual time spent.
func (w *World) Clock() time.Duration { return w.clock + time.Duration(w.Steps)*time.Microsecond }
