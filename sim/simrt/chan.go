//go:build go1.22

package simrt

import (
	"reflect"
	"time"
)

// Channels. A simulated task never blocks on a real channel: an operation
// that cannot proceed suspends the task in the simulated scheduler. Unbuffered
// channels made inside a world have one slot, and a send on them ends when its
// value has been taken.

var unbuffered map[uintptr]any // keeps the channels alive

func chanID(ch any) uintptr { return reflect.ValueOf(ch).Pointer() }

// MakeChan is make(chan T).
func MakeChan[T any]() chan T {
	if w == nil {
		return make(chan T)
	}
	ch := make(chan T, 1)
	if unbuffered == nil {
		unbuffered = map[uintptr]any{}
	}
	unbuffered[chanID(ch)] = ch
	return ch
}

func Send[T any](ch chan<- T, v T) {
	if w == nil {
		ch <- v
		return
	}
	if ch == nil {
		Block(func() bool { return false })
		return
	}
	Y()
	foreign := cap(ch) == 0
	block(foreign, func() bool {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	})
	if _, ok := unbuffered[chanID(ch)]; ok {
		block(false, func() bool { return len(ch) == 0 })
	}
	Y()
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if w == nil {
		v, ok = <-ch
		return
	}
	if ch == nil {
		Block(func() bool { return false })
		return
	}
	Y()
	block(cap(ch) == 0, func() bool {
		select {
		case v, ok = <-ch:
			return true
		default:
			return false
		}
	})
	Y()
	return
}

// RangeChan starts "for v := range ch".
func RangeChan[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// SelWait is the default case of a rewritten select without one: nothing is
// ready, so some other task has to run first.
func SelWait() {
	if w == nil {
		time.Sleep(50 * time.Microsecond)
		return
	}
	if w.dead {
		// the world is over: do not spin
		w.kill()
	}
	w.Steps++
	if w.Steps > w.MaxSteps {
		w.Exhausted = true
		w.kill()
	}
	me := w.cur
	n := w.progress
	me.sel = true
	me.cond = func() bool { return w.progress != n }
	w.reschedule()
	me.sel = false
}

// timers

type timer struct {
	at      time.Duration
	f       func()
	stopped bool
}

func (w *World) now() time.Duration { return w.clock + time.Duration(w.Steps)*time.Microsecond }

func (w *World) addTimer(d time.Duration, f func()) *timer {
	t := &timer{at: w.now() + d, f: f}
	w.timers = append(w.timers, t)
	return t
}

// fire runs the timers that are due.
func (w *World) fire() {
	for i := 0; i < len(w.timers); i++ {
		t := w.timers[i]
		if t.stopped || t.at <= w.now() {
			w.timers = append(w.timers[:i:i], w.timers[i+1:]...)
			i--
			if !t.stopped {
				t.stopped = true
				w.progress++
				t.f()
			}
		}
	}
}

// advance moves the clock to the next timer; false: there is none.
func (w *World) advance() bool {
	best := time.Duration(-1)
	for _, t := range w.timers {
		if !t.stopped && (best < 0 || t.at < best) {
			best = t.at
		}
	}
	if best < 0 {
		return false
	}
	if d := best - w.now(); d > 0 {
		w.clock += d
	}
	w.fire()
	return true
}

// Timer is time.Timer.
type Timer struct {
	C    <-chan time.Time
	t    *timer
	real *time.Timer
	f    func()
}

func NewTimer(d time.Duration) *Timer {
	if w == nil {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	f := func() {
		select {
		case c <- Now():
		default:
		}
	}
	return &Timer{C: c, t: w.addTimer(d, f), f: f}
}

func AfterFunc(d time.Duration, fn func()) *Timer {
	if w == nil {
		return &Timer{real: time.AfterFunc(d, fn)}
	}
	f := func() { Go(fn) }
	return &Timer{t: w.addTimer(d, f), f: f}
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	was := !t.t.stopped
	t.t.stopped = true
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.Stop()
	if w != nil {
		t.t = w.addTimer(d, t.f)
	}
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	t    *timer
	real *time.Ticker
	off  bool
}

func NewTicker(d time.Duration) *Ticker {
	if w == nil {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	k := &Ticker{C: c}
	var f func()
	f = func() {
		select {
		case c <- Now():
		default:
		}
		if !k.off {
			k.t = w.addTimer(d, f)
		}
	}
	k.t = w.addTimer(d, f)
	return k
}

func (k *Ticker) Stop() {
	if k.real != nil {
		k.real.Stop()
		return
	}
	k.off, k.t.stopped = true, true
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
