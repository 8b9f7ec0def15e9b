// Package vs is a deterministic scheduler with virtual time.  Code whose
// synchronisation goes through it (see harness/instr, which rewrites sources that way) runs one virtual
// goroutine at a time, and a Strategy decides every switch.  Outside an execution all operations act
// natively and single-threaded (package initialisation).
package vs

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
)

// G is a virtual goroutine.
type G struct {
	id      int
	wake    chan struct{}
	exited  chan struct{}
	blocked func() bool
	why     string
	done    bool
	yielded bool
	consec  int
	Prio    int
}

func (g *G) ID() int { return g.id }

type timer struct {
	at   int64
	seq  int
	fire func()
	idx  int
	dead bool
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Options bound one execution.
type Options struct {
	Fine      bool  // statement-level points are switch points
	Slow      bool  // the clock may advance while goroutines are runnable
	FairAfter int   // steps after which scheduling is round-robin
	MaxSteps  int   // steps after which the execution counts as hung
	MaxTime   int64 // virtual nanoseconds after which the execution counts as hung
}

// Outcome of one execution.
type Outcome struct {
	Hang   bool
	Why    string
	Panic  string
	Steps  int
	Points int
}

// Strategy decides.
type Strategy interface {
	// Pick returns the index of the goroutine to run among opts (opts[0] is the default), or len(opts) to
	// fire the next timer when timer is true. free says that the running goroutine cannot or will not continue.
	Pick(e *Exec, opts []*G, free bool, timer bool) int
	// Choose picks among n equivalent alternatives.
	Choose(e *Exec, n int) int
}

// Exec is one controlled execution.
type Exec struct {
	opt     Options
	strat   Strategy
	gs      []*G
	cur     *G
	steps   int
	points  int
	now     int64
	timers  timerHeap
	tseq    int
	killing bool
	over    bool
	out     Outcome
	fin     chan struct{}
	idNum   int64
	rr      int
	buf     []*G
	buf2    []*G
	spins   int
	loops   int
}

// E is the execution in progress, nil outside.
var E *Exec
var epoch int64

// Epoch identifies the current execution (0 outside), so that package-level locks left behind by a
// killed execution can be recognised.
func Epoch() int64 {
	if E == nil {
		return 0
	}
	return E.idNum
}

// Active tells whether a controlled execution is in progress.
func Active() bool { return E != nil }

// Killing tells whether the execution is being torn down.
func Killing() bool { return E != nil && E.killing }

// Run executes main under control.
func Run(opt Options, st Strategy, main func()) Outcome {
	if opt.FairAfter == 0 {
		opt.FairAfter = 3000
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 60000
	}
	if opt.MaxTime == 0 {
		opt.MaxTime = 1 << 62
	}
	epoch++
	e := &Exec{opt: opt, strat: st, fin: make(chan struct{}), idNum: epoch}
	E = e
	g := e.spawn(main)
	e.cur = g
	g.wake <- struct{}{}
	<-e.fin
	// tear down
	e.killing = true
	for i := 0; i < len(e.gs); i++ {
		g := e.gs[i]
		if !g.done {
			e.cur = g
			g.wake <- struct{}{}
			<-g.exited
		}
	}
	e.out.Steps = e.steps
	e.out.Points = e.points
	E = nil
	return e.out
}

func (e *Exec) spawn(f func()) *G {
	g := &G{id: len(e.gs), wake: make(chan struct{}, 1), exited: make(chan struct{})}
	e.gs = append(e.gs, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if e.killing {
				close(g.exited)
				return
			}
			if r != nil {
				e.finish(func() {
					e.out.Panic = fmt.Sprint(r)
					e.out.Why = string(debug.Stack())
				})
				close(g.exited)
				return
			}
			if e.over {
				close(g.exited)
				return
			}
			if g.id == 0 {
				e.finish(nil)
			} else if next := e.next(g); next != nil {
				e.cur = next
				next.wake <- struct{}{}
			}
			close(g.exited)
		}()
		if !e.killing {
			f()
		}
	}()
	return g
}

// finish ends the execution; the caller must not continue running user code.
func (e *Exec) finish(set func()) {
	if e.over {
		return
	}
	e.over = true
	if set != nil {
		set()
	}
	close(e.fin)
}

func (e *Exec) hang(why string) {
	e.finish(func() {
		e.out.Hang = true
		s := why
		for _, g := range e.gs {
			if !g.done {
				s += fmt.Sprintf("; g%d %s", g.id, g.why)
			}
		}
		e.out.Why = s
	})
}

// next selects the goroutine to run; nil means the execution is over.
func (e *Exec) next(g *G) *G {
	for {
		e.steps++
		if e.steps > e.opt.MaxSteps {
			e.hang("step limit")
			return nil
		}
		if e.now > e.opt.MaxTime {
			e.hang("virtual time limit")
			return nil
		}
		run := e.buf[:0]
		ny := 0
		n := len(e.gs)
		for k := 0; k < n; k++ {
			h := e.gs[(g.id+k)%n]
			if h.done {
				continue
			}
			if h.blocked != nil && !h.blocked() {
				continue
			}
			run = append(run, h)
			if !h.yielded {
				ny++
			}
		}
		e.buf = run
		if len(run) == 0 {
			if len(e.timers) == 0 {
				e.hang("deadlock")
				return nil
			}
			e.advance()
			continue
		}
		if ny == 0 {
			for _, h := range run {
				h.yielded = false
			}
		} else if ny < len(run) {
			r2 := e.buf2[:0]
			for _, h := range run {
				if !h.yielded {
					r2 = append(r2, h)
				}
			}
			e.buf2 = r2
			run = r2
		}
		if e.steps > e.opt.FairAfter {
			e.rr++
			if e.opt.Slow && len(e.timers) > 0 && e.rr%(len(run)*8+1) == 0 {
				e.advance()
				continue
			}
			// round robin over ids
			best := run[0]
			for _, h := range run {
				if h.id > g.id && (best.id <= g.id || h.id < best.id) {
					best = h
				}
			}
			if best.id <= g.id {
				for _, h := range run {
					if h.id < best.id {
						best = h
					}
				}
			}
			return best
		}
		canTimer := e.opt.Slow && len(e.timers) > 0
		free := run[0] != g || g.consec > 40
		if g.consec > 40 && len(run) > 1 && run[0] == g {
			copy(run, run[1:])
			run[len(run)-1] = g
			g.consec = 0
		}
		if len(run) == 1 && !canTimer {
			return run[0]
		}
		k := e.strat.Pick(e, run, free, canTimer)
		if k >= len(run) {
			e.advance()
			continue
		}
		return run[k]
	}
}

func (e *Exec) advance() {
	at := e.timers[0].at
	if at > e.now {
		e.now = at
	}
	e.spins = 0
	for len(e.timers) > 0 && e.timers[0].at <= e.now {
		t := heap.Pop(&e.timers).(*timer)
		if !t.dead {
			t.fire()
		}
	}
}

func (e *Exec) yieldTo(g *G) {
	for _, h := range e.gs {
		if h != g {
			h.yielded = false
		}
	}
	nx := e.next(g)
	if nx == nil {
		// over: park until torn down
		<-g.wake
		runtime.Goexit()
	}
	if nx == g {
		g.consec++
		return
	}
	nx.consec = 0
	e.loops = 0
	e.cur = nx
	nx.wake <- struct{}{}
	<-g.wake
	if e.killing {
		runtime.Goexit()
	}
}

// Point is a switch point before a synchronisation operation.
func Point() {
	e := E
	if e == nil {
		return
	}
	if e.killing {
		runtime.Goexit()
	}
	e.points++
	e.yieldTo(e.cur)
}

// Fine is a statement-level switch point, inactive unless Options.Fine.
func Fine() {
	e := E
	if e == nil || !e.opt.Fine {
		return
	}
	if e.killing {
		runtime.Goexit()
	}
	e.points++
	e.yieldTo(e.cur)
}

// Loop is called once per iteration of every loop, so that spinning on a plain variable cannot stall the
// scheduler.
func Loop() {
	e := E
	if e == nil {
		return
	}
	if e.killing {
		runtime.Goexit()
	}
	e.loops++
	if e.loops > 3000 {
		e.loops = 0
		Yield()
	}
}

// Yield lets others run (runtime.Gosched).
func Yield() {
	e := E
	if e == nil {
		return
	}
	if e.killing {
		runtime.Goexit()
	}
	e.points++
	e.spins++
	if e.spins > 60 && len(e.timers) > 0 { // only spinning is going on: time passes
		e.advance()
	}
	e.cur.yielded = true
	e.yieldTo(e.cur)
	if E == e && e.cur != nil {
		e.cur.yielded = false
	}
}

// Block waits until pred holds.
func Block(why string, pred func() bool) {
	e := E
	if e == nil {
		if !pred() {
			panic("vs: blocking operation outside a controlled execution: " + why)
		}
		return
	}
	if e.killing {
		runtime.Goexit()
	}
	if pred() {
		return
	}
	g := e.cur
	g.blocked = pred
	g.why = why
	e.yieldTo(g)
	g.blocked = nil
	g.why = ""
}

// Go starts a virtual goroutine.
func Go(f func()) {
	e := E
	if e == nil {
		go f()
		return
	}
	if e.killing {
		return
	}
	e.spawn(f)
	Point()
}

// Choose picks one of n alternatives.
func Choose(n int) int {
	if E == nil || n < 2 || E.killing || E.steps > E.opt.FairAfter {
		return 0
	}
	return E.strat.Choose(E, n)
}

// NowNS is the virtual clock in nanoseconds.
func NowNS() int64 {
	if E == nil {
		return 0
	}
	return E.now
}

// Timer is a one-shot virtual timer.
type Timer struct {
	t *timer
	e *Exec
}

// At arranges for fire (which must not block) to run at virtual time at.
func At(at int64, fire func()) *Timer {
	e := E
	if e == nil {
		return &Timer{}
	}
	e.tseq++
	t := &timer{at: at, seq: e.tseq, fire: fire}
	heap.Push(&e.timers, t)
	return &Timer{t: t, e: e}
}

// Stop cancels the timer and tells whether it was pending.
func (t *Timer) Stop() bool {
	if t.t == nil || t.e != E || t.t.idx < 0 {
		return false
	}
	heap.Remove(&t.e.timers, t.t.idx)
	t.t.idx = -1
	return true
}

// SleepNS blocks for d virtual nanoseconds.
func SleepNS(d int64) {
	if E == nil {
		return
	}
	Point()
	if d <= 0 {
		return
	}
	fired := false
	at := E.now + d
	if at < E.now {
		at = 1<<63 - 1
	}
	At(at, func() { fired = true })
	Block("sleep", func() bool { return fired })
}

// SpawnRaw starts a virtual goroutine without a switch point (timer callbacks).
func SpawnRaw(f func()) {
	if e := E; e != nil && !e.killing {
		e.spawn(f)
	}
}
