// Package dlib is the common part of the concurrency drivers: it runs scenarios of the real code under the
// deterministic scheduler (mode ctl) or on real goroutines (modes native and race), records the history of
// calls, returns and callbacks, and writes the distinct histories for the trace specification.
package dlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vs"
)

// E is one event.
type E map[string]any

// Env is what a scenario sees.
type Env struct {
	Ctl  bool
	Race bool
	R    *rand.Rand // native jitter, program generation inside scenarios
	mu   sync.Mutex
	ev   []E
	seq  atomic.Int64
	t0   time.Time
	thr  []*Thread
	Slow bool
}

// Thread records the events of one goroutine.
type Thread struct {
	env *Env
	ID  int
	ev  []E
	sq  []int64
}

// Thread makes a recorder for goroutine id.
func (e *Env) Thread(id int) *Thread {
	t := &Thread{env: e, ID: id}
	if !e.Ctl && !e.Race {
		e.mu.Lock()
		e.thr = append(e.thr, t)
		e.mu.Unlock()
	}
	return t
}

// Now is the virtual time in nanoseconds (0 natively).
func (e *Env) Now() int64 {
	if e.Ctl {
		return vs.NowNS()
	}
	return 0
}

// Add records an event.
func (t *Thread) Add(ev E) {
	e := t.env
	if e.Race {
		return
	}
	ev["t"] = t.ID
	if e.Ctl {
		if vs.Killing() {
			return
		}
		ev["now"] = vs.NowNS()
		e.ev = append(e.ev, ev)
		return
	}
	ev["now"] = 0
	t.ev = append(t.ev, ev)
	t.sq = append(t.sq, e.seq.Add(1))
}

// Call and Ret are the usual events.
func (t *Thread) Call(op string, ev E) {
	ev["k"] = "call"
	ev["op"] = op
	t.Add(ev)
	t.env.Jitter()
}

// Ret records a return.
func (t *Thread) Ret(op string, ev E) {
	ev["k"] = "ret"
	ev["op"] = op
	t.Add(ev)
}

// Jitter perturbs native schedules.
func (e *Env) Jitter() {
	if e.Ctl {
		return
	}
	switch n := randv2.Uint32() % 8; {
	case n < 2:
		runtime.Gosched()
	case n == 2:
		x := randv2.Uint32()
		for i := randv2.Uint32() % 2000; i > 0; i-- {
			x = x*1664525 + i
		}
		if x == 1 {
			runtime.Gosched()
		}
	}
}

// Go starts f and returns a join function.
func (e *Env) Go(f func()) (join func()) {
	if e.Ctl {
		done := false
		vs.Go(func() { defer func() { done = true }(); f() })
		return func() { vs.Point(); vs.Block("join", func() bool { return done }) }
	}
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		defer e.recoverNative()
		f()
	}()
	return func() { <-ch }
}

var nativePanic atomic.Pointer[string]

func (e *Env) recoverNative() {
	if r := recover(); r != nil {
		s := fmt.Sprint(r) + "\n" + string(debug.Stack())
		nativePanic.CompareAndSwap(nil, &s)
	}
}

// Par runs the functions in parallel and waits for all.
func (e *Env) Par(fs ...func()) {
	var js []func()
	var start chan struct{}
	if !e.Ctl {
		start = make(chan struct{})
	}
	for _, f := range fs {
		f := f
		js = append(js, e.Go(func() {
			if start != nil {
				<-start
			}
			f()
		}))
	}
	if start != nil {
		close(start)
	}
	for _, j := range js {
		j()
	}
}

// Sleep advances virtual time (natively it sleeps for real, scaled down).
func (e *Env) Sleep(ns int64) {
	if e.Ctl {
		vs.SleepNS(ns)
		return
	}
	time.Sleep(time.Duration(ns))
}

// Fine is a switch point for scenario code.
func (e *Env) Fine() {
	if e.Ctl {
		vs.Point()
	} else {
		e.Jitter()
	}
}

// Gate is a one-shot event.
type Gate struct {
	e  *Env
	on bool
	ch chan struct{}
	o  sync.Once
}

// Gate makes a gate.
func (e *Env) Gate() *Gate { return &Gate{e: e, ch: make(chan struct{})} }

// Open opens it.
func (g *Gate) Open() {
	if g.e.Ctl {
		vs.Point()
		g.on = true
		return
	}
	g.o.Do(func() { close(g.ch) })
}

// Wait waits until it is open.
func (g *Gate) Wait() {
	if g.e.Ctl {
		vs.Point()
		vs.Block("gate", func() bool { return g.on })
		return
	}
	<-g.ch
}

// Scenario is one program over the component.
type Scenario struct {
	Name   string
	Cfg    E
	NCfg   E // parameters of native histories, if different
	Opt    vs.Options
	Bound  int   // DFS bound; -1: no DFS
	MaxDFS int   // executions of the DFS
	Rand   int   // random executions
	Native int   // native repetitions
	Race   int   // repetitions under the race detector
	Unit   int64 // nanoseconds per tick of the recorded times (default 1 ms)
	NoFine bool  // do not use statement-level points even where they exist
	Body   func(e *Env)
}

type outRec struct {
	Cfg E      `json:"cfg"`
	Ev  []E    `json:"ev"`
	How string `json:"how,omitempty"`
	N   int    `json:"n,omitempty"`
}

type stats struct {
	Runs     int            `json:"runs"`
	Points   int            `json:"points"`
	Distinct int            `json:"distinct"`
	DFSFull  []string       `json:"dfs_full"`
	DFSPart  []string       `json:"dfs_partial"`
	Hangs    int            `json:"hangs"`
	Panics   int            `json:"panics"`
	Per      map[string]int `json:"per_scenario"`
	TimedOut bool           `json:"timed_out"`
}

// Main runs the scenarios that gen produces for a seed.
func Main(gen func(r *rand.Rand, tier string, aspect string) []Scenario) {
	mode := flag.String("mode", "ctl", "ctl, native or race")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	aspect := flag.String("aspect", "", "property aspect")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "shards")
	budget := flag.Float64("budget", 20, "seconds")
	maxHist := flag.Int("maxhist", 400, "distinct histories kept per scenario")
	out := flag.String("out", "", "history file")
	stat := flag.String("stat", "", "statistics file")
	nofine := flag.Bool("nofine", false, "no statement points")
	flag.Parse()
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	st := stats{Per: map[string]int{}}
	deadline := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	scs := gen(rand.New(rand.NewSource(*seed)), *tier, *aspect)
	type job struct {
		i int
		s Scenario
	}
	var mine []job
	for i, s := range scs {
		if i%*shards == *shard {
			mine = append(mine, job{i, s})
		}
	}
	// each scenario gets an equal part of what is left
	for k, j := range mine {
		left := time.Until(deadline)
		if left <= 0 {
			st.TimedOut = true
			break
		}
		end := time.Now().Add(left / time.Duration(len(mine)-k))
		seen := map[uint64]bool{}
		emit := func(ev []E, how string) {
			canon(ev)
			b, _ := json.Marshal(ev)
			h := fnv.New64a()
			h.Write(b)
			if seen[h.Sum64()] || len(seen) >= *maxHist {
				return
			}
			seen[h.Sum64()] = true
			st.Distinct++
			st.Per[j.s.Name]++
			cfg := j.s.Cfg
			if *mode != "ctl" && j.s.NCfg != nil {
				cfg = j.s.NCfg
			}
			enc.Encode(outRec{Cfg: cfg, Ev: ev, How: how})
		}
		sc := j.s
		if *nofine {
			sc.NoFine = true
		}
		rs := *seed*1000003 + int64(j.i)*7919
		switch *mode {
		case "ctl":
			runCtl(sc, rs, end, &st, emit)
		case "native":
			runNative(sc, rs, end, &st, emit, false)
		case "race":
			runNative(sc, rs, end, &st, emit, true)
		}
	}
	f.Close()
	b, _ := json.Marshal(st)
	os.WriteFile(*stat, b, 0o644)
}

func canon(ev []E) {
	for i := 0; i < len(ev); {
		k := ev[i]["k"]
		j := i + 1
		if k == "call" || k == "ret" {
			for j < len(ev) && ev[j]["k"] == k && ev[j]["now"] == ev[i]["now"] {
				j++
			}
			s := ev[i:j]
			sort.SliceStable(s, func(a, b int) bool { return s[a]["t"].(int) < s[b]["t"].(int) })
		}
		i = j
	}
}

func runCtl(sc Scenario, seed int64, end time.Time, st *stats, emit func([]E, string)) {
	one := func(opt vs.Options, s vs.Strategy, how string) {
		if sc.NoFine {
			opt.Fine = false
		}
		e := &Env{Ctl: true, R: rand.New(rand.NewSource(seed)), Slow: opt.Slow}
		o := vs.Run(opt, s, func() { sc.Body(e) })
		st.Runs++
		st.Points += o.Points
		ev := e.ev
		if o.Hang {
			st.Hangs++
			ev = append(ev, E{"k": "hang", "t": 0, "now": 0, "why": o.Why})
		} else if o.Panic != "" {
			st.Panics++
			ev = append(ev, E{"k": "panic", "t": 0, "now": 0, "why": o.Panic})
		}
		for _, x := range ev {
			if n, ok := x["now"].(int64); ok && sc.Unit > 0 && n%sc.Unit != 0 {
				x["odd"] = true // between two ticks
			}
			x["now"] = tick(x["now"], sc.Unit)
		}
		emit(ev, how)
	}
	h0 := st.Hangs
	if sc.Bound >= 0 {
		opt := sc.Opt
		opt.Fine = false
		d := &vs.DFS{Bound: sc.Bound}
		max := sc.MaxDFS
		if max == 0 {
			max = 20000
		}
		dend := time.Now().Add(time.Until(end) * 6 / 10)
		for {
			d.Begin()
			one(opt, d, fmt.Sprintf("%s dfs bound=%d run=%d", sc.Name, sc.Bound, d.Runs))
			if !d.Next() || d.Runs >= max || time.Now().After(dend) || st.Hangs-h0 > 100 {
				break
			}
		}
		if d.Full {
			st.DFSFull = append(st.DFSFull, fmt.Sprintf("%s: %d schedules, deviation bound %d", sc.Name, d.Runs, sc.Bound))
		} else {
			st.DFSPart = append(st.DFSPart, fmt.Sprintf("%s: %d schedules", sc.Name, d.Runs))
		}
	}
	for i := 0; i < sc.Rand && time.Now().Before(end) && st.Hangs-h0 < 200; i++ {
		rs := seed + int64(i)*104729
		r := rand.New(rand.NewSource(rs))
		opt := sc.Opt
		opt.Fine = i%3 != 0
		var s vs.Strategy
		tp := 0.0
		if opt.Slow {
			tp = []float64{0, 0.02, 0.1}[i%3]
		}
		switch i % 4 {
		case 0:
			s = &vs.Random{R: r, P: 0.5, TimerP: tp}
		case 1:
			s = &vs.Random{R: r, P: 0.1, TimerP: tp}
		case 2:
			s = &vs.PCT{R: r, D: 1 + i%5, Len: 60, TimerP: tp}
		case 3:
			s = &vs.PCT{R: r, D: 1 + i%7, Len: 300, TimerP: tp}
		}
		one(opt, s, fmt.Sprintf("%s random i=%d seed=%d fine=%v", sc.Name, i, rs, opt.Fine && !sc.NoFine))
	}
}

// tick keeps virtual time readable for TLC, whose integers have 32 bits.
func tick(v any, unit int64) any {
	if unit == 0 {
		unit = 1000000
	}
	switch x := v.(type) {
	case int64:
		return x / unit
	}
	return v
}

func runNative(sc Scenario, seed int64, end time.Time, st *stats, emit func([]E, string), race bool) {
	n := sc.Native
	if race {
		n = sc.Race
	}
	for i := 0; i < n && time.Now().Before(end); i++ {
		e := &Env{Race: race, R: rand.New(rand.NewSource(seed + int64(i)))}
		fin := make(chan struct{})
		nativePanic.Store(nil)
		go func() {
			defer close(fin)
			defer e.recoverNative()
			sc.Body(e)
		}()
		hung := false
		select {
		case <-fin:
		case <-time.After(25 * time.Second):
			hung = true
		}
		st.Runs++
		var ev []E
		if !hung {
			type se struct {
				s int64
				e E
			}
			var all []se
			for _, t := range e.thr {
				for k := range t.ev {
					all = append(all, se{t.sq[k], t.ev[k]})
				}
			}
			sort.Slice(all, func(a, b int) bool { return all[a].s < all[b].s })
			for _, x := range all {
				ev = append(ev, x.e)
			}
		}
		if p := nativePanic.Load(); p != nil {
			st.Panics++
			ev = append(ev, E{"k": "panic", "t": 0, "now": 0, "why": *p})
		} else if hung {
			st.Hangs++
			ev = append(ev, E{"k": "hang", "t": 0, "now": 0, "why": "no return within 25 s"})
		}
		if race && len(ev) == 0 {
			continue
		}
		emit(ev, fmt.Sprintf("%s native i=%d", sc.Name, i))
		if hung {
			return
		}
	}
}
