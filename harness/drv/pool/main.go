// Driver for poolx/gopoolx.
package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"sync"
	"time"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

type E = dlib.E

const ms = int64(time.Millisecond)

// step of a client: "run" v, "stop", "workers", "sleep" n, "open" gate, "wait" gate
type step struct {
	op string
	n  int
}

// hspec is what the handler of a job does.
type hspec struct {
	sleep int // ms
	gate  int // waits for this gate
	open  int // opens this gate
	run   int // submits this job
	fine  int
}

type conf struct{ max, pre, idle, gc int }

// Limits of at least vast workers, and idle timeouts of at least ages ms, stand for much larger ones.
const (
	vast = 1000000
	ages = 1000000000
)

func (c conf) limit(name string) int64 {
	if c.max < vast {
		return int64(c.max)
	}
	return []int64{1 << 31, 1<<32 - 1, 1 << 32, 1<<16 + 1}[len(name)%4]
}

func (c conf) timeout() time.Duration {
	if c.idle < ages {
		return time.Duration(c.idle) * time.Millisecond
	}
	return math.MaxInt64
}

// The jobs of a scenario are of one of these types; among them are the zero values, nil and pointers.
type anyPool struct {
	run     func(v int) bool
	Stop    func()
	Workers func() int64
}

func poolOf[T any](enc func(int) T, dec func(T) int) func(int64, func(int), time.Duration, time.Duration, int) (anyPool, error) {
	return func(max int64, h func(int), idle, gc time.Duration, pre int) (anyPool, error) {
		p, err := gopoolx.NewTimedPool(max, func(x T) { h(dec(x)) }, idle, gc, pre)
		if err != nil {
			return anyPool{}, err
		}
		return anyPool{func(v int) bool { return p.Run(enc(v)) }, p.Stop, p.Workers}, nil
	}
}

type record struct {
	a, b string
	n    int
}

var pools = []func(int64, func(int), time.Duration, time.Duration, int) (anyPool, error){
	poolOf(func(v int) int { return v }, func(v int) int { return v }),
	poolOf(func(v int) int { return v - 1 }, func(v int) int { return v + 1 }),
	poolOf(func(v int) any {
		switch v {
		case 1:
			return nil
		case 2:
			return 0
		case 3:
			return (*int)(nil)
		}
		return v
	}, func(x any) int {
		switch y := x.(type) {
		case nil:
			return 1
		case *int:
			return 3
		case int:
			if y != 0 {
				return y
			}
		}
		return 2
	}),
	poolOf(func(v int) *int {
		if v == 1 {
			return nil
		}
		return &v
	}, func(p *int) int {
		if p == nil {
			return 1
		}
		return *p
	}),
	poolOf(func(v int) record {
		if v == 2 {
			return record{}
		}
		return record{"a", fmt.Sprint(v), v}
	}, func(r record) int {
		if r == (record{}) {
			return 2
		}
		if r.a != "a" || r.b != fmt.Sprint(r.n) {
			return -1
		}
		return r.n
	}),
	poolOf(func(v int) func() int {
		if v == 1 {
			return nil
		}
		return func() int { return v }
	}, func(f func() int) int {
		if f == nil {
			return 1
		}
		return f()
	}),
	poolOf(func(v int) [3]byte { return [3]byte{0, byte(v - 1), 0} }, func(b [3]byte) int { return int(b[1]) + 1 }),
}

func newPool(name string, max int64, h func(int), idle, gc time.Duration, pre int) (anyPool, error) {
	f := fnv.New32a()
	f.Write([]byte(name))
	return pools[f.Sum32()%uint32(len(pools))](max, h, idle, gc, pre)
}

func scenario(name string, c conf, h map[int]hspec, gates int, progs [][]step, tail []step, base dlib.Scenario) dlib.Scenario {
	base.Name = name
	pre := c.pre
	if pre < 0 {
		pre = 0
	}
	base.Cfg = E{"max": c.max, "pre": pre, "idle": c.idle, "gc": c.gc, "slow": base.Opt.Slow}
	base.NCfg = E{"max": c.max, "pre": pre, "idle": 0, "gc": 1, "slow": true}
	base.Body = func(e *dlib.Env) {
		gs := make([]*dlib.Gate, gates+1)
		for i := range gs {
			gs[i] = e.Gate()
		}
		var pool anyPool
		var ready sync.Mutex // natively: the handler must see pool
		if !e.Ctl {
			ready.Lock()
		}
		run := func(th *dlib.Thread, v int) {
			th.Call("run", E{"v": v})
			ok := pool.run(v)
			th.Ret("run", E{"v": v, "ok": ok})
		}
		handler := func(v int) {
			th := e.Thread(9)
			th.Add(E{"k": "hs", "v": v})
			s := h[v]
			for i := 0; i < s.fine; i++ {
				e.Fine()
			}
			if s.open > 0 {
				gs[s.open].Open()
			}
			if s.run > 0 {
				run(e.Thread(10+v), s.run) // every nested submission is its own client
			}
			if s.sleep > 0 {
				e.Sleep(int64(s.sleep) * ms)
			}
			if s.gate > 0 {
				gs[s.gate].Wait()
			}
			th.Add(E{"k": "he", "v": v})
		}
		var err error
		pool, err = newPool(name, c.limit(name), handler, c.timeout(), time.Duration(c.gc)*time.Millisecond, c.pre)
		if err != nil {
			panic(err)
		}
		do := func(th *dlib.Thread, ss []step) {
			for _, s := range ss {
				switch s.op {
				case "run":
					run(th, s.n)
				case "stop":
					th.Call("stop", E{})
					pool.Stop()
					th.Ret("stop", E{})
				case "workers":
					th.Call("workers", E{})
					n := pool.Workers()
					th.Ret("workers", E{"n": n})
				case "sleep":
					e.Sleep(int64(s.n) * ms)
				case "open":
					gs[s.n].Open()
				case "wait":
					gs[s.n].Wait()
				}
			}
		}
		var fs []func()
		for i, p := range progs {
			th, p := e.Thread(i+1), p
			fs = append(fs, func() { do(th, p) })
		}
		e.Par(fs...)
		th := e.Thread(0)
		do(th, tail)
		if !e.Ctl {
			// wait until nothing is going on: at most 2 s
			stopped := false
			for _, p := range append(progs, tail) {
				for _, s := range p {
					stopped = stopped || s.op == "stop"
				}
			}
			if !stopped {
				th.Call("stop", E{})
				pool.Stop()
				th.Ret("stop", E{})
			}
			for i := 0; i < 2000 && pool.Workers() > 0; i++ {
				time.Sleep(time.Millisecond)
			}
		}
		th.Add(E{"k": "fin", "all": !e.Slow})
	}
	return base
}

func constructors() dlib.Scenario {
	return dlib.Scenario{Name: "new", Cfg: E{"max": 1, "pre": 0, "idle": 1, "gc": 1, "slow": false}, Bound: 0, Body: func(e *dlib.Env) {
		th := e.Thread(0)
		for _, max := range []int64{-5, 0, 1, 3} {
			for _, nilh := range []bool{true, false} {
				for _, idle := range []int64{-1, 0, 1, 1000} {
					for _, gc := range []int64{-7, 0, 1, 1000} {
						for _, pre := range []int{-1, 0, 2} {
							h := func(int) {}
							if nilh {
								h = nil
							}
							p, err := gopoolx.NewTimedPool[int](max, h, time.Duration(idle)*time.Microsecond, time.Duration(gc)*time.Microsecond, pre)
							s := ""
							switch err {
							case nil:
							case gopoolx.ErrInvalidMaxWorkers:
								s = "max"
							case gopoolx.ErrInvalidHandler:
								s = "handler"
							case gopoolx.ErrInvalidIdleTimeout:
								s = "idle"
							case gopoolx.ErrInvalidGCPeriod:
								s = "gc"
							default:
								s = "?" + err.Error()
							}
							th.Add(E{"k": "new", "max": max, "nilh": nilh, "idle": idle, "gc": gc, "err": s, "pool": p != nil})
							if p != nil {
								p.Stop()
							}
						}
					}
				}
			}
		}
	}}
}

func run(v ...int) (s []step) {
	for _, x := range v {
		s = append(s, step{"run", x})
	}
	return
}

func seq(parts ...any) (s []step) {
	for _, p := range parts {
		switch x := p.(type) {
		case step:
			s = append(s, x)
		case []step:
			s = append(s, x...)
		}
	}
	return
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	stop, workers := step{"stop", 0}, step{"workers", 0}
	sleep := func(n int) step { return step{"sleep", n} }
	opt := vs.Options{FairAfter: 3000, MaxSteps: 40000}
	b := dlib.Scenario{Opt: opt, Bound: 1, MaxDFS: 1500 * mul, Rand: 250 * mul, Race: 15 * mul}
	deep := b
	deep.Bound, deep.MaxDFS = 2, 5000*mul
	if aspect == "jobs" {
		b.Native, deep.Native = 15*mul, 15*mul
	}
	end := []step{workers, sleep(60), workers, sleep(20), workers}
	endStop := []step{stop, sleep(1), run(12)[0], workers, sleep(5), workers, sleep(80), workers}
	c := conf{max: 2, pre: 0, idle: 20, gc: 10}
	var out []dlib.Scenario
	add := func(n string, c conf, h map[int]hspec, gates int, progs [][]step, tail []step, base dlib.Scenario) {
		out = append(out, scenario(n, c, h, gates, progs, tail, base))
	}
	if aspect == "limit" {
		out = append(out, constructors())
	}
	none := map[int]hspec{}
	add("limit1", conf{1, 0, 20, 10}, none, 0, [][]step{run(1), run(2)}, end, deep)
	add("limit2", c, map[int]hspec{1: {gate: 1}, 2: {gate: 1}}, 1, [][]step{run(1), run(2), seq(run(3), step{"open", 1})}, end, deep)
	add("busy", conf{1, 0, 20, 10}, map[int]hspec{1: {gate: 1}}, 1, [][]step{seq(run(1, 2, 3), workers, step{"open", 1}, sleep(1), run(4), workers)}, end, b)
	add("reuse", conf{3, 0, 20, 10}, none, 0, [][]step{seq(run(1), sleep(1), workers, run(2), sleep(1), workers, run(3, 4), sleep(1), workers)}, end, b)
	add("preheat", conf{3, 2, 20, 10}, none, 0, [][]step{seq(workers, run(1), workers), run(2, 3)}, end, deep)
	add("preheat-over", conf{2, 4, 20, 10}, map[int]hspec{1: {gate: 1}, 2: {gate: 1}, 3: {gate: 1}}, 1, [][]step{seq(workers, run(1, 2, 3, 4), workers, step{"open", 1})}, end, b)
	add("preheat-reap", conf{2, 2, 20, 10}, none, 0, [][]step{seq(sleep(19), workers, sleep(21), workers, run(1), sleep(1), workers)}, end, b)
	add("preheat-early", conf{2, 2, 1, 1}, none, 0, [][]step{run(1), seq(sleep(2), run(2)), seq(sleep(3), run(3))}, end, deep)
	add("reap-race", conf{2, 0, 20, 10}, none, 0, [][]step{seq(run(1), sleep(30), run(2)), seq(sleep(30), run(3))}, end, deep)
	add("reap-race2", conf{1, 0, 10, 10}, none, 0, [][]step{seq(run(1), sleep(20), run(2)), seq(sleep(20), run(3)), seq(sleep(30), workers, run(4))}, end, deep)
	add("reap-multi", conf{3, 3, 20, 10}, none, 0, [][]step{seq(sleep(15), run(1), sleep(15), run(2), workers), seq(sleep(30), workers), seq(sleep(40), workers)}, end, b)
	add("keep-young", conf{3, 0, 20, 10}, map[int]hspec{1: {sleep: 3}, 2: {sleep: 8}, 3: {sleep: 18}}, 0, [][]step{seq(run(1, 2, 3), sleep(15), workers, sleep(7), workers, sleep(5), workers, sleep(8), workers)}, end, b)
	add("stop-idle", conf{2, 2, 20, 10}, none, 0, [][]step{seq(run(1)), seq(stop)}, endStop, deep)
	add("stop-race", c, none, 0, [][]step{run(1, 2), {stop}, run(3)}, endStop, deep)
	add("stop-busy", c, map[int]hspec{1: {gate: 1}, 2: {sleep: 3}}, 1, [][]step{seq(run(1), run(2), stop, sleep(1), run(3), workers, step{"open", 1}, sleep(1), workers)}, endStop, b)
	add("stop-twice", c, none, 0, [][]step{seq(run(1), stop, stop), {stop}}, endStop, deep)
	add("stop-three", c, none, 0, [][]step{{stop}, {stop}, {stop}, run(1)}, endStop, b)
	add("stop-tick", conf{2, 0, 10, 10}, none, 0, [][]step{seq(run(1), sleep(20), run(2)), seq(sleep(20), stop)}, endStop, deep)
	add("stop-after-reap", conf{2, 2, 10, 10}, none, 0, [][]step{seq(sleep(60), run(1), sleep(1), workers, stop, sleep(1), workers)}, endStop, b)
	add("nested", c, map[int]hspec{1: {run: 2}, 2: {run: 3, sleep: 2}}, 0, [][]step{run(1), run(4)}, end, b)
	add("nested-stop", c, map[int]hspec{1: {sleep: 2, run: 2}}, 0, [][]step{run(1), seq(sleep(1), stop)}, endStop, b)
	add("preheat-none", conf{3, -1, 20, 10}, none, 0, [][]step{seq(workers, run(1), sleep(1), workers, run(2), sleep(1), workers)}, end, b)
	add("preheat-least", conf{2, math.MinInt, 20, 10}, none, 0, [][]step{seq(workers, run(1, 2), sleep(1), workers, sleep(50), workers)}, end, b)
	busy := map[int]hspec{1: {gate: 1}, 2: {gate: 1}, 3: {gate: 1}}
	for _, n := range []string{"vast", "vast1", "vast22", "vast333"} {
		add(n, conf{vast, len(n) % 2, 20, 10}, busy, 1, [][]step{seq(workers, run(1, 2, 3), workers, step{"open", 1}, sleep(1), run(4), workers)}, end, b)
	}
	add("ages", conf{3, 0, ages, 10}, busy, 1, [][]step{seq(run(1, 2), step{"open", 1}, sleep(1), workers, sleep(150), workers, run(4), sleep(1), workers)}, end, b)
	add("ages-preheat", conf{3, 2, ages, 10}, none, 0, [][]step{seq(sleep(15), workers, sleep(100), workers, run(1), sleep(1), workers)}, endStop, b)
	slow := b
	slow.Opt.Slow = true
	slow.Opt.FairAfter = 3000
	slow.MaxDFS = 800 * mul
	add("slow-reap", conf{2, 1, 2, 1}, none, 0, [][]step{seq(run(1), sleep(3), run(2)), run(3)}, []step{sleep(3), workers}, slow)
	add("slow-preheat", conf{2, 2, 1, 1}, none, 0, [][]step{run(1, 2), seq(sleep(2), run(3))}, []step{stop, sleep(3)}, slow)
	add("slow-stop", conf{2, 1, 2, 1}, none, 0, [][]step{seq(run(1), run(2)), {stop}}, []step{sleep(3), workers}, slow)
	one := b // one client, little nondeterminism: workers of different ages, kept or reaped one by one
	one.Bound, one.MaxDFS, one.Rand, one.Race, one.Native = 0, 6, 2, 0, 0
	both := map[int]hspec{1: {gate: 1}, 2: {gate: 1}}
	fresh := seq(run(1, 2), step{"open", 1}, sleep(1), workers)
	for v := 3; v < 12; v++ {
		fresh = append(fresh, sleep(35), step{"run", v})
	}
	add("keep-one-fresh", conf{4, 0, 40, 10}, both, 1, [][]step{fresh}, []step{workers, sleep(1), workers}, one)
	for i := 0; i < 16*mul; i++ {
		cc := conf{2 + r.Intn(4), r.Intn(4), []int{20, 30, 40}[r.Intn(3)], []int{5, 10, 20}[r.Intn(3)]}
		h := map[int]hspec{}
		var p []step
		v := 0
		for k := 6 + r.Intn(12); k > 0; k-- {
			switch x := r.Intn(10); {
			case x < 4:
				for m := 1 + r.Intn(cc.max); m > 0 && v < 22; m-- {
					v++
					h[v] = hspec{sleep: []int{0, 1, 3, 7, 12}[r.Intn(5)]}
					p = append(p, step{"run", v})
				}
			case x < 8:
				p = append(p, sleep([]int{1, 9, cc.idle - 5, cc.idle - 1, cc.idle - 5, cc.idle + 3}[r.Intn(6)]))
			default:
				p = append(p, workers)
			}
		}
		tl := []step{sleep(13), workers, sleep(90), workers}
		if r.Intn(3) == 0 {
			tl = endStop
			if v >= 12 {
				tl = []step{stop, sleep(1), workers, sleep(80), workers}
			}
		}
		add(fmt.Sprintf("ages%d", i), cc, h, 0, [][]step{p}, tl, one)
	}
	n := 24 * mul
	for i := 0; i < n; i++ {
		cc := conf{1 + r.Intn(3), r.Intn(4), []int{10, 20, 25}[r.Intn(3)], []int{5, 10}[r.Intn(2)]}
		h := map[int]hspec{}
		v := 0
		progs := make([][]step, 1+r.Intn(3))
		stops := 0
		for t := range progs {
			for k := 2 + r.Intn(4); k > 0; k-- {
				switch x := r.Intn(10); {
				case x < 5 && v < 9:
					v++
					h[v] = hspec{sleep: []int{0, 0, 1, 5, 15}[r.Intn(5)], fine: r.Intn(2)}
					progs[t] = append(progs[t], step{"run", v})
				case x < 7:
					progs[t] = append(progs[t], sleep([]int{1, 5, 10, 20, 25, 30, 40}[r.Intn(7)]))
				case x == 7 && stops < 2 && r.Intn(2) == 0:
					stops++
					progs[t] = append(progs[t], stop)
				default:
					progs[t] = append(progs[t], workers)
				}
			}
		}
		tl := end
		if r.Intn(2) == 0 {
			tl = endStop
		}
		s := b
		s.MaxDFS, s.Rand, s.Race = 300*mul, 150*mul, 3*mul
		add(fmt.Sprintf("random%d", i), cc, h, 0, progs, tl, s)
	}
	return out
}

func main() { dlib.Main(gen) }
