// Driver for lockx.Lock.
package main

import (
	"fmt"
	"math/rand"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/syncx/lockx"
)

type E = dlib.E

// cell is a lockable value with a counter in it and a content check.
type cell struct {
	lock func(f func(get func() int, set func(int), same bool))
	ok   func() bool // everything but the counter is as it was
}

func wrap[T any](p *T, get func(*T) int, set func(*T, int), ok func() bool) cell {
	return cell{lock: func(f func(func() int, func(int), bool)) {
		lockx.Lock(p, func(q *T) {
			f(func() int { return get(q) }, func(v int) { set(q, v) }, q == p)
		})
	}, ok: ok}
}

type rec struct {
	a string
	n int
	b *rec
}

type nest struct {
	p *nest
	n int
}

// kinds of pointee
var kinds = []string{"int0", "int7", "byte", "struct", "selfptr", "ptr", "iface", "string", "bool"}

func mk(kind string) cell {
	switch kind {
	case "int0":
		p := new([3]int)
		p[0], p[2] = 11, 13
		return wrap(&p[1], func(x *int) int { return *x }, func(x *int, v int) { *x = v }, func() bool { return p[0] == 11 && p[2] == 13 })
	case "int7":
		p := new([3]int)
		p[0], p[1], p[2] = 11, 7, 13
		return wrap(&p[1], func(x *int) int { return *x - 7 }, func(x *int, v int) { *x = v + 7 }, func() bool { return p[0] == 11 && p[2] == 13 })
	case "byte":
		p := new([16]byte)
		for i := range p {
			p[i] = byte(100 + i)
		}
		p[5] = 0
		return wrap(&p[5], func(x *byte) int { return int(*x) }, func(x *byte, v int) { *x = byte(v) }, func() bool {
			for i := range p {
				if i != 5 && p[i] != byte(100+i) {
					return false
				}
			}
			return true
		})
	case "struct":
		r := &rec{a: "x"}
		r.b = r
		return wrap(r, func(x *rec) int { return x.n }, func(x *rec, v int) { x.n = v }, func() bool { return r.a == "x" && r.b == r })
	case "selfptr":
		r := &nest{}
		r.p = r
		return wrap(r, func(x *nest) int { return x.n }, func(x *nest, v int) { x.n = v }, func() bool { return r.p == r })
	case "ptr":
		n := 0
		p := new([2]*int)
		p[0] = &n
		return wrap(&p[0], func(x **int) int { return **x }, func(x **int, v int) { y := v; *x = &y }, func() bool { return p[1] == nil && p[0] != nil })
	case "iface":
		var v any = 0
		return wrap(&v, func(x *any) int { return (*x).(int) }, func(x *any, n int) { *x = n }, func() bool { _, ok := v.(int); return ok })
	case "string":
		s := ""
		return wrap(&s, func(x *string) int { return len(*x) }, func(x *string, n int) { *x = fmt.Sprintf("%*s", n, "") }, func() bool { return true })
	case "bool":
		p := new([9]bool)
		p[0], p[2], p[8] = true, true, true
		n := 0
		return wrap(&p[1], func(x *bool) int { return n }, func(x *bool, v int) { n = v; *x = !*x }, func() bool { return p[0] && p[2] && p[8] && !p[3] && p[1] == (n%2 == 1) })
	}
	panic(kind)
}

// op of a program: lock object x; body with d switch points; panic; nested lock of y (-1: none); wait/open gates
type op struct {
	x, d  int
	pan   bool
	y     int
	wait  int
	open  int
	after int   // gate opened before the call
	chain []int // nested locks below this one
}

func body(kind string, nobj int, prog [][]op, gates int) func(e *dlib.Env) {
	return func(e *dlib.Env) {
		objs := make([]cell, nobj)
		for i := range objs {
			objs[i] = mk(kind)
		}
		gs := make([]*dlib.Gate, gates+1)
		for i := range gs {
			gs[i] = e.Gate()
		}
		var fs []func()
		for ti, ops := range prog {
			ti, ops := ti, ops
			th := e.Thread(ti + 1)
			fs = append(fs, func() {
				for _, o := range ops {
					doLock(e, th, objs, gs, o)
				}
			})
		}
		e.Par(fs...)
		th := e.Thread(len(prog) + 1)
		ok := true
		for i, o := range objs {
			ok = ok && o.ok()
			doLock(e, th, objs, gs, op{x: i, y: -1})
		}
		th.Add(E{"k": "fin", "ok": ok})
	}
}

// many: n values of one big array and of separate allocations, locked one inside the other in the given order
// by every thread.
func many(n, threads int, seed int64) func(e *dlib.Env) {
	return func(e *dlib.Env) {
		r := rand.New(rand.NewSource(seed))
		arr := make([]int, 60000)
		at := r.Perm(len(arr))
		objs := make([]cell, n)
		for i := range objs {
			p := &arr[at[i]]
			if i%3 == 2 {
				p = new(int)
			}
			objs[i] = wrap(p, func(x *int) int { return *x }, func(x *int, v int) { *x = v }, func() bool { return true })
		}
		var fs []func()
		for t := 0; t < threads; t++ {
			th := e.Thread(t + 1)
			order := make([]int, n)
			for i := range order {
				order[i] = i
			}
			fs = append(fs, func() { doLock(e, th, objs, nil, op{x: 0, y: -1, chain: order[1:]}) })
		}
		e.Par(fs...)
		e.Thread(threads + 1).Add(E{"k": "fin", "ok": true})
	}
}

type boom struct{}

func doLock(e *dlib.Env, th *dlib.Thread, objs []cell, gs []*dlib.Gate, o op) {
	if o.after > 0 {
		gs[o.after].Open()
	}
	th.Call("lock", E{"x": o.x})
	pan := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(boom); !ok {
					panic(r)
				}
				pan = true
			}
		}()
		objs[o.x].lock(func(get func() int, set func(int), same bool) {
			th.Add(E{"k": "enter", "x": o.x, "same": same})
			if o.open > 0 {
				gs[o.open].Open()
			}
			if o.wait > 0 {
				gs[o.wait].Wait()
			}
			v := get()
			for i := 0; i < o.d; i++ {
				e.Fine()
			}
			set(v + 1)
			if o.y >= 0 {
				doLock(e, th, objs, gs, op{x: o.y, y: -1, d: 1})
			}
			if len(o.chain) > 0 {
				doLock(e, th, objs, gs, op{x: o.chain[0], y: -1, chain: o.chain[1:]})
			}
			th.Add(E{"k": "exit", "x": o.x, "v": v, "pan": o.pan})
			if o.pan {
				panic(boom{})
			}
		})
	}()
	th.Ret("lock", E{"x": o.x, "pan": pan})
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 6
	}
	opt := vs.Options{FairAfter: 1500, MaxSteps: 30000}
	var out []dlib.Scenario
	for i, k := range kinds {
		b := 2
		if i == 0 || tier == "thorough" {
			b = 3
		}
		out = append(out, dlib.Scenario{Name: "two-" + k, Cfg: E{"n": 3}, Opt: opt, Bound: b, MaxDFS: 3000 * mul, Rand: 300 * mul, Native: 60 * mul, Race: 60 * mul,
			Body: body(k, 1, [][]op{{{x: 0, d: 2, y: -1}, {x: 0, d: 1, y: -1}}, {{x: 0, d: 1, y: -1}, {x: 0, d: 1, y: -1}}}, 0)})
	}
	out = append(out, dlib.Scenario{Name: "three", Cfg: E{"n": 3}, Opt: opt, Bound: 2, MaxDFS: 4000 * mul, Rand: 300 * mul, Native: 60 * mul, Race: 60 * mul,
		Body: body("struct", 1, [][]op{{{x: 0, d: 1, y: -1}}, {{x: 0, d: 1, y: -1}}, {{x: 0, d: 1, y: -1}}}, 0)})
	out = append(out, dlib.Scenario{Name: "independent", Cfg: E{"n": 3}, Opt: opt, Bound: 2, MaxDFS: 2000 * mul, Rand: 100 * mul, Native: 20 * mul, Race: 20 * mul,
		Body: body("int7", 2, [][]op{{{x: 0, wait: 1, y: -1}}, {{x: 1, open: 1, d: 1, y: -1}}}, 1)})
	out = append(out, dlib.Scenario{Name: "panic", Cfg: E{"n": 3}, Opt: opt, Bound: 2, MaxDFS: 2000 * mul, Rand: 200 * mul, Native: 20 * mul, Race: 20 * mul,
		Body: body("selfptr", 1, [][]op{{{x: 0, d: 1, pan: true, y: -1}, {x: 0, y: -1}}, {{x: 0, d: 1, y: -1}}}, 0)})
	out = append(out, dlib.Scenario{Name: "nested", Cfg: E{"n": 3}, Opt: opt, Bound: 2, MaxDFS: 2000 * mul, Rand: 200 * mul, Native: 20 * mul, Race: 20 * mul,
		Body: body("int0", 3, [][]op{{{x: 0, d: 1, y: 1}}, {{x: 0, d: 1, y: 2}}, {{x: 1, d: 1, y: 2}}}, 0)})
	out = append(out, dlib.Scenario{Name: "many", Cfg: E{"n": 301}, Opt: opt, Bound: -1, Rand: 2 * mul, Native: 2 * mul, Race: 2 * mul, Body: many(300, 1, r.Int63())})
	out = append(out, dlib.Scenario{Name: "many2", Cfg: E{"n": 41}, Opt: opt, Bound: -1, Rand: 10 * mul, Native: 10 * mul, Race: 10 * mul, Body: many(40, 3, r.Int63())})
	for i := 0; i < 16*mul; i++ {
		nt, no := 2+r.Intn(2), 1+r.Intn(3)
		prog := make([][]op, nt)
		for t := range prog {
			for k := 0; k < 1+r.Intn(3); k++ {
				o := op{x: r.Intn(no), d: r.Intn(3), pan: r.Intn(5) == 0, y: -1}
				if o.x+1 < no && r.Intn(3) == 0 {
					o.y = o.x + 1 // nested locks in a fixed order
				}
				prog[t] = append(prog[t], o)
			}
		}
		out = append(out, dlib.Scenario{Name: fmt.Sprintf("random%d", i), Cfg: E{"n": 3}, Opt: opt, Bound: 1, MaxDFS: 400 * mul, Rand: 200 * mul, Native: 10 * mul, Race: 10 * mul,
			Body: body(kinds[r.Intn(len(kinds))], no, prog, 0)})
	}
	return out
}

func main() { dlib.Main(gen) }
