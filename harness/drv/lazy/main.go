// Driver for functionalx/lazyx.
package main

import (
	"errors"
	"fmt"
	"math/rand"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/functionalx/lazyx"
)

type E = dlib.E

// obj is a lazy value of some type: get returns the number inside and whether the rest is as constructed.
type obj struct{ get func() (int, bool) }

type big struct {
	a, b, c, d, e int
	s             string
}

// mk makes a lazy value whose constructor calls in (before) and out (after) and holds n() .
func mk(kind string, ctor func(produce func(n int))) obj {
	switch kind {
	case "int":
		l := lazyx.New(func() (r int) { ctor(func(n int) { r = n }); return })
		return obj{func() (int, bool) { return l.Get(), true }}
	case "big":
		l := lazyx.New(func() (r big) {
			ctor(func(n int) { r = big{n, n, n, n, n, fmt.Sprint(n)} })
			return
		})
		return obj{func() (int, bool) {
			v := l.Get()
			return v.a, v.b == v.a && v.c == v.a && v.d == v.a && v.e == v.a && v.s == fmt.Sprint(v.a)
		}}
	case "ptr":
		var made *int
		l := lazyx.New(func() (r *int) { ctor(func(n int) { r = &n }); made = r; return })
		return obj{func() (int, bool) {
			v := l.Get()
			if v == nil {
				return 0, false
			}
			return *v, v == made
		}}
	case "nilerr": // the constructed value is the zero value
		l := lazyx.New(func() (r error) { ctor(func(n int) {}); return nil })
		return obj{func() (int, bool) { return 0, l.Get() == nil }}
	case "zero":
		l := lazyx.New(func() (r [4]int) { ctor(func(n int) {}); return })
		return obj{func() (int, bool) { return 0, l.Get() == [4]int{} }}
	case "iface":
		l := lazyx.New(func() (r any) { ctor(func(n int) { r = n }); return })
		return obj{func() (int, bool) { v, ok := l.Get().(int); return v, ok }}
	case "err":
		l := lazyx.New(func() (r error) { ctor(func(n int) { r = fmt.Errorf("%d %w", n, errBase) }); return })
		return obj{func() (int, bool) {
			err := l.Get()
			if err == nil {
				return 0, false
			}
			var n int
			fmt.Sscan(err.Error(), &n)
			return n, errors.Is(err, errBase)
		}}
	case "func":
		l := lazyx.New(func() (r func() int) { ctor(func(n int) { r = func() int { return n } }); return })
		return obj{func() (int, bool) {
			f := l.Get()
			if f == nil {
				return 0, false
			}
			return f(), true
		}}
	}
	panic(kind)
}

var boom any = errors.New("constructor failed")

var errBase = errors.New("base")

var kinds = []string{"int", "big", "ptr", "nilerr", "zero", "iface", "err", "func"}

// progs: per thread the objects it gets; deps: object constructed first by the constructor of another
func scenario(name, kind string, nobj int, progs [][]int, deps map[int]int, fails map[int]bool, fine, sleep int, b dlib.Scenario) dlib.Scenario {
	b.Name, b.Cfg = name, E{}
	b.Body = func(e *dlib.Env) {
		objs := make([]obj, nobj+1)
		runs := make([]int, nobj+1)
		get := func(th *dlib.Thread, x int) {
			th.Call("get", E{"x": x})
			v, same, pan := func() (v int, same, pan bool) {
				defer func() {
					if p := recover(); p != nil {
						if p != boom {
							panic(p)
						}
						v, same, pan = 0, true, true
					}
				}()
				v, same = objs[x].get()
				return
			}()
			th.Ret("get", E{"x": x, "v": v, "same": same, "pan": pan})
		}
		main := e.Thread(28)
		for x := 1; x <= nobj; x++ {
			x := x
			objs[x] = mk(kind, func(produce func(int)) {
				th := e.Thread(29)
				th.Add(E{"k": "cs", "x": x})
				runs[x]++
				n := runs[x]*10 + x
				for i := 0; i < fine; i++ {
					e.Fine()
				}
				if d := deps[x]; d > 0 {
					get(e.Thread(10+x), d)
				}
				if sleep > 0 {
					e.Sleep(int64(sleep) * 1000000)
				}
				if fails[x] {
					th.Add(E{"k": "cp", "x": x})
					panic(boom)
				}
				produce(n)
				if kind == "nilerr" || kind == "zero" {
					n = 0
				}
				th.Add(E{"k": "ce", "x": x, "v": n})
			})
			main.Add(E{"k": "mk", "x": x})
		}
		e.Fine()
		var fs []func()
		for i, p := range progs {
			th, p := e.Thread(i+1), p
			fs = append(fs, func() {
				for _, x := range p {
					get(th, x)
				}
			})
		}
		e.Par(fs...)
		for x := 1; x <= nobj; x++ {
			get(main, x)
		}
		main.Add(E{"k": "fin"})
	}
	return b
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	b := dlib.Scenario{Opt: vs.Options{FairAfter: 2000, MaxSteps: 20000}, Bound: 2, MaxDFS: 3000 * mul, Rand: 300 * mul, Native: 40 * mul, Race: 40 * mul}
	deep := b
	deep.Bound = 4
	var out []dlib.Scenario
	for _, k := range kinds {
		out = append(out, scenario("two-"+k, k, 1, [][]int{{1, 1}, {1}}, nil, nil, 2, 0, deep))
		out = append(out, scenario("fails-"+k, k, 1, [][]int{{1, 1}, {1}}, nil, map[int]bool{1: true}, 1, 0, b))
		out = append(out, scenario("three-"+k, k, 1, [][]int{{1}, {1, 1}, {1}}, nil, nil, 1, 0, b))
	}
	out = append(out,
		scenario("slow-ctor", "big", 1, [][]int{{1}, {1}, {1}}, nil, nil, 1, 5, b),
		scenario("many", "int", 1, [][]int{{1}, {1}, {1}, {1}, {1}}, nil, nil, 1, 0, b),
		scenario("two-objects", "ptr", 2, [][]int{{1, 2}, {2, 1}}, nil, nil, 1, 0, deep),
		scenario("nested", "int", 2, [][]int{{1}, {2}, {1}}, map[int]int{1: 2}, nil, 1, 0, b),
		scenario("untouched", "int", 3, [][]int{{1}, {1}}, nil, nil, 0, 0, b))
	for i := 0; i < 10*mul; i++ {
		n := 1 + r.Intn(3)
		progs := make([][]int, 2+r.Intn(3))
		for t := range progs {
			for k := 1 + r.Intn(4); k > 0; k-- {
				progs[t] = append(progs[t], 1+r.Intn(n))
			}
		}
		deps := map[int]int{}
		if n > 1 && r.Intn(2) == 0 {
			deps[1] = 2
		}
		fails := map[int]bool{}
		for x := 1; x <= n; x++ {
			fails[x] = r.Intn(3) == 0
		}
		out = append(out, scenario(fmt.Sprintf("random%d", i), kinds[r.Intn(len(kinds))], n, progs, deps, fails, r.Intn(3), r.Intn(2), b))
	}
	return out
}

func main() { dlib.Main(gen) }
