// Driver for syncx/syncpoolx.
package main

import (
	"fmt"
	"math/rand"
	"sync/atomic"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
)

type E = dlib.E

type obj struct {
	id   int
	used int // written by the holder
	pad  [6]int
}

type step struct {
	op string // get; put (slot n of what the thread holds); use
	n  int
}

func scenario(name string, progs [][]step, b dlib.Scenario) dlib.Scenario {
	b.Name, b.Cfg = name, E{}
	b.Body = func(e *dlib.Env) {
		var p syncpoolx.Pool[obj]
		var n atomic.Int64
		p.Init(func() *obj {
			th := e.Thread(9)
			o := &obj{id: int(n.Add(1))}
			th.Add(E{"k": "mk", "x": o.id})
			return o
		})
		do := func(th *dlib.Thread, held *[]*obj, s step) {
			switch s.op {
			case "get":
				th.Call("get", E{})
				o := p.Get()
				id := 0
				if o != nil {
					id = o.id
				}
				th.Ret("get", E{"x": id})
				if o != nil {
					o.used = th.ID
					*held = append(*held, o)
				}
			case "use":
				for _, o := range *held {
					e.Fine()
					same := o.used == th.ID
					o.used = th.ID
					th.Add(E{"k": "check", "x": o.id, "same": same})
				}
			case "put":
				if len(*held) == 0 {
					return
				}
				i := s.n % len(*held)
				o := (*held)[i]
				*held = append((*held)[:i:i], (*held)[i+1:]...)
				th.Call("put", E{"x": o.id})
				id := o.id
				p.Put(o)
				th.Ret("put", E{"x": id})
			}
		}
		var fs []func()
		for i, pr := range progs {
			th, pr := e.Thread(i+1), pr
			fs = append(fs, func() {
				var held []*obj
				for _, s := range pr {
					do(th, &held, s)
				}
				do(th, &held, step{"use", 0})
			})
		}
		e.Par(fs...)
		th := e.Thread(8)
		var held []*obj
		for i := 0; i < 4; i++ {
			do(th, &held, step{"get", 0})
		}
		do(th, &held, step{"use", 0})
		th.Add(E{"k": "fin"})
	}
	return b
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	b := dlib.Scenario{Opt: vs.Options{FairAfter: 2000, MaxSteps: 30000}, Bound: 2, MaxDFS: 2000 * mul, Rand: 200 * mul, Native: 40 * mul, Race: 40 * mul}
	g, u := step{"get", 0}, step{"use", 0}
	p := func(n int) step { return step{"put", n} }
	out := []dlib.Scenario{
		scenario("reuse", [][]step{{g, u, p(0), g, u, p(0), g, g}}, b),
		scenario("two", [][]step{{g, u, p(0), g, u}, {g, u, p(0), g, u}}, b),
		scenario("handover", [][]step{{g, p(0)}, {g, u, p(0)}, {g, u}}, b),
		scenario("many", [][]step{{g, g, g, p(1), p(0), g, u}, {g, g, p(0), p(0), g, g, u}}, b),
		scenario("four", [][]step{{g, p(0), g, u}, {g, p(0), g, u}, {g, p(0), g, u}, {g, p(0), g, u}}, b),
	}
	for i := 0; i < 20*mul; i++ {
		progs := make([][]step, 2+r.Intn(3))
		for t := range progs {
			h := 0
			for k := 3 + r.Intn(6); k > 0; k-- {
				switch x := r.Intn(5); {
				case x < 2 || h == 0:
					progs[t] = append(progs[t], g)
					h++
				case x == 2:
					progs[t] = append(progs[t], u)
				default:
					progs[t] = append(progs[t], p(r.Intn(3)))
					h--
				}
			}
		}
		s := b
		s.Bound, s.MaxDFS = 1+r.Intn(2), 300*mul
		out = append(out, scenario(fmt.Sprintf("random%d", i), progs, s))
	}
	return out
}

func main() { dlib.Main(gen) }
