// Driver for poolx/gopoolx with many workers: one client fills, releases, waits and reads.
package main

import (
	"fmt"
	"math/rand"
	"time"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

type E = dlib.E

const ms = int64(time.Millisecond)

type step struct {
	op string
	n  int
}

func scenario(name string, max, pre, idle, gc int, steps []step) dlib.Scenario {
	return dlib.Scenario{
		Name: name, Opt: vs.Options{FairAfter: 200000, MaxSteps: 2000000}, Bound: -1, Rand: 1,
		Cfg: E{"max": max, "pre": pre, "idle": idle, "gc": gc},
		Body: func(e *dlib.Env) {
			th := e.Thread(1)
			runs := map[int]int{}
			gate := e.Gate()
			busy, peak, done, next, held := 0, 0, 0, 0, 0
			pool, err := gopoolx.NewTimedPool(int64(max), func(v int) {
				runs[v]++
				if busy++; busy > peak {
					peak = busy
				}
				gate.Wait()
				busy--
				done++
			}, time.Duration(idle)*time.Millisecond, time.Duration(gc)*time.Millisecond, pre)
			if err != nil {
				panic(err)
			}
			for _, s := range steps {
				switch s.op {
				case "fill":
					a := 0
					for i := 0; i < s.n; i++ {
						next++
						if pool.Run(next) {
							a++
						}
					}
					held += a
					th.Add(E{"k": "fill", "n": s.n, "a": a})
				case "release":
					e.Sleep(ms)
					th.Add(E{"k": "release", "b": held})
					held = 0
					gate.Open()
					e.Sleep(ms)
					gate = e.Gate()
				case "sleep":
					e.Sleep(int64(s.n) * ms)
				case "read":
					th.Add(E{"k": "read", "n": pool.Workers()})
				case "stop":
					th.Add(E{"k": "stop"})
					pool.Stop()
					e.Sleep(ms)
				case "count":
					e.Sleep(ms)
					twice := 0
					for v, n := range runs {
						if n != 1 || v < 1 || v > next {
							twice++
						}
					}
					th.Add(E{"k": "count", "done": done, "busy": busy, "twice": twice, "peak": peak})
				}
			}
		},
	}
}

func gen(r *rand.Rand, tier, aspect string) (out []dlib.Scenario) {
	n := 24
	if tier == "thorough" {
		n = 160
	}
	fill := func(n int) step { return step{"fill", n} }
	sleep := func(n int) step { return step{"sleep", n} }
	release, read, stop, count := step{"release", 0}, step{"read", 0}, step{"stop", 0}, step{"count", 0}
	for i, m := range []int{20, 33, 50, 65, 100, 129, 200, 257} {
		if i%2 == 0 {
			out = append(out, scenario(fmt.Sprint("full", m), m, 0, 30, 10, []step{fill(m + 3), read, count, release, read, count, sleep(26), read, sleep(30), read, fill(5), read, release, sleep(60), read, stop, read, fill(2)}))
		} else {
			out = append(out, scenario(fmt.Sprint("pre", m), m, m, 30, 10, []step{read, sleep(20), read, fill(m / 2), read, release, read, sleep(31), read, fill(m), read, count, stop, read, release, read, count, fill(1)}))
		}
	}
	for i := 0; i < n; i++ {
		max := 9 + r.Intn(120)
		pre := []int{0, 0, max / 2, max, max + 7}[r.Intn(5)]
		idle := []int{20, 35, 50}[r.Intn(3)]
		gc := []int{5, 10, 25}[r.Intn(3)]
		var p []step
		held := false
		for k := 6 + r.Intn(20); k > 0; k-- {
			switch x := r.Intn(12); {
			case x < 3:
				p = append(p, fill(1+r.Intn(max)))
				held = true
			case x < 6 && held:
				p = append(p, release, read)
				held = false
			case x < 9:
				p = append(p, sleep([]int{1, 7, idle - 3, idle + 2*gc, idle + 2*gc + 1, 2 * idle}[r.Intn(6)]))
			case x < 10:
				p = append(p, count)
			default:
				p = append(p, read)
			}
		}
		p = append(p, read)
		if r.Intn(2) == 0 {
			p = append(p, stop, read, fill(3), read)
		} else {
			p = append(p, release, sleep(idle+2*gc+1), read)
		}
		p = append(p, release, read, count)
		out = append(out, scenario(fmt.Sprint("bulk", i), max, pre, idle, gc, p))
	}
	return
}

func main() { dlib.Main(gen) }
