// Driver for timex/sleepx.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sync/atomic"
	"time"

	"verifharness/dlib"
	"verifharness/shim/vtime"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/timex/sleepx"
)

type E = dlib.E

// step: "for" n units, "until" n units from the start, "ever", "wake", "pause" n units, "open"/"wait" gate n
type step struct {
	op string
	n  int64
}

// ticks is n seconds in units, cut to what the specification can count.
func ticks(n, unit int64) int64 {
	x := new(big.Int).Mul(big.NewInt(n), big.NewInt(int64(time.Second)))
	x.Quo(x, big.NewInt(unit))
	if x.CmpAbs(big.NewInt(2000000000)) > 0 {
		return 2000000000 * int64(x.Sign())
	}
	return x.Int64()
}

func scenario(name string, unit int64, progs [][]step, gates int, janitor int64, b dlib.Scenario) dlib.Scenario {
	b.Name, b.Unit = name, unit
	b.Cfg = E{"slow": b.Opt.Slow, "free": false}
	b.NCfg = E{"slow": true, "free": true}
	b.Body = func(e *dlib.Env) {
		s := sleepx.New()
		start := vtime.Now()
		gs := make([]*dlib.Gate, gates+1)
		for i := range gs {
			gs[i] = e.Gate()
		}
		wake := func(th *dlib.Thread) bool {
			th.Call("wake", E{})
			ok := s.Wakeup()
			th.Ret("wake", E{"ok": ok})
			return ok
		}
		var done atomic.Int32
		do := func(th *dlib.Thread, st step) {
			switch st.op {
			case "for":
				th.Call("for", E{"d": ticks(st.n, unit)})
				ok := s.SleepFor(time.Duration(st.n))
				th.Ret("for", E{"ok": ok})
			case "until":
				at := start.Add(time.Duration(st.n * unit))
				th.Call("until", E{"d": st.n})
				ok := s.SleepUntil(at)
				th.Ret("until", E{"ok": ok})
			case "ever":
				th.Call("ever", E{"d": 0})
				ok := s.SleepForever()
				th.Ret("ever", E{"ok": ok})
			case "wake":
				wake(th)
			case "pause":
				e.Sleep(st.n * unit)
			case "open":
				gs[st.n].Open()
			case "wait":
				gs[st.n].Wait()
			}
		}
		var fs []func()
		for i, p := range progs {
			th, p := e.Thread(i+1), p
			fs = append(fs, func() {
				for _, st := range p {
					do(th, st)
				}
				done.Add(1)
			})
		}
		if janitor > 0 {
			th := e.Thread(len(progs) + 1)
			fs = append(fs, func() {
				for i := 0; i < 200 && int(done.Load()) < len(progs); i++ {
					if e.Ctl {
						e.Sleep(janitor * unit)
					} else {
						time.Sleep(200 * time.Microsecond)
					}
					if int(done.Load()) < len(progs) {
						wake(th)
					}
				}
			})
		}
		e.Par(fs...)
		th := e.Thread(len(progs) + 2)
		wake(th)
		do(th, step{"until", 0})
		wake(th)
		th.Add(E{"k": "fin"})
	}
	return b
}

func st(a ...any) (r []step) {
	for i := 0; i < len(a); i++ {
		s := step{op: a[i].(string)}
		if i+1 < len(a) {
			if n, ok := a[i+1].(int); ok {
				s.n = int64(n)
				i++
			}
		}
		r = append(r, s)
	}
	return
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	b := dlib.Scenario{Opt: vs.Options{FairAfter: 3000, MaxSteps: 40000, MaxTime: 9100000000000000000}, Bound: 2, MaxDFS: 3000 * mul, Rand: 400 * mul}
	nat := b
	if aspect != "time" {
		nat.Native, nat.Race = 60*mul, 60*mul
	}
	slow := b
	slow.Opt.Slow = true
	const (
		ms   = int64(time.Millisecond)
		sec  = int64(time.Second)
		hour = 3600 * sec
	)
	P := func(p ...[]step) [][]step { return p }
	var out []dlib.Scenario
	add := func(n string, unit int64, progs [][]step, gates int, jan int64, b dlib.Scenario) {
		out = append(out, scenario(n, unit, progs, gates, jan, b))
	}
	// durations
	add("for", ms, P(st("for", 0, "for", 1, "for", 3, "for", -1, "for", 2)), 0, 0, b)
	add("until", ms, P(st("until", 5, "until", 5, "until", 4, "until", 9, "until", -3, "until", 2000)), 0, 0, b)
	add("until-ns", 1, P(st("until", 5, "until", 6, "until", 1001, "until", 1001, "until", 1000000, "until", 1999999999)), 0, 0, b)
	add("for-long", sec, P(st("for", 60, "for", 3600, "for", 86400, "for", 31536000, "for", 1)), 0, 0, b)
	add("until-long", hour, P(st("until", 1, "until", 24, "until", 8760, "until", 876000, "until", 876001)), 0, 0, b)
	const max = 1<<63 - 1
	add("for-huge", hour, P(st("for", 9223372037, "pause", 1, "for", -9223372037, "for", -10000000000, "for", -max-1, "until", 700000),
		st("pause", 600000, "wake")), 0, 0, b)
	for i, n := range []int{10000000000, 1000000000000, 60000000000, max, max / 2, 1 << 55} {
		add(fmt.Sprintf("for-huge%d", i), hour, P(st("for", n), st("pause", 2400000, "wake")), 0, 0, b)
	}
	var pow, upow []step // powers of two and their neighbours
	at := int64(0)
	for k := 0; k < 30; k++ {
		pow = append(pow, step{"for", 1 << k})
		at += 1 << k
		upow = append(upow, step{"until", at})
	}
	add("for-pow", sec, P(pow), 0, 0, b)
	add("for-pow1", sec, P(st("for", 3, "for", 5, "for", 7, "for", 9, "for", 15, "for", 17, "for", 255, "for", 257, "for", 1023, "for", 1025, "for", 4095, "for", 32769, "for", 65535, "for", 65537, "for", 1<<20+1, "for", 1<<24+1, "for", 1<<30+1)), 0, 0, b)
	add("until-pow", sec, P(upow), 0, 0, b)
	add("until-pow-ns", 1, P(upow), 0, 0, b)
	add("until-pow-us", 1000, P(upow), 0, 0, b)
	add("for-far", hour, P(st("for", 596523*3600, "for", 596524*3600, "for", 1193046*3600)), 0, 0, b) // around 2^31 and 2^32 seconds
	add("for-far2", hour, P(st("for", 1193047*3600, "for", 36000)), 0, 0, b)
	add("for-far3", hour, P(st("for", 2500000*3600)), 0, 0, b)
	add("for-far4", hour, P(st("for", 2386093*3600, "for", 100000*3600)), 0, 0, b)
	add("until-far", hour, P(st("until", 600000, "until", 1200000, "until", 2500000)), 0, 0, b)
	add("ever-long", hour, P(st("ever"), st("pause", 2400000, "wake")), 0, 0, b)
	add("ever-day", ms, P(st("ever"), st("pause", 1000, "pause", 3599000, "pause", 82800000, "wake")), 0, 0, b)
	add("for-woken", ms, P(st("for", 10, "for", 1), st("pause", 500, "wake", "pause", 200, "wake")), 0, 0, b)
	add("until-woken", ms, P(st("until", 1000, "until", 1500, "until", 2500), st("pause", 400, "wake", "pause", 300, "wake")), 0, 0, b)
	// claim and wake-up
	add("two-sleep", ms, P(st("for", 1), st("for", 1), st("for", 2)), 0, 0, b)
	add("wake-race", ms, P(st("ever"), st("wake")), 0, 50, nat)
	add("wake-race2", ms, P(st("ever", "ever"), st("wake", "wake")), 0, 50, nat)
	add("wake-end", ms, P(st("for", 1, "for", 2), st("pause", 1000, "wake")), 0, 0, b)
	add("wake-end2", ms, P(st("until", 0, "ever"), st("wake"), st("wake")), 0, 50, nat)
	add("wake-stale", ms, P(st("until", 10, "until", 30), st("pause", 10, "wake", "wake")), 0, 0, b)
	add("two-wakers", ms, P(st("ever", "until", 900), st("wake"), st("pause", 1, "wake")), 0, 50, b)
	add("refused", ms, P(st("ever"), st("pause", 1, "for", 1, "until", 5, "ever", "wake", "pause", 1, "until", 7)), 0, 50, b)
	add("three", ms, P(st("ever"), st("ever"), st("wake", "wake")), 0, 50, nat)
	add("churn", ms, P(st("until", 0, "until", 0, "ever"), st("until", 0, "until", 0), st("wake", "wake")), 0, 50, nat)
	add("zero", ms, P(st("for", 0, "for", 0, "until", 0), st("wake", "wake"), st("for", 0)), 0, 0, nat)
	add("slow1", ms, P(st("for", 1, "for", 1), st("pause", 1000, "wake"), st("pause", 900, "for", 1)), 0, 5000, slow)
	add("slow2", ms, P(st("until", 100, "ever", "until", 500), st("pause", 100, "wake", "wake")), 0, 700, slow)
	for i := 0; i < 20*mul; i++ {
		progs := make([][]step, 1+r.Intn(3))
		for t := range progs {
			for k := 1 + r.Intn(4); k > 0; k-- {
				switch x := r.Intn(12); {
				case x < 2:
					progs[t] = append(progs[t], step{"for", int64(r.Intn(4)) - 1})
				case x < 4:
					progs[t] = append(progs[t], step{"until", int64(r.Intn(30)) * 100})
				case x < 6:
					progs[t] = append(progs[t], step{"ever", 0})
				case x < 9:
					progs[t] = append(progs[t], step{"wake", 0})
				default:
					progs[t] = append(progs[t], step{"pause", []int64{1, 100, 500, 1000}[r.Intn(4)]})
				}
			}
		}
		s := b
		s.Bound, s.MaxDFS = 1+r.Intn(2), 600*mul
		if r.Intn(4) == 0 {
			s.Opt.Slow = true
		}
		add(fmt.Sprintf("random%d", i), ms, progs, 0, []int64{33, 700, 5000}[r.Intn(3)], s)
	}
	return out
}

func main() { dlib.Main(gen) }
