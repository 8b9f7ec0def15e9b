package vs

import "math/rand"

// DFS enumerates schedules whose total deviation cost is at most Bound.  The default continues the running
// goroutine; switching away from it while it could continue costs one, as does advancing the clock early.
type DFS struct {
	Bound int
	stack []decision
	pos   int
	spent int
	Runs  int
	Full  bool // the bounded tree was explored completely
}

type decision struct {
	n, k  int
	costs [12]uint8
	base  int
}

// Begin prepares the next execution.
func (d *DFS) Begin() { d.pos = 0; d.spent = 0 }

// Next backtracks; false when the tree is exhausted.
func (d *DFS) Next() bool {
	d.Runs++
	for len(d.stack) > 0 {
		t := &d.stack[len(d.stack)-1]
		ok := false
		for t.k+1 < t.n {
			t.k++
			if t.base+int(t.costs[t.k]) <= d.Bound {
				ok = true
				break
			}
		}
		if ok {
			return true
		}
		d.stack = d.stack[:len(d.stack)-1]
	}
	d.Full = true
	return false
}

func (d *DFS) decide(n int, cost func(int) uint8) int {
	if n > 12 {
		n = 12
	}
	if d.pos < len(d.stack) {
		t := &d.stack[d.pos]
		d.pos++
		if t.k >= n { // nondeterministic program: stay in range
			return 0
		}
		d.spent = t.base + int(t.costs[t.k])
		return t.k
	}
	t := decision{n: n, base: d.spent}
	for i := 0; i < n; i++ {
		t.costs[i] = cost(i)
	}
	d.stack = append(d.stack, t)
	d.pos++
	d.spent += int(t.costs[0])
	return 0
}

// Pick implements Strategy.
func (d *DFS) Pick(e *Exec, opts []*G, free bool, timer bool) int {
	n := len(opts)
	if timer {
		n++
	}
	return d.decide(n, func(i int) uint8 {
		if i == 0 {
			return 0
		}
		if i == len(opts) {
			return 1
		}
		if free {
			return 0
		}
		return 1
	})
}

// Choose implements Strategy.
func (d *DFS) Choose(e *Exec, n int) int {
	return d.decide(n, func(i int) uint8 { return 0 })
}

// Random switches with probability P at each point.
type Random struct {
	R      *rand.Rand
	P      float64
	TimerP float64
}

// Pick implements Strategy.
func (r *Random) Pick(e *Exec, opts []*G, free bool, timer bool) int {
	if timer && r.R.Float64() < r.TimerP {
		return len(opts)
	}
	if !free && r.R.Float64() >= r.P {
		return 0
	}
	return r.R.Intn(len(opts))
}

// Choose implements Strategy.
func (r *Random) Choose(e *Exec, n int) int { return r.R.Intn(n) }

// PCT runs the goroutine of highest random priority and lowers priorities at D random steps.
type PCT struct {
	R      *rand.Rand
	D      int
	Len    int
	TimerP float64
	change map[int]bool
	low    int
	step   int
	init   bool
}

// Pick implements Strategy.
func (p *PCT) Pick(e *Exec, opts []*G, free bool, timer bool) int {
	if !p.init {
		p.init = true
		p.change = map[int]bool{}
		for i := 0; i < p.D; i++ {
			p.change[p.R.Intn(p.Len)] = true
		}
	}
	p.step++
	if timer && p.R.Float64() < p.TimerP {
		return len(opts)
	}
	best := -1
	for pass := 0; pass < 2; pass++ {
		best = -1
		for i, g := range opts {
			if g.Prio == 0 {
				g.Prio = 1000 + p.R.Intn(1000000)
			}
			if best < 0 || g.Prio > opts[best].Prio {
				best = i
			}
		}
		if pass == 0 && p.change[p.step] {
			p.low--
			opts[best].Prio = p.low - 1
			continue
		}
		break
	}
	return best
}

// Choose implements Strategy.
func (p *PCT) Choose(e *Exec, n int) int { return p.R.Intn(n) }
