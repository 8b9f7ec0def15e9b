// Driver of the linked and the ring queue (C18).
package queue

import (
	"fmt"
	"math/rand"

	lq "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	rq "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	"verifharness/seqlib"
)

type queue interface {
	Enqueue(int) bool
	Dequeue() (int, bool)
	Peek() (int, bool)
	IsEmpty() bool
}

type sys struct {
	q queue
	r *rq.Ring[int]
}

func (s *sys) Do(o seqlib.Op) any {
	switch o.S("op") {
	case "new":
		if c := o.I("cap"); c == 0 {
			s.q = lq.New[int]()
		} else {
			s.r = rq.New[int](c)
			s.q = s.r
		}
		return true
	case "Enqueue":
		return s.q.Enqueue(o.I("v"))
	case "Dequeue":
		return seqlib.Opt(s.q.Dequeue())
	case "EnqN":
		k := 0
		for i := 0; i < o.I("n"); i++ {
			if s.q.Enqueue(o.I("v") + i) {
				k++
			}
		}
		return k
	case "DeqN":
		return seqlib.Many(o.I("n"), s.q.Dequeue)
	case "Rot":
		for i := 0; i < o.I("n"); i++ {
			v, ok := s.q.Dequeue()
			if !ok {
				return i == 0
			}
			if !s.q.Enqueue(v) {
				return false
			}
		}
		return true
	case "Peek":
		return seqlib.Opt(s.q.Peek())
	case "IsEmpty":
		return s.q.IsEmpty()
	case "IsFull":
		return s.r.IsFull()
	case "Cap":
		return s.r.Cap()
	case "Head":
		return s.r.Head()
	}
	panic("op")
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	cap := 0
	if n%2 == 1 {
		cap = 1 + r.Intn([]int{3, 10, 70}[n/2%3])
	}
	left := 60 + r.Intn(260)
	bulk := n%10 < 2
	if bulk {
		left = 30
		if cap > 0 {
			cap = 1 + r.Intn(seqlib.Bulk(r))
		}
	}
	size, v, fill := 0, 0, true
	return fmt.Sprintf("cap %d", cap), func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new", "cap": cap}
		}
		switch o.S("op") {
		case "EnqN":
			size += res.(int)
		case "DeqN":
			size -= len(res.([]int))
		case "Enqueue":
			if res.(bool) {
				size++
			}
		case "Dequeue":
			if len(res.([]int)) > 0 {
				size--
			}
		}
		if left--; left < 0 {
			return nil
		}
		if r.Intn(25) == 0 {
			fill = !fill
		}
		if r.Intn(4) == 0 {
			l := []string{"Peek", "IsEmpty", "IsFull", "Cap", "Head"}
			k := l[r.Intn(len(l))]
			if cap == 0 && k != "Peek" && k != "IsEmpty" || k == "Head" && size == 0 {
				k = "Peek"
			}
			return seqlib.Op{"op": k}
		}
		if bulk && r.Intn(2) == 0 {
			m := 1 + r.Intn(seqlib.Bulk(r))
			v += m
			return []seqlib.Op{{"op": "EnqN", "n": m, "v": v - m + 1}, {"op": "DeqN", "n": m}, {"op": "Rot", "n": m * 5}}[r.Intn(3)]
		}
		if fill == (r.Intn(5) > 0) {
			v++
			return seqlib.Op{"op": "Enqueue", "v": v}
		}
		return seqlib.Op{"op": "Dequeue"}
	}
}

// huge grows and drains a queue far beyond usual sizes.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	cap := 0
	if n%2 == 1 {
		cap = seqlib.Huge(r, 1<<17)
		if n%4 == 1 {
			cap = 1<<16 + r.Intn(4000)
		}
	}
	v := 0
	enq := func(m int) seqlib.Op { v += m; return seqlib.Op{"op": "EnqN", "n": m, "v": v - m + 1} }
	ops := []seqlib.Op{{"op": "new", "cap": cap}, enq(1<<16 + r.Intn(5000)), {"op": "Peek"}}
	for i := 0; i < 3; i++ {
		ops = append(ops, seqlib.Op{"op": "DeqN", "n": seqlib.Huge(r, 1<<17)}, seqlib.Op{"op": "Rot", "n": seqlib.Huge(r, 1<<17)}, enq(seqlib.Huge(r, 1<<16)), seqlib.Op{"op": "IsEmpty"})
		if cap > 0 {
			ops = append(ops, seqlib.Op{"op": "IsFull"}, seqlib.Op{"op": "Cap"})
		}
	}
	return fmt.Sprintf("huge, cap %d", cap), seqlib.Script(append(ops, seqlib.Op{"op": "DeqN", "n": 1 << 19}, seqlib.Op{"op": "IsEmpty"}, enq(3), seqlib.Op{"op": "DeqN", "n": 4})...)
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"queue": gen, "huge": huge}
